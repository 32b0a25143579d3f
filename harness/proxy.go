package main

// TCP proxy in front of each node. Other nodes and clients only know the
// address of the proxy, so that a node can be made unreachable, can fail
// requests of one method, or can have requests suspended.

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var givenAddrs atomic.Int64

// freeAddr returns an address that nothing listens on and that was not given
// out before. The IP is one of this process only.
func freeAddr() string {
	p := os.Getpid()
	for i := 0; i < 1000; i++ {
		k := int(givenAddrs.Add(1))
		a := fmt.Sprintf("127.%d.%d.%d:%d", 10+(p>>14)&0x3f+(k/50000%3)*64, (p>>7)&0x7f+1, p&0x7f+1, 10000+k%50000)
		if ln, err := net.Listen("tcp", a); err == nil {
			ln.Close()
			return a
		}
	}
	fail("no free port")
	return ""
}

type Proxy struct {
	sync.Mutex
	addr, target string
	ln           net.Listener
	conns        map[net.Conn]bool
	// dropMethod: connections whose first request is for this method are
	// closed without forwarding anything (the request is not executed). "*"
	// drops every request. dropAfter lets that many of them through first.
	dropMethod string
	dropAfter  int
	// gate is called before forwarding the first request of a connection.
	gate func(method string)
	// count of forwarded requests by method.
	seen atomic.Int64
}

func newProxy(target string) *Proxy {
	p := &Proxy{addr: freeAddr(), target: target, conns: map[net.Conn]bool{}}
	p.up()
	return p
}

func (p *Proxy) up() {
	p.Lock()
	defer p.Unlock()
	if p.ln != nil {
		return
	}
	var err error
	for i := 0; i < 50; i++ {
		if p.ln, err = net.Listen("tcp", p.addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		fail("proxy listen: %v", err)
	}
	ln := p.ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
}

func (p *Proxy) down() {
	p.Lock()
	defer p.Unlock()
	if p.ln != nil {
		p.ln.Close()
		p.ln = nil
	}
	for c := range p.conns {
		c.Close()
	}
	p.conns = map[net.Conn]bool{}
}

func (p *Proxy) setDrop(method string, after int) {
	p.Lock()
	defer p.Unlock()
	p.dropMethod, p.dropAfter = method, after
}

func (p *Proxy) setGate(f func(string)) {
	p.Lock()
	defer p.Unlock()
	p.gate = f
}

var rpcMethodMark = []byte("KMeansServer.")

func methodOf(b []byte) string {
	i := bytes.Index(b, rpcMethodMark)
	if i < 0 {
		return ""
	}
	b = b[i+len(rpcMethodMark):]
	j := 0
	for j < len(b) && (b[j] >= 'A' && b[j] <= 'Z' || b[j] >= 'a' && b[j] <= 'z') {
		j++
	}
	return string(b[:j])
}

func (p *Proxy) serve(c net.Conn) {
	p.Lock()
	p.conns[c] = true
	p.Unlock()
	defer func() {
		c.Close()
		p.Lock()
		delete(p.conns, c)
		p.Unlock()
	}()

	// Sniff the method of the first request. The header of a request names it
	// and is sent in one piece with the start of the body.
	var first []byte
	buf := make([]byte, 65536)
	method := ""
	for method == "" && len(first) < 4096 {
		n, err := c.Read(buf)
		if n > 0 {
			first = append(first, buf[:n]...)
			method = methodOf(first)
		}
		if err != nil {
			break
		}
	}
	if len(first) == 0 {
		return
	}
	p.Lock()
	drop := false
	if p.dropMethod != "" && (p.dropMethod == "*" || p.dropMethod == method) {
		if p.dropAfter > 0 && method != "" {
			p.dropAfter--
		} else {
			drop = true
		}
	}
	gate := p.gate
	p.Unlock()
	if drop {
		return
	}
	if gate != nil {
		gate(method)
	}
	s, err := net.Dial("tcp", p.target)
	if err != nil {
		return
	}
	defer s.Close()
	p.seen.Add(1)
	if _, err := s.Write(first); err != nil {
		return
	}
	done := make(chan bool, 2)
	go func() {
		io.Copy(s, c)
		if t, ok := s.(*net.TCPConn); ok {
			t.CloseWrite()
		}
		done <- true
	}()
	go func() {
		io.Copy(c, s)
		c.Close()
		done <- true
	}()
	<-done
	<-done
}

func init() {
	// Many short connections.
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) == nil {
		l.Cur = l.Max
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
	}
}
