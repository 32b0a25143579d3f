package main

// Requests with any content (C19).

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	netrpc "net/rpc"
	"strings"
	"time"

	"trypo/pkg/kmeans/rpc"
)

var hugeInts = []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 62, 1 << 40, -(1 << 40), 1 << 32, 1<<31 - 1, 1 << 31,
	-1 << 31, 1 << 20, 1 << 48}

var wildFloats = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0,
	math.Copysign(0, -1), 1e308, 1}

// Nothing can be there, and no name has to be looked up to know it.
var oddAddrs = []Addr{{}, {IP: "127.0.0.1"}, {Port: "0"}, {IP: "127.0.0.1", Port: "99999"}, {IP: "127.0.0.1", Port: "-1"},
	{IP: ":::::", Port: ":"}, {IP: "127.0.0.1", Port: "no such port"}, {IP: "[::1", Port: "1"}, {IP: "127.0.0.1:1", Port: "1"}}

func (g *gen) wildVec() []float64 {
	r := g.rnd
	fl := wildFloats
	if g.p.kind == "http" { // JSON has no others.
		fl = fl[3:]
	}
	switch r.Intn(16) {
	case 0:
		return nil
	case 1:
		return []float64{}
	case 2:
		return make([]float64, 1+r.Intn(3))
	case 3:
		return make([]float64, 3000)
	case 4, 5:
		v := make([]float64, g.dims)
		for i := range v {
			v[i] = fl[r.Intn(len(fl))]
		}
		return v
	case 6:
		v := g.oddVec()
		if len(v) > 0 {
			v[r.Intn(len(v))] = fl[r.Intn(len(fl))]
		}
		return v
	case 7: // another length
		v := make([]float64, 1+r.Intn(4))
		for i := range v {
			v[i] = r.NormFloat64()
		}
		return v
	}
	v := make([]float64, g.dims)
	for i := range v {
		v[i] = r.NormFloat64()
	}
	return v
}

// opRaw sends something to a node that is not a valid request. What has to be
// true then is that the node answers (an error), or closes the connection, and
// answers the next request.
func (g *gen) opRaw(n *Node) bool {
	r := g.rnd
	s := Step{"op": "raw", "via": "rpc", "node": n.name, "ns": g.nss[0]}
	if n.down {
		return true
	}
	type wrong struct{ A map[string]string }
	junk := make([]byte, 1+r.Intn(3000))
	r.Read(junk)
	methods := []string{"Namespaces", "Vec", "AddDataPoint", "DrainUnordered", "DrainOrdered", "Expire", "LenDP", "MemTrim", "MoveVector",
		"DistributeDataPointsFast", "DistributeDataPointsAccurate", "DistributeDataPointsInternal", "KNNLookup", "NearestCentroids",
		"NearestCentroidVec", "SplitCentroids", "MergeCentroids", "StealCentroid", "Meta"}
	kind := r.Intn(6)
	m := methods[r.Intn(len(methods))]
	ns := g.nss[r.Intn(len(g.nss))]
	q := g.wildVec()
	k := hugeInts[r.Intn(len(hugeInts))]
	return g.do(s, func(s Step) {
		s["mode"] = fmt.Sprint(kind, " ", m)
		conn, err := net.DialTimeout("tcp", n.addr, 5*time.Second)
		if err != nil {
			s["err"] = "net"
			return
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(30 * time.Second))
		switch kind {
		case 0: // bytes
			conn.Write(junk)
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
		case 1: // a header without a body
			var b bytes.Buffer
			gob.NewEncoder(&b).Encode(netrpc.Request{ServiceMethod: "KMeansServer." + m, Seq: 1})
			conn.Write(b.Bytes())
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
		case 2: // a part of a request
			var b bytes.Buffer
			e := gob.NewEncoder(&b)
			e.Encode(netrpc.Request{ServiceMethod: "KMeansServer.KNNLookup", Seq: 1})
			e.Encode(rpc.KNNLookupArgs{NameSpace: ns, Vec: make([]float64, 50), K: 5, Drain: true})
			conn.Write(b.Bytes()[:b.Len()-10])
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
		case 3: // arguments of another type
			c := netrpc.NewClient(conn)
			var x, y any = wrong{map[string]string{"a": "b"}}, new(int)
			if c.Call("KMeansServer."+m, x, y) == nil {
				s["err"] = "accepted"
			}
		case 4: // no such method
			c := netrpc.NewClient(conn)
			var y int
			if c.Call("KMeansServer."+strings.ToLower(m), 0, &y) == nil {
				s["err"] = "accepted"
			}
		case 5: // a look at nothing
			c := netrpc.NewClient(conn)
			var y []*rpc.Centroid
			e := c.Call("KMeansServer.NearestCentroids", rpc.NearestCentroidArgs{NameSpace: ns, Vec: q, N: k, Drain: false}, &y)
			if _, app := e.(netrpc.ServerError); e != nil && !app {
				s["err"] = "net"
			}
		}
		// It still answers.
		var e error
		n.cliDirect("", &e).Namespaces()
		s["ok"] = e == nil
	})
}

func (n *Node) cliDirect(ns string, err *error) kcli { return rpc.KMeansClient(n.addr, ns, err) }

// opHOdd: odd requests to the HTTP server which ask for nothing.
func (g *gen) opHOdd() bool {
	r := g.rnd
	s := Step{"op": "hodd", "via": "http", "ns": g.nss[0]}
	paths := []string{"/", "/api", "/api/dp", "/api/dp/put/", "/api/dp/query/x", "/api/dp/put", "/api/dp/query", "/api/dp/query?n=1"}
	method := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "ODD"}[r.Intn(7)]
	bodies := []string{"", "{", "null", `{"namespace":"zz","n":0}`, `{"namespace":"zz","queryVec":null,"n":-5}`, strings.Repeat("[", 20000),
		`{"namespace":"zz","dp":{"vec":` + strings.Repeat("[", 5000), strings.Repeat("x", 1<<20), `{"dp":{"payload":"` + strings.Repeat("A", 1<<16)}
	path, body := paths[r.Intn(len(paths))], bodies[r.Intn(len(bodies))]
	if strings.HasPrefix(path, "/api/dp/put") && strings.HasPrefix(body, "null") {
		body = "{" // That would be a point without anything.
	}
	if strings.HasSuffix(path, "/put") && strings.HasSuffix(body, "}") {
		path = "/api/dp/query"
	}
	kind := r.Intn(4)
	return g.do(s, func(s Step) {
		s["mode"] = fmt.Sprint(kind, " ", method, " ", path)
		if kind == 0 { // not HTTP, or not all of it
			conn, err := net.DialTimeout("tcp", httpAddr, 5*time.Second)
			if err != nil {
				s["err"] = "net"
				return
			}
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			text := []string{"\x00\x01\x02", "GET\r\n\r\n", "POST /api/dp/put HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"dp\":",
				"POST /api/dp/put HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n"}[len(body)%4]
			conn.Write([]byte(text))
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
			conn.Close()
		} else {
			q, _ := http.NewRequest(method, "http://"+httpAddr+path, strings.NewReader(body))
			resp, err := httpClient.Do(q)
			if err != nil {
				s["err"] = errStr(err)
				return
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			s["status"] = resp.StatusCode
		}
		st, _, err := httpPost("/api/dp/query", []byte(`{"namespace":"no such one","queryVec":[1,2],"n":1}`))
		s["ok"] = err == nil && st == 200
	})
}
