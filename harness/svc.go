package main

// The service (cmd/service) as it is configured: one node, one event loop and
// the HTTP server, in a process of their own. Only HTTP is used.

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"trypo/cfg"
)

func init() { drivers["svc"] = svcDriver }

// repoDir is where the code under test is (from the build information).
func repoDir() string {
	if bi, ok := debug.ReadBuildInfo(); ok {
		for _, d := range bi.Deps {
			if d.Path == "trypo" && d.Replace != nil {
				return d.Replace.Path
			}
		}
	}
	fail("no build information")
	return ""
}

func svcDriver(o Opts) {
	dir, err := os.MkdirTemp("", "svc")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "service")
	b := exec.Command("go", "build", "-o", bin, "./cmd/service")
	b.Dir = repoDir()
	b.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if out, err := b.CombinedOutput(); err != nil {
		fail("service does not build: %s", out)
	}
	httpAddr = cfg.LocalAddrAPI.ToStr()
	rpcAddr := cfg.LocalAddrRPC.ToStr()
	o.Workers = 1
	scenarios(o, func(id int) []Step {
		w := &sysWorld{concWorld: &concWorld{World: newWorld(id, o.Seed)}}
		t := Step{"id": w.id, "seed": o.Seed, "steps": []Step{}}
		for _, a := range []string{httpAddr, rpcAddr} {
			if ln, err := net.Listen("tcp", a); err != nil {
				return []Step{t} // Not available here.
			} else {
				ln.Close()
			}
		}
		p := exec.Command(bin)
		p.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var errOut strings.Builder
		p.Stderr = &errOut
		if err := p.Start(); err != nil {
			fail("%v", err)
		}
		exited := make(chan bool)
		go func() { p.Wait(); close(exited) }()
		stop := func() { p.Process.Kill(); <-exited }
		defer stop()
		crashed := func() {
			select {
			case <-exited:
				fmt.Fprintf(os.Stderr, "\n%s\n", errOut.String())
				os.Exit(2)
			default:
			}
		}
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", httpAddr)
			if err == nil {
				c.Close()
				break
			}
			crashed()
			if i > 1000 {
				hung(w.id, "start of the service")
			}
			time.Sleep(10 * time.Millisecond)
		}
		t["steps"] = []Step{w.svc(crashed)}
		return []Step{t}
	})
}

// Vectors of the same length: their cosine similarity is a matter of integers.
func circle() [][]float64 {
	r := [][]float64{}
	for _, p := range [][2]float64{{1, 18}, {6, 17}, {10, 15}} {
		for k := 0; k < 8; k++ {
			x, y := p[0], p[1]
			if k&1 != 0 {
				x = -x
			}
			if k&2 != 0 {
				y = -y
			}
			if k&4 != 0 {
				x, y = y, x
			}
			r = append(r, []float64{x, y})
		}
	}
	return r
}

func (w *sysWorld) svc(crashed func()) Step {
	r := w.rnd
	c := circle()
	w.bad = []Bad{}
	w.nodes = []*Node{{name: "n1"}}
	vec := func() []float64 { return c[r.Intn(len(c))] }
	ints := func(v []float64) []int { return []int{int(v[0]), int(v[1])} }
	ops := []Step{}
	run := func(p plan) {
		p.s["dead"] = w.deadAt(time.Now(), 3*time.Millisecond)
		p.s["inv"] = w.count.Add(1)
		p.f(p.s)
		p.s["ret"] = w.count.Add(1)
		ops = append(ops, p.s)
		crashed()
	}
	vecs := [][]int{}
	for k := 0; k < 150; k++ {
		if r.Intn(2) == 0 || k < 20 {
			v := vec()
			p := w.drawSys("hput", []string{"a", "b"}[r.Intn(2)], func() []float64 { return v })
			vecs = append(vecs, ints(v))
			run(p)
			continue
		}
		s := concOp("hquery", w.nodes[0], []string{"a", "b"}[r.Intn(2)])
		q, drain, n := vec(), r.Intn(4) == 0, 1+r.Intn(5)
		s["n"], s["drain"], s["q"] = n, drain, ints(q)
		acc := r.Intn(2) == 0
		run(plan{s, func(s Step) { w.hquery(s["ns"].(string), acc, q, n, drain, s) }})
	}
	for _, ns := range []string{"a", "b"} {
		s := concOp("hquery", w.nodes[0], ns)
		s["n"], s["drain"], s["q"] = 1000000, true, ints(c[0])
		run(plan{s, func(s Step) { w.hquery(ns, false, c[0], 1000000, true, s) }})
	}
	return Step{"op": "service", "before": []Step{}, "ops": ops, "after": []Step{}, "bad": w.bad, "calm": true, "vecs": vecs,
		"expired": w.deadAt(time.Now(), -3*time.Millisecond), "swept": []int{}}
}
