package main

// The HTTP server can be started once per process (it uses the default mux), so
// HTTP scenarios run one after the other on the same nodes, which are emptied
// in between.

import (
	"net"
	"time"

	"trypo/core/api"
)

func startHTTP(rpcAddrs []Addr) {
	httpAddr = freeAddr()
	h, p, _ := net.SplitHostPort(httpAddr)
	go func() {
		err := api.Start(api.APIConfig{Addr: Addr{IP: h, Port: p}, RPCAddrs: rpcAddrs,
			ReadTimeout: 60 * time.Second, WriteTimeout: 60 * time.Second})
		fail("api.Start: %v", err)
	}()
	for i := 0; i < 500; i++ {
		c, err := net.Dial("tcp", httpAddr)
		if err == nil {
			c.Close()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	fail("http server did not start")
}

func httpDriver(o Opts) {
	// The nodes belong to the process: 3 or 4, the last one could be a ghost.
	w0 := newWorld(0, o.Seed)
	var cur *World = w0
	w0.addNodeF("n1", func(v []float64) *CM { return cur.newCM(v) })
	w0.addNodeF("n2", func(v []float64) *CM { return cur.newCM(v) })
	w0.addNodeF("n3", func(v []float64) *CM { return cur.newCM(v) })
	if o.Seed%2 == 0 {
		w0.addGhost("x1")
	}
	startHTTP(pubs(w0.nodes))
	o.Workers = 1
	scenarios(o, func(id int) []Step {
		g := &gen{World: newWorld(id, o.Seed)}
		g.nodes = w0.nodes
		g.setup(o.Profile)
		cur = g.World
		for _, n := range g.nodes {
			if !n.ghost {
				n.srv.Table.Reset()
			}
		}
		g.body(o)
		g.healAll()
		return []Step{g.trace()}
	})
}
