package main

// A whole system: nodes with their event loops, the HTTP server, and clients
// of all kinds at once. Each round starts the loops with another
// configuration, and ends with the loops stopped, so that what the nodes have
// can be compared. A sweep (loops that only expire) comes before that.

import (
	"bytes"
	"encoding/json"
	"io"
	"log"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/dps"
	"trypo/core/eventloop"
)

func init() { drivers["sys"] = sysDriver }

// countLogger counts the loops (the interval of the meta data task is 1).
type countLogger struct{ loops atomic.Int64 }

func (l *countLogger) LogTask(string)               {}
func (l *countLogger) LogMeta(m eventloop.MetaData) { l.loops.Add(1) }

type sysWorld struct {
	*concWorld
	stops []func()
}

func (w *sysWorld) loopCfg(r *rand.Rand, n *Node) *eventloop.EventLoopConfig {
	iv := func() int { return []int{-1, 0, 1, 1, 2, 3, 5, 2000}[r.Intn(8)] }
	am := func() int { return []int{-1, 0, 1, 2, 5, 20, 1000}[r.Intn(7)] }
	addrs := pubs(w.nodes)
	r.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
	return &eventloop.EventLoopConfig{LocalAddr: n.pub(), RemoteAddrs: addrs,
		TimeoutLoop: time.Duration(1+r.Intn(12)) * time.Millisecond, TimeoutStep: time.Duration(r.Intn(3)) * time.Millisecond / 2,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: iv(), MemTrim: iv(), DistributeDataPointsFast: iv(),
			DistributeDataPointsAccurate: iv(), DistributeDataPointsInternal: iv(), SplitCentroids: iv(), MergeCentroids: iv(),
			LoadBalancing: iv(), Meta: 1},
		DistributeDataPointsFastN: am(), DistributeDataPointsAccurateN: am(), DistributeDataPointsInternalN: am(),
		SplitCentroidsMin: 1 + r.Intn(6), SplitCentroidsMax: 1000, MergeCentroidsMin: -1, MergeCentroidsMax: 1 + r.Intn(4),
		LogLocalOnly: r.Intn(2) == 0}
}

// start runs an event loop for each node.
func (w *sysWorld) start(r *rand.Rand, change func(c *eventloop.EventLoopConfig)) []*countLogger {
	ls := []*countLogger{}
	for _, n := range w.nodes {
		c := w.loopCfg(r, n)
		l := &countLogger{}
		c.L = l
		change(c)
		ls = append(ls, l)
		w.stops = append(w.stops, eventloop.EventLoop(c))
	}
	return ls
}

// stop ends the loops, and waits until nothing goes on any more.
func (w *sysWorld) stop() {
	for _, f := range w.stops {
		f()
	}
	w.stops = nil
	state := func() (n int64, idle bool) {
		idle = true
		for _, x := range w.nodes {
			x.proxy.Lock()
			idle = idle && len(x.proxy.conns) == 0
			x.proxy.Unlock()
			n += x.proxy.seen.Load()
		}
		return
	}
	last, since, t0 := int64(-1), time.Now(), time.Now()
	for {
		n, idle := state()
		if !idle || n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > 80*time.Millisecond {
			return
		}
		if time.Since(t0) > opTimeout {
			hung(w.id, "requests of the event loops")
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (w *sysWorld) deadAt(t time.Time, m time.Duration) []int {
	r := []int{}
	for i, d := range w.dps {
		if !d.deadline.IsZero() && d.deadline.Add(m).Before(t) {
			r = append(r, i+1)
		}
	}
	return r
}

func (w *sysWorld) hpoints(body []byte) ([]int, bool) {
	var r []hdp
	ok := json.Unmarshal(body, &r) == nil && len(bytes.TrimSpace(body)) > 0 && bytes.TrimSpace(body)[0] == '['
	ds := []DataPoint{}
	for _, d := range r {
		ds = append(ds, DataPoint{Vec: d.Vec, Payload: d.Payload, Expires: d.Expires, ExpireEnabled: d.ExpireEnabled})
	}
	return w.ids(ds), ok
}

func (w *sysWorld) hquery(ns string, acc bool, q []float64, n int, drain bool, s Step) {
	b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": acc, "queryVec": q, "n": n, "drain": drain})
	st, body, err := httpPost("/api/dp/query", b)
	out, ok := w.hpoints(body)
	s["out"], s["ok"], s["err"] = out, ok && st == 200, errStr(err)
}

// drawSys draws a request of a client of the system.
func (w *sysWorld) drawSys(kind, ns string, vec func() []float64) plan {
	r := w.rnd
	n := w.nodes[r.Intn(len(w.nodes))]
	acc := r.Intn(2) == 0
	kn, _ := searchFuncs("cos")
	switch kind {
	case "add", "put", "hput":
		cls := []string{"never", "never", "never", "soon", "past", "offpast", "far"}[r.Intn(7)]
		id := w.mkDP(vec(), cls, r.Intn(30))
		dp := w.dps[id-1].dp
		s := concOp(kind, n, ns)
		s["id"] = id
		s["mode"] = map[string]string{"soon": "any", "past": "no"}[cls]
		return plan{s, func(s Step) {
			var err error
			switch kind {
			case "add":
				s["ok"] = n.cli(ns, &err).AddDataPoint(dp)
				s["err"] = errStr(err)
			case "put":
				a := dps.PutDataPointArgs{AddrOptions: pubs(w.nodes), Namespace: ns, DataPoint: dp, KNNSearchFunc: kn}
				s["ok"] = dps.PutDataPointFast(a) || dps.PutDataPointRand(a)
			case "hput":
				b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": acc,
					"dp": hdp{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled}})
				st, _, err := httpPost("/api/dp/put", b)
				s["ok"], s["err"] = st == 200, errStr(err)
			}
		}}
	}
	s := concOp(kind, n, ns)
	q, drain, amt := vec(), r.Intn(5) == 0, []int{0, 1, 1, 2, 3, 5, 100}[r.Intn(7)]
	s["n"], s["drain"] = amt, drain
	return plan{s, func(s Step) {
		var err error
		switch kind {
		case "hquery":
			w.hquery(ns, acc, q, amt, drain, s)
		case "query":
			a := dps.GetDataPointsArgs{AddrOptions: pubs(w.nodes), Namespace: ns, QueryVec: q, N: amt, Drain: drain, KNNSearchFunc: kn}
			if acc {
				s["out"] = w.ids(dps.GetDataPointsAccurate(a))
			} else {
				s["out"] = w.ids(dps.GetDataPointsFast(a))
			}
		case "knn":
			s["out"] = w.ids(n.cli(ns, &err).KNNLookup(q, amt, drain))
			s["err"] = errStr(err)
		}
	}}
}

// chaos makes a node refuse all requests for a while, now and then.
func (w *sysWorld) chaos(r *rand.Rand, stop chan bool, done *sync.WaitGroup) {
	defer done.Done()
	n := w.nodes[r.Intn(len(w.nodes))]
	for on := false; ; on = !on {
		if on {
			n.proxy.setDrop("*", 0)
		} else {
			n.proxy.setDrop("", 0)
		}
		select {
		case <-stop:
			n.proxy.setDrop("", 0)
			return
		case <-time.After(time.Duration(5+r.Intn(60)) * time.Millisecond):
		}
	}
}

func sysDriver(o Opts) {
	log.SetOutput(io.Discard)
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	w0 := newWorld(0, o.Seed)
	var cur *World
	for _, name := range []string{"n1", "n2", "n3"} {
		w0.addNodeF(name, func(v []float64) *CM { return cur.newCM(v) })
	}
	startHTTP(pubs(w0.nodes))
	o.Workers = 1
	scenarios(o, func(id int) []Step {
		w := &sysWorld{concWorld: &concWorld{World: newWorld(id, o.Seed)}}
		w.nodes = w0.nodes
		cur = w.World
		nap := []int64{0, 0, 1000, 4000}[w.rnd.Intn(4)]
		lr := &lockedRand{r: rand.New(rand.NewSource(w.rnd.Int63()))}
		for _, n := range w.nodes {
			if n.proxy.setGate(nil); nap > 0 {
				n.proxy.setGate(func(string) { time.Sleep(time.Duration(lr.Int63n(nap)) * time.Microsecond) })
			}
		}
		w.thr = []int{0, 3, 6, 1000}[w.rnd.Intn(4)]
		for _, n := range w.nodes {
			n.srv.Table.Reset()
		}
		steps := []Step{}
		for round := 0; round < o.Steps; round++ {
			steps = append(steps, w.round(o))
		}
		steps = append(steps, w.final())
		return []Step{{"id": w.id, "seed": o.Seed, "steps": steps}}
	})
}

func (w *sysWorld) round(o Opts) Step {
	r := w.rnd
	vec := func() []float64 { return []float64{float64(r.Intn(9) - 4), float64(r.Intn(9)-4) + 0.5} }
	kinds := []string{"add", "put", "hput", "hput", "hquery", "query", "knn"}
	plans := make([][]plan, 2+r.Intn(4))
	for c := range plans {
		for k := 3 + r.Intn(10); k > 0; k-- {
			plans[c] = append(plans[c], w.drawSys(kinds[r.Intn(len(kinds))], []string{"a", "a", "b"}[r.Intn(3)], vec))
		}
	}
	w.bad = []Bad{}
	before := w.content()
	lr := rand.New(rand.NewSource(r.Int63()))
	noLogger := r.Intn(12) == 0
	w.start(lr, func(c *eventloop.EventLoopConfig) {
		if noLogger {
			c.L, c.TimeoutLoop = nil, 50*time.Millisecond
		}
	})
	stopChaos := make(chan bool)
	var cw sync.WaitGroup
	calm := o.Profile != "faults"
	if !calm {
		cw.Add(1)
		go w.chaos(rand.New(rand.NewSource(r.Int63())), stopChaos, &cw)
	}
	var wg sync.WaitGroup
	ops := make([][]Step, len(plans))
	done := time.AfterFunc(opTimeout, func() { hung(w.id, "requests to the system") })
	for c := range plans {
		wg.Add(1)
		pause := rand.New(rand.NewSource(r.Int63()))
		go func(c int) {
			defer wg.Done()
			for _, p := range plans[c] {
				time.Sleep(time.Duration(pause.Intn(25)) * time.Millisecond)
				p.s["dead"] = w.deadAt(time.Now(), 3*time.Millisecond)
				p.s["inv"] = w.count.Add(1)
				p.f(p.s)
				p.s["ret"] = w.count.Add(1)
				ops[c] = append(ops[c], p.s)
			}
		}(c)
	}
	wg.Wait()
	done.Stop()
	time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
	close(stopChaos)
	cw.Wait()
	w.stop()
	// The sweep.
	swept := w.deadAt(time.Now(), 3*time.Millisecond)
	ls := w.start(lr, func(c *eventloop.EventLoopConfig) {
		c.TimeoutLoop, c.TimeoutStep = 2*time.Millisecond, 0
		c.TaskSkip = eventloop.EventLoopTaskSkipConfig{Expire: 1, Meta: 1, MemTrim: 2000, DistributeDataPointsFast: 2000, DistributeDataPointsAccurate: 2000,
			DistributeDataPointsInternal: 2000, SplitCentroids: 2000, MergeCentroids: 2000, LoadBalancing: 2000}
	})
	t0 := time.Now()
	for _, l := range ls {
		for l.loops.Load() < 4 {
			if time.Since(t0) > opTimeout {
				hung(w.id, "event loop")
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	w.stop()
	after := w.content()
	all := []Step{}
	for _, x := range ops {
		all = append(all, x...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i]["inv"].(int64) < all[j]["inv"].(int64) })
	return Step{"op": "system", "before": before, "ops": all, "after": after, "bad": w.bad, "calm": calm,
		"expired": w.deadAt(time.Now(), -3*time.Millisecond), "swept": swept}
}

// final takes everything out, over HTTP, with nothing else going on.
func (w *sysWorld) final() Step {
	w.bad = []Bad{}
	before := w.content()
	ops := []Step{}
	for _, ns := range []string{"a", "b"} {
		s := concOp("hquery", w.nodes[0], ns)
		s["n"], s["drain"] = 1000000, true
		s["dead"] = w.deadAt(time.Now(), 3*time.Millisecond)
		s["inv"] = w.count.Add(1)
		w.hquery(ns, w.rnd.Intn(2) == 0, []float64{1, 0.5}, 1000000, true, s)
		s["ret"] = w.count.Add(1)
		ops = append(ops, s)
	}
	return Step{"op": "final", "before": before, "ops": ops, "after": w.content(), "bad": w.bad, "calm": true,
		"expired": w.deadAt(time.Now(), -3*time.Millisecond), "swept": []int{}}
}
