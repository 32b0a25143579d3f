package main

// The event loop (core/eventloop), run against nodes that only record what
// they are asked to do. LogMeta is called in each loop (the interval of that
// task is 1), so that it separates the loops from each other.

import (
	"fmt"
	"math/rand"
	"net"
	netrpc "net/rpc"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	"trypo/pkg/kmeans/rpc"
)

func init() { drivers["loop"] = loopDriver }

// FakeNode answers the calls of the event loop.
type FakeNode struct{ n *fake }

type fake struct {
	w    *loopWorld
	name string
	addr string
	ln   net.Listener
	dps  map[string]int // namespace -> amount
	down bool
	// Namespaces which are listed, but turn out to not exist (as after a
	// restart of the node in the meantime).
	ghosts map[string]bool
}

type loopWorld struct {
	mu     sync.Mutex
	r      *rand.Rand
	nodes  []*fake
	local  *fake
	calls  []Step // of the current segment
	total  int    // task calls so far
	logged int    // LogTask calls so far
	moves  bool   // steals have an effect
	vary   bool   // namespaces of other nodes come and go during a loop
	eps    []any  // which nodes held what, since the segment began
	// onCall is called for each recorded call, before it is answered.
	onCall func(c Step)
}

func (w *loopWorld) record(n *fake, task, ns string, c Step) {
	b := Step{"task": task, "node": n.name, "ns": ns, "a": 0, "b": 0, "addrs": []string{}, "from": "", "rn": 0, "e": len(w.eps)}
	for k, v := range c {
		b[k] = v
	}
	w.calls = append(w.calls, b)
	w.total++
	if f := w.onCall; f != nil {
		f(b)
	}
}

func (w *loopWorld) nameOf(addr string) string {
	for _, n := range w.nodes {
		if n.addr == addr {
			return n.name
		}
	}
	return "?" + addr
}

func (f *FakeNode) lock() func() { f.n.w.mu.Lock(); return f.n.w.mu.Unlock }

func (f *FakeNode) Namespaces(_ int, r *[]string) error {
	defer f.lock()()
	*r = []string{}
	for ns := range f.n.dps {
		*r = append(*r, ns)
	}
	for ns := range f.n.ghosts {
		*r = append(*r, ns)
	}
	return nil
}

func (f *FakeNode) need(ns string) error {
	if _, ok := f.n.dps[ns]; !ok {
		return fmt.Errorf("namespace %v does not exist", ns)
	}
	return nil
}

func (f *FakeNode) LenDP(ns string, r *int) error {
	defer f.lock()()
	*r = f.n.dps[ns]
	return f.need(ns)
}

func (f *FakeNode) Meta(_ int, r *rpc.MetaResp) error {
	defer f.lock()()
	r.DPs, r.Centroids = map[string]int{}, map[string]int{}
	for ns, k := range f.n.dps {
		r.DPs[ns], r.Centroids[ns] = k, k/3+1
	}
	return nil
}

func (f *FakeNode) Expire(ns string, _ *int) error {
	defer f.lock()()
	f.n.w.record(f.n, "expire", ns, nil)
	return nil
}

func (f *FakeNode) MemTrim(ns string, _ *int) error {
	defer f.lock()()
	f.n.w.record(f.n, "memtrim", ns, nil)
	return nil
}

func (f *FakeNode) dist(task string, a rpc.DistribDPArgs) {
	addrs := []string{}
	for _, x := range a.AddrOptions {
		addrs = append(addrs, f.n.w.nameOf(x))
	}
	sort.Strings(addrs)
	w := f.n.w
	w.record(f.n, task, a.NameSpace, Step{"a": a.N, "addrs": addrs})
	if w.vary && f.n == w.local && w.r.Intn(2) == 0 {
		// The loop waits for the answer, so it is known when this happens.
		for _, n := range w.nodes {
			if ns := []string{"a", "b", "c"}[w.r.Intn(3)]; n != w.local && w.r.Intn(2) == 0 {
				if _, ok := n.dps[ns]; ok {
					delete(n.dps, ns)
				} else {
					n.dps[ns] = w.r.Intn(5)
				}
			}
		}
		_, h := w.state()
		w.eps = append(w.eps, h)
	}
}

func (f *FakeNode) DistributeDataPointsFast(a rpc.DistribDPArgs, _ *int) error {
	defer f.lock()()
	f.dist("distF", a)
	return nil
}

func (f *FakeNode) DistributeDataPointsAccurate(a rpc.DistribDPArgs, _ *int) error {
	defer f.lock()()
	f.dist("distA", a)
	return nil
}

func (f *FakeNode) DistributeDataPointsInternal(a rpc.DistribDPIArgs, _ *int) error {
	defer f.lock()()
	f.n.w.record(f.n, "distI", a.NameSpace, Step{"a": a.N})
	return nil
}

func (f *FakeNode) SplitCentroids(a rpc.SplitCentroidsArgs, _ *int) error {
	defer f.lock()()
	f.n.w.record(f.n, "split", a.NameSpace, Step{"a": a.DPRangeMin, "b": a.DPRangeMax})
	return nil
}

func (f *FakeNode) MergeCentroids(a rpc.MergeCentroidsArgs, _ *int) error {
	defer f.lock()()
	f.n.w.record(f.n, "merge", a.NameSpace, Step{"a": a.DPRangeMin, "b": a.DPRangeMax})
	return nil
}

// Anything else that changes nodes is not up to the event loop.
func (f *FakeNode) AddDataPoint(a rpc.AddDataPointArgs, _ *bool) error {
	defer f.lock()()
	f.n.w.record(f.n, "other", a.NameSpace, nil)
	return nil
}

func (f *FakeNode) DrainOrdered(a rpc.DrainArgs, _ *[]DataPoint) error {
	defer f.lock()()
	f.n.w.record(f.n, "other", a.NameSpace, nil)
	return nil
}

func (f *FakeNode) DrainUnordered(a rpc.DrainArgs, _ *[]DataPoint) error {
	defer f.lock()()
	f.n.w.record(f.n, "other", a.NameSpace, nil)
	return nil
}

func (f *FakeNode) StealCentroid(a rpc.StealCentroidArgs, r *rpc.StealCentroidsResp) error {
	defer f.lock()()
	w := f.n.w
	n := 0
	for _, d := range w.nodes {
		if d.addr == a.FromAddr && w.moves && !d.down {
			// Whole groups, so it could be more than what was asked for.
			switch n = a.TransferDPLimit + w.r.Intn(2+a.TransferDPLimit); w.r.Intn(8) {
			case 0:
				n = w.r.Intn(a.TransferDPLimit + 1) // The donor has less by now.
			case 1, 2:
				n = a.TransferDPLimit * (1 + w.r.Intn(30)) // Big groups.
			}
			if n > d.dps[a.NameSpace] {
				n = d.dps[a.NameSpace]
			}
			if d != f.n {
				d.dps[a.NameSpace] -= n
				f.n.dps[a.NameSpace] += n
			}
		}
	}
	r.TransferredN, r.OK = n, true
	w.record(f.n, "steal", a.NameSpace, Step{"a": a.TransferDPLimit, "from": w.nameOf(a.FromAddr), "rn": n})
	return nil
}

func (w *loopWorld) addFake(name string) *fake {
	f := &fake{w: w, name: name, dps: map[string]int{}}
	for i := 0; ; i++ {
		f.addr = freeAddr()
		var err error
		if f.ln, err = net.Listen("tcp", f.addr); err == nil {
			break
		} else if i > 20 {
			fail("fake node: %v", err)
		}
	}
	s := netrpc.NewServer()
	if err := s.RegisterName("KMeansServer", &FakeNode{f}); err != nil {
		fail("fake node: %v", err)
	}
	go func() {
		for {
			c, err := f.ln.Accept()
			if err != nil {
				return
			}
			go s.ServeConn(c)
		}
	}()
	w.nodes = append(w.nodes, f)
	return f
}

// loopLog is the logger that the event loop gets.
type loopLog struct {
	task func(string)
	meta func(eventloop.MetaData)
}

func (l *loopLog) LogTask(s string)             { l.task(s) }
func (l *loopLog) LogMeta(m eventloop.MetaData) { l.meta(m) }

func (w *loopWorld) state() (local []string, holders []Step) {
	local, holders = []string{}, []Step{}
	by := map[string][]Step{}
	for _, n := range w.nodes {
		if n.down {
			continue
		}
		for ns, k := range n.dps {
			if n == w.local {
				local = append(local, ns)
			}
			by[ns] = append(by[ns], Step{"node": n.name, "n": k})
		}
		for ns := range n.ghosts { // They count as empty.
			by[ns] = append(by[ns], Step{"node": n.name, "n": 0})
		}
	}
	sort.Strings(local)
	for ns, s := range by {
		sort.Slice(s, func(i, j int) bool { return fmt.Sprint(s[i]["node"]) < fmt.Sprint(s[j]["node"]) })
		holders = append(holders, Step{"ns": ns, "at": s})
	}
	sort.Slice(holders, func(i, j int) bool { return fmt.Sprint(holders[i]["ns"]) < fmt.Sprint(holders[j]["ns"]) })
	return
}

// Far apart: a load balancing round must move something (but the limit of the
// amount is a matter of the implementation).
func (w *loopWorld) unbalance() {
	for _, n := range w.nodes {
		n.dps["lb"] = 1000
		if n == w.local {
			n.dps["lb"] = 10
		}
	}
	for _, n := range w.nodes {
		if n != w.local && !n.down {
			n.dps["lb"] = 100000
			break
		}
	}
}

func (w *loopWorld) shuffleNss(lb bool) {
	for _, n := range w.nodes {
		n.dps = map[string]int{}
		for _, ns := range []string{"a", "b", "c"} {
			if w.r.Intn(2) == 0 {
				n.dps[ns] = w.r.Intn(5)
			}
		}
	}
	if lb {
		w.unbalance()
	}
}

var taskNames = []string{"expire", "memtrim", "distF", "distA", "distI", "split", "merge", "steal"}

func loopDriver(o Opts) {
	if o.Profile == "balance" {
		scenarios(o, func(id int) []Step { return balanceScenario(o, id) })
		return
	}
	scenarios(o, func(id int) []Step { return loopScenario(o, id) })
}

func loopSetup(o Opts, id int) *loopWorld {
	w := &loopWorld{r: rand.New(rand.NewSource(o.Seed*7919 + int64(id)))}
	for i := 0; i < 2+w.r.Intn(3); i++ {
		w.addFake(fmt.Sprintf("n%d", i+1))
	}
	w.local = w.nodes[w.r.Intn(len(w.nodes))]
	if w.r.Intn(3) == 0 {
		f := w.addFake("x1")
		f.down = true
		f.ln.Close()
	}
	return w
}

func (w *loopWorld) cfg() *eventloop.EventLoopConfig {
	c := &eventloop.EventLoopConfig{}
	conv := func(f *fake) Addr { h, p, _ := net.SplitHostPort(f.addr); return Addr{IP: h, Port: p} }
	c.LocalAddr = conv(w.local)
	for _, i := range w.r.Perm(len(w.nodes)) {
		c.RemoteAddrs = append(c.RemoteAddrs, conv(w.nodes[i]))
	}
	c.LogLocalOnly = w.r.Intn(2) == 0
	return c
}

func (w *loopWorld) close() {
	for _, f := range w.nodes {
		f.ln.Close()
	}
}

func loopScenario(o Opts, id int) []Step {
	w := loopSetup(o, id)
	defer w.close()
	r := w.r
	c := w.cfg()
	loops := o.Steps
	iv := map[string]int{}
	for _, t := range taskNames {
		iv[t] = []int{1, 1, 2, 3, 4, 5, 7, 10, 0, -3, 1000, 1001, 5000}[r.Intn(13)]
	}
	if o.Profile == "long" {
		// Intervals that are only seen after many loops.
		for _, t := range taskNames {
			iv[t] = []int{17, 100, 250, 500, 999, 1000, 1001, 1002, 333}[r.Intn(9)]
		}
	}
	c.TaskSkip = eventloop.EventLoopTaskSkipConfig{Expire: iv["expire"], MemTrim: iv["memtrim"],
		DistributeDataPointsFast: iv["distF"], DistributeDataPointsAccurate: iv["distA"],
		DistributeDataPointsInternal: iv["distI"], SplitCentroids: iv["split"], MergeCentroids: iv["merge"],
		LoadBalancing: iv["steal"], Meta: []int{1, 0, -5}[r.Intn(3)]}
	c.DistributeDataPointsFastN, c.DistributeDataPointsAccurateN, c.DistributeDataPointsInternalN = 1+r.Intn(900), 1+r.Intn(900), 1+r.Intn(900)
	c.SplitCentroidsMin, c.SplitCentroidsMax = r.Intn(100), 100+r.Intn(100)
	c.MergeCentroidsMin, c.MergeCentroidsMax = r.Intn(100)-50, 100+r.Intn(100)
	args := Step{}
	for _, t := range taskNames {
		args[t] = Step{"k": iv[t], "a": 0, "b": 0}
	}
	set := func(t string, a, b int) { args[t] = Step{"k": iv[t], "a": a, "b": b} }
	set("distF", c.DistributeDataPointsFastN, 0)
	set("distA", c.DistributeDataPointsAccurateN, 0)
	set("distI", c.DistributeDataPointsInternalN, 0)
	set("split", c.SplitCentroidsMin, c.SplitCentroidsMax)
	set("merge", c.MergeCentroidsMin, c.MergeCentroidsMax)

	// How it is stopped: in LogMeta; between two tasks, while the loop sleeps;
	// while a task is waiting for a reply.
	how := []string{"meta", "meta", "sleep", "call"}[r.Intn(4)]
	if o.Profile == "long" {
		how = "meta"
	}
	segs := []Step{}
	var stop func()
	var stopped atomic.Bool
	valid := true
	stopSeg, current := -1, ""
	done := make(chan bool)
	var once sync.Once
	finish := func() { once.Do(func() { close(done) }) }

	w.shuffleNss(true)
	w.vary = r.Intn(2) == 0
	seg := func(i int, meta []Step) Step {
		local, holders := w.state()
		w.eps = []any{holders}
		return Step{"i": i, "local": local, "calls": []Step{}, "meta": meta}
	}
	segs = append(segs, seg(-1, []Step{}))
	close2 := func() { // ends a segment
		segs[len(segs)-1]["calls"] = append([]Step{}, w.calls...)
		segs[len(segs)-1]["holders"] = w.eps
		w.calls = nil
	}
	ready := make(chan bool)
	l := &loopLog{}
	l.task = func(s string) { w.mu.Lock(); w.logged++; w.mu.Unlock() }
	want, patience := 0, 10*time.Second
	stopPos := 0
	l.meta = func(m eventloop.MetaData) {
		<-ready
		if stopped.Load() {
			w.mu.Lock()
			w.calls = append(w.calls, Step{"task": "meta", "node": w.local.name, "ns": "", "a": 0, "b": 0, "addrs": []string{}, "from": "", "rn": 0})
			w.mu.Unlock()
			return
		}
		// Wait for the calls that the loop does not wait for.
		ok := false
		for end := time.Now().Add(patience); !ok && time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
			w.mu.Lock()
			ok = w.total >= w.logged && w.total >= want
			w.mu.Unlock()
		}
		if !ok { // Something is missing, so do not wait that long again.
			patience = 20 * time.Millisecond
		}
		w.mu.Lock()
		close2()
		i := len(segs) - 1
		if r.Intn(3) == 0 && o.Profile != "long" || i%100 == 99 {
			w.shuffleNss(true)
		}
		items := []Step{}
		for a, x := range m.Items {
			dp, ce := 0, 0
			for _, v := range x.LenDP {
				dp += v
			}
			for _, v := range x.LenCentroids {
				ce += v
			}
			items = append(items, Step{"node": w.nameOf(a.ToStr()), "nss": len(x.LenDP), "dp": dp, "ce": ce})
		}
		segs = append(segs, seg(i, items))
		// What has to be there before the next loop.
		for _, t := range taskNames {
			k := iv[t]
			if k < 1 {
				k = 1
			}
			if k <= 1000 && i%k == 0 && t != "steal" {
				want += len(segs[len(segs)-1]["local"].([]string))
			}
		}
		if i >= loops && stopSeg < 0 {
			switch how {
			case "meta":
				stopSeg = i
				stopped.Store(true)
				w.mu.Unlock()
				stop()
				finish()
				return
			case "sleep":
				// Within the time that the loop sleeps before the next task. If that
				// takes too long (a busy machine) it is not known what must follow.
				stopSeg = i
				c.TimeoutStep = 150 * time.Millisecond
				c.TimeoutLoop = 150 * time.Millisecond
				back := time.Now()
				time.AfterFunc(20*time.Millisecond, func() {
					stop()
					w.mu.Lock()
					stopped.Store(true)
					valid = time.Since(back) < 100*time.Millisecond
					w.mu.Unlock()
					time.Sleep(400 * time.Millisecond)
					finish()
				})
			case "call":
				stopSeg = i
				w.onCall = func(c Step) {
					if w.onCall == nil || stopped.Load() {
						return
					}
					current = c["task"].(string)
					// The loop waits for the answer of these ones.
					if strings.HasPrefix(current, "dist") && current != "distI" || current == "steal" {
						stop()
						stopped.Store(true)
						stopPos = len(w.calls)
						finish()
					}
				}
				time.AfterFunc(3*time.Second, func() { // no such task
					w.mu.Lock()
					ok := !stopped.Load()
					if ok {
						valid = false
					}
					w.mu.Unlock()
					if ok {
						stop()
						stopped.Store(true)
						finish()
					}
				})
			}
		}
		w.mu.Unlock()
	}
	c.L = l
	stop = eventloop.EventLoop(c)
	close(ready)
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		hung(id, "event loop")
	}
	time.Sleep(60 * time.Millisecond)
	w.mu.Lock()
	tail := append([]Step{}, w.calls...)
	if how != "call" {
		current = ""
	}
	s := Step{"op": "loop", "local": w.local.name, "localOnly": c.LogLocalOnly, "remotes": []string{}, "tasks": args,
		"segs": segs, "how": how, "tail": tail, "pos": stopPos, "current": current, "valid": valid, "n": len(segs)}
	for _, n := range w.nodes {
		s["remotes"] = append(s["remotes"].([]string), n.name)
	}
	down := []string{}
	for _, n := range w.nodes {
		if n.down {
			down = append(down, n.name)
		}
	}
	s["down"] = down
	// The segment in which it was stopped is not complete.
	s["segs"] = segs[:len(segs)-1]
	w.mu.Unlock()
	return []Step{{"id": id, "seed": o.Seed, "steps": []Step{s}}}
}

// balanceScenario: load balancing rounds with random amounts.
func balanceScenario(o Opts, id int) []Step {
	w := loopSetup(o, id)
	defer w.close()
	w.moves = true
	r := w.r
	c := w.cfg()
	never := 5000
	c.TaskSkip = eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never,
		DistributeDataPointsAccurate: never, DistributeDataPointsInternal: never, SplitCentroids: never,
		MergeCentroids: never, LoadBalancing: 1, Meta: 1}
	steps := []Step{}
	fin := make(chan bool)
	var stop func()
	ready := make(chan bool)
	nss := []string{"a", "b"}
	draw := func() {
		for _, n := range w.nodes {
			n.dps, n.ghosts = map[string]int{}, map[string]bool{}
		}
		for _, ns := range nss {
			max := []int{3, 10, 100, 1000, 20000}[r.Intn(5)]
			kind := r.Intn(6)
			for _, n := range w.nodes {
				if n.down || r.Intn(6) == 0 {
					continue
				}
				k := r.Intn(max + 1)
				switch kind {
				case 0: // equal
					k = max
				case 1: // one has it all
					k = 0
					if r.Intn(3) == 0 {
						k = max
					}
				case 5: // some have a lot, the others next to nothing
					if k = max*9/10 + r.Intn(max/10+1); n == w.local || r.Intn(3) == 0 {
						k = r.Intn(max/30 + 1)
					}
				case 2: // local has little
					if n == w.local {
						k = r.Intn(max/10 + 1)
					}
				}
				n.dps[ns] = k
			}
			if kind == 3 { // only one has the namespace
				for _, n := range w.nodes {
					delete(n.dps, ns)
				}
				n := w.nodes[r.Intn(len(w.nodes))]
				if !n.down {
					n.dps[ns] = max
				}
			}
			if kind == 4 { // about the mean
				for _, n := range w.nodes {
					if !n.down {
						n.dps[ns] = max + r.Intn(max/2+1) - max/4
					}
				}
			}
		}
	}
	l := &loopLog{}
	l.task = func(string) {}
	var before []Step
	l.meta = func(eventloop.MetaData) {
		<-ready
		w.mu.Lock()
		defer w.mu.Unlock()
		if before != nil {
			calls := append([]Step{}, w.calls...)
			steps = append(steps, Step{"op": "lb", "local": w.local.name, "amounts": before, "calls": calls,
				"nodes": len(w.nodes)})
		}
		w.calls = nil
		if len(steps) == o.Steps {
			before = nil
			stop()
			close(fin)
			return
		}
		draw()
		_, before = w.state()
	}
	c.L = l
	stop = eventloop.EventLoop(c)
	close(ready)
	select {
	case <-fin:
	case <-time.After(200 * time.Second):
		hung(id, "event loop")
	}
	return []Step{{"id": id, "seed": o.Seed, "steps": steps}}
}
