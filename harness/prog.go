package main

// Requests that wait: a request is suspended inside of a node, in a namespace
// (its search function, or the function that creates stores, does not return),
// or between two nodes (a proxy holds back the request that one node sends to
// another one). Meanwhile other requests are made, and it is recorded which of
// them completed before anything was released, and which did after that.

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/kmeans/centroidmanager"
)

func init() { drivers["prog"] = progDriver }

const patience = 20 * time.Second

var progStop atomic.Bool

// parker holds goroutines back that pass with a known number, once each.
type parker struct {
	mu     sync.Mutex
	points map[float64]*park
}

type park struct{ arrived, release chan bool }

func (p *parker) add(m float64) *park {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := &park{make(chan bool), make(chan bool)}
	p.points[m] = x
	return x
}

func (p *parker) pass(v []float64) {
	if len(v) == 0 {
		return
	}
	p.mu.Lock()
	x := p.points[v[0]]
	delete(p.points, v[0])
	p.mu.Unlock()
	if x != nil {
		close(x.arrived)
		<-x.release
	}
}

type progReq struct {
	s    Step
	f    func()
	done chan bool
	park *park
}

func (q *progReq) start() {
	q.done = make(chan bool)
	go func() { q.f(); close(q.done) }()
}

func (q *progReq) completed(d time.Duration) bool {
	select {
	case <-q.done:
		return true
	default:
	}
	select {
	case <-q.done:
		return true
	case <-time.After(d):
		return false
	}
}

type prog struct {
	*World
	r   *rand.Rand
	pk  *parker
	mag float64
	nss []string
	hit int
}

func (g *prog) v() []float64 {
	return []float64{float64(g.r.Intn(9)-4) + 0.5, float64(g.r.Intn(9) - 4)}
}
func (g *prog) dp() DataPoint {
	return DataPoint{Vec: g.v(), Payload: []byte(fmt.Sprint(g.r.Int63()))}
}

func progStep(op string, n *Node, ns string) Step {
	return Step{"op": op, "node": n.name, "ns": ns, "peers": []string{}, "where": "", "before": false, "after": false}
}

func (g *prog) names(ns []*Node) []string {
	r := []string{}
	for _, n := range ns {
		r = append(r, n.name)
	}
	return r
}

func (g *prog) some() []*Node {
	r := []*Node{}
	for _, n := range g.nodes {
		if g.r.Intn(3) > 0 {
			r = append(r, n)
		}
	}
	if len(r) == 0 {
		r = append(r, g.nodes[g.r.Intn(len(g.nodes))])
	}
	g.r.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// local draws a request to be suspended in a namespace of a node.
func (g *prog) local(n *Node, ns string) *progReq {
	g.mag++
	m := g.mag
	vec := []float64{m, 1}
	q := &progReq{s: progStep("", n, ns), park: g.pk.add(m)}
	q.s["where"] = "store"
	k := g.r.Intn(5)
	q.s["op"] = []string{"knn", "knnd", "nearc", "nearv", "add"}[k]
	q.f = func() {
		c := n.cli(ns, nil)
		switch k {
		case 0:
			c.KNNLookup(vec, 3, false)
		case 1:
			c.KNNLookup(vec, 3, true)
		case 2:
			c.NearestCentroids(vec, 2, false)
		case 3:
			c.NearestCentroidVec(vec)
		default:
			d := DataPoint{Vec: vec}
			c.AddDataPoint(d)
		}
	}
	return q
}

// creation draws an insert that is suspended while it creates the namespace.
func (g *prog) creation(n *Node) *progReq {
	g.mag++
	m := g.mag
	q := &progReq{s: progStep("add", n, fmt.Sprintf("new%v", m)), park: g.pk.add(m)}
	q.s["where"] = "store"
	ns := fmt.Sprint(q.s["ns"])
	q.f = func() { n.cli(ns, nil).AddDataPoint(DataPoint{Vec: []float64{m, 1}}) }
	return q
}

// remote draws a request that moves points, suspended between two nodes.
func (g *prog) remote(n *Node, ns string) *progReq {
	q := g.moving(n, ns)
	q.s["where"] = "net"
	peers := q.s["peers"].([]string)
	at := g.node(peers[g.r.Intn(len(peers))])
	methods := map[string][]string{"distF": {"Vec", "AddDataPoint", "AddDataPoint"},
		"distA": {"NearestCentroidVec", "AddDataPoint", "AddDataPoint"},
		"steal": {"Vec", "LenDP", "NearestCentroids", "NearestCentroids"}}[q.s["op"].(string)]
	method := methods[g.r.Intn(len(methods))]
	x := &park{make(chan bool), make(chan bool)}
	var once sync.Once
	nth := g.r.Intn(2)
	var mu sync.Mutex
	at.proxy.setGate(func(m string) {
		mu.Lock()
		go1 := m == method && nth <= 0
		if m == method {
			nth--
		}
		mu.Unlock()
		if go1 {
			once.Do(func() {
				close(x.arrived)
				<-x.release
			})
		}
	})
	q.park = x
	q.s["at"], q.s["method"] = at.name, method
	return q
}

// moving draws a request that moves points between nodes.
func (g *prog) moving(n *Node, ns string) *progReq {
	q := &progReq{}
	amt := []int{1, 2, 5, 1000, 1 << 30}[g.r.Intn(5)]
	if g.r.Intn(3) == 0 {
		from := g.nodes[g.r.Intn(len(g.nodes))]
		q.s = progStep("steal", n, ns)
		q.s["peers"] = []string{from.name}
		q.f = func() { n.cli(ns, nil).StealCentroids(from.pubStr(), amt) }
		return q
	}
	cands := g.some()
	addrs := []string{}
	for _, c := range cands {
		addrs = append(addrs, c.pubStr())
	}
	if g.r.Intn(3) == 0 {
		// The own address, as the node knows it itself.
		addrs = append(addrs, n.addr)
		cands = append(cands, n)
	}
	if amt > 1000 {
		amt = 1000
	}
	if g.r.Intn(2) == 0 {
		q.s = progStep("distF", n, ns)
		q.f = func() { n.cli(ns, nil).DistributeDataPointsFast(addrs, amt) }
	} else {
		q.s = progStep("distA", n, ns)
		q.f = func() { n.cli(ns, nil).DistributeDataPointsAccurate(addrs, amt) }
	}
	q.s["peers"] = g.names(cands)
	return q
}

// probe draws any request.
func (g *prog) probe(n *Node, ns string) *progReq {
	k := g.r.Intn(20)
	q := &progReq{}
	vec, d, amt := g.v(), g.dp(), g.r.Intn(4)
	loc := func(op string, f func()) *progReq { q.s, q.f = progStep(op, n, ns), f; return q }
	cli := n.cli(ns, nil)
	all := func(op string, f func()) *progReq {
		q.s, q.f = progStep(op, n, ns), f
		q.s["peers"] = g.names(g.nodes)
		return q
	}
	kn, _ := searchFuncs("cos")
	switch k {
	case 0, 1:
		return loc("add", func() { cli.AddDataPoint(d) })
	case 2, 3:
		return loc("knn", func() { cli.KNNLookup(vec, amt, g.hit%2 == 0) })
	case 4:
		return loc("drainU", func() { cli.DrainUnordered(amt) })
	case 5:
		return loc("drainO", func() { cli.DrainOrdered(amt) })
	case 6:
		return loc("len", func() { cli.LenDP() })
	case 7:
		return loc("expire", func() { cli.Expire() })
	case 8:
		return loc("memtrim", func() { cli.MemTrim() })
	case 9:
		return loc("movevec", func() { cli.MoveVector() })
	case 10:
		return loc("split", func() { cli.SplitCentroids(1, 100) })
	case 11:
		return loc("merge", func() { cli.MergeCentroids(-1, 2) })
	case 12:
		return loc("nearc", func() { cli.NearestCentroids(vec, 1, false) })
	case 13:
		return loc("vec", func() { cli.Vec() })
	case 14:
		return loc("distint", func() { cli.DistributeDataPointsInternal(amt) })
	case 15:
		return loc("nss", func() { cli.Namespaces() })
	case 16:
		return loc("meta", func() { cli.Meta() })
	case 17:
		return all("put", func() {
			dps.PutDataPointFast(dps.PutDataPointArgs{AddrOptions: pubs(g.nodes), Namespace: ns, DataPoint: d, KNNSearchFunc: kn})
		})
	case 18:
		return all("query", func() {
			dps.GetDataPointsAccurate(dps.GetDataPointsArgs{AddrOptions: pubs(g.nodes), Namespace: ns, QueryVec: vec, N: amt, KNNSearchFunc: kn})
		})
	default:
		if g.r.Intn(2) == 0 {
			return all("rank", func() {
				nodes.BestFitNodesAccurate(nodes.BestFitNodesArgs{AddrOpts: pubs(g.nodes), Namespace: ns, Vec: vec, KNNSearchFunc: kn})
			})
		}
		return g.moving(n, ns)
	}
}

// free: can the request complete, given what is busy? (A hint for how long to
// wait; it is the specification that decides.)
func (g *prog) free(s Step, busy map[string]bool) bool {
	if s["op"] == "nss" {
		return true
	}
	ns := s["ns"].(string)
	if s["op"] == "meta" {
		for b := range busy {
			if len(b) > len(s["node"].(string)) && b[:len(s["node"].(string))+1] == s["node"].(string)+"/" {
				return false
			}
		}
		return true
	}
	if busy[s["node"].(string)+"/"+ns] {
		return false
	}
	for _, p := range s["peers"].([]string) {
		if busy[p+"/"+ns] {
			return false
		}
	}
	return true
}

func progDriver(o Opts) {
	scenarios(o, func(id int) []Step {
		g := &prog{World: newWorld(id, o.Seed), pk: &parker{points: map[float64]*park{}}, mag: 1 << 20, nss: []string{"x", "y"}}
		g.r = g.rnd
		g.thr = []int{0, 2, 4}[g.r.Intn(3)]
		kn, kf := searchFuncs("cos")
		factory := func(v []float64) *CM {
			g.pk.pass(v)
			cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
				InitVec: v, InitCap: 3, CentroidDPThreshold: g.thr,
				KNNSearchFunc: func(q []float64, p func() ([]float64, bool), k int) []int { g.pk.pass(q); return kn(q, p, k) },
				KFNSearchFunc: func(q []float64, p func() ([]float64, bool), k int) []int { g.pk.pass(q); return kf(q, p, k) }})
			return &cm
		}
		for i := 0; i < 2+g.r.Intn(2); i++ {
			g.addNodeF(fmt.Sprintf("n%d", i+1), factory)
		}
		defer g.close()
		refill := func() {
			for _, n := range g.nodes {
				for _, ns := range g.nss {
					for k := n.cli(ns, nil).LenDP(); k < 6; k++ {
						n.cli(ns, nil).AddDataPoint(g.dp())
					}
				}
			}
		}
		steps := []Step{}
		for k := 0; k < o.Steps; k++ {
			refill()
			s := g.round(o.Profile)
			steps = append(steps, s)
			if !s["over"].(bool) {
				progStop.Store(true)
			}
			// There is no point in waiting that long again and again.
			if progStop.Load() {
				break
			}
		}
		return []Step{{"id": id, "seed": o.Seed, "steps": steps}}
	})
}

func (g *prog) round(profile string) Step {
	held := []*progReq{}
	busy := map[string]bool{}
	pick := func() (*Node, string) { return g.nodes[g.r.Intn(len(g.nodes))], g.nss[g.r.Intn(2)] }
	end := time.Now().Add(patience)
	wait := func() time.Duration { return time.Until(end) }
	// Suspended in a namespace.
	locals, remotes := g.r.Intn(3), g.r.Intn(3)
	if profile == "cross" {
		locals, remotes = 0, 0
	} else if locals+remotes == 0 {
		locals = 1
	}
	for i := 0; i < locals; i++ {
		n, ns := pick()
		if busy[n.name+"/"+ns] {
			continue
		}
		q := g.local(n, ns)
		if g.r.Intn(5) == 0 {
			q = g.creation(n)
		}
		q.start()
		select {
		case <-q.park.arrived:
			busy[n.name+"/"+q.s["ns"].(string)] = true
			q.s["state"] = "parked"
		case <-q.done:
			q.s["state"] = "done"
		case <-time.After(wait()):
			q.s["state"] = "stuck"
		}
		held = append(held, q)
	}
	for i := 0; i < remotes; i++ {
		n, ns := pick()
		q := g.remote(n, ns)
		q.start()
		d := wait()
		if !g.free(q.s, busy) {
			d = 100 * time.Millisecond
		}
		select {
		case <-q.park.arrived:
			q.s["state"] = "parked"
		case <-q.done:
			q.s["state"] = "done"
		case <-time.After(d):
			q.s["state"] = "stuck"
		}
		for _, x := range g.nodes {
			x.proxy.setGate(nil)
		}
		held = append(held, q)
	}
	probes := []*progReq{}
	for i := 3 + g.r.Intn(6); i > 0; i-- {
		n, ns := pick()
		q := g.probe(n, ns)
		if profile == "cross" {
			q = g.moving(n, ns)
			if g.r.Intn(4) == 0 {
				q = g.probe(n, ns)
			}
		}
		probes = append(probes, q)
	}
	for _, q := range probes {
		q.start()
	}
	over := true
	for _, q := range probes {
		if g.free(q.s, busy) {
			over = q.completed(wait()) && over
		}
	}
	for _, q := range probes {
		q.s["before"] = q.completed(time.Millisecond)
	}
	for _, q := range held {
		if q.s["state"] == "done" {
			q.s["before"] = true
		}
	}
	// Release everything.
	for _, q := range held {
		close(q.park.release)
	}
	end = time.Now().Add(patience)
	strip := []Step{}
	for _, q := range append(append([]*progReq{}, held...), probes...) {
		q.s["after"] = q.completed(wait())
		over = over && q.s["after"].(bool)
		strip = append(strip, q.s)
	}
	hs, ps := []Step{}, []Step{}
	for i, q := range strip {
		if _, ok := q["state"]; !ok {
			q["state"] = "probe"
		}
		if i < len(held) {
			hs = append(hs, q)
		} else {
			ps = append(ps, q)
		}
	}
	return Step{"op": "round", "held": hs, "probes": ps, "over": over}
}
