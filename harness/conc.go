package main

// Concurrent clients. Every operation gets a unique number when it is invoked
// and when it returned (one counter for all), so that the specification knows
// which operations did not overlap. Searches, and the creation of stores, take
// random time, which widens the windows between critical sections.

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/dps"
	"trypo/pkg/kmeans/centroidmanager"
)

func init() { drivers["conc"] = concDriver }

type concWorld struct {
	*World
	pause atomic.Int64 // microseconds that a search may take
	count atomic.Int64
	mu    sync.Mutex
	pay   int
}

func (w *concWorld) nap(r *lockedRand) {
	if p := w.pause.Load(); p > 0 {
		time.Sleep(time.Duration(r.Int63n(p)) * time.Microsecond)
	}
}

type lockedRand struct {
	sync.Mutex
	r *rand.Rand
}

func (l *lockedRand) Int63n(n int64) int64 {
	l.Lock()
	defer l.Unlock()
	return l.r.Int63n(n)
}

// snapshot: what each node has, per namespace.
func (w *concWorld) content() []Step {
	res := []Step{}
	snaps := w.snapAll()
	keys := []string{}
	for k := range snaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := snaps[k]
		ids := []int{}
		for _, g := range s.G {
			for _, id := range g.D {
				if id < 1 || !w.dps[id-1].dp.Expired() {
					ids = append(ids, id)
				}
			}
		}
		sort.Ints(ids)
		res = append(res, Step{"node": s.Node, "ns": s.Ns, "ids": ids, "g": len(s.G)})
	}
	return res
}

func concOp(op string, n *Node, ns string) Step {
	return Step{"op": op, "node": n.name, "ns": ns, "id": 0, "n": 0, "drain": false, "ok": false, "err": "none",
		"out": []int{}, "rn": 0, "names": []string{}, "cands": []string{}, "from": "", "valid": true, "mode": ""}
}

// plan is an operation that was drawn, to be executed by a client.
type plan struct {
	s Step
	f func(s Step)
}

func concDriver(o Opts) {
	scenarios(o, func(id int) []Step {
		w := &concWorld{World: newWorld(id, o.Seed)}
		r := w.rnd
		lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
		kn, kf := searchFuncs("cos")
		slowKn := func(q []float64, g func() ([]float64, bool), k int) []int {
			w.nap(lr)
			x := kn(q, g, k)
			w.nap(lr)
			return x
		}
		slowKf := func(q []float64, g func() ([]float64, bool), k int) []int { w.nap(lr); return kf(q, g, k) }
		w.thr = []int{0, 0, 2, 4, 7}[r.Intn(5)]
		factory := func(v []float64) *CM {
			w.nap(lr)
			cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
				InitVec: v, InitCap: 3, CentroidDPThreshold: w.thr, KNNSearchFunc: slowKn, KFNSearchFunc: slowKf})
			w.nap(lr)
			return &cm
		}
		multi := o.Profile == "net"
		nodes := 1
		if multi {
			nodes = 2 + r.Intn(2)
		}
		for i := 0; i < nodes; i++ {
			w.addNodeF(fmt.Sprintf("n%d", i+1), factory)
		}
		defer w.close()
		if multi {
			// Requests that belong together do not follow each other at once.
			for _, n := range w.nodes {
				n.proxy.setGate(func(string) { w.nap(lr) })
			}
		}
		w.pause.Store([]int64{0, 200, 1000, 2500}[r.Intn(4)])
		vec := func() []float64 {
			return []float64{float64(r.Intn(9) - 4), float64(r.Intn(9)-4) + 0.5}
		}
		steps := []Step{}
		for round := 0; round < o.Steps; round++ {
			nss := []string{"a", "a", "b"}
			if o.Profile == "create" {
				nss = []string{fmt.Sprintf("c%d", round)}
			}
			big := o.Profile == "big"
			clients := 2 + r.Intn(4)
			// Most rounds are about a few kinds of operations only.
			kinds := []string{"add", "add", "knn", "drainU", "drainO", "len", "knnd", "nearc", "maint", "nss", "meta", "vec", "bad", "nearcd"}
			if multi {
				kinds = []string{"add", "put", "knn", "knnd", "drainU", "dist", "dist", "steal", "steal", "query", "queryd", "maint"}
			}
			if o.Profile == "expiry" {
				// Points that are gone, but nobody has noticed yet.
				kinds = []string{"add", "knn", "knn", "knn", "knn", "knnd", "nearc", "nearcd", "maint"}
				if r.Intn(2) == 0 {
					// Many at once notice many of them.
					nss, kinds, clients = []string{"a"}, []string{"knn", "knn", "knn", "nearc", "maint"}, 12
					w.pause.Store(0)
					w.stale(nss, 60+r.Intn(60), 8, vec)
				} else {
					w.stale(nss, 2+r.Intn(12), 2, vec)
				}
			}
			if o.Profile == "report" {
				kinds = []string{"add", "add", "knnd", "nearc", "drainU", "len", "len", "nss", "meta", "meta", "meta"}
			} else if r.Intn(3) > 0 {
				k := 2 + r.Intn(3)
				sub := []string{"add"}
				for i := 0; i < k; i++ {
					sub = append(sub, kinds[r.Intn(len(kinds))])
				}
				kinds = sub
			}
			if big {
				// Replies take a while to be encoded.
				nss, w.pay = []string{"a"}, 12000
				kinds = [][]string{{"nearc", "knnd"}, {"nearc", "drainU", "add"}, {"nearc", "nearcd", "drainO", "add"},
					{"nearc", "knn", "drainO", "maint", "add"}}[r.Intn(4)]
				var err error
				for n := w.nodes[0].cli("a", &err).LenDP(); n < 40; n++ {
					if !w.nodes[0].cli("a", &err).AddDataPoint(w.dps[w.mkDP(vec(), "never", w.pay)-1].dp) {
						fail("setup: %v", err)
					}
				}
			}
			plans := make([][]plan, clients)
			maxOps := 12
			for c := range plans {
				for k := 1 + r.Intn(4); k > 0 && maxOps > 0 && (clients < 12 || len(plans[c]) == 0); k-- {
					maxOps--
					plans[c] = append(plans[c], w.draw(kinds[r.Intn(len(kinds))], nss[r.Intn(len(nss))], vec))
				}
			}
			w.bad = []Bad{}
			before := w.content()
			var wg sync.WaitGroup
			ops := make([][]Step, clients)
			start := make(chan bool)
			done := time.AfterFunc(opTimeout, func() { hung(w.id, "concurrent operations") })
			for c := range plans {
				wg.Add(1)
				go func(c int) {
					defer wg.Done()
					<-start
					for _, p := range plans[c] {
						p.s["c"] = c
						p.s["inv"] = w.count.Add(1)
						p.f(p.s)
						p.s["ret"] = w.count.Add(1)
						ops[c] = append(ops[c], p.s)
					}
				}(c)
			}
			close(start)
			wg.Wait()
			done.Stop()
			all := []Step{}
			for _, x := range ops {
				all = append(all, x...)
			}
			sort.Slice(all, func(i, j int) bool { return all[i]["inv"].(int64) < all[j]["inv"].(int64) })
			op := "hist"
			if multi {
				op = "nethist"
			}
			steps = append(steps, Step{"op": op, "before": before, "ops": all, "after": w.content(), "bad": w.bad})
		}
		return []Step{{"id": w.id, "seed": o.Seed, "steps": steps}}
	})
}

// stale adds points, of which all but one in live expire at once.
func (w *concWorld) stale(nss []string, k, live int, vec func() []float64) {
	pause := w.pause.Swap(0)
	defer w.pause.Store(pause)
	end := time.Now().Add(time.Duration(8+k) * time.Millisecond) // (adding one takes less than 1 ms)
	for i := 0; i < k; i++ {
		id := w.mkDP(vec(), "never", w.pay)
		d := w.dps[id-1]
		if w.rnd.Intn(live) > 0 {
			d.dp.Expires, d.dp.ExpireEnabled = end.Round(0), true
			d.tok = tok(d.dp)
		}
		w.nodes[0].cli(nss[w.rnd.Intn(len(nss))], nil).AddDataPoint(d.dp)
	}
	time.Sleep(time.Until(end) + 4*time.Millisecond)
}

func (w *concWorld) ids(dps []DataPoint) []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.idents(dps, "reply")
}

func (w *concWorld) draw(kind, ns string, vec func() []float64) plan {
	r := w.rnd
	n := w.nodes[r.Intn(len(w.nodes))]
	var err error
	fin := func(s Step) { s["err"] = errStr(err) }
	amt := []int{0, 1, 1, 2, 3, 5, 100}[r.Intn(7)]
	kn, _ := searchFuncs("cos")
	switch kind {
	case "add", "bad", "put":
		cls := "never"
		if kind == "bad" {
			cls = "past"
		}
		id := w.mkDP(vec(), cls, w.pay)
		s := concOp("add", n, ns)
		s["id"], s["valid"] = id, kind != "bad"
		dp := w.dps[id-1].dp
		if kind == "put" {
			s["op"] = "put"
			return plan{s, func(s Step) {
				a := dps.PutDataPointArgs{AddrOptions: pubs(w.nodes), Namespace: ns, DataPoint: dp, KNNSearchFunc: kn}
				if amt%2 == 0 {
					s["ok"] = dps.PutDataPointRand(a)
				} else {
					s["ok"] = dps.PutDataPointFast(a)
				}
			}}
		}
		return plan{s, func(s Step) { s["ok"] = n.cli(ns, &err).AddDataPoint(dp); fin(s) }}
	case "knn", "knnd":
		s := concOp("knn", n, ns)
		q, drain := vec(), kind == "knnd"
		s["n"], s["drain"] = amt, drain
		return plan{s, func(s Step) { s["out"] = w.ids(n.cli(ns, &err).KNNLookup(q, amt, drain)); fin(s) }}
	case "query", "queryd":
		s := concOp("query", n, ns)
		q, drain := vec(), kind == "queryd"
		s["n"], s["drain"] = amt, drain
		return plan{s, func(s Step) {
			s["out"] = w.ids(dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: pubs(w.nodes), Namespace: ns,
				QueryVec: q, N: amt, Drain: drain, KNNSearchFunc: kn}))
		}}
	case "drainU", "drainO":
		s := concOp("drain", n, ns)
		s["n"], s["drain"] = amt, true
		return plan{s, func(s Step) {
			if kind == "drainU" {
				s["out"] = w.ids(n.cli(ns, &err).DrainUnordered(amt))
			} else {
				s["out"] = w.ids(n.cli(ns, &err).DrainOrdered(amt))
			}
			fin(s)
		}}
	case "nearc", "nearcd":
		s := concOp("nearc", n, ns)
		q, drain := vec(), kind == "nearcd"
		if amt == 100 || w.pay > 0 && !drain {
			amt = 1000 // all groups
		}
		s["n"], s["drain"] = amt, drain
		return plan{s, func(s Step) {
			cs, _ := n.cli(ns, &err).NearestCentroids(q, amt, drain)
			out := []int{}
			for _, c := range cs {
				out = append(out, w.ids(c.DataPoints)...)
			}
			s["out"] = out
			fin(s)
		}}
	case "len":
		return plan{concOp("len", n, ns), func(s Step) { s["rn"] = n.cli(ns, &err).LenDP(); fin(s) }}
	case "nss":
		return plan{concOp("nss", n, ns), func(s Step) {
			x := append([]string{}, n.cli(ns, &err).Namespaces()...)
			sort.Strings(x)
			s["names"] = x
			fin(s)
		}}
	case "meta":
		return plan{concOp("meta", n, ns), func(s Step) {
			m := n.cli(ns, &err).Meta()
			x, ok := m.DPs[ns]
			s["rn"], s["ok"] = x, ok
			fin(s)
		}}
	case "vec":
		return plan{concOp("other", n, ns), func(s Step) { n.cli(ns, &err).NearestCentroidVec([]float64{1, 1}); fin(s) }}
	case "dist":
		s := concOp("dist", n, ns)
		acc := r.Intn(2) == 0
		return plan{s, func(s Step) {
			addrs := []string{}
			for _, x := range w.nodes {
				addrs = append(addrs, x.pubStr())
			}
			if acc {
				n.cli(ns, &err).DistributeDataPointsAccurate(addrs, amt)
			} else {
				n.cli(ns, &err).DistributeDataPointsFast(addrs, amt)
			}
			fin(s)
		}}
	case "steal":
		s := concOp("steal", n, ns)
		from := w.nodes[r.Intn(len(w.nodes))]
		s["from"], s["n"] = from.name, amt
		return plan{s, func(s Step) { s["rn"], s["ok"] = n.cli(ns, &err).StealCentroids(from.pubStr(), amt); fin(s) }}
	case "maint":
		s := concOp("other", n, ns)
		k := r.Intn(6)
		return plan{s, func(s Step) {
			c := n.cli(ns, &err)
			switch k {
			case 0:
				c.SplitCentroids(0, 100)
			case 1:
				c.MergeCentroids(-1, 3)
			case 2:
				c.MemTrim()
			case 3:
				c.Expire()
			case 4:
				c.MoveVector()
			default:
				c.DistributeDataPointsInternal(amt)
			}
			fin(s)
		}}
	}
	fail("kind %q", kind)
	return plan{}
}
