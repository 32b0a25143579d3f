package main

// Operations on the code under test. Each one is recorded as a step of the
// trace: arguments, reply, and (by World.do) the change of all stores.

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"sort"
	"time"

	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
)

// target is a store: a library one, or a namespace of a node.
type target struct {
	node *Node // nil: library
	ns   string
}

func (t target) step(op string) Step {
	s := Step{"op": op, "ns": t.ns, "node": "-", "via": "lib"}
	if t.node != nil {
		s["node"], s["via"] = t.node.name, "rpc"
	}
	s["st"] = s["node"].(string) + "/" + t.ns
	return s
}

type kcli = interface {
	Namespaces() []string
	Vec() []float64
	AddDataPoint(DataPoint) bool
	DrainUnordered(int) []DataPoint
	DrainOrdered(int) []DataPoint
	Expire()
	LenDP() int
	MemTrim()
	MoveVector() bool
	DistributeDataPointsFast([]string, int)
	DistributeDataPointsAccurate([]string, int)
	DistributeDataPointsInternal(int)
	KNNLookup([]float64, int, bool) []DataPoint
	NearestCentroids([]float64, int, bool) ([]*Centroid, bool)
	NearestCentroidVec([]float64) []float64
	SplitCentroids(int, int)
	MergeCentroids(int, int)
	StealCentroids(string, int) (int, bool)
	Meta() rpc.MetaResp
}

func (n *Node) pubStr() string {
	a := n.pub()
	return a.ToStr()
}

func (n *Node) cli(ns string, err *error) kcli {
	return rpc.KMeansClient(n.pubStr(), ns, err)
}

func (w *World) lib(t target) *CM {
	cm := w.libs[t.ns]
	if cm == nil {
		fail("no library store %q", t.ns)
	}
	return cm
}

func (w *World) isCent(t target) *Centroid {
	if t.node != nil {
		return nil
	}
	return w.cents[t.ns]
}

func (w *World) opAdd(t target, id int) bool {
	s := t.step("add")
	s["id"] = id
	dp := w.dps[id-1].dp
	w.dps[id-1].stored = true
	return w.do(s, func(s Step) {
		var err error
		switch {
		case t.node != nil:
			s["ok"] = t.node.cli(t.ns, &err).AddDataPoint(dp)
		case w.isCent(t) != nil:
			s["ok"] = w.isCent(t).AddDataPoint(dp)
		default:
			s["ok"] = w.lib(t).AddDataPoint(dp)
		}
		s["err"] = errStr(err)
	})
}

func (w *World) opDrain(t target, ordered bool, n int) bool {
	op := "drainU"
	if ordered {
		op = "drainO"
	}
	s := t.step(op)
	s["n"] = encN(n)
	return w.do(s, func(s Step) {
		var err error
		var r []DataPoint
		type drainer interface {
			DrainUnordered(int) []DataPoint
			DrainOrdered(int) []DataPoint
		}
		var d drainer
		switch {
		case t.node != nil:
			d = t.node.cli(t.ns, &err)
		case w.isCent(t) != nil:
			d = w.isCent(t)
		default:
			d = w.lib(t)
		}
		if ordered {
			r = d.DrainOrdered(n)
		} else {
			r = d.DrainUnordered(n)
		}
		s["out"], s["err"] = w.idents(r, "reply"), errStr(err)
	})
}

// opSimple: expire, memtrim, movevec.
func (w *World) opSimple(t target, op string) bool {
	return w.do(t.step(op), func(s Step) {
		var err error
		type simple interface {
			Expire()
			MemTrim()
			MoveVector() bool
		}
		var d simple
		switch {
		case t.node != nil:
			d = t.node.cli(t.ns, &err)
		case w.isCent(t) != nil:
			d = w.isCent(t)
		default:
			d = w.lib(t)
		}
		switch op {
		case "expire":
			d.Expire()
		case "memtrim":
			d.MemTrim()
		case "movevec":
			s["ok"] = d.MoveVector()
		default:
			fail("op %q", op)
		}
		s["err"] = errStr(err)
	})
}

func (w *World) opDistInt(t target, n int) bool {
	s := t.step("distint")
	s["n"] = encN(n)
	return w.do(s, func(s Step) {
		var err error
		if t.node != nil {
			t.node.cli(t.ns, &err).DistributeDataPointsInternal(n)
		} else {
			w.lib(t).DistributeDataPointsInternal(n)
		}
		s["err"] = errStr(err)
	})
}

func (w *World) opKNN(t target, q []float64, n int, drain bool) bool {
	s := t.step("knn")
	s["q"], s["n"], s["drain"] = encV(q), encN(n), drain
	return w.do(s, func(s Step) {
		var err error
		var r []DataPoint
		switch {
		case t.node != nil:
			r = t.node.cli(t.ns, &err).KNNLookup(q, n, drain)
		case w.isCent(t) != nil:
			r = w.isCent(t).KNNLookup(q, n, drain)
		default:
			r = w.lib(t).KNNLookup(q, n, drain)
		}
		s["out"], s["err"] = w.idents(r, "reply"), errStr(err)
	})
}

func (w *World) opNearC(t target, q []float64, n int, drain bool) bool {
	s := t.step("nearc")
	s["q"], s["n"], s["drain"] = encV(q), encN(n), drain
	return w.do(s, func(s Step) {
		var err error
		var r []*Centroid
		if t.node != nil {
			r, _ = t.node.cli(t.ns, &err).NearestCentroids(q, n, drain)
		} else {
			r, _ = w.lib(t).NearestCentroids(q, n, drain)
		}
		groups, out := [][]int{}, []int{}
		for _, c := range r {
			g := w.idents(c.DataPoints, "reply")
			groups = append(groups, g)
			out = append(out, g...)
		}
		s["groups"], s["out"], s["err"] = groups, out, errStr(err)
	})
}

func (w *World) opNearV(t target, q []float64) bool {
	s := t.step("nearv")
	s["q"] = encV(q)
	return w.do(s, func(s Step) {
		var err error
		v := t.node.cli(t.ns, &err).NearestCentroidVec(q)
		s["vec"], s["ok"], s["err"] = encV(v), v != nil, errStr(err)
	})
}

func (w *World) opVec(t target) bool {
	return w.do(t.step("vec"), func(s Step) {
		var err error
		v := t.node.cli(t.ns, &err).Vec()
		s["vec"], s["ok"], s["err"] = encV(v), v != nil, errStr(err)
	})
}

func (w *World) opLen(t target) bool {
	return w.do(t.step("len"), func(s Step) {
		var err error
		switch {
		case t.node != nil:
			s["rn"] = t.node.cli(t.ns, &err).LenDP()
		case w.isCent(t) != nil:
			s["rn"] = w.isCent(t).LenDP()
		default:
			s["rn"] = w.lib(t).LenDP()
		}
		s["err"] = errStr(err)
	})
}

func (w *World) opNss(n *Node) bool {
	return w.do(Step{"op": "nss", "via": "rpc", "node": n.name}, func(s Step) {
		var err error
		r := n.cli("", &err).Namespaces()
		sort.Strings(r)
		s["names"], s["err"] = append([]string{}, r...), errStr(err)
	})
}

func (w *World) opMeta(n *Node) bool {
	return w.do(Step{"op": "meta", "via": "rpc", "node": n.name}, func(s Step) {
		var err error
		r := n.cli("", &err).Meta()
		m, keys := []Step{}, map[string]bool{}
		for ns := range r.DPs {
			keys[ns] = true
		}
		for ns := range r.Centroids {
			keys[ns] = true
		}
		for ns := range keys {
			d, ok1 := r.DPs[ns]
			c, ok2 := r.Centroids[ns]
			if !ok1 {
				d = -1
			}
			if !ok2 {
				c = -1
			}
			m = append(m, Step{"ns": ns, "c": c, "d": d})
		}
		sort.Slice(m, func(i, j int) bool { return m[i]["ns"].(string) < m[j]["ns"].(string) })
		s["meta"], s["err"] = m, errStr(err)
	})
}

func (w *World) opSplitMerge(t target, op string, mn, mx int) bool {
	s := t.step(op)
	s["mn"], s["mx"] = encN(mn), encN(mx)
	return w.do(s, func(s Step) {
		var err error
		in := func(c *Centroid) bool { return c.LenDP() > mn && c.LenDP() < mx }
		switch {
		case t.node != nil && op == "split":
			t.node.cli(t.ns, &err).SplitCentroids(mn, mx)
		case t.node != nil:
			t.node.cli(t.ns, &err).MergeCentroids(mn, mx)
		case op == "split":
			w.lib(t).SplitCentroids(in)
		default:
			w.lib(t).MergeCentroids(in)
		}
		s["err"] = errStr(err)
	})
}

func names(ns []*Node) []string {
	r := []string{}
	for _, n := range ns {
		r = append(r, n.name)
	}
	return r
}

func hasDups(ns []*Node) bool {
	seen := map[string]bool{}
	for _, n := range ns {
		if seen[n.name] {
			return true
		}
		seen[n.name] = true
	}
	return false
}

func pubs(ns []*Node) []Addr {
	r := []Addr{}
	for _, n := range ns {
		r = append(r, n.pub())
	}
	return r
}

func (w *World) opDist(t target, mode string, cands []*Node, n int) bool {
	s := t.step("dist")
	s["mode"], s["cands"], s["n"], s["dups"] = mode, names(cands), encN(n), hasDups(cands)
	return w.do(s, func(s Step) {
		var err error
		addrs := []string{}
		for _, a := range pubs(cands) {
			addrs = append(addrs, a.IP+":"+a.Port)
		}
		c := t.node.cli(t.ns, &err)
		if mode == "fast" {
			c.DistributeDataPointsFast(addrs, n)
		} else {
			c.DistributeDataPointsAccurate(addrs, n)
		}
		s["err"] = errStr(err)
	})
}

// cut: the donor answers only that many group transfers (-1: all of them).
func (w *World) opSteal(t target, from *Node, limit, cut int) bool {
	s := t.step("steal")
	s["from"], s["n"], s["cut"] = from.name, encN(limit), cut >= 0
	if cut >= 0 {
		from.proxy.setDrop("NearestCentroids", cut)
		defer from.proxy.setDrop("", 0)
	}
	return w.do(s, func(s Step) {
		var err error
		n, ok := t.node.cli(t.ns, &err).StealCentroids(from.pubStr(), limit)
		s["rn"], s["ok"], s["err"] = n, ok, errStr(err)
	})
}

func (w *World) opPut(mode, ns string, cands []*Node, id int) bool {
	s := Step{"op": "put", "via": "rpc", "ns": ns, "mode": mode, "cands": names(cands), "id": id, "dups": hasDups(cands)}
	kn, _ := searchFuncs(w.metric)
	w.dps[id-1].stored = true
	return w.do(s, func(s Step) {
		a := dps.PutDataPointArgs{AddrOptions: pubs(cands), Namespace: ns, DataPoint: w.dps[id-1].dp, KNNSearchFunc: kn}
		switch mode {
		case "fast":
			s["ok"] = dps.PutDataPointFast(a)
		case "accurate":
			s["ok"] = dps.PutDataPointAccurate(a)
		default:
			s["ok"] = dps.PutDataPointRand(a)
		}
	})
}

func (w *World) opQuery(mode, ns string, cands []*Node, q []float64, n int, drain bool) bool {
	s := Step{"op": "query", "via": "rpc", "ns": ns, "mode": mode, "cands": names(cands),
		"q": encV(q), "n": encN(n), "drain": drain, "dups": hasDups(cands)}
	kn, _ := searchFuncs(w.metric)
	return w.do(s, func(s Step) {
		a := dps.GetDataPointsArgs{AddrOptions: pubs(cands), Namespace: ns, QueryVec: q, N: n, Drain: drain, KNNSearchFunc: kn}
		var r []DataPoint
		switch mode {
		case "fast":
			r = dps.GetDataPointsFast(a)
		case "accurate":
			r = dps.GetDataPointsAccurate(a)
		default:
			r = dps.GetDataPointsRand(a)
		}
		s["out"] = w.idents(r, "reply")
	})
}

func (w *World) opRank(mode, ns string, cands []*Node, q []float64) bool {
	s := Step{"op": "rank", "via": "rpc", "ns": ns, "mode": mode, "cands": names(cands), "q": encV(q), "dups": hasDups(cands)}
	kn, _ := searchFuncs(w.metric)
	return w.do(s, func(s Step) {
		a := nodes.BestFitNodesArgs{AddrOpts: pubs(cands), Namespace: ns, Vec: q, KNNSearchFunc: kn}
		var r []Addr
		if mode == "fast" {
			r = nodes.BestFitNodesFast(a)
		} else {
			r = nodes.BestFitNodesAccurate(a)
		}
		ns := []string{}
		for _, x := range r {
			name := "?"
			for _, n := range w.nodes {
				if n.pub() == x {
					name = n.name
				}
			}
			ns = append(ns, name)
		}
		s["names"] = ns
	})
}

// refuser is a receiver that refuses every datapoint.
type refuser struct{ v []float64 }

func (r refuser) Vec() []float64              { return r.v }
func (r refuser) AddDataPoint(DataPoint) bool { return false }

// opGive: DistributeDataPoints of a library store to other library stores, and
// to a refusing receiver at refuse (if it is not nil).
func (w *World) opGive(t target, n int, to []string, refuse []float64) bool {
	s := t.step("give")
	s["n"], s["recv"] = n, append([]string{}, to...)
	return w.do(s, func(s Step) {
		rs := []common.DataPointReceiver{}
		for _, x := range to {
			if c := w.cents[x]; c != nil {
				rs = append(rs, c)
			} else {
				rs = append(rs, w.libs[x])
			}
		}
		if refuse != nil {
			rs = append(rs, refuser{refuse})
		}
		if c := w.isCent(t); c != nil {
			c.DistributeDataPoints(n, rs)
		} else {
			w.lib(t).DistributeDataPoints(n, rs)
		}
	})
}

// --- HTTP ---

type hdp struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

var httpAddr string // set when the HTTP server was started
var httpClient = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}}

func httpPost(path string, body []byte) (int, []byte, error) {
	r, err := httpClient.Post("http://"+httpAddr+path, "application/json", bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

func (w *World) opHPut(ns string, acc bool, id int, cands []*Node) bool {
	mode := "fast"
	if acc {
		mode = "accurate"
	}
	s := Step{"op": "hput", "via": "http", "ns": ns, "mode": mode, "id": id, "cands": names(cands)}
	dp := w.dps[id-1].dp
	w.dps[id-1].stored = true
	return w.do(s, func(s Step) {
		b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": acc,
			"dp": hdp{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled}})
		st, _, err := httpPost("/api/dp/put", b)
		s["status"], s["err"], s["ok"] = st, errStr(err), st == 200
	})
}

func (w *World) opHQuery(ns string, acc bool, q []float64, n int, drain bool, cands []*Node) bool {
	mode := "fast"
	if acc {
		mode = "accurate"
	}
	s := Step{"op": "hquery", "via": "http", "ns": ns, "mode": mode, "q": encV(q), "n": encN(n), "drain": drain, "cands": names(cands)}
	return w.do(s, func(s Step) {
		b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": acc, "queryVec": q, "n": n, "drain": drain})
		st, body, err := httpPost("/api/dp/query", b)
		s["status"], s["err"] = st, errStr(err)
		var r []hdp
		s["ok"] = json.Unmarshal(body, &r) == nil && len(bytes.TrimSpace(body)) > 0 && bytes.TrimSpace(body)[0] == '['
		ds := []DataPoint{}
		for _, d := range r {
			ds = append(ds, DataPoint{Vec: d.Vec, Payload: d.Payload, Expires: d.Expires, ExpireEnabled: d.ExpireEnabled})
		}
		s["out"] = w.idents(ds, "reply")
	})
}

// opHBad posts a body which is not a valid request.
func (w *World) opHBad(path string, body []byte) bool {
	s := Step{"op": "hbad", "via": "http", "mode": path, "valid": false}
	return w.do(s, func(s Step) {
		st, _, err := httpPost(path, body)
		s["status"], s["err"] = st, errStr(err)
	})
}
