package main

// Random scenarios: a profile says what stores there are and how often each
// operation is used.

import (
	"fmt"
	"math"
	"strings"
	"time"
)

type Profile struct {
	kind    string // lib, rpc (one or two nodes), net (several), http
	weights map[string]int
	faults  int    // percentage of scenarios with unreachable nodes
	expiry  int    // percentage of scenarios with expiring points
	euc     int    // percentage of scenarios with Euclidean distance
	thr     int    // percentage of scenarios with a group threshold
	prefill int    // points inserted before the random steps
	maxNs   int    // namespaces
	odd     bool   // odd vectors and payloads (not for geometry)
	give    bool   // bare groups and receivers
	zero    int    // percentage of scenarios with zero vectors
	mixdims int    // percentage of scenarios with vectors of different lengths
	unknown int    // percentage of operations on unknown namespaces
	style   string // fixed style of vectors
	noempty bool   // n is positive and there are some points
	slow    bool   // nodes answer slowly
	wild    bool   // anything a request can contain
	clones  bool   // points with the same content
	bulk    int    // about this many points are there already, in many groups
	many    bool   // many nodes
	refuse  bool   // most nodes refuse to add points at a time
}

func wts(s string) map[string]int {
	r := map[string]int{}
	for _, f := range strings.Fields(s) {
		var n int
		i := strings.IndexByte(f, '=')
		fmt.Sscanf(f[i+1:], "%d", &n)
		r[f[:i]] = n
	}
	return r
}

const storeOps = "add=30 drainU=4 drainO=4 expire=3 memtrim=4 movevec=2 distint=6 knn=10 nearc=4 split=6 merge=6 len=3"

var profiles = map[string]Profile{
	"lib":       {kind: "lib", weights: wts(storeOps + " give=5"), expiry: 35, euc: 25, thr: 40, prefill: 6, maxNs: 2, give: true, zero: 15, mixdims: 10},
	"maint":     {kind: "lib", weights: wts("add=20 expire=3 memtrim=5 movevec=3 distint=12 split=12 merge=12 give=10 drainU=2 knn=2 nearc=2"), expiry: 35, euc: 20, thr: 40, prefill: 10, maxNs: 2, give: true, zero: 10, mixdims: 10},
	"means":     {kind: "lib", weights: wts("add=20 expire=4 memtrim=6 movevec=1 distint=6 split=6 merge=6 drainU=6 drainO=6 knn=8 nearc=8 give=4"), expiry: 40, euc: 25, thr: 40, prefill: 6, maxNs: 2, give: true, zero: 10},
	"lookup":    {kind: "lib", weights: wts("add=16 knn=40 nearc=8 split=5 merge=3 distint=3 drainU=4 expire=2 memtrim=2"), expiry: 40, euc: 30, thr: 50, prefill: 12, maxNs: 1, zero: 25, mixdims: 15},
	"place":     {kind: "lib", weights: wts("add=34 knn=14 nearc=14 split=6 merge=3 distint=12 drainU=3 memtrim=3 give=8"), expiry: 15, euc: 35, thr: 60, prefill: 10, maxNs: 2, give: true, zero: 10},
	"policy":    {kind: "lib", weights: wts("add=30 split=24 merge=24 drainU=5 memtrim=1 distint=3 knn=3"), expiry: 15, euc: 25, thr: 55, prefill: 14, maxNs: 1},
	"drain":     {kind: "lib", weights: wts("add=24 drainU=16 drainO=22 split=8 merge=3 distint=2 memtrim=2"), expiry: 10, euc: 35, thr: 50, prefill: 14, maxNs: 1, give: true},
	"rpc":       {kind: "rpc", weights: wts(storeOps + " nearv=3 vec=3 nss=3 meta=3"), expiry: 30, euc: 15, thr: 40, prefill: 6, maxNs: 3, zero: 10, unknown: 10, mixdims: 5},
	"ns":        {kind: "rpc", weights: wts("add=20 drainU=4 drainO=4 expire=4 memtrim=4 movevec=4 distint=4 knn=6 nearc=5 nearv=4 vec=4 split=4 merge=4 len=5 nss=6 meta=6 dist=5 steal=8"), expiry: 15, thr: 30, prefill: 6, maxNs: 4, unknown: 35},
	"meta":      {kind: "rpc", weights: wts("add=20 drainU=4 drainO=3 expire=4 memtrim=4 movevec=1 distint=2 knn=4 nearc=4 split=5 merge=5 len=18 nss=12 meta=18 steal=4"), expiry: 35, thr: 40, prefill: 4, maxNs: 4, unknown: 10},
	"net":       {kind: "net", weights: wts("add=12 put=22 query=18 rank=6 dist=14 steal=12 drainU=2 knn=4 split=3 merge=2 memtrim=2 expire=2 distint=2 len=2 nearc=2 meta=1"), expiry: 25, faults: 30, thr: 40, prefill: 8, maxNs: 2, zero: 10, unknown: 6},
	"insert":    {kind: "net", weights: wts("add=34 put=36 drainU=4 nearc=4 memtrim=3 query=3 dist=2 steal=3"), expiry: 50, faults: 40, thr: 40, prefill: 3, maxNs: 3, mixdims: 30, unknown: 20},
	"move":      {kind: "net", weights: wts("add=12 put=4 dist=34 steal=26 split=8 merge=3 memtrim=2 expire=2 drainU=3 nearc=1"), expiry: 25, faults: 40, thr: 50, prefill: 12, maxNs: 2, unknown: 8, zero: 10, mixdims: 10},
	"steal":     {kind: "net", weights: wts("add=24 steal=44 split=10 drainU=6 drainO=2 dist=3 knn=2 nearc=1 put=3 distint=3"), expiry: 10, faults: 30, thr: 60, prefill: 14, maxNs: 2, unknown: 10},
	"route":     {kind: "net", weights: wts("add=18 put=24 query=30 rank=22 split=6 drainU=3 steal=3 memtrim=2"), expiry: 12, faults: 20, thr: 50, prefill: 12, maxNs: 2, zero: 5, unknown: 6},
	"redist":    {kind: "net", weights: wts("add=20 put=4 dist=50 split=6 merge=2 drainU=2 memtrim=1"), expiry: 10, faults: 35, thr: 40, prefill: 14, maxNs: 2, unknown: 4},
	"faults":    {kind: "net", weights: wts("add=14 put=20 query=16 rank=8 dist=16 steal=14 knn=5 len=3 drainU=2 drainO=2 vec=2 nearv=2 nearc=2 nss=2 meta=2 expire=1 memtrim=1 movevec=1 distint=1 split=2 merge=1"), expiry: 15, faults: 100, thr: 40, prefill: 10, maxNs: 2},
	"slow":      {kind: "net", weights: wts("add=6 put=20 query=25 rank=25 dist=16 steal=8"), thr: 50, prefill: 10, maxNs: 1, slow: true},
	"expire":    {kind: "rpc", weights: wts("add=34 drainU=5 drainO=5 expire=7 memtrim=7 movevec=3 distint=5 knn=14 nearc=6 split=5 merge=6 wait=8"), expiry: 100, euc: 15, thr: 40, prefill: 8, maxNs: 2},
	"expireN":   {kind: "net", weights: wts("add=30 put=14 query=14 dist=14 steal=10 expire=3 memtrim=3 wait=8 split=4 knn=4"), expiry: 100, faults: 15, thr: 40, prefill: 8, maxNs: 2},
	"fidelity":  {kind: "net", weights: wts("add=30 put=12 query=14 dist=8 steal=8 knn=8 drainU=3 drainO=3 nearc=5 split=4 merge=4 distint=4 memtrim=2"), expiry: 40, thr: 40, prefill: 8, maxNs: 2, odd: true},
	"http":      {kind: "http", weights: wts("hput=40 hquery=40 hbad=10 add=4 split=3 drainU=2 wait=2 expire=2 memtrim=2 dist=3 steal=2"), expiry: 30, faults: 25, thr: 40, prefill: 3, maxNs: 3, zero: 5, unknown: 10, mixdims: 5},
	"wildlib":   {kind: "lib", weights: wts(storeOps + " give=6"), expiry: 25, euc: 30, thr: 50, prefill: 5, maxNs: 2, odd: true, wild: true, give: true},
	"wild":      {kind: "net", weights: wts("add=26 put=12 query=12 rank=6 dist=8 steal=8 knn=10 nearc=6 nearv=4 drainU=5 drainO=5 split=6 merge=6 distint=6 memtrim=3 movevec=3 expire=2 len=3 vec=3 nss=2 meta=3 raw=12"), expiry: 20, faults: 20, euc: 20, thr: 50, prefill: 5, maxNs: 2, unknown: 10, odd: true, wild: true},
	"wildhttp":  {kind: "http", weights: wts("hput=30 hquery=30 hbad=10 hodd=20 raw=8 add=6 split=3 merge=3 drainU=3 dist=3 steal=3"), expiry: 20, faults: 15, thr: 40, prefill: 3, maxNs: 2, unknown: 10, odd: true, wild: true},
	"httpns":    {kind: "http", weights: wts("hput=40 hquery=40 add=8 drainU=4 len=4 nss=3 meta=3 dist=3 steal=2"), expiry: 15, faults: 0, thr: 40, prefill: 3, maxNs: 4, unknown: 15},
	"clonelib":  {kind: "lib", weights: wts("add=30 drainU=5 drainO=5 expire=2 memtrim=3 movevec=1 distint=5 knn=8 nearc=4 split=6 merge=6 len=3 give=4"), euc: 30, thr: 40, prefill: 6, maxNs: 2, give: true, zero: 15, clones: true},
	"clones":    {kind: "net", weights: wts("add=26 put=14 query=12 dist=12 steal=10 drainU=2 drainO=3 knn=4 split=5 merge=4 memtrim=2 expire=1 distint=2 len=2 nearc=2 meta=2"), faults: 25, thr: 40, prefill: 8, maxNs: 2, zero: 10, unknown: 6, clones: true},
	"clonehttp": {kind: "http", weights: wts("hput=40 hquery=30 add=8 split=3 dist=4 steal=4 knn=3"), faults: 20, thr: 40, prefill: 3, maxNs: 2, clones: true},
	"bulk":      {kind: "lib", weights: wts("add=8 drainU=8 drainO=8 expire=3 memtrim=4 movevec=1 distint=8 knn=20 nearc=6 split=10 merge=14 len=2"), expiry: 30, euc: 30, thr: 30, maxNs: 1, zero: 15, bulk: 150},
	"huge":      {kind: "lib", weights: wts("add=6 drainU=10 drainO=10 expire=5 memtrim=5 movevec=1 distint=8 knn=24 nearc=6 split=12 merge=12 len=2"), expiry: 30, euc: 30, thr: 30, maxNs: 1, zero: 5, bulk: 1200},
	"bulknet":   {kind: "net", weights: wts("add=6 put=14 query=20 rank=10 dist=18 steal=18 drainU=2 knn=4 split=4 merge=2 meta=2"), expiry: 20, faults: 20, thr: 40, maxNs: 2, bulk: 120, many: true},
	"many":      {kind: "net", weights: wts("add=14 put=22 query=22 rank=16 dist=12 steal=8 drainU=2 split=3 meta=1"), expiry: 12, faults: 35, thr: 40, prefill: 18, maxNs: 2, zero: 5, unknown: 5, many: true},
	"refuse":    {kind: "net", weights: wts("add=8 put=24 dist=36 drainU=2 split=3"), faults: 100, thr: 40, prefill: 30, maxNs: 1, many: true, refuse: true},
	"httpodd":   {kind: "http", weights: wts("hput=40 hquery=40 hbad=6 add=6 dist=3 steal=2"), expiry: 30, faults: 0, thr: 40, prefill: 3, maxNs: 2, odd: true},
}

var oddNames = []string{"", "a", "b", "A", "ns/1", "a ", "日本", "#x", strings.Repeat("n", 300), "a\x00b", "../a"}

// twins are names that have to be kept apart.
var twins = [][]string{{"a", "a ", " a", "A"}, {"", " ", "\t"}, {"x\n", "x", "X", "x\r\n"}, {"\u00e9", "e\u0301", "e", "\u00c9"},
	{"a/b", "a/b/", "a//b", "a/./b", "a\\b"}, {"n\x00", "n", "n\x00\x00"}, {"1", "01", "1.0", "+1"}, {"%20", " ", "+"},
	{strings.Repeat("n", 300), strings.Repeat("n", 299), strings.Repeat("n", 300) + "m"}, {"a.b", "a_b", "a-b", "a:b"}}

type gen struct {
	*World
	p       Profile
	style   string
	dims    int
	zero    bool
	mix     bool
	expires bool
	faulty  bool
	nss     []string
	kinds   int
	centers [][]float64
	lastAll map[string]Snap
}

func round3(x float64) float64 { return math.Round(x*1000) / 1000 }

func (g *gen) vec() []float64 {
	r := g.rnd
	d := g.dims
	if g.mix && r.Intn(6) == 0 {
		d = g.dims%3 + 1
	}
	v := make([]float64, d)
	if g.zero && r.Intn(7) == 0 {
		return v
	}
	if g.p.wild {
		return g.wildVec()
	}
	if g.p.odd {
		return g.oddVec()
	}
	if len(g.dps) > 0 && r.Intn(9) == 0 {
		o := g.dps[r.Intn(len(g.dps))].dp.Vec
		if len(o) == d {
			return append([]float64{}, o...)
		}
	}
	for try := 0; try < 20; try++ {
		n := 0.0
		switch g.style {
		case "grid":
			for i := range v {
				v[i] = float64(r.Intn(5) - 2)
			}
		case "pos":
			for i := range v {
				v[i] = round3(r.Float64() * 4)
			}
		case "tight":
			c := g.centers[r.Intn(len(g.centers))]
			w := []float64{0.03, 0.1, 0.2}[r.Intn(3)]
			for i := range v {
				v[i] = round3(c[i] + (r.Float64()-0.5)*w)
			}
		case "cluster":
			c := g.centers[r.Intn(len(g.centers))]
			for i := range v {
				v[i] = round3(c[i] + (r.Float64()-0.5)*0.8)
			}
		default: // wide
			for i := range v {
				v[i] = round3((r.Float64() - 0.5) * 8)
			}
		}
		for _, c := range v {
			n += c * c
		}
		// Nearly zero vectors have no stable direction.
		if n > 0.05 {
			return v
		}
	}
	v[0] = 1
	return v
}

var oddFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, math.Pi, 1e-300, 5e-324, 1e300, -1e300, 1e15 + 0.3,
	math.MaxFloat64, math.Nextafter(1, 2), 123456789.123456789, 1e-9, 2e-16}

func (g *gen) oddVec() []float64 {
	r := g.rnd
	v := make([]float64, g.dims)
	for i := range v {
		if r.Intn(3) == 0 {
			v[i] = oddFloats[r.Intn(len(oddFloats))]
		} else {
			v[i] = r.NormFloat64()
		}
	}
	return v
}

func (g *gen) cls() string {
	if !g.expires {
		return []string{"never", "never", "never", "offpast", "offfut", "far"}[g.rnd.Intn(6)]
	}
	switch k := g.rnd.Intn(20); {
	case k < 8:
		return "soon"
	case k < 10:
		return "past"
	case k < 13:
		return "far"
	case k < 16:
		return "offpast"
	case k < 17:
		return "offfut"
	}
	return "never"
}

func (g *gen) newDP() int {
	if g.p.clones {
		if len(g.dps) < g.kinds {
			v := g.vec()
			if len(g.dps) > 0 && g.rnd.Intn(2) == 0 {
				v = append([]float64{}, g.dps[0].dp.Vec...)
			}
			return g.mkDP(v, []string{"never", "far", "offpast"}[g.rnd.Intn(3)], []int{-1, 0, 3}[g.rnd.Intn(3)])
		}
		return 1 + g.rnd.Intn(g.kinds)
	}
	pay := []int{-1, 0, 0, 3, 10}[g.rnd.Intn(5)]
	if g.p.odd {
		pay = []int{-1, 0, 1, 255, 256, 5000, 70000}[g.rnd.Intn(7)]
	}
	v := g.vec()
	if g.p.odd {
		if (g.p.kind == "http" || g.p.kind == "net") && !g.p.wild && g.rnd.Intn(50) == 0 {
			pay = 1000000 + g.rnd.Intn(3000000)
		}
		// The payload identifies it, or the vector has to be unique.
		if pay < 0 && len(g.byVec[vecKey(v)]) > 0 {
			pay = 0
		}
	}
	return g.mkDP(v, g.cls(), pay)
}

func (g *gen) total() int {
	n := 0
	for _, s := range g.lastS {
		for _, x := range s.G {
			n += len(x.D)
		}
	}
	return n
}

func (g *gen) totalOf(t target) int {
	st := t.step("")["st"].(string)
	n := 0
	for _, x := range g.lastS[st].G {
		n += len(x.D)
	}
	return n
}

func (g *gen) amount(total int) int {
	r := g.rnd
	if g.p.wild && r.Intn(4) == 0 {
		return hugeInts[r.Intn(len(hugeInts))]
	}
	switch r.Intn(14) {
	case 0:
		return 0
	case 1:
		return -1 - r.Intn(3)
	case 2:
		return total
	case 3:
		return total + 1 + r.Intn(3)
	case 4:
		return 1000
	case 5:
		return total - 1
	case 6, 7:
		return 1
	}
	if g.p.bulk > 0 && total > 0 && r.Intn(2) == 0 {
		return 1 + r.Intn(total)
	}
	return 1 + r.Intn(6)
}

// real are the nodes that exist.
func (g *gen) real() []*Node {
	r := []*Node{}
	for _, n := range g.nodes {
		if !n.ghost {
			r = append(r, n)
		}
	}
	return r
}

func (g *gen) target() target {
	r := g.rnd
	if g.kindLib() {
		keys := []string{}
		for k := range g.libs {
			keys = append(keys, k)
		}
		sortStrings(keys)
		cs := []string{}
		for k := range g.cents {
			cs = append(cs, k)
		}
		sortStrings(cs)
		if len(cs) > 0 && r.Intn(4) == 0 {
			return target{nil, cs[r.Intn(len(cs))]}
		}
		return target{nil, keys[r.Intn(len(keys))]}
	}
	ns := g.nss[r.Intn(len(g.nss))]
	if r.Intn(100) < g.p.unknown {
		ns = fmt.Sprintf("u%d", r.Intn(3))
	}
	rs := g.real()
	return target{rs[r.Intn(len(rs))], ns}
}

// own is a target that has points, mostly.
func (g *gen) rich() target {
	t := g.target()
	for i := 0; i < 4; i++ {
		if g.totalOf(t) > 0 && (t.node == nil || !t.node.down) {
			return t
		}
		t = g.target()
	}
	return t
}

func (g *gen) kindLib() bool { return g.p.kind == "lib" }

// cands draws a list of nodes.
func (g *gen) cands(dups bool) []*Node {
	r := g.rnd
	p := r.Perm(len(g.nodes))
	k := 1 + r.Intn(len(g.nodes))
	if r.Intn(2) == 0 {
		k = len(g.nodes)
	}
	if r.Intn(25) == 0 {
		k = 0
	}
	res := []*Node{}
	for _, i := range p[:k] {
		res = append(res, g.nodes[i])
	}
	if dups && len(res) > 0 && r.Intn(8) == 0 {
		res = append(res, res[r.Intn(len(res))])
	}
	return res
}

func (g *gen) query() []float64 {
	if len(g.dps) > 0 && g.rnd.Intn(4) == 0 {
		return append([]float64{}, g.dps[g.rnd.Intn(len(g.dps))].dp.Vec...)
	}
	return g.vec()
}

func (g *gen) setDown(n *Node, down bool) {
	if n.ghost || n.down == down {
		return
	}
	n.down = down
	if down {
		if g.rnd.Intn(2) == 0 {
			n.proxy.down()
		} else {
			n.proxy.setDrop("*", 0) // accepts connections, answers nothing
		}
	} else {
		n.proxy.up()
		n.proxy.setDrop("", 0)
	}
}

func (g *gen) setNoAdd(n *Node, v bool) {
	if n.ghost || n.down {
		return
	}
	n.noadd = v
	if v {
		n.proxy.setDrop("AddDataPoint", 0)
	} else {
		n.proxy.setDrop("", 0)
	}
}

func (g *gen) shuffleFaults() {
	for _, n := range g.nodes {
		if n.ghost {
			continue
		}
		g.setNoAdd(n, false)
		down, refuse := 4, g.rnd.Intn(6) == 0
		if g.p.refuse {
			down, refuse = 12, g.rnd.Intn(3) != 0
		}
		g.setDown(n, g.rnd.Intn(down) == 0)
		if !n.down && refuse {
			g.setNoAdd(n, true)
		}
	}
}

func (g *gen) healAll() {
	for _, n := range g.nodes {
		g.setNoAdd(n, false)
		g.setDown(n, false)
	}
}

func (g *gen) wait() {
	// Until the next deadline, or a later one.
	now := time.Now()
	var ds []time.Time
	for _, d := range g.dps {
		if !d.deadline.IsZero() && d.deadline.After(now) && d.stored {
			ds = append(ds, d.deadline)
		}
	}
	if len(ds) == 0 {
		return
	}
	d := ds[g.rnd.Intn(len(ds))]
	if w := time.Until(d); w < 300*time.Millisecond {
		time.Sleep(w + 5*time.Millisecond)
	}
}

func (g *gen) bounds() (int, int) {
	r := g.rnd
	mn := []int{-1, 0, 1, 2, 3, 5}[r.Intn(6)]
	if g.p.wild && r.Intn(4) == 0 {
		return hugeInts[r.Intn(len(hugeInts))], hugeInts[r.Intn(len(hugeInts))]
	}
	mx := mn + 1 + r.Intn(8)
	if g.p.bulk > 0 && r.Intn(2) == 0 {
		mx = mn + r.Intn(100)
	}
	switch r.Intn(8) {
	case 0:
		mx = 1000000
	case 1:
		mx = mn - r.Intn(3)
	}
	return mn, mx
}

// badBodies are not valid requests: malformed JSON, or JSON of another shape.
var (
	badJSON = []string{"", "{", "[]", "null x", `"x"`, "1", "true", "\xff\xfe", `{"n":1}}`, `{"dp":{"vec":[1,2]}`,
		`{"namespace":"a",}`, `{'namespace':"a"}`, `{"namespace":"a"} {}`, `{"namespace":1}`, `{"namespace":["a"]}`,
		`{"accurate":1}`, `{"accurate":"true"}`, `[{"namespace":"a"}]`}
	badBodies = map[string][]string{
		"/api/dp/put": {`{"dp":[]}`, `{"dp":1}`, `{"dp":{"vec":["a"]}}`, `{"dp":{"vec":1}}`, `{"dp":{"vec":[1e999]}}`,
			`{"dp":{"payload":"%%%"}}`, `{"dp":{"payload":{}}}`, `{"dp":{"expires":"yesterday"}}`,
			`{"dp":{"vec":[1,2],"expires":1}}`, `{"dp":{"vec":[1,2],"expireEnabled":"no"}}`,
			`{"namespace":"a","dp":{"vec":[1,2]},"accurate":"x"}`},
		"/api/dp/query": {`{"queryVec":{}}`, `{"queryVec":["1"]}`, `{"queryVec":[1e999]}`, `{"n":1.5}`, `{"n":"1"}`,
			`{"n":99999999999999999999}`, `{"drain":"true"}`, `{"drain":1}`, `{"namespace":"a","queryVec":[1,2],"n":9,"drain":"x"}`},
	}
)

func (g *gen) badBody(path string) []byte {
	l := badJSON
	if g.rnd.Intn(2) == 0 {
		l = badBodies[path]
	}
	return []byte(l[g.rnd.Intn(len(l))])
}

func (g *gen) step() bool {
	total := 0
	for _, v := range g.p.weights {
		total += v
	}
	keys := []string{}
	for k := range g.p.weights {
		keys = append(keys, k)
	}
	sortStrings(keys)
	x := g.rnd.Intn(total)
	op := ""
	for _, k := range keys {
		if x < g.p.weights[k] {
			op = k
			break
		}
		x -= g.p.weights[k]
	}
	if g.faulty && g.rnd.Intn(5) == 0 {
		g.shuffleFaults()
	}
	if g.expires && g.rnd.Intn(12) == 0 {
		g.wait()
	}
	return g.run(op)
}

func (g *gen) run(op string) bool {
	r := g.rnd
	isCent := func(t target) bool { return t.node == nil && g.cents[t.ns] != nil }
	cmTarget := func() target {
		t := g.rich()
		for isCent(t) {
			t = g.rich()
		}
		return t
	}
	switch op {
	case "wait":
		if g.expires {
			g.wait()
		}
		return true
	case "add":
		t := g.target()
		id := 0
		if r.Intn(15) == 0 && len(g.dps) > 0 {
			// One which is not stored now.
			st := g.stored()
			i := r.Intn(len(g.dps)) + 1
			if !st[i] {
				id = i
			}
		}
		if id == 0 && g.p.kind == "http" && g.p.odd && r.Intn(10) == 0 {
			// JSON has no such values.
			if v := g.vec(); len(v) > 0 && r.Intn(2) == 0 {
				v[r.Intn(len(v))] = wildFloats[r.Intn(3)]
				id = g.mkDP(v, "never", 3)
			} else {
				id = g.mkDP(v, "year", 3)
			}
		}
		if id == 0 {
			id = g.newDP()
		}
		return g.opAdd(t, id)
	case "drainU", "drainO":
		t := g.rich()
		return g.opDrain(t, op == "drainO", g.amount(g.totalOf(t)))
	case "expire", "memtrim", "movevec":
		return g.opSimple(g.rich(), op)
	case "distint":
		t := cmTarget()
		return g.opDistInt(t, g.amount(g.totalOf(t)))
	case "knn":
		t := g.rich()
		return g.opKNN(t, g.query(), g.amount(g.totalOf(t)), r.Intn(4) == 0)
	case "nearc":
		t := cmTarget()
		return g.opNearC(t, g.query(), g.amount(3), r.Intn(4) == 0)
	case "nearv":
		return g.opNearV(g.rich(), g.query())
	case "vec":
		return g.opVec(g.rich())
	case "split", "merge":
		mn, mx := g.bounds()
		return g.opSplitMerge(cmTarget(), op, mn, mx)
	case "len":
		return g.opLen(g.target())
	case "nss":
		rs := g.real()
		return g.opNss(rs[r.Intn(len(rs))])
	case "meta":
		rs := g.real()
		return g.opMeta(rs[r.Intn(len(rs))])
	case "dist":
		t := g.rich()
		mode := []string{"fast", "accurate"}[r.Intn(2)]
		n := g.amount(g.totalOf(t))
		if g.p.slow && n > 2 {
			n = 1 + r.Intn(2)
		}
		cands := g.cands(true)
		if g.p.refuse { // long lists of others
			cands = nil
			for _, i := range r.Perm(len(g.nodes)) {
				if g.nodes[i] != t.node {
					cands = append(cands, g.nodes[i])
				}
			}
		}
		return g.opDist(t, mode, cands, n)
	case "steal":
		t := g.target()
		from := g.rich().node
		if r.Intn(12) == 0 {
			from = g.nodes[r.Intn(len(g.nodes))]
		}
		if from == t.node {
			from = g.nodes[r.Intn(len(g.nodes))]
		}
		if from == t.node && r.Intn(6) != 0 {
			return true
		}
		cut := -1
		if g.faulty && !from.down && !from.noadd && r.Intn(4) == 0 {
			cut = r.Intn(3)
		}
		limit := g.amount(g.totalOf(target{from, t.ns}))
		if g.p.slow && limit > 2 {
			limit = 2
		}
		return g.opSteal(t, from, limit, cut)
	case "put":
		return g.opPut([]string{"fast", "accurate", "rand"}[r.Intn(3)], g.target().ns, g.cands(true), g.newDP())
	case "query":
		return g.opQuery([]string{"fast", "accurate", "rand"}[r.Intn(3)], g.target().ns, g.cands(true), g.query(), g.amount(g.total()), r.Intn(4) == 0)
	case "rank":
		return g.opRank([]string{"fast", "accurate"}[r.Intn(2)], g.target().ns, g.cands(false), g.query())
	case "give":
		if !g.p.give {
			return true
		}
		t := g.rich()
		to := []string{}
		all := []string{}
		for k := range g.libs {
			all = append(all, k)
		}
		for k := range g.cents {
			all = append(all, k)
		}
		sortStrings(all)
		for _, k := range all {
			if k != t.ns && r.Intn(2) == 0 {
				to = append(to, k)
			}
		}
		var ref []float64
		if r.Intn(2) == 0 {
			ref = g.vec()
		}
		if ref != nil && r.Intn(3) == 0 {
			to = nil
		}
		return g.opGive(t, g.amount(g.totalOf(t)), to, ref)
	case "hput":
		return g.opHPut(g.target().ns, r.Intn(2) == 0, g.newDP(), g.nodes)
	case "hquery":
		q := g.query()
		if !finite(q) {
			q = make([]float64, len(q))
		}
		return g.opHQuery(g.target().ns, r.Intn(2) == 0, q, g.amount(g.total()), r.Intn(4) == 0, g.nodes)
	case "raw":
		rs := g.real()
		return g.opRaw(rs[r.Intn(len(rs))])
	case "hodd":
		return g.opHOdd()
	case "hbad":
		path := []string{"/api/dp/put", "/api/dp/query"}[r.Intn(2)]
		return g.opHBad(path, g.badBody(path))
	}
	fail("op %q", op)
	return false
}

func (g *gen) setup(profile string) {
	p, ok := profiles[profile]
	if !ok {
		fail("unknown profile %q", profile)
	}
	g.p = p
	r := g.rnd
	g.kind, g.odd = p.kind, p.odd
	pct := func(n int) bool { return r.Intn(100) < n }
	if pct(p.euc) {
		g.metric = "euc"
	}
	if pct(p.thr) {
		g.thr = []int{1, 2, 3, 4, 5, 7, 10}[r.Intn(7)]
	}
	g.dims = []int{1, 2, 2, 2, 3}[r.Intn(5)]
	if g.metric == "cos" && g.dims == 1 {
		g.dims = 2
	}
	if p.bulk > 0 && g.metric == "cos" {
		g.dims = []int{2, 3, 6}[r.Intn(3)]
	}
	if p.odd {
		g.dims = []int{1, 2, 5, 16, 100}[r.Intn(5)]
	}
	g.style = []string{"grid", "pos", "cluster", "wide", "wide", "tight"}[r.Intn(6)]
	for i := 0; i < 3; i++ {
		c := make([]float64, 6)
		for j := range c {
			c[j] = (r.Float64() - 0.5) * 8
		}
		g.centers = append(g.centers, c)
	}
	g.kinds = []int{1, 1, 2, 3}[r.Intn(4)]
	g.zero, g.mix, g.expires, g.faulty = pct(p.zero), pct(p.mixdims), pct(p.expiry), pct(p.faults)
	nns := 1 + r.Intn(p.maxNs)
	if nns > 1 && r.Intn(3) == 0 {
		// Names that are nearly the same.
		t := twins[r.Intn(len(twins))]
		for _, i := range r.Perm(len(t)) {
			if len(g.nss) < nns {
				g.nss = append(g.nss, t[i])
			}
		}
	}
	for i := len(g.nss); i < nns; i++ {
		ns := string(rune('a' + i))
		if r.Intn(4) == 0 {
			ns = oddNames[r.Intn(len(oddNames))]
		}
		g.nss = append(g.nss, ns)
	}
	switch p.kind {
	case "lib":
		for i := 0; i < nns; i++ {
			g.libs[fmt.Sprintf("s%d", i)] = g.newCM(g.vec())
		}
		if p.give {
			for i := 0; i < r.Intn(3); i++ {
				g.cents[fmt.Sprintf("c%d", i)] = g.newCentroid(g.vec())
			}
		}
	case "rpc":
		for i := 0; i < 1+r.Intn(2); i++ {
			g.addNode(fmt.Sprintf("n%d", i+1))
		}
	case "net":
		k := 2 + r.Intn(3)
		if p.many {
			k = 4 + r.Intn(5)
		}
		for i := 0; i < k; i++ {
			g.addNode(fmt.Sprintf("n%d", i+1))
		}
		if g.faulty && r.Intn(3) == 0 {
			g.addGhost("x1")
		}
		if g.p.wild && r.Intn(2) == 0 {
			g.addGhost("x2")
			g.node("x2").odd = &oddAddrs[r.Intn(len(oddAddrs))]
		}
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// body runs the steps of a scenario.
func (g *gen) body(o Opts) {
	if g.p.bulk > 0 {
		g.fill()
	}
	// The initial content (library stores, or what was left over).
	if !g.do(Step{"op": "init", "via": "none"}, func(Step) {}) {
		return
	}
	for i := 0; i < g.p.prefill; i++ {
		if !g.opAdd(g.target(), g.newDP()) {
			return
		}
	}
	end := time.Now().Add(time.Hour)
	if g.p.kind == "net" {
		end = g.delays(end)
	}
	for i := 0; i < o.Steps && time.Now().Before(end); i++ {
		if !g.step() {
			return
		}
	}
}

// fill stores many points, which are not recorded one by one.
func (g *gen) fill() {
	r := g.rnd
	k := g.p.bulk/3 + r.Intn(g.p.bulk)
	for i := 0; i < k; i++ {
		t, id := g.target(), g.newDP()
		d := g.dps[id-1]
		if t.node == nil {
			d.stored = g.libs[t.ns].AddDataPoint(d.dp)
		} else if !t.node.ghost {
			d.stored = t.node.cliDirect(t.ns, nil).AddDataPoint(d.dp)
		}
	}
	// Into groups of some size.
	size := []int{0, 2, 4, 8, 30, 1000}[r.Intn(6)]
	for i := 0; i < 8; i++ {
		for _, cm := range g.libs {
			cm.SplitCentroids(func(c *Centroid) bool { return c.LenDP() > size+i/2 })
		}
		for _, n := range g.nodes {
			for _, ns := range g.nss {
				if !n.ghost {
					n.cliDirect(ns, nil).SplitCentroids(size+i/2, 1000)
				}
			}
		}
		if r.Intn(3) == 0 {
			break
		}
	}
}

// delays lets nodes answer in any order, or slowly.
func (g *gen) delays(end time.Time) time.Time {
	if g.p.slow {
		end = time.Now().Add(6 * time.Second)
	} else if g.rnd.Intn(3) > 0 {
		return end
	}
	for i, n := range g.nodes {
		if n.ghost {
			continue
		}
		if g.p.slow && (g.rnd.Intn(2) == 0 || i == 0) {
			d := []time.Duration{60, 150, 400, 1100, 1800}[g.rnd.Intn(5)] * time.Millisecond
			n.proxy.setGate(func(string) { time.Sleep(d) })
		} else {
			d := time.Duration(g.rnd.Intn(3000)+1) * time.Microsecond
			n.proxy.setGate(func(string) { time.Sleep(d) })
		}
	}
	return end
}

func init() {
	drivers["ops"] = func(o Opts) {
		if profiles[o.Profile].kind == "http" {
			httpDriver(o)
			return
		}
		if profiles[o.Profile].slow {
			o.Workers = 60
		}
		scenarios(o, func(id int) []Step {
			g := &gen{World: newWorld(id, o.Seed)}
			g.setup(o.Profile)
			defer g.close()
			g.body(o)
			return []Step{g.trace()}
		})
	}
}
