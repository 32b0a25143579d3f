package main

// Driver "script": replays sequences of operations which TLC derived from the
// state graph of the design specification (Store.tla), see bin/check.py.
//
// The first line of the input describes the instance (nodes, threshold, points
// and query vectors of the specification), each other line is a script: pre
// are the operations by which a state is reached, ops those to try there. What
// is recorded is the state after pre, and each of ops.

import (
	"bufio"
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"time"
)

type scriptHead struct {
	Nodes []string `json:"nodes"`
	Thr   int      `json:"thr"`
	Pts   [][]int  `json:"pts"`
	Qs    [][]int  `json:"qs"`
}
type script struct {
	Pre [][]any `json:"pre"`
	Ops [][]any `json:"ops"`
	Seq bool    `json:"seq"` // record pre, too
}

const scriptUnit = 3600.0

type player struct {
	*World
	head  scriptHead
	deads []time.Time
	ids   []int // of the points of the specification
	vr    int
	noise map[int][]float64
	mixed bool
	pre   bool // the state is still to be reached
}

// vec maps a vector of the specification. key: points of the specification
// with the same vector stay together.
func (p *player) vec(x []int) []float64 {
	r := make([]float64, len(x))
	for i, c := range x {
		r[i] = float64(c) / scriptUnit
	}
	switch {
	case p.vr == 1 && !p.mixed && len(x) == 1: // directions
		a := 0.15 + 0.3*r[0]
		l := 0.5 + float64(x[0]%7)/2
		return []float64{l * math.Cos(a), l * math.Sin(a)}
	case p.vr == 1:
		for i := range r {
			r[i]++
		}
	case p.vr == 2: // nothing is exactly as near as something else
		for i := range r {
			r[i] += (p.rnd.Float64() - 0.5) * 0.2
		}
	}
	return r
}

func num(x any) int { return int(x.(float64)) }

func (p *player) cands(x any) []*Node {
	r := []*Node{}
	for _, n := range x.([]any) {
		r = append(r, p.node(n.(string)))
	}
	return r
}

func (p *player) play(op []any) bool {
	name := op[0].(string)
	switch name {
	case "die":
		p.sleepTo(p.deads[0])
		p.deads = p.deads[1:]
		return true
	case "down", "up":
		n := p.node(op[1].(string))
		n.down = name == "down"
		if n.down {
			n.proxy.down()
		} else {
			n.proxy.up()
		}
		return true
	case "put":
		id := p.ids[num(op[2])-1]
		if p.stored()[id] { // The execution took another way.
			return true
		}
		if at := op[3].([]any); p.pre && op[1] == "rand" && len(at) == 1 {
			return p.opAdd(target{p.node(at[0].(string)), "n"}, id)
		}
		return p.opPut(op[1].(string), "n", p.nodes, p.ids[num(op[2])-1])
	case "query":
		return p.opQuery(op[1].(string), "n", p.nodes, p.vec(p.head.Qs[num(op[2])-1]), num(op[3]), num(op[4]) == 1)
	}
	t := target{nil, "n"}
	if n := op[1].(string); n != "-" {
		t.node = p.node(n)
	}
	switch name {
	case "add":
		if p.stored()[p.ids[num(op[2])-1]] {
			return true
		}
		return p.opAdd(t, p.ids[num(op[2])-1])
	case "drainU", "drainO":
		return p.opDrain(t, name == "drainO", num(op[2]))
	case "expire", "memtrim", "movevec":
		return p.opSimple(t, name)
	case "distint":
		return p.opDistInt(t, num(op[2]))
	case "knn":
		return p.opKNN(t, p.vec(p.head.Qs[num(op[2])-1]), num(op[3]), num(op[4]) == 1)
	case "nearc":
		return p.opNearC(t, p.vec(p.head.Qs[num(op[2])-1]), num(op[3]), num(op[4]) == 1)
	case "split", "merge":
		return p.opSplitMerge(t, name, num(op[2]), num(op[3]))
	case "dist":
		return p.opDist(t, op[2].(string), p.cands(op[4]), num(op[3]))
	case "steal":
		return p.opSteal(t, p.node(op[2].(string)), num(op[3]), -1)
	}
	fail("script operation %q", name)
	return false
}

func (p *player) sleepTo(t time.Time) {
	time.Sleep(time.Until(t.Add(4 * time.Millisecond)))
}

func playScript(id int, o Opts, head scriptHead, sc script) []Step {
	w := newWorld(id, o.Seed)
	p := &player{World: w, head: head, vr: rand.New(rand.NewSource(o.Seed*7919 + int64(id))).Intn(3)}
	for _, x := range head.Pts {
		p.mixed = p.mixed || len(x) != len(head.Pts[0])
	}
	w.kind, w.thr = "script", head.Thr
	w.metric = "euc"
	if p.vr == 1 || len(head.Nodes) > 0 { // nodes compare directions when they redistribute
		w.metric, p.vr = "cos", 1
	}
	w.dims = len(p.vec(head.Pts[0]))
	gap := 25 * time.Millisecond
	for _, n := range head.Nodes {
		w.addNode(n)
		gap = 80 * time.Millisecond
	}
	if len(head.Nodes) == 0 {
		w.libs["n"] = w.newCM(make([]float64, w.dims))
	}
	defer w.close()
	// When points expire.
	at := map[int]time.Time{}
	start := time.Now().Round(0)
	for _, op := range append(append([][]any{}, sc.Pre...), sc.Ops...) {
		if op[0] == "die" {
			t := start.Add(gap * time.Duration(len(p.deads)+1))
			at[num(op[1])] = t
			p.deads = append(p.deads, t)
		}
	}
	for i, x := range head.Pts {
		cls := []string{"never", "far", "offpast"}[w.rnd.Intn(3)]
		pid := w.mkDP(p.vec(x), cls, w.rnd.Intn(4))
		if t, ok := at[i+1]; ok {
			w.setDeadline(pid, t)
		}
		p.ids = append(p.ids, pid)
	}
	ok := w.do(Step{"op": "init"}, func(Step) {})
	p.pre = true
	for _, op := range sc.Pre {
		ok = ok && p.play(op)
	}
	if ok && !sc.Seq {
		w.steps, w.last = nil, map[string]string{}
		w.do(Step{"op": "init"}, func(Step) {})
	}
	p.pre = false
	for _, op := range sc.Ops {
		ok = ok && p.play(op)
	}
	return []Step{w.trace()}
}

func init() {
	drivers["script"] = func(o Opts) {
		f, err := os.Open(o.In)
		if err != nil {
			fail("%v", err)
		}
		defer f.Close()
		in := bufio.NewScanner(f)
		in.Buffer(nil, 1<<24)
		var head scriptHead
		scs := []script{}
		for in.Scan() {
			if len(head.Pts) == 0 {
				err = json.Unmarshal(in.Bytes(), &head)
			} else {
				var s script
				err = json.Unmarshal(in.Bytes(), &s)
				scs = append(scs, s)
			}
			if err != nil {
				fail("%v", err)
			}
		}
		o.N = len(scs)
		if o.Workers = 64; len(head.Nodes) > 0 {
			o.Workers = 24
		}
		scenarios(o, func(id int) []Step { return playScript(id, o, head, scs[id]) })
	}
}
