package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	netrpc "net/rpc"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"trypo/pkg/arbiter"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

type Addr = arbiter.Addr
type CM = centroidmanager.CentroidManager
type Centroid = centroid.Centroid
type Step = map[string]any
type knnF = func([]float64, func() ([]float64, bool), int) []int

// DPInfo describes a datapoint of a scenario for the specification.
type DPInfo struct {
	X   []int  `json:"x"`
	U   []int  `json:"u"`
	Ok  bool   `json:"ok"`
	In  bool   `json:"in"`
	Js  bool   `json:"js"` // JSON has such values
	Cls string `json:"cls"`
	dp  DataPoint
	tok string
	// Moment it expires, zero if never.
	deadline time.Time
	stored   bool // an insert was attempted
}

type G struct {
	V V     `json:"v"`
	D []int `json:"d"`
}
type Snap struct {
	St   string `json:"st"`
	Node string `json:"node"`
	Ns   string `json:"ns"`
	Kind string `json:"kind"` // cm or cent
	V    V      `json:"v"`
	G    []G    `json:"g"`
}
type Bad struct {
	Id    int    `json:"id"`
	Where string `json:"where"`
}

type Node struct {
	name  string
	srv   *rpc.KMeansServer
	addr  string // real one
	proxy *Proxy
	stop  func()
	down  bool
	noadd bool
	ghost bool  // never existed
	odd   *Addr // not an address at all
}

// pub is the address that clients and other nodes use.
func (n *Node) pub() Addr {
	if n.odd != nil {
		return *n.odd
	}
	h, p, _ := net.SplitHostPort(n.proxy.addr)
	return Addr{IP: h, Port: p}
}

type World struct {
	id     int
	seed   int64
	rnd    *rand.Rand
	kind   string
	metric string
	thr    int
	dims   int
	nodes  []*Node
	libs   map[string]*CM
	cents  map[string]*Centroid
	dps    []*DPInfo
	byVec  map[string][]int
	steps  []Step
	last   map[string]string // store -> json of last snapshot
	lastS  map[string]Snap
	bad    []Bad
	dead   bool // scenario ended early
	odd    bool
}

func searchFuncs(metric string) (knnF, knnF) {
	if metric == "euc" {
		return searchutils.KNNEuc, searchutils.KFNEuc
	}
	return searchutils.KNNCos, searchutils.KFNCos
}

func newWorld(id int, seed int64) *World {
	return &World{id: id, seed: seed, rnd: rand.New(rand.NewSource(seed*1000003 + int64(id))),
		metric: "cos", libs: map[string]*CM{}, cents: map[string]*Centroid{},
		byVec: map[string][]int{}, last: map[string]string{}, lastS: map[string]Snap{}}
}

func (w *World) newCM(vec []float64) *CM {
	kn, kf := searchFuncs(w.metric)
	cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: vec, InitCap: 3, CentroidDPThreshold: w.thr, KNNSearchFunc: kn, KFNSearchFunc: kf,
	})
	if !ok {
		fail("NewCentroidManager refused")
	}
	return &cm
}

func (w *World) newCentroid(vec []float64) *Centroid {
	kn, kf := searchFuncs(w.metric)
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: vec, InitCap: 3, KNNSearchFunc: kn, KFNSearchFunc: kf})
	if !ok {
		fail("NewCentroid refused")
	}
	return &c
}

func (w *World) addNode(name string) *Node { return w.addNodeF(name, w.newCM) }

func (w *World) addNodeF(name string, factory func([]float64) *CM) *Node {
	n := &Node{name: name}
	var err error
	for i := 0; i < 20; i++ {
		n.addr = freeAddr()
		n.srv = rpc.NewKMeansServer(n.addr, factory)
		if n.stop, err = rpc.StartListen(n.srv); err == nil {
			break
		}
	}
	if err != nil {
		fail("StartListen: %v", err)
	}
	n.proxy = newProxy(n.addr)
	w.nodes = append(w.nodes, n)
	return n
}

func (w *World) node(name string) *Node {
	for _, n := range w.nodes {
		if n.name == name {
			return n
		}
	}
	fail("no node %q", name)
	return nil
}

// addGhost adds an address where nothing listens.
func (w *World) addGhost(name string) {
	w.nodes = append(w.nodes, &Node{name: name, ghost: true, down: true, proxy: &Proxy{addr: freeAddr()}})
}

func (w *World) close() {
	for _, n := range w.nodes {
		if !n.ghost {
			n.proxy.down()
			n.stop()
		}
	}
}

// --- datapoints ---

var pastT = time.Date(2001, 2, 3, 4, 5, 6, 789, time.UTC)

// ancient gives times that have passed long ago.
func ancient(k, id int) time.Time {
	switch k {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0).UTC()
	case 2:
		return time.Date(1500, 1, 2, 3, 4, 5, id, time.UTC)
	}
	return time.Date(1969, 12, 31, 23, 59, 59, id, time.FixedZone("Y", -3600*7))
}

// mkDP registers a datapoint. cls: never, offpast, offfut, far, past, soon.
func (w *World) mkDP(vec []float64, cls string, pay int) int {
	id := len(w.dps) + 1
	dp := DataPoint{Vec: vec}
	inf := &DPInfo{Cls: cls}
	switch cls {
	case "never":
	case "offpast":
		dp.Expires = pastT.Add(time.Duration(id) * time.Second)
		if w.rnd.Intn(3) == 0 {
			dp.Expires = ancient(w.rnd.Intn(4), id)
		}
	case "offfut":
		dp.Expires = time.Now().Add(time.Hour * 30).Round(0)
	case "far":
		dp.Expires, dp.ExpireEnabled = time.Now().Add(time.Hour+time.Duration(id)*time.Nanosecond).Round(0), true
		switch w.rnd.Intn(6) {
		case 0, 1:
			dp.Expires = dp.Expires.In(time.FixedZone("X", 3600*5+1800))
		case 2: // Beyond what 64 bits of ns (and 32 bits of s) can tell.
			y := []int{2039, 2107, 2263, 2300, 3000, 9999}[w.rnd.Intn(6)]
			dp.Expires = time.Date(y, 1, 2, 3, 4, 5, id, time.UTC)
		}
	case "year":
		dp.Expires, dp.ExpireEnabled = time.Date(12000, 1, 1, 0, 0, 0, id, time.UTC), w.rnd.Intn(2) == 0
	case "past":
		dp.Expires, dp.ExpireEnabled = pastT.Add(time.Duration(id)*time.Second), true
		switch w.rnd.Intn(4) {
		case 0, 1: // recently
			dp.Expires = time.Now().Add(-time.Duration(5+w.rnd.Intn(50)) * time.Millisecond).Round(0)
		case 2:
			dp.Expires = ancient(w.rnd.Intn(4), id)
		}
		inf.deadline = dp.Expires
		if inf.deadline.IsZero() { // The zero time is as past as any other.
			inf.deadline = inf.deadline.Add(1)
		}
	case "soon":
		dp.Expires, dp.ExpireEnabled = time.Now().Add(time.Duration(20+w.rnd.Intn(200))*time.Millisecond).Round(0), true
		inf.deadline = dp.Expires
	default:
		fail("cls %q", cls)
	}
	// pay: size of payload after the id; -1: none (identified by its vector then).
	k := vecKey(vec)
	if pay < 0 && len(w.byVec[k]) > 0 {
		pay = 0
	}
	if pay >= 0 {
		b := []byte(fmt.Sprintf("#%d#", id))
		for i := 0; i < pay; i++ {
			b = append(b, byte(w.rnd.Intn(256)))
		}
		dp.Payload = b
	}
	w.byVec[k] = append(w.byVec[k], id)
	e := encV(vec)
	inf.X, inf.U, inf.Ok, inf.In = e.X, e.U, e.Ok, e.In
	_, jerr := json.Marshal(hdp{dp.Vec, dp.Payload, dp.Expires, dp.ExpireEnabled})
	inf.Js = jerr == nil
	inf.dp, inf.tok = dp, tok(dp)
	w.dps = append(w.dps, inf)
	return id
}

func payID(p []byte) int {
	if len(p) < 3 || p[0] != '#' {
		return 0
	}
	for i := 1; i < len(p) && i < 8; i++ {
		if p[i] == '#' {
			n, err := strconv.Atoi(string(p[1:i]))
			if err != nil {
				return 0
			}
			return n
		}
	}
	return 0
}

// ident finds the id of a datapoint, and notes if its content is not the
// original one. 0: unknown.
func (w *World) ident(dp DataPoint, where string) int {
	id := payID(dp.Payload)
	if id < 1 || id > len(w.dps) {
		id = 0
		for _, c := range w.byVec[vecKey(dp.Vec)] {
			if id == 0 || tok(dp) == w.dps[c-1].tok {
				id = c
			}
		}
	}
	if id == 0 {
		w.bad = append(w.bad, Bad{0, where})
		return 0
	}
	if tok(dp) != w.dps[id-1].tok {
		w.bad = append(w.bad, Bad{id, where})
	}
	return id
}

func (w *World) idents(dps []DataPoint, where string) []int {
	r := make([]int, 0, len(dps))
	for _, dp := range dps {
		r = append(r, w.ident(dp, where))
	}
	return r
}

// --- snapshots ---

func (w *World) snapCentroid(c *Centroid, where string) G {
	return G{V: encV(c.Vec()), D: w.idents(c.DataPoints, where)}
}

func (w *World) snapAll() map[string]Snap {
	res := map[string]Snap{}
	snap := func(node, ns string, cm *CM) {
		st := node + "/" + ns
		s := Snap{St: st, Node: node, Ns: ns, Kind: "cm", V: encV(cm.Vec()), G: []G{}}
		for _, c := range cm.Centroids {
			s.G = append(s.G, w.snapCentroid(c, "stored"))
		}
		res[st] = s
	}
	for _, n := range w.nodes {
		if n.ghost {
			continue
		}
		for _, ns := range n.srv.Table.Namespaces() {
			n.srv.Table.Access(ns, func(cm *CM) { snap(n.name, ns, cm) })
		}
	}
	for ns, cm := range w.libs {
		snap("-", ns, cm)
	}
	for ns, c := range w.cents {
		g := w.snapCentroid(c, "stored")
		st := "-/" + ns
		res[st] = Snap{St: st, Node: "-", Ns: ns, Kind: "cent", V: g.V, G: []G{g}}
	}
	return res
}

func (w *World) stored() map[int]bool {
	r := map[int]bool{}
	for _, s := range w.lastS {
		for _, g := range s.G {
			for _, id := range g.D {
				r[id] = true
			}
		}
	}
	return r
}

func (w *World) clock(lo, hi time.Time) (dead, fuzzy []int) {
	dead, fuzzy = []int{}, []int{}
	const m = 3 * time.Millisecond
	for i, d := range w.dps {
		if d.deadline.IsZero() {
			continue
		}
		if d.deadline.Add(m).Before(lo) {
			dead = append(dead, i+1)
		} else if d.deadline.Add(-m).Before(hi) {
			fuzzy = append(fuzzy, i+1)
		}
	}
	return
}

func errStr(err error) string {
	if err == nil {
		return "none"
	}
	if strings.Contains(strings.ToLower(err.Error()), "namespace") {
		return "ns"
	}
	var ne net.Error
	var op *net.OpError
	if errors.As(err, &ne) || errors.As(err, &op) || errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, netrpc.ErrShutdown) {
		return "net"
	}
	return "other: " + err.Error()
}

const opTimeout = 60 * time.Second

// do runs one operation and records it. Returns false if the scenario can not
// go on.
func (w *World) do(s Step, f func(s Step)) bool {
	if w.dead {
		return false
	}
	base := Step{"err": "none", "via": "lib", "node": "-", "ns": "", "st": "",
		"id": 0, "q": V{X: []int{}, U: []int{}}, "n": 0, "drain": false, "mn": 0, "mx": 0,
		"mode": "", "cands": []string{}, "from": "", "valid": true, "thr": w.thr,
		"out": []int{}, "groups": [][]int{}, "vec": V{X: []int{}, U: []int{}},
		"ok": false, "rn": 0, "names": []string{}, "meta": []Step{}, "status": 0,
		"noadd": []string{}, "cut": false, "dups": false, "recv": []string{}}
	for k, v := range base {
		if _, ok := s[k]; !ok {
			s[k] = v
		}
	}
	w.bad = []Bad{}
	down, noadd := []string{}, []string{}
	for _, n := range w.nodes {
		if n.down {
			down = append(down, n.name)
		} else if n.noadd {
			noadd = append(noadd, n.name)
		}
	}
	s["down"], s["noadd"] = down, noadd
	lo := time.Now()
	done := make(chan string, 1)
	go func() {
		msg := ""
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				msg = fmt.Sprintf("%v", r)
				if !strings.Contains(st, "/repo/") {
					fail("panic in harness: %v\n%s", r, st)
				}
			}
			done <- msg
		}()
		f(s)
	}()
	hang := time.AfterFunc(opTimeout, func() { hung(w.id, fmt.Sprint(s["op"])) })
	defer hang.Stop()
	if msg := <-done; msg != "" {
		s["err"] = "panic"
		s["msg"] = msg
		w.dead = true
	}
	hi := time.Now()
	s["dead"], s["fuzzy"] = w.clock(lo, hi)
	w.finish(s)
	return !w.dead
}

// hung ends the process because something did not complete.
func hung(id int, what string) {
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	fmt.Fprintf(os.Stderr, "HARNESS-HANG: scenario %d %s\n%s\n", id, what, b)
	os.Exit(4)
}

// finish adds the changes of the stores to a step.
func (w *World) finish(s Step) {
	post, drop := []Snap{}, []string{}
	if s["err"] != "panic" {
		cur := w.snapAll()
		names := []string{}
		for st := range cur {
			names = append(names, st)
		}
		sort.Strings(names)
		last := map[string]string{}
		for _, st := range names {
			b, _ := json.Marshal(cur[st])
			last[st] = string(b)
			if w.last[st] != string(b) {
				post = append(post, cur[st])
			}
		}
		for st := range w.last {
			if _, ok := last[st]; !ok {
				drop = append(drop, st)
			}
		}
		w.last, w.lastS = last, cur
	}
	s["post"], s["drop"] = post, drop
	s["bad"] = w.bad
	w.steps = append(w.steps, s)
}

func (w *World) trace() Step {
	names := []string{}
	for _, n := range w.nodes {
		names = append(names, n.name)
	}
	dps := w.dps
	if dps == nil {
		dps = []*DPInfo{}
	}
	return Step{"id": w.id, "seed": w.seed, "kind": w.kind, "metric": w.metric, "thr": w.thr, "odd": w.odd,
		"nodes": names, "dps": dps, "steps": w.steps}
}

// --- output ---

type Writer struct {
	sync.Mutex
	f *os.File
	b *bufio.Writer
}

func newWriter(path string) *Writer {
	f, err := os.Create(path)
	if err != nil {
		fail("%v", err)
	}
	return &Writer{f: f, b: bufio.NewWriterSize(f, 1<<20)}
}

// ascii escapes all other characters of JSON text, so that it means the same in
// every locale.
func ascii(b []byte) []byte {
	plain := true
	for _, c := range b {
		plain = plain && c < 0x80
	}
	if plain {
		return b
	}
	r := make([]byte, 0, len(b)+100)
	for _, c := range string(b) {
		switch {
		case c < 0x80:
			r = append(r, byte(c))
		case c >= 0x10000:
			c1, c2 := utf16.EncodeRune(c)
			r = append(r, fmt.Sprintf("\\u%04x\\u%04x", c1, c2)...)
		default:
			r = append(r, fmt.Sprintf("\\u%04x", c)...)
		}
	}
	return r
}

func (o *Writer) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fail("marshal: %v", err)
	}
	b = ascii(b)
	o.Lock()
	defer o.Unlock()
	o.b.Write(b)
	o.b.WriteByte('\n')
}

func (o *Writer) close() { o.b.Flush(); o.f.Close() }

// scenarios runs f for each scenario, several at a time, and writes the traces
// in order.
func scenarios(o Opts, f func(id int) []Step) {
	out := newWriter(o.Out)
	ids := []int{}
	for i := 0; i < o.N; i++ {
		if o.Only < 0 || o.Only == i {
			ids = append(ids, i)
		}
	}
	res := make([][]Step, len(ids))
	var wg sync.WaitGroup
	sem := make(chan bool, o.Workers)
	for k, id := range ids {
		wg.Add(1)
		sem <- true
		go func(k, id int) {
			defer wg.Done()
			defer func() { <-sem }()
			// Lets a post-mortem of a crashed process know what was running.
			fmt.Fprintf(os.Stderr, "RUN %d\n", id)
			res[k] = f(id)
			fmt.Fprintf(os.Stderr, "END %d\n", id)
		}(k, id)
	}
	wg.Wait()
	for _, ts := range res {
		for _, t := range ts {
			out.put(t)
		}
	}
	out.close()
}

// setDeadline makes a datapoint (that was not used yet) expire at t.
func (w *World) setDeadline(id int, t time.Time) {
	d := w.dps[id-1]
	d.dp.Expires, d.dp.ExpireEnabled = t, true
	d.Cls, d.deadline, d.tok = "soon", t, tok(d.dp)
}
