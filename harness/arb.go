package main

// Arbitration (pkg/arbiter): members behind real servers, sequences of session
// operations with the time they took place at, elections, and the helpers.

import (
	"errors"
	"fmt"
	"math/rand"
	"time"

	narb "github.com/crunchypi/go-narb/apsa/rpc"
	"trypo/pkg/arbiter"
)

func init() { drivers["arb"] = arbDriver }

type arbWorld struct {
	r     *rand.Rand
	names []string
	addr  map[string]arbiter.Addr
	name  map[arbiter.Addr]string
	srv   map[string]*arbiter.ArbiterServer
	stop  map[string]func()
	t     time.Time
	steps []Step
}

func (w *arbWorld) ms() int { return int(time.Since(w.t) / time.Millisecond) }

func (w *arbWorld) timed(s Step, f func() Step) Step {
	s["t0"] = w.ms()
	for k, v := range f() {
		s[k] = v
	}
	s["t1"] = w.ms() + 1
	w.steps = append(w.steps, s)
	return s
}

func (w *arbWorld) addrs(names []string) []arbiter.Addr {
	res := []arbiter.Addr{}
	for _, n := range names {
		res = append(res, w.addr[n])
	}
	return res
}

func (w *arbWorld) nm(a arbiter.Addr) string {
	if (a == arbiter.Addr{}) {
		return ""
	}
	if n, ok := w.name[a]; ok {
		return n
	}
	return "?" + a.ToStr()
}

func (w *arbWorld) start(m string) {
	if w.stop[m] != nil {
		return
	}
	stop, err := narb.StartListen(w.srv[m], w.addr[m])
	if err != nil {
		fail("arbiter server: %v", err)
	}
	w.stop[m] = stop
}

func (w *arbWorld) halt(m string) {
	if w.stop[m] != nil {
		w.stop[m]()
		w.stop[m] = nil
	}
}

func (w *arbWorld) some(of []string, p float64) []string {
	res := []string{}
	for _, i := range w.r.Perm(len(of)) {
		if w.r.Float64() < p {
			res = append(res, of[i])
		}
	}
	return res
}

func (w *arbWorld) errStep(e map[arbiter.Addr]error) {
	items := []Step{}
	for a, err := range e {
		items = append(items, Step{"a": w.nm(a), "e": fmt.Sprint(err)})
	}
	ae := arbiter.ArbErrs(e)
	a, err := ae.CheckAll()
	w.steps = append(w.steps, Step{"op": "errs", "items": items, "ra": w.nm(a), "re": fmt.Sprint(err)})
}

func (w *arbWorld) statStep(s map[arbiter.Addr]arbiter.StatusCode, sc arbiter.StatusCode) {
	items := []Step{}
	for a, x := range s {
		items = append(items, Step{"a": w.nm(a), "s": int(x)})
	}
	as := arbiter.ArbStats(s)
	w.steps = append(w.steps, Step{"op": "stats", "items": items, "sc": int(sc), "res": as.UniformStatus(sc)})
}

func arbDriver(o Opts) { scenarios(o, func(id int) []Step { return arbScenario(o, id) }) }

func arbScenario(o Opts, id int) []Step {
	w := &arbWorld{r: rand.New(rand.NewSource(o.Seed*104729 + int64(id))), addr: map[string]arbiter.Addr{},
		name: map[arbiter.Addr]string{}, srv: map[string]*arbiter.ArbiterServer{}, stop: map[string]func(){}, t: time.Now()}
	r := w.r
	n := 1 + r.Intn(4)
	all := []string{}
	reg := func(m string) {
		a := freeAddr()
		i := len(a) - 1
		for a[i] != ':' {
			i--
		}
		w.addr[m] = arbiter.Addr{IP: a[:i], Port: a[i+1:]}
		w.name[w.addr[m]] = m
		all = append(all, m)
	}
	for i := 0; i < n; i++ {
		reg(fmt.Sprintf("m%d", i+1))
	}
	members := append([]string{}, all...)
	reg("x1") // nobody
	reg("x2")
	odd := o.Profile == "odd"
	for _, m := range members {
		white := members
		if odd || r.Intn(4) == 0 {
			white = w.some(all, 0.75)
		}
		ms := []int{0, 25, 60, 3000, 60000, 3600000, 86400000}
		s, a := ms[r.Intn(len(ms))], ms[r.Intn(len(ms))]
		if o.Profile == "elect" {
			s, a = ms[3+r.Intn(4)], ms[3+r.Intn(4)]
		}
		w.srv[m] = arbiter.NewArbiterServer(arbiter.NewSessionMemberConfig{LocalAddr: w.addr[m], Whitelist: w.addrs(white),
			SessionDuration: time.Duration(s) * time.Millisecond, ArbiterDuration: time.Duration(a) * time.Millisecond})
		w.start(m)
		w.steps = append(w.steps, Step{"op": "member", "m": m, "white": white, "sess": s, "arb": a})
	}
	defer func() {
		for _, m := range members {
			w.halt(m)
		}
	}()
	if o.Profile == "elect" {
		for i := 0; i < o.Steps/4+1; i++ {
			w.elect(members, all)
		}
	} else {
		for len(w.steps) < o.Steps {
			w.step(members, all)
		}
	}
	return []Step{{"id": id, "seed": o.Seed, "steps": w.steps}}
}

func (w *arbWorld) initS(m, id string, opts []string) {
	w.timed(Step{"op": "init", "m": m, "id": id, "opts": opts}, func() Step {
		return Step{"status": int(narb.ArbiterClient(w.addr[m], nil).InitSession(narb.ID(id), w.addrs(opts)))}
	})
}

func (w *arbWorld) vote(m, id string) {
	w.timed(Step{"op": "vote", "m": m, "id": id}, func() Step {
		a, _, s := narb.ArbiterClient(w.addr[m], nil).Vote(narb.ID(id))
		return Step{"status": int(s), "vote": w.nm(a)}
	})
}

func (w *arbWorld) collect(m, id string, opts []string) {
	w.timed(Step{"op": "collect", "m": m, "id": id, "opts": opts}, func() Step {
		return Step{"status": int(narb.ArbiterClient(w.addr[m], nil).CollectVotes(narb.ID(id), w.addrs(opts)))}
	})
}

func (w *arbWorld) arbiter(m string) {
	w.timed(Step{"op": "arbiter", "m": m}, func() Step {
		x := narb.ArbiterClient(w.addr[m], nil).Arbiter()
		e := 0
		if !x.Expiration.IsZero() {
			e = int(x.Expiration.Sub(w.t) / time.Millisecond)
		}
		return Step{"status": int(x.Status), "addr": w.nm(x.Addr), "exp": e}
	})
}

func (w *arbWorld) step(members, all []string) {
	r := w.r
	m := members[r.Intn(len(members))]
	id := []string{"A", "B", "C", "A", "A", ""}[r.Intn(6)]
	opts := members
	if r.Intn(5) == 0 {
		opts = w.some(all, 0.6)
	}
	if len(opts) == 0 {
		opts = members
	}
	switch r.Intn(12) {
	case 0, 1: // a session as it is meant to be
		one := []string{members[r.Intn(len(members))]}
		if r.Intn(2) == 0 {
			one = members
		}
		for _, x := range members {
			w.initS(x, id, one)
		}
		if r.Intn(3) > 0 {
			for _, x := range members {
				w.vote(x, id)
			}
		}
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(70)) * time.Millisecond)
		}
		for _, x := range members {
			w.collect(x, id, one)
		}
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(70)) * time.Millisecond)
		}
		for _, x := range members {
			w.arbiter(x)
		}
	case 2, 3:
		w.initS(m, id, opts)
	case 4:
		w.vote(m, id)
	case 5, 6:
		w.collect(m, id, opts)
	case 7:
		w.arbiter(m)
	case 8:
		time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
	case 9:
		up := w.stop[m] == nil
		if up {
			w.start(m)
		} else {
			w.halt(m)
		}
		w.steps = append(w.steps, Step{"op": "reach", "m": m, "up": up})
	case 10:
		e := map[arbiter.Addr]error{}
		for _, x := range w.some(all, 0.7) {
			e[w.addr[x]] = nil
			if r.Intn(4) == 0 {
				e[w.addr[x]] = errors.New("e-" + x)
			}
		}
		w.errStep(e)
	case 11:
		s := map[arbiter.Addr]arbiter.StatusCode{}
		sc := arbiter.StatusCode(r.Intn(11))
		for _, x := range w.some(all, 0.7) {
			s[w.addr[x]] = sc
			if r.Intn(5) == 0 {
				s[w.addr[x]] = arbiter.StatusCode(r.Intn(11))
			}
		}
		w.statStep(s, sc)
	}
}

// elect lets a client organise an election.
func (w *arbWorld) elect(members, all []string) {
	r := w.r
	if r.Intn(5) == 0 {
		m := members[r.Intn(len(members))]
		up := w.stop[m] == nil
		if up {
			w.start(m)
		} else {
			w.halt(m)
		}
		w.steps = append(w.steps, Step{"op": "reach", "m": m, "up": up})
	}
	ms := members
	if r.Intn(4) == 0 {
		ms = w.some(all, 0.7)
	}
	if len(ms) == 0 {
		ms = members
	}
	e, s := arbiter.ArbErrs{}, arbiter.ArbStats{}
	ok := arbiter.ArbiterClients(w.addrs(ms), e, s).TryForceNewArbiter(1 + r.Intn(30))
	arbs := []Step{}
	for _, m := range members {
		x := narb.ArbiterClient(w.addr[m], nil).Arbiter()
		arbs = append(arbs, Step{"m": m, "status": int(x.Status), "addr": w.nm(x.Addr)})
	}
	a, err := e.CheckAll()
	w.steps = append(w.steps, Step{"op": "elect", "opts": ms, "ok": ok, "arbs": arbs, "ea": w.nm(a), "e": err != nil,
		"us": s.UniformStatus(9)})
	w.errStep(e)
	w.statStep(s, 9)
}
