package main

// Driver of the searches (pkg/searchutils) and of the scores they are based on.
// Vectors have small integer coordinates, which the specification compares
// exactly; the code gets them multiplied by a power of two (exact as well).

import (
	"errors"
	"fmt"
	"math"
	"math/rand"

	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

func init() { drivers["search"] = searchDriver }

var searchFns = map[string]knnF{
	"knncos": searchutils.KNNCos, "kfncos": searchutils.KFNCos,
	"knneuc": searchutils.KNNEuc, "kfneuc": searchutils.KFNEuc,
}
var searchNames = []string{"knncos", "kfncos", "knneuc", "kfneuc"}

func scaled(v []int, f float64) []float64 {
	r := make([]float64, len(v))
	for i, c := range v {
		r[i] = float64(c) * f
	}
	return r
}

func poolGen(pool [][]float64) func() ([]float64, bool) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(pool) {
			return nil, false
		}
		i++
		return pool[i-1], true
	}
}

// protect turns a panic into a reply, if it is one of the code under test.
func protect(s Step, f func()) {
	s["err"] = "none"
	defer func() {
		if r := recover(); r != nil {
			s["err"], s["msg"] = "panic", fmt.Sprint(r)
		}
	}()
	f()
}

func searchStep(fn string, q []int, pool [][]int, k int, conv func([]int) []float64) Step {
	s := Step{"op": "knn", "fn": fn, "q": q, "pool": pool, "k": k, "out": []int{}, "mut": false}
	fq, fp := conv(q), make([][]float64, len(pool))
	cq, cp := append([]float64{}, fq...), make([][]float64, len(pool))
	for i, v := range pool {
		fp[i] = conv(v)
		cp[i] = append([]float64{}, fp[i]...)
	}
	protect(s, func() { s["out"] = append([]int{}, searchFns[fn](fq, poolGen(fp), k)...) })
	for i := range pool {
		s["mut"] = s["mut"].(bool) || !mathutils.VecEq(fp[i], cp[i])
	}
	s["mut"] = s["mut"].(bool) || !mathutils.VecEq(fq, cq)
	return s
}

func plain(v []int) []float64 { return scaled(v, 1) }

// drawConv draws how vectors are given to the code. No choice changes the order
// of the scores: all vectors may be multiplied, those that are compared by
// their directions each by a number of its own, and those that are compared by
// distance may be moved.
func drawConv(fn string, r *rand.Rand) func([]int) []float64 {
	f := powTwo(r)
	if r.Intn(3) > 0 {
		return func(v []int) []float64 { return scaled(v, f) }
	}
	if fn == "knncos" || fn == "kfncos" {
		return func(v []int) []float64 { return scaled(v, powTwo(r)*powTwo(r)) }
	}
	off := []float64{}
	for i := 0; i < 8; i++ {
		off = append(off, math.Ldexp(float64(r.Intn(9)-4), 10+r.Intn(35)))
	}
	return func(v []int) []float64 {
		w := scaled(v, 1)
		for i := range w {
			w[i] = (w[i] + off[i%len(off)]) * f
		}
		return w
	}
}

// oddStep: vectors that the specification does not calculate with; only the
// lengths are known to it.
func oddStep(fn string, q []float64, pool [][]float64, k int) Step {
	lens := []int{}
	for _, v := range pool {
		lens = append(lens, len(v))
	}
	s := Step{"op": "odd", "fn": fn, "q": len(q), "pool": lens, "k": k, "out": []int{}}
	protect(s, func() { s["out"] = append([]int{}, searchFns[fn](q, poolGen(pool), k)...) })
	return s
}

// bruteStep: the general search, with scores given by a table. -1: the vector
// cannot be compared.
func bruteStep(scores []int, k int, asc bool) Step {
	s := Step{"op": "brute", "scores": scores, "k": k, "asc": asc, "out": []int{}}
	pool := make([][]float64, len(scores))
	for i := range pool {
		pool[i] = []float64{float64(i)}
	}
	protect(s, func() {
		s["out"] = append([]int{}, searchutils.KNNBrute(searchutils.KNNBruteArgs{
			TargetVec: []float64{-1}, VecPoolGenerator: poolGen(pool), K: k, Ascending: asc,
			DistFunc: func(a, b []float64) (float64, error) {
				v := b
				if len(v) == 1 && v[0] == -1 {
					v = a
				}
				x := scores[int(v[0])]
				if x < 0 {
					return 0, errors.New("no score")
				}
				return float64(x - 1), nil
			}})...)
	})
	return s
}

func scoreStep(fn string, a, b []int, f float64) Step {
	s := Step{"op": "score", "fn": fn, "a": a, "b": b, "r": 0, "sc": 100}
	norm := 1
	for _, v := range [][]int{a, b} {
		n := 0
		for _, c := range v {
			n += c * c
		}
		norm *= n
	}
	if norm <= 2000 || fn == "euc" {
		s["sc"] = 1000
	}
	protect(s, func() {
		var x float64
		var err error
		if fn == "euc" {
			x, err = mathutils.EuclideanDistance(scaled(a, f), scaled(b, f))
			x /= f
		} else {
			x, err = mathutils.CosineSimilarity(scaled(a, f), scaled(b, f))
		}
		if err != nil {
			s["err"] = "err"
			return
		}
		x *= float64(s["sc"].(int))
		if math.IsNaN(x) || math.Abs(x) > 60000 {
			s["err"] = "range"
			return
		}
		s["r"] = int(math.Round(x))
	})
	return s
}

func powTwo(r *rand.Rand) float64 {
	return math.Ldexp(1, []int{0, 0, 0, -20, 20, -200, 200, 3}[r.Intn(8)])
}

func searchDriver(o Opts) {
	letters := [][]int{{}, {0, 0}, {1, 0}, {0, 1}, {-1, 0}, {1, 1}, {2, 0}, {1}}
	targets := [][]int{{1, 0}, {0, 0}, {1, 1}, {-1, 2}, {3}, {}}
	scenarios(o, func(id int) []Step {
		r := rand.New(rand.NewSource(o.Seed*7919 + int64(id)))
		steps := []Step{}
		switch o.Profile {
		case "small":
			// All pools of up to three vectors whose last one is letters[id].
			if id > len(letters) {
				return nil
			}
			pools := [][][]int{{}}
			if id < len(letters) {
				l := letters[id]
				pools = [][][]int{{l}}
				for _, a := range letters {
					pools = append(pools, [][]int{a, l})
					for _, b := range letters {
						pools = append(pools, [][]int{a, b, l})
					}
				}
			}
			for _, p := range pools {
				for _, q := range targets {
					for _, fn := range searchNames {
						for k := -1; k <= 4; k++ {
							if len(p) == 3 && r.Intn(3) > 0 {
								continue
							}
							steps = append(steps, searchStep(fn, q, p, k, plain))
						}
					}
				}
			}
		case "brute":
			// All pools with up to o.Steps scores of {none, 0, 1, 2}.
			if id >= 4 {
				return nil
			}
			var rec func(sc []int)
			rec = func(sc []int) {
				for _, asc := range []bool{true, false} {
					for k := 0; k <= len(sc)+1; k++ {
						steps = append(steps, bruteStep(append([]int{}, sc...), k, asc))
					}
				}
				if len(sc) == o.Steps {
					return
				}
				for x := -1; x <= 2; x++ {
					rec(append(sc, x))
				}
			}
			rec([]int{id - 1})
		case "score":
			for i := 0; i < o.Steps; i++ {
				d := r.Intn(5)
				m := 1 + r.Intn(9)
				vec := func(d int) []int {
					v := make([]int, d)
					for j := range v {
						if r.Intn(8) > 0 {
							v[j] = r.Intn(2*m+1) - m
						}
					}
					return v
				}
				a, b := vec(d), vec(d)
				switch r.Intn(10) {
				case 0:
					b = vec(r.Intn(5))
				case 1:
					b = make([]int, d)
				case 2:
					for j := range b {
						b[j] = -a[j]
					}
				}
				fn := "euc"
				if r.Intn(2) == 0 {
					fn = "cos"
				}
				steps = append(steps, scoreStep(fn, a, b, powTwo(r)))
			}
		case "large":
			for i := 0; i < o.Steps; i++ {
				d, m, n := 1+r.Intn(8), 1+r.Intn(3), 20+r.Intn(100)
				vec := func() []int {
					v := make([]int, d)
					if r.Intn(30) == 0 {
						v = make([]int, 1+r.Intn(8))
					}
					for j := range v {
						v[j] = r.Intn(2*m+1) - m
					}
					return v
				}
				q, pool := vec(), [][]int{}
				for len(pool) < n {
					pool = append(pool, vec())
				}
				fn := searchNames[r.Intn(4)]
				steps = append(steps, searchStep(fn, q, pool, []int{1, 2, 9, r.Intn(n), n - 1, n, n + 5}[r.Intn(7)], drawConv(fn, r)))
			}
		case "random":
			for i := 0; i < o.Steps; i++ {
				d := 1 + r.Intn(4)
				m := 1 + r.Intn(9)
				vec := func() []int {
					n := d
					if r.Intn(9) == 0 {
						n = r.Intn(6)
					}
					v := make([]int, n)
					if r.Intn(9) > 0 {
						for j := range v {
							v[j] = r.Intn(2*m+1) - m
						}
					}
					return v
				}
				q, pool := vec(), [][]int{}
				for j := r.Intn(13); j > 0; j-- {
					if len(pool) > 0 && r.Intn(5) == 0 { // the same one again, or its direction
						v, f := pool[r.Intn(len(pool))], 1-r.Intn(3)
						w := make([]int, len(v))
						for x := range v {
							w[x] = v[x] * f
						}
						pool = append(pool, w)
						continue
					}
					pool = append(pool, vec())
				}
				k := r.Intn(15)
				switch r.Intn(20) {
				case 0:
					k = -r.Intn(5)
				case 1:
					k = math.MaxInt32
				}
				fn := searchNames[r.Intn(4)]
				steps = append(steps, searchStep(fn, q, pool, k, drawConv(fn, r)))
			}
		case "odd":
			vals := []float64{0, 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e200, -1e200, math.MaxFloat64,
				-math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-200}
			for i := 0; i < o.Steps; i++ {
				vec := func() []float64 {
					v := make([]float64, []int{2, 2, 2, 2, 1, 3, 0}[r.Intn(7)])
					for j := range v {
						v[j] = vals[r.Intn(len(vals))]
					}
					return v
				}
				pool := [][]float64{}
				for j := r.Intn(7); j > 0; j-- {
					pool = append(pool, vec())
				}
				steps = append(steps, oddStep(searchNames[r.Intn(4)], vec(), pool, r.Intn(8)-1))
			}
		default:
			fail("profile %q", o.Profile)
		}
		// Short traces, so that several workers can validate them.
		ts := []Step{}
		for i := 0; i < len(steps); i += 400 {
			ts = append(ts, Step{"id": id, "seed": o.Seed, "steps": steps[i:min(i+400, len(steps))]})
		}
		return ts
	})
}
