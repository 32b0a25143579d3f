package main

// Encoding of values of the code under test into trace values. Vectors become
// integers (x: thousandths, u: unit direction in ten-thousandths) so that the
// TLA+ specification can do arithmetic on them; everything that is only ever
// compared for equality becomes a token.

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"time"

	"trypo/pkg/kmeans/common"
)

type DataPoint = common.DataPoint

// V is a vector in a trace. Fin: it is finite. In: x is in the range that the
// specification can calculate with. Ok: x and u are meaningful (a vector that
// is almost zero has a direction, but not one that can be told from x).
type V struct {
	X   []int `json:"x"`
	U   []int `json:"u"`
	Ok  bool  `json:"ok"`
	In  bool  `json:"in"`
	Fin bool  `json:"fin"`
}

// Larger values would overflow the arithmetic of TLC (32 bits).
const (
	maxCoord = 5
	maxDims  = 16
)

func encV(v []float64) V {
	r := V{X: make([]int, len(v)), U: make([]int, len(v)), Fin: finite(v)}
	if !r.Fin || len(v) > maxDims || len(v) == 0 { // No dimensions: can't be told from no vector.
		return r
	}
	n := 0.0
	for _, c := range v {
		if math.Abs(c) > maxCoord {
			return r
		}
		n += c * c
	}
	n = math.Sqrt(n)
	r.In, r.Ok = true, n == 0 || n > 1e-6
	for i, c := range v {
		r.X[i] = int(math.Round(c * 1000))
		if n > 1e-6 {
			r.U[i] = int(math.Round(c / n * 10000))
		}
	}
	return r
}

// encN cuts amounts to the range of the specification.
func encN(n int) int {
	const m = 1000000000
	if n > m {
		return m
	} else if n < -m {
		return -m
	}
	return n
}

func finite(v []float64) bool {
	for _, c := range v {
		if math.IsNaN(c) || math.IsInf(c, 0) {
			return false
		}
	}
	return true
}

func tokTime(t time.Time) string {
	if t.IsZero() {
		return "zero"
	}
	return fmt.Sprint(t.Unix(), ".", t.Nanosecond())
}

// tok identifies the complete content of a datapoint (nil and empty slices are
// not told apart, neither encoding in the system does).
func tok(dp DataPoint) string {
	h := sha256.New()
	for _, c := range dp.Vec {
		fmt.Fprintf(h, "%016x,", math.Float64bits(c))
	}
	fmt.Fprintf(h, "|%d|", len(dp.Payload))
	h.Write(dp.Payload)
	fmt.Fprintf(h, "|%s|%v", tokTime(dp.Expires), dp.ExpireEnabled)
	return hex.EncodeToString(h.Sum(nil)[:6])
}

func vecKey(v []float64) string {
	s := ""
	for _, c := range v {
		s += fmt.Sprintf("%016x,", math.Float64bits(c))
	}
	return s
}
