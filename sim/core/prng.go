// Package core is the simulation harness: seeds, cases, runs, minimisation,
// replay and evidence.
package core

import "math"

// R is the only source of random choices of the harness.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a value in [0, n).
func (r *R) N(n int) int {
	if n <= 1 {
		r.U64()
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a, b].
func (r *R) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *R) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *R) Chance(p float64) bool { return r.F() < p }

// FR returns a value in [a, b).
func (r *R) FR(a, b float64) float64 { return a + (b-a)*r.F() }

// LogR returns a value in [a, b) with a logarithmic distribution (a > 0).
func (r *R) LogR(a, b float64) float64 { return a * math.Exp(r.F()*math.Log(b/a)) }

func (r *R) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *R) PickS(xs ...string) string { return xs[r.N(len(xs))] }

func (r *R) PickF(xs ...float64) float64 { return xs[r.N(len(xs))] }

// Fork derives an independent stream.
func (r *R) Fork() *R { return NewR(r.U64()) }

// HashS hashes a string.
func HashS(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix(h)
}

// HashU folds v into h.
func HashU(h, v uint64) uint64 { return mix(h ^ (v + 0x9e3779b97f4a7c15 + h<<6)) }
