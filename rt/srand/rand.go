// Package rand stands in for math/rand under simulation: the package-level
// generator is seeded from the run's seed.
package rand

import (
	mr "math/rand"

	"vstrt/rt"
)

type (
	Rand     = mr.Rand
	Source   = mr.Source
	Source64 = mr.Source64
	Zipf     = mr.Zipf
)

// Every simulated task draws from a stream of its own, so that a task's
// random numbers do not depend on the schedule; stream 0 is the harness's.
const streams = 64

var state [streams]uint64

// Extremes makes every draw of the package-level generator and of the sources
// made afterwards an extreme value (0 or the largest) with probability 1/n; 0
// switches this off.
var extremes uint64

// fixed, when fixing, is what every draw returns.
var fixing bool
var fixed uint64

// Fix makes every Float64 draw return v (0 <= v < 1); a negative v switches
// this off.
func Fix(v float64) {
	fixing = v >= 0
	if fixing {
		fixed = uint64(v*(1<<53)) << 11
	}
}

func step(s *uint64) uint64 {
	if fixing {
		return fixed
	}
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	if extremes != 0 && (z>>7)%extremes == 0 {
		if z&64 == 0 {
			return 0
		}
		return ^uint64(0)
	}
	return z
}

type taskSource struct{}

//go:norace
func (taskSource) Uint64() uint64 { return step(&state[(rt.CurTask()+1)%streams]) }

//go:norace
func (s taskSource) Int63() int64 { return int64(s.Uint64() >> 1) }

//go:norace
func (taskSource) Seed(n int64) { SeedTask(rt.CurTask(), n) }

// SeedTask starts the stream of a task anew.
//
//go:norace
func SeedTask(task int, n int64) { state[(task+1)%streams] = uint64(n) * 0x2545f4914f6cdd1d }

// Extremes: see above.
func Extremes(n int) { extremes = uint64(n) }

var g = mr.New(taskSource{})

func init() {
	rt.OnReset(func(seed uint64) {
		extremes = 0
		fixing = false
		for k := range state {
			SeedTask(k-1, int64(seed)+int64(k)*0x632be59b)
		}
	})
}

// ownSource is what NewSource returns.
type ownSource struct{ s uint64 }

func (o *ownSource) Uint64() uint64 { return step(&o.s) }
func (o *ownSource) Int63() int64   { return int64(o.Uint64() >> 1) }
func (o *ownSource) Seed(n int64)   { o.s = uint64(n) * 0x2545f4914f6cdd1d }

func New(s Source) *Rand                                       { return mr.New(s) }
func NewSource(seed int64) Source                              { o := &ownSource{}; o.Seed(seed); return o }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf { return mr.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                          { SeedTask(rt.CurTask(), seed) }
func Int63() int64                                             { return g.Int63() }
func Uint32() uint32                                           { return g.Uint32() }
func Uint64() uint64                                           { return g.Uint64() }
func Int31() int32                                             { return g.Int31() }
func Int() int                                                 { return g.Int() }
func Int63n(n int64) int64                                     { return g.Int63n(n) }
func Int31n(n int32) int32                                     { return g.Int31n(n) }
func Intn(n int) int                                           { return g.Intn(n) }
func Float64() float64                                         { return g.Float64() }
func Float32() float32                                         { return g.Float32() }
func Perm(n int) []int                                         { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))                       { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)                               { return g.Read(p) }
func NormFloat64() float64                                     { return g.NormFloat64() }
func ExpFloat64() float64                                      { return g.ExpFloat64() }
