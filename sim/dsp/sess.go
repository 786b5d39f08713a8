package dsp

import (
	"math"
	"sort"
	"strings"

	srand "vstrt/srand"
	"vstsim/core"
)

// A session: how a host drives one processor. Operations:
//
//	run  n          process the next n frames (n may be 0)
//	set  k, v       change control k
//	ev   k          trigger, release, sync, ...
//	reset           Reset
//	poison n, kind  n frames of non-finite input
type sess struct {
	p    *proc
	sr   float64
	sig  int
	seed uint64
	amp  float64
}

func (q *sess) cfg(c *core.Case) {
	q.p = procByName(c.CfgS["proc"])
	q.sr = float64(c.CfgF["sr"])
	q.sig = int(c.Cfg["sig"])
	q.seed = uint64(c.Cfg["sigseed"])
	q.amp = float64(c.CfgF["amp"])
}

// drawProc picks a processor (round robin over the table, so that every tier
// covers all of them evenly).
func drawProc(g *core.R, i int, ok func(*proc) bool) *proc {
	var l []*proc
	for _, p := range procs {
		if ok == nil || ok(p) {
			l = append(l, p)
		}
	}
	_ = g.U64()
	return l[i%len(l)]
}

func baseCase(g *core.R, p *proc, maxRate float64) (*core.Case, float64) {
	c := &core.Case{}
	c.SetS("proc", p.name)
	sr := g.PickF(rates...)
	for sr > maxRate {
		sr = g.PickF(rates...)
	}
	c.SetF("sr", sr)
	c.Set("sig", int64(g.N(sigKinds)))
	c.Set("sigseed", int64(g.U64()>>1))
	c.SetF("amp", g.PickF(1, 1, 0.5, 0.1, 0.001, 1.9))
	return c, sr
}

// drawSpan makes one session in thirty long, with large blocks.
func drawSpan(g *core.R, total, block int) (int, int) {
	if g.Chance(0.033) {
		return g.Pick(9000, 20000, 50000), g.Pick(512, 8192, 16384)
	}
	return total, block
}

func drawBlock(g *core.R, max int) int {
	var n int
	switch g.N(8) {
	case 0:
		n = g.Pick(0, 0, 1, 1, 2, 3)
	case 1:
		if max > 1024 {
			n = g.Pick(1024, 2048, 4096, 8191, 8192, 8193, 16384)
		} else {
			n = g.Pick(16, 32, 64, 128, 256, 512, 1024)
		}
	case 2:
		n = g.Pick(15, 17, 31, 33, 63, 65, 127, 129)
	default:
		n = g.Range(1, 200)
	}
	if n > max {
		n = max
	}
	return n
}

func drawSet(g *core.R, s *stream) core.Op {
	k := g.N(len(s.sets))
	return core.Op{K: "set", S: s.sets[k].name, I: []int64{int64(k)}, F: []core.X{core.X(s.sets[k].draw(g))}}
}

func drawEv(g *core.R, s *stream) core.Op {
	k := g.N(len(s.evs))
	return core.Op{K: "ev", S: s.evs[k].name, I: []int64{int64(k)}}
}

// drawOps builds a session of about total frames.
func drawOps(g *core.R, s *stream, total, maxBlock int, resets bool) []core.Op {
	var ops []core.Op
	for k := g.N(4); k > 0 && len(s.sets) > 0; k-- {
		ops = append(ops, drawSet(g, s))
	}
	if len(s.evs) > 0 && g.Chance(0.8) {
		ops = append(ops, core.Op{K: "ev", S: s.evs[0].name, I: []int64{0}})
	}
	busy := g.Pick(1, 3, 8)
	for total > 0 {
		n := drawBlock(g, maxBlock)
		if n > total {
			n = total
		}
		total -= n
		if n == 0 {
			total--
		}
		ops = append(ops, core.Op{K: "run", I: []int64{int64(n), int64(g.N(2))}})
		if g.N(busy) == 0 {
			for k := g.Pick(1, 1, 1, 2, 4); k > 0; k-- {
				if len(s.evs) > 0 && g.Chance(0.4) {
					ops = append(ops, drawEv(g, s))
				} else if len(s.sets) > 0 {
					ops = append(ops, drawSet(g, s))
				}
			}
		}
		if resets && s.reset != nil && g.Chance(0.04) {
			ops = append(ops, core.Op{K: "reset"})
		}
	}
	return ops
}

// apply performs an operation other than run.
func (s *stream) apply(o core.Op) {
	k := int(o.Int(0))
	switch o.K {
	case "set":
		if k < len(s.sets) {
			s.sets[k].fn(o.Flt(0))
		}
	case "ev":
		if k < len(s.evs) {
			s.evs[k].fn()
		}
	case "reset":
		if s.reset != nil {
			s.reset()
		}
	}
}

// input is what the host feeds: nin channels, deterministic.
type input struct {
	g    []*sigGen
	nin  int
	same bool
}

func (q *sess) input() *input {
	in := &input{nin: q.p.nin}
	for c := 0; c < q.p.nin; c++ {
		in.g = append(in.g, newSig((q.sig+c*5)%sigKinds, q.seed+uint64(c)*977, q.amp))
	}
	return in
}

func (in *input) take(n int) [][]float64 {
	out := make([][]float64, in.nin)
	for c := range out {
		out[c] = make([]float64, n)
		for i := range out[c] {
			if in.same && c > 0 {
				out[c][i] = out[0][i]
				continue
			}
			out[c][i] = in.g[c].next()
		}
	}
	return out
}

// runBlock processes one block and appends to outs.
func (s *stream) runBlock(x [][]float64, nout, n int, inplace bool, outs [][]float64) {
	o := make([][]float64, nout)
	for c := range o {
		o[c] = make([]float64, n)
	}
	s.block(x, o, inplace)
	for c := range o {
		outs[c] = append(outs[c], o[c]...)
	}
}

func (s *stream) runFrames(x [][]float64, nout, n int, outs [][]float64) {
	fi, fo := make([]float64, len(x)), make([]float64, nout)
	for i := 0; i < n; i++ {
		for c := range x {
			fi[c] = x[c][i]
		}
		s.frame(fi, fo)
		for c := range fo {
			outs[c] = append(outs[c], fo[c])
		}
	}
}

func (q *sess) build() *stream {
	srand.Seed(int64(q.seed >> 3))
	return q.p.make(q.sr)
}

// play runs a session. mode 0: blocks as listed; 1: frame by frame;
// 2: every listed block cut again at seeded places.
func (q *sess) play(ops []core.Op, mode int) (outs [][]float64, bad string) {
	s := q.build()
	in := q.input()
	outs = make([][]float64, q.p.nout)
	cut := core.NewR(q.seed ^ 0xc07)
	for _, o := range ops {
		if o.K != "run" {
			s.apply(o)
			continue
		}
		n := int(o.Int(0))
		x := in.take(n)
		switch mode {
		case 0:
			s.runBlock(x, q.p.nout, n, o.Int(1) == 1, outs)
		case 1:
			s.runFrames(x, q.p.nout, n, outs)
		default:
			for at := 0; at < n; {
				m := cut.Range(1, n-at)
				y := make([][]float64, len(x))
				for c := range x {
					y[c] = x[c][at : at+m]
				}
				s.runBlock(y, q.p.nout, m, cut.Chance(0.5), outs)
				at += m
			}
		}
	}
	return outs, s.bad
}

// diff compares two recordings: index of the first sample that differs.
func diff(a, b [][]float64, tol float64) (c, i int, ok bool) {
	for c := range a {
		peak := 0.01
		for i := range a[c] {
			x, y := a[c][i], b[c][i]
			if v := math.Abs(x); v > peak && !math.IsInf(v, 0) {
				peak = v
			}
			if x == y || (x != x && y != y) {
				continue
			}
			if !(math.Abs(x-y) <= tol*peak) {
				return c, i, false
			}
		}
	}
	return 0, 0, true
}

func maxAbs(a []float64) float64 {
	m := 0.0
	for _, v := range a {
		if v < 0 {
			v = -v
		}
		if v > m {
			m = v
		}
	}
	return m
}

// shape is a coarse hash of a session: processor, rate, which operations.
func (q *sess) shape(ops []core.Op) uint64 {
	h := core.HashS(q.p.name)
	h = core.HashU(h, uint64(q.sr))
	h = core.HashU(h, uint64(q.sig))
	for _, o := range ops {
		h = core.HashU(h, core.HashS(o.K+o.S))
		if o.K == "run" {
			h = core.HashU(h, uint64(o.Int(0)))
		}
	}
	return h
}

func pkgOf(p *proc) string {
	if strings.HasPrefix(p.name, "chain.") {
		return "pkg/framework/dsp"
	}
	return "pkg/dsp/" + p.name[:strings.Index(p.name, ".")]
}

func realPkgs() []string {
	m := map[string]bool{}
	for _, p := range procs {
		m[pkgOf(p)] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func srandExtremes(n int) { srand.Extremes(n) }
