package dsp

import (
	"math"
	"strings"

	"vstsim/core"
)

// P18: finite input gives finite, bounded output under any automation, and
// every call returns whatever the input is.

func init() {
	core.Register(&core.Check{
		ID: "P18", Quick: 80000, Thorough: 1600000,
		Rule:      "A host session on every processor form with automation storms: controls jump between extremes before every block (setters with documented limits also get values beyond them), at rates from 8 to 192 kHz, with full-scale, silent, impulse, denormal and switching signals. Every output sample must be finite and within the bound of the processor. A last part feeds NaN, infinite and huge samples: every call must still return (a loop budget decides). Non-trivial: at least five control changes.",
		StateRule: "distinct (processor, rate, signal, operation sequence with block sizes)",
		Real:      realPkgs(),
		Stub:      []string{"host (blocks, automation, input signal)", "math/rand (seeded stand-in that also returns extreme values)"},
		Assume:    []string{"the coefficients of the direct-form biquad change only at rest (no bound holds while they jump)", "controls without documented limits stay in the ranges of the table in sim/dsp/procs.go", "the bound of a processor is its largest steady gain in that range, or a stated offset where it saturates"},
		Must:      []string{"out-of-range", "non-finite", "random-extremes", "wild-control"},
		Gen: func(g *core.R, i int) *core.Case {
			p := drawProc(g, i, nil)
			c, sr := baseCase(g, p, 192000)
			if g.Chance(0.05) && !strings.HasPrefix(p.name, "distortion.T") { // far beyond full scale, but finite (the curves of tube and tape are polynomials)
				c.SetF("amp", g.PickF(1e4, 1e8, 1e15))
				if p.f64 && g.Chance(0.5) {
					c.SetF("amp", g.PickF(1e30, 1e100, 1e200, 1e300))
				}
			}
			s := p.make(sr)
			total, block := drawSpan(g, g.Pick(200, 1000, 4000), g.Pick(16, 64, 512))
			a := drawOps(g, s, total, block, true)
			var ops []core.Op
			storm := g.Pick(0, 1, 4)
			for _, o := range a {
				for k := storm; k > 0 && len(s.sets) > 0; k-- {
					ops = append(ops, drawSet(g, s))
				}
				ops = append(ops, o)
			}
			if g.Chance(0.5) {
				for k := g.Range(1, 3); k > 0; k-- {
					if len(s.sets) > 0 && g.Chance(0.4) {
						o := drawSet(g, s)
						o.K, o.F[0] = "wild", core.X(g.PickF(1e3, 1e9, 1e30, 1e300, -1e3, -1e9, -1e30, 0, 1e-30, math.Inf(1), math.Inf(-1)))
						ops = append(ops, o, core.Op{K: "run", I: []int64{int64(g.Range(1, 100)), 0}})
					}
					ops = append(ops, core.Op{K: "poison", I: []int64{int64(g.Pick(1, 2, 30)), int64(g.N(6)), int64(g.N(4))}},
						core.Op{K: "run", I: []int64{int64(g.Range(1, 100)), 0}})
				}
			}
			c.Set("extremes", int64(g.Pick(0, 0, 2, 10)))
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP18,
	})
}

func execP18(c *core.Case, r *core.Rec) {
	var q sess
	q.cfg(c)
	r.Comp(q.p.name)
	ops := c.Threads[0]
	r.State(q.shape(ops))
	changes, total := 0, 0
	s := q.build()
	limits := map[string]setting{}
	for _, x := range s.sets {
		limits[x.name] = x
	}
	srandExtremes(int(c.Cfg["extremes"]))
	defer srandExtremes(0)
	if c.Cfg["extremes"] > 0 {
		r.Probe("random-extremes")
		r.Fault("random-source-extremes")
	}
	in := q.input()
	// A recursive filter in direct form has no bound that holds while its
	// coefficients jump: its controls change only at rest.
	quiet, ran := strings.HasPrefix(q.p.name, "filter.Biquad"), false
	poisoned := false
	peak := 0.0
	outs := make([][]float64, q.p.nout)
	for _, o := range ops {
		switch o.K {
		case "set":
			if quiet && ran {
				continue
			}
			changes++
			r.Fault("automation")
			if l := limits[o.S]; l.disc == 0 && (o.Flt(0) < l.lo || o.Flt(0) > l.hi) {
				r.Probe("out-of-range")
				r.Fault("out-of-range-control")
			}
			s.apply(o)
			continue
		case "wild": // a control far from anything sensible: calls still return
			if k := int(o.Int(0)); k < len(s.sets) && s.sets[k].disc == 0 && !s.sets[k].arg {
				poisoned = true
				r.Probe("wild-control")
				r.Fault("wild-control")
				s.sets[k].fn(o.Flt(0))
			}
			continue
		case "run", "poison":
		default:
			r.Fault(o.K)
			s.apply(o)
			if o.K == "reset" {
				ran = false
			}
			continue
		}
		n := int(o.Int(0))
		ran = true
		total += n
		x := in.take(n)
		if o.K == "poison" {
			kind := int(o.Int(1))
			r.Fault([]string{"nan", "plus-inf", "minus-inf", "non-finite-mix", "huge", "denormal"}[kind])
			r.Probe("non-finite")
			poisoned = true
			for ch := range x {
				if o.Int(2) == 3 || int64(ch) == o.Int(2)%int64(len(x)) {
					for i := range x[ch] {
						x[ch][i] = poisonVal(kind, i)
					}
				}
			}
		}
		for ch := range x {
			if m := maxAbs(x[ch]); m > peak {
				peak = m
			}
		}
		for ch := range outs {
			outs[ch] = outs[ch][:0]
		}
		s.runBlock(x, q.p.nout, n, o.K == "run" && o.Int(1) == 1, outs)
		r.Eval()
		if s.bad != "" {
			r.Fail("memory", q.p.name, "%s: %s", q.p.name, s.bad)
			return
		}
		bound := (q.p.gain*peak+q.p.off)*1.0001 + 1e-30
		for ch := range outs {
			m := maxAbs(outs[ch])
			r.ObserveF(m)
			if poisoned {
				continue
			}
			for i, v := range outs[ch] {
				if math.IsNaN(v) || math.IsInf(v, 0) {
					r.Fail("non-finite", q.p.name, "%s at %g Hz: sample %d of a block on channel %d is %v for finite input", q.p.name, q.sr, i, ch, v)
					return
				}
				if math.Abs(v) > bound {
					r.Fail("unbounded", q.p.name, "%s at %g Hz: |%.6g| leaves the bound %.6g (input peak %.4g) after %d control changes", q.p.name, q.sr, v, bound, peak, changes)
					return
				}
			}
			if q.p.gain*peak+q.p.off > 0 && RatioHook != nil {
				RatioHook(q.p.name, m/bound)
			}
		}
	}
	r.NonTriv = changes >= 5
	r.SimNs += float64(total) / q.sr * 1e9
}

// RatioHook observes how much of the bound is used (development aid).
var RatioHook func(name string, ratio float64)
