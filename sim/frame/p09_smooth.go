package frame

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// P09: a smoothed value moves monotonically to its target, arrives within a
// bounded number of samples and then stays there.

type smoothRef struct {
	kind      int
	rate      float64 // ramp length in samples, or pole
	slow      float64 // slowest rate since the target was set
	threshold float64
	fast      float64 // fastest rate since the target was set
	maxStep   float64 // largest legal change per sample (linear), of the logarithm (logarithmic)
	start     float64
	target    float64
	since     int // samples since the target was set
	bound     int // samples allowed
}

// samplesFor bounds the time from distance d for the rate.
func samplesFor(kind int, rate, d, threshold float64) int {
	switch kind {
	case 1:
		if rate <= 0 {
			return 1
		}
		if d <= threshold {
			return 1
		}
		return int(math.Ceil(math.Log(threshold/d)/math.Log(rate)*1.01)) + 3
	default:
		return int(math.Ceil(rate*1.02)) + 3
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P09", Quick: 171000, Thorough: 3420000,
		Rule:      "A host session drives a smoother, a smoothed parameter, a set of smoothed parameters or the DSP smoother: target changes (mid-ramp, back to the current value, tiny, repeated), rate changes, resets, enabling and disabling, sample-rate changes, at seeded sample positions of a simulated sample clock. After every tick the value must lie between the value at the last change and the target, never move away from it, and arrive within the bound computed from the rate. Non-trivial: a target change while a ramp was running.",
		StateRule: "distinct (component, smoothing type, operation sequence) shapes",
		Real:      []string{"pkg/framework/param.Smoother", "pkg/framework/param.SmoothedParameter", "pkg/framework/param.ParameterSmoother", "pkg/dsp/utility.SmoothParameter"},
		Stub:      []string{"host (sample clock, automation)"},
		Assume:    []string{"exponential rates lie in [0,1), logarithmic smoothing is used for values >= 0, thresholds are positive", "one thread drives a smoother"},
		Must:      []string{"mid-ramp", "settled", "disabled-change", "log-floor", "zero-rate", "creep", "process", "threshold"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			comp := g.Pick(0, 0, 0, 1, 1, 2, 3)
			c.Set("comp", int64(comp))
			kind := g.N(3)
			c.Set("kind", int64(kind))
			long := i%50 == 3 // ramps of half a second and more
			rate := func() float64 {
				if long {
					if kind == 1 {
						return 0.9999
					}
					return g.PickF(4096, 24000, 48000.5)
				}
				if kind == 1 {
					return g.PickF(0, 0.5, 0.9, 0.99, 0.999)
				}
				return g.PickF(0, 1, 2, 7, 64, 441, 1000.5)
			}
			c.SetF("rate", rate())
			lo, hi := -60.0, 12.0
			if kind == 2 {
				lo, hi = g.PickF(0, 0.0001, 20), 20000
				if g.Chance(0.2) {
					lo, hi = 0, 0.002
				}
			} else if g.Chance(0.3) {
				lo, hi = 0, 1
			}
			c.SetF("lo", lo)
			c.SetF("hi", hi)
			if comp == 0 && g.Chance(0.3) {
				c.SetF("thr", g.PickF(1e-6, 1e-5, 0.001, 0.01))
			}
			if comp == 3 {
				c.SetF("time", g.PickF(0, 0.001, 0.005))
			}
			var ops []core.Op
			val := func() float64 {
				switch g.N(6) {
				case 0:
					return lo
				case 1:
					return hi
				case 2:
					return lo + (hi-lo)*float64(g.N(5))/4
				default:
					return lo + (hi-lo)*g.F()
				}
			}
			for k := g.Range(2, 10); k > 0; k-- {
				switch g.N(14) {
				case 13:
					ops = append(ops, core.Op{K: "proc", I: []int64{int64(g.Pick(0, 1, 64, 512))}})
				case 12:
					// slow automation: many changes, each too small to matter by itself
					ops = append(ops, core.Op{K: "creep", F: []core.X{core.X(g.PickF(0.00001, 0.00003, 0.00009, 0.00011) * g.PickF(1, -1))}, I: []int64{int64(g.N(3)), int64(g.Pick(20, 100, 300)), int64(g.Pick(0, 1, 3))}})
				case 0, 1, 2, 3:
					ops = append(ops, core.Op{K: "set", F: []core.X{core.X(val())}, I: []int64{int64(g.N(3))}})
				case 4:
					ops = append(ops, core.Op{K: "back", F: []core.X{core.X(g.PickF(0, 0, 1e-13, -1e-9, 1e-5))}, I: []int64{int64(g.N(3))}})
				case 5:
					ops = append(ops, core.Op{K: "reset", F: []core.X{core.X(val())}, I: []int64{int64(g.N(3))}})
				case 6:
					ops = append(ops, core.Op{K: "rate", F: []core.X{core.X(rate())}, I: []int64{int64(g.N(3))}})
				case 7:
					ops = append(ops, core.Op{K: "enable", I: []int64{int64(g.N(3)), int64(g.N(2))}})
				case 8:
					ops = append(ops, core.Op{K: "settle"})
				case 9:
					ops = append(ops, core.Op{K: "srate", F: []core.X{core.X(g.PickF(8000, 44100, 192000)), core.X(g.PickF(0, 0.1, 2))}, I: []int64{int64(g.N(3))}})
				default:
				}
				if !g.Chance(0.15) {
					ops = append(ops, core.Op{K: "tick", I: []int64{int64(g.Pick(1, 1, 2, 5, 30, 200))}})
				}
			}
			ops = append(ops, core.Op{K: "settle"})
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP09,
	})
}

// smoothUnit adapts the four components.
type smoothUnit struct {
	next      func() float64
	smoothing func() bool // nil: not observable
	set       func(v float64)
	reset     func(v float64)
	rate      func(v float64)
	enable    func(on bool)
	srate     func(sr, ms float64)
	ref       smoothRef
	held      func() float64 // the current value without advancing; nil: not observable
	process   func(buf []float32, fn func(v float64, x float32) float32)
	cur       float64
	enabled   bool
	plain     float64
	scale     float64
	gap       int // samples passed unobserved
}

func logFloor(v float64) float64 { return math.Log(math.Max(v, 0.001)) }

// paceOf is the ramp's change per sample.
func paceOf(kind int, rate, from, to float64) float64 {
	d := math.Abs(to - from)
	if kind == 2 {
		d = math.Abs(logFloor(to) - logFloor(from))
	}
	if rate < 1 {
		return d
	}
	return d / rate
}

func execP09(c *core.Case, r *core.Rec) {
	kind := int(c.Cfg["kind"])
	lo, hi := float64(c.CfgF["lo"]), float64(c.CfgF["hi"])
	rate := float64(c.CfgF["rate"])
	var units []*smoothUnit
	comp := c.Cfg["comp"]
	advance := func() {}
	mkParam := func(id uint32) *param.Parameter {
		return param.New(id, "p").Range(lo, hi).Default(lo).Build()
	}
	fromSP := func(sp *param.SmoothedParameter) *smoothUnit {
		return &smoothUnit{
			next: sp.GetSmoothedValue,
			set:  func(v float64) { sp.SetValue(sp.Normalize(v)) },
			rate: sp.SetSmoothingRate, enable: sp.SetSmoothing, srate: sp.UpdateSampleRate,
			enabled: true, cur: sp.GetPlainValue(), plain: sp.GetPlainValue(),
			ref: smoothRef{kind: kind, rate: rate, threshold: 0.0001, start: sp.GetPlainValue(), target: sp.GetPlainValue()},
		}
	}
	switch comp {
	case 0:
		s := param.NewSmoother(param.SmoothingType(kind), rate)
		thr := 0.0001
		if t := float64(c.CfgF["thr"]); t >= 1e-7 && t < 1 {
			thr = t
			s.SetThreshold(t)
			r.Probe("threshold")
		}
		units = []*smoothUnit{{next: s.Next, smoothing: s.IsSmoothing, set: s.SetTarget, reset: s.Reset, rate: s.SetRate, process: s.Process,
			enabled: true, ref: smoothRef{kind: kind, rate: rate, threshold: thr}}}
		s.Reset(lo)
		u := units[0]
		u.cur, u.plain, u.ref.start, u.ref.target = lo, lo, lo, lo
	case 1:
		p := mkParam(1)
		p.SetPlainValue(lo + (hi-lo)/4)
		sp := param.NewSmoothedParameter(p, param.SmoothingType(kind), rate)
		u := fromSP(sp)
		alt := false
		u.set = func(v float64) {
			if alt = !alt; alt {
				sp.SetPlainValue(v)
			} else {
				sp.SetValue(sp.Normalize(v))
			}
		}
		units = []*smoothUnit{u}
	case 2:
		ps := param.NewParameterSmoother()
		for k := uint32(0); k < 3; k++ {
			k := k
			ps.Add(k, mkParam(k), param.SmoothingType(kind), rate)
			sp, ok := ps.Get(k)
			if !ok {
				r.Fail("missing", "missing", "an added parameter is not found")
				return
			}
			u := fromSP(sp)
			if k != 1 {
				u.set = func(v float64) { ps.SetValue(k, (v-lo)/(hi-lo)) }
				u.enable = func(on bool) { ps.SetSmoothing(k, on) }
				u.next = func() float64 { return ps.GetSmoothed(k) }
			}
			units = append(units, u)
		}
		if v := ps.GetSmoothed(77); v != 0 {
			r.Fail("unknown-parameter", "unknown-parameter", "an unknown parameter smooths to %v", v)
		}
		advance = ps.UpdateAll
	default:
		kind = 1
		tm := float64(c.CfgF["time"])
		s := utility.NewSmoothParameter(tm, 48000)
		pole := 0.0
		if tm > 0 {
			pole = math.Exp(-1 / (tm * 48000))
		}
		s.SetImmediate(lo)
		units = []*smoothUnit{{next: s.Process, smoothing: s.IsSmoothing, set: s.SetTarget, reset: s.SetImmediate, held: s.GetCurrent, enabled: true, cur: lo, plain: lo,
			ref: smoothRef{kind: 1, rate: pole, threshold: 1e-6, start: lo, target: lo}}}
	}
	scale := 1 + math.Abs(lo) + math.Abs(hi)
	for _, u := range units {
		u.scale = scale
		if math.Abs(u.cur) > scale {
			r.Fail("start", "start", "initial value %v", u.cur)
			return
		}
	}
	r.Eval()
	shape := core.HashU(uint64(comp), uint64(kind))
	fail := func(class, f string, a ...any) { r.Fail(class, class, f, a...) }
	retarget := func(u *smoothUnit, v float64) {
		if u.ref.since < u.ref.bound && u.cur != u.ref.target {
			r.Probe("mid-ramp")
			r.NonTriv = true
		}
		slow, fast, extra, oldStep := u.ref.rate, u.ref.rate, 0.0, 0.0
		if math.Abs(v-u.ref.target) <= u.ref.threshold*2.01 {
			extra = 2 * u.ref.threshold
			fast = math.Min(fast, u.ref.fast)
			oldStep = u.ref.maxStep
			slow = math.Max(slow, u.ref.slow) // not a new target: a running ramp goes on as it was
		}
		u.ref.start, u.ref.target, u.ref.since, u.ref.slow = u.cur, v, 0, slow
		u.ref.bound = samplesFor(u.ref.kind, slow, math.Abs(v-u.cur)+extra, u.ref.threshold)
		u.ref.fast = fast
		u.ref.maxStep = math.Max(oldStep, paceOf(u.ref.kind, fast, u.cur, v))
		if u.ref.kind == 2 && u.cur <= 0.001 && v <= 0.001 {
			r.Probe("log-floor")
		}
		if u.ref.rate == 0 {
			r.Probe("zero-rate")
		}
	}
	step := func(u *smoothUnit, id int) bool {
		v := u.next()
		r.ObserveF(v)
		if u.held != nil {
			if w := u.held(); w != v {
				fail("current", "the current value reads %v after the smoother gave %v", w, v)
				return false
			}
		}
		if !u.enabled {
			if math.Abs(v-u.plain) > 1e-9*u.scale {
				fail("not-bypassed", "smoothing is off but parameter %d reads %v instead of %v", id, v, u.plain)
				return false
			}
			u.cur = v
			return true
		}
		u.ref.since++
		tol := 1e-9 * u.scale
		a, b := u.ref.start, u.ref.target
		if u.ref.kind == 2 {
			// the logarithmic ramp runs above a small floor
			tol += 0.001
		}
		if math.IsNaN(v) || v < math.Min(a, b)-tol-u.ref.threshold || v > math.Max(a, b)+tol+u.ref.threshold {
			fail("overshoot", "value %v %d samples after the change left the range from %v to %v", v, u.ref.since, a, b)
			return false
		}
		// a target change smaller than the threshold may be ignored
		if math.Abs(v-b) > math.Abs(u.cur-b)+tol && math.Abs(v-b) > u.ref.threshold+tol {
			fail("not-monotone", "value moved from %v to %v, away from the target %v", u.cur, v, b)
			return false
		}
		gap := float64(u.gap + 1)
		u.gap = 0
		switch u.ref.kind {
		case 0:
			if math.Abs(v-u.cur) > u.ref.maxStep*gap*1.01+u.ref.threshold+tol {
				fail("jump", "value jumped from %v to %v in %v samples; the ramp to %v allows %v a sample", u.cur, v, gap, b, u.ref.maxStep)
				return false
			}
		case 1:
			if math.Abs(v-u.cur) > (1-math.Pow(u.ref.fast, gap))*(math.Abs(b-u.cur)+2*u.ref.threshold)*1.01+u.ref.threshold+tol {
				fail("jump", "value jumped from %v to %v in %v samples towards %v at rate %v", u.cur, v, gap, b, u.ref.fast)
				return false
			}
		default:
			if math.Abs(logFloor(v)-logFloor(u.cur)) > u.ref.maxStep*gap*1.01+1e-9 && math.Abs(v-u.cur) > u.ref.threshold+tol {
				fail("jump", "value jumped from %v to %v in %v samples; the ramp to %v allows a factor %v a sample", u.cur, v, gap, b, math.Exp(u.ref.maxStep))
				return false
			}
		}
		u.cur = v
		if u.ref.since >= u.ref.bound {
			if math.Abs(v-b) > u.ref.threshold+1e-9*u.scale {
				fail("not-arrived", "%d samples after the target was set to %v (rate %v) the value is still %v", u.ref.since, b, u.ref.rate, v)
				return false
			}
			if u.smoothing != nil && u.smoothing() && u.ref.since > 2*u.ref.bound+6 { // twice: steps near the rounding unit are inexact
				fail("still-smoothing", "%d samples after the target was set to %v (rate %v) the smoother still reports a ramp", u.ref.since, b, u.ref.rate)
				return false
			}
		}
		return true
	}
	ticks := 0
	tick := func(n int) bool {
		for ; n > 0; n-- {
			ticks++
			if comp == 2 && ticks%3 == 0 {
				// UpdateAll advances every parameter by one more sample
				advance()
				for _, u := range units {
					u.ref.since++
					u.gap++
				}
			}
			for id, u := range units {
				if !step(u, id) {
					return false
				}
			}
		}
		return true
	}
	for _, o := range c.Threads[0] {
		shape = core.HashU(shape, core.HashS(o.K)+uint64(o.Int(0)))
		u := units[int(o.Int(0))%len(units)]
		switch o.K {
		case "creep":
			for n := min(o.Int(1), 1000); n > 0; n-- {
				v := math.Max(lo, math.Min(hi, u.ref.target+o.Flt(0)))
				if !u.enabled {
					v = math.Max(lo, math.Min(hi, u.plain+o.Flt(0)))
				}
				u.set(v)
				u.plain = v
				if u.enabled {
					retarget(u, v)
				}
				if !tick(int(min(o.Int(2), 10))) {
					return
				}
			}
			r.Probe("creep")
		case "set", "back":
			v := o.Flt(0)
			if o.K == "back" {
				v = u.cur + o.Flt(0)*u.scale
			}
			v = math.Max(lo, math.Min(hi, v))
			u.set(v)
			u.plain = v
			if u.enabled {
				retarget(u, v)
			} else {
				r.Probe("disabled-change")
			}
		case "reset":
			if u.reset != nil {
				u.reset(o.Flt(0))
				u.cur, u.plain = o.Flt(0), o.Flt(0)
				u.ref.start, u.ref.target, u.ref.since, u.ref.bound = u.cur, u.cur, 0, 0
			}
		case "rate", "srate":
			if o.K == "rate" && u.rate == nil || o.K == "srate" && u.srate == nil {
				continue
			}
			if o.K == "rate" {
				u.rate(o.Flt(0))
				u.ref.rate = o.Flt(0)
			} else {
				u.srate(o.Flt(0), o.Flt(1))
				u.ref.rate = o.Flt(0) * o.Flt(1) / 1000
				if kind == 1 {
					u.ref.rate = 0
					if o.Flt(1) > 0 {
						u.ref.rate = math.Exp(-6.908 / (o.Flt(0) * o.Flt(1) / 1000))
					}
				}
			}
			u.ref.slow = math.Max(u.ref.slow, u.ref.rate)
			u.ref.fast = math.Min(u.ref.fast, u.ref.rate)
			u.ref.maxStep = math.Max(u.ref.maxStep, paceOf(u.ref.kind, u.ref.rate, u.cur, u.ref.target))
			// a running ramp may keep its old pace or take the new one
			if u.ref.since < u.ref.bound || u.cur != u.ref.target {
				d := math.Abs(u.ref.target - u.cur)
				u.ref.bound = u.ref.since + samplesFor(u.ref.kind, u.ref.slow, d, u.ref.threshold)
			}
		case "enable":
			if u.enable == nil {
				continue
			}
			on := o.Int(1) == 1
			u.enable(on)
			if on && !u.enabled || !on {
				u.cur = u.plain
				u.ref.start, u.ref.target, u.ref.since, u.ref.bound = u.plain, u.plain, 0, 0
			}
			u.enabled = on
		case "proc":
			if u = units[0]; u.process == nil || o.Int(0) < 0 || o.Int(0) > 4096 {
				continue
			}
			buf := make([]float32, o.Int(0))
			for k := range buf {
				buf[k] = float32(k)
			}
			var vals []float64
			bad := -1
			u.process(buf, func(v float64, x float32) float32 {
				if x != float32(len(vals)) && bad < 0 {
					bad = len(vals)
				}
				vals = append(vals, v)
				return 2*x + 1
			})
			for k := range buf {
				if (buf[k] != float32(2*k+1) || len(vals) != len(buf)) && bad < 0 {
					bad = k
				}
			}
			if bad >= 0 {
				fail("process", "Process with %d samples: sample %d is not handed over once and in order (%d calls)", len(buf), bad, len(vals))
				return
			}
			next := u.next
			u.next = func() float64 { v := vals[0]; vals = vals[1:]; return v }
			ok := tick(len(buf))
			u.next = next
			if !ok {
				return
			}
			r.Probe("process")
		case "tick":
			if !tick(int(o.Int(0))) {
				return
			}
		case "settle":
			n := 1
			for _, u := range units {
				if d := u.ref.bound - u.ref.since; d > n {
					n = d
				}
			}
			if n > 200000 {
				n = 200000
			}
			if !tick(n + 6) {
				return
			}
			for u := units[0]; u.smoothing != nil && u.smoothing() && u.ref.since < 2*u.ref.bound+8; {
				if !tick(1) {
					return
				}
			}
			for id, u := range units {
				want := u.ref.target
				if !u.enabled {
					want = u.plain
				}
				if math.Abs(u.cur-want) > u.ref.threshold+1e-9*u.scale {
					fail("not-arrived", "parameter %d settled at %v instead of %v", id, u.cur, want)
					return
				}
			}
			r.Probe("settled")
		}
	}
	r.State(shape)
	r.SimNs += float64(ticks) / 48000 * 1e9
}
