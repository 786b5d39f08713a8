package dsp

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
)

// P19: envelopes run through their stages, stay in range, do not jump and
// always arrive.

func init() {
	core.Register(&core.Check{
		ID: "P19", Quick: 57000, Thorough: 1140000,
		Rule:      "A host plays notes on an ADSR or AR envelope (trigger, release, retrigger in any stage, reset, automation of all times and the sustain level in any stage) or feeds an envelope follower or detector (all modes and types, automation, bursts, silence) on a simulated sample clock. Every sample is checked against the law of the stage: range, direction, step size, order of stages; after the last change the envelope must arrive within the bound computed from its times. Non-trivial: a change in the middle of a stage.",
		StateRule: "distinct (component, operation sequence, stage at every operation)",
		Real:      []string{"pkg/dsp/envelope"},
		Stub:      []string{"host (notes, automation, sample clock, input signal)"},
		Assume:    []string{"one thread drives an envelope"},
		Must:      []string{"retrigger", "release-in-attack", "release-in-decay", "arrived-sustain", "arrived-idle", "sustain-change", "minute-long", "held", "quiet", "rms-full"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			comp := g.Pick(0, 0, 0, 1, 2, 3, 3, 3)
			c.Set("comp", int64(comp))
			if g.Chance(0.25) {
				c.SetF("scale", g.PickF(1e-2, 1e-3, 1e-5))
			}
			c.SetF("sr", g.PickF(8000, 22050, 44100, 48000, 96000))
			var ops []core.Op
			tm := func() core.X { return core.X(g.PickF(0, 0.001, 0.002, 0.005, 0.01, -1)) }
			steps := g.Range(3, 14)
			if g.Chance(0.004) { // pads: seconds to minutes
				c.SetF("sr", 1000)
				steps = g.Range(2, 6)
				tm = func() core.X { return core.X(g.PickF(0.01, g.LogR(0.1, 60), g.LogR(0.1, 60))) }
			}
			for k := steps; k > 0; k-- {
				if comp <= 1 {
					switch g.N(10) {
					case 0, 1, 2:
						ops = append(ops, core.Op{K: "trigger"})
					case 3, 4:
						ops = append(ops, core.Op{K: "release"})
					case 5:
						ops = append(ops, core.Op{K: "reset"})
					case 6, 7:
						ops = append(ops, core.Op{K: g.PickS("attack", "decay", "rtime"), F: []core.X{tm()}})
					case 8:
						ops = append(ops, core.Op{K: "sustain", F: []core.X{core.X(g.PickF(0, 1, 0.5, g.F(), -1, 2))}})
					default:
						ops = append(ops, core.Op{K: "all", F: []core.X{tm(), tm(), core.X(g.PickF(0, 1, g.F(), -1, 2)), tm()}})
					}
				} else {
					switch g.N(8) {
					case 0, 1, 2, 3:
						ops = append(ops, core.Op{K: "level", F: []core.X{core.X(g.PickF(0, 0, 1, 0.5, 0.001, g.F()))}, I: []int64{int64(g.N(3))}})
					case 4:
						ops = append(ops, core.Op{K: g.PickS("attack", "rtime", "hold"), F: []core.X{tm()}})
					case 5:
						ops = append(ops, core.Op{K: "type", I: []int64{int64(g.N(3))}})
					case 6:
						ops = append(ops, core.Op{K: "mode", I: []int64{int64(g.N(3))}})
					default:
						ops = append(ops, core.Op{K: g.PickS("reset", "window"), F: []core.X{core.X(g.PickF(0, 0.5, 1, 3))}})
					}
				}
				ops = append(ops, core.Op{K: "tick", I: []int64{int64(g.Pick(0, 1, 2, 10, 50, 200, 600))}})
				if g.Chance(0.15) {
					ops = append(ops, core.Op{K: "settle"})
				}
			}
			ops = append(ops, core.Op{K: "settle"})
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: func(c *core.Case, r *core.Rec) {
			switch c.Cfg["comp"] {
			case 0:
				execADSR(c, r)
			case 1:
				execAR(c, r)
			default:
				execDetector(c, r, c.Cfg["comp"] == 2)
			}
		},
	})
}

func timeConst(sec, sr float64) float64 { return math.Exp(-1 / (math.Max(sec, 0.001) * sr)) }

func execADSR(c *core.Case, r *core.Rec) {
	r.Comp("envelope.ADSR")
	sr := float64(c.CfgF["sr"])
	e := envelope.New(sr)
	att, dec, sus, rel := 0.01, 0.1, 0.7, 0.3
	stage := envelope.StageIdle
	value := 0.0
	in := 0 // samples in the stage with unchanged settings
	h := core.HashS("adsr")
	n := 0
	tick := func() bool {
		v := float64(e.Next())
		n++
		in++
		st := e.GetStage()
		r.Eval()
		const eps = 2e-6
		long := func(t float64) {
			if t > 10 {
				r.Probe("minute-long")
			}
		}
		bad := func(what string) bool {
			r.Fail("law", "adsr", "ADSR at %g Hz, sample %d: %s (was %v %.7g, now %v %.7g; attack %g decay %g sustain %g release %g)", sr, n, what, stage, value, st, v, att, dec, sus, rel)
			return false
		}
		if !(v >= 0 && v <= 1) {
			return bad("level outside [0,1]")
		}
		if e.IsActive() != (st != envelope.StageIdle) {
			return bad("IsActive disagrees with the stage")
		}
		switch stage {
		case envelope.StageIdle:
			if st != stage || v != 0 {
				return bad("an idle envelope sounds")
			}
		case envelope.StageAttack:
			exp := 1 + (value-1)*timeConst(att, sr)
			if st != stage && st != envelope.StageDecay {
				return bad("attack is not followed by decay")
			}
			if st == envelope.StageDecay && v != 1 {
				return bad("attack ended before the full level")
			}
			long(att)
			if v < value-eps || v < exp-0.0011 || v > exp+eps && (st == stage || v > exp+0.0011) {
				return bad("attack leaves its curve")
			}
			if st == stage && v > 0.9991 {
				return bad("attack does not end at the full level")
			}
		case envelope.StageDecay:
			if st != stage && st != envelope.StageSustain {
				return bad("decay is not followed by sustain")
			}
			if st == envelope.StageSustain && math.Abs(v-sus) > eps {
				return bad("sustain begins at another level")
			}
			exp := sus + (value-sus)*timeConst(dec, sr)
			long(dec)
			if value > sus && (v > value+eps || v < sus-eps || math.Abs(v-exp) > 0.0011 || st == stage && v < exp-eps) {
				return bad("decay leaves its curve")
			}
		case envelope.StageSustain:
			if st != stage || math.Abs(v-sus) > eps {
				return bad("sustain leaves its level")
			}
		case envelope.StageRelease:
			if st != stage && st != envelope.StageIdle {
				return bad("release is not followed by idle")
			}
			exp := value * timeConst(rel, sr)
			long(rel)
			if v > value+eps || math.Abs(v-exp) > 0.0011 || st == stage && v < exp-eps {
				return bad("release leaves its curve")
			}
			if st == envelope.StageIdle && v != 0 {
				return bad("release ended above silence")
			}
		}
		if st != stage {
			in = 0
		}
		stage, value = st, v
		// Time allowed in a stage at constant settings.
		var lim float64
		switch stage {
		case envelope.StageAttack:
			lim = math.Max(att, 0.001) * sr * 7.1
		case envelope.StageDecay:
			lim = math.Max(dec, 0.001) * sr * 7.1
		case envelope.StageRelease:
			lim = math.Max(rel, 0.001) * sr * 7.1
		default:
			return true
		}
		if float64(in) > lim+5 {
			return bad("the stage does not end")
		}
		return true
	}
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(stage))
		mid := stage == envelope.StageAttack || stage == envelope.StageDecay || stage == envelope.StageRelease
		switch o.K {
		case "trigger":
			if stage != envelope.StageIdle {
				r.Probe("retrigger")
			}
			e.Trigger()
			stage, in = envelope.StageAttack, 0
			r.Fault("event")
		case "release":
			e.Release()
			if stage == envelope.StageAttack {
				r.Probe("release-in-attack")
			}
			if stage == envelope.StageDecay {
				r.Probe("release-in-decay")
			}
			if stage != envelope.StageIdle {
				stage, in = envelope.StageRelease, 0
			}
			r.Fault("event")
		case "reset":
			e.Reset()
			stage, in, value = envelope.StageIdle, 0, 0
			r.Fault("reset")
		case "attack":
			att, in = o.Flt(0), 0
			e.SetAttack(att)
			r.Fault("automation")
		case "decay":
			dec, in = o.Flt(0), 0
			e.SetDecay(dec)
			r.Fault("automation")
		case "rtime":
			rel, in = o.Flt(0), 0
			e.SetRelease(rel)
			r.Fault("automation")
		case "sustain":
			e.SetSustain(o.Flt(0))
			sus, in = math.Max(0, math.Min(1, o.Flt(0))), 0
			r.Probe("sustain-change")
			r.Fault("automation")
		case "all":
			att, dec, sus, rel = o.Flt(0), o.Flt(1), math.Max(0, math.Min(1, o.Flt(2))), o.Flt(3)
			e.SetADSR(att, dec, o.Flt(2), rel)
			in = 0
			r.Fault("automation")
		case "tick", "settle":
			k := int(o.Int(0))
			if o.K == "settle" {
				k = int((math.Max(att, 0.001)+math.Max(dec, 0.001)+math.Max(rel, 0.001))*sr*7.2) + 20
			}
			for ; k > 0; k-- {
				if !tick() {
					return
				}
				if o.K == "settle" && (stage == envelope.StageSustain || stage == envelope.StageIdle) {
					k = int(math.Min(float64(k), 3))
				}
			}
			if o.K == "settle" {
				switch stage {
				case envelope.StageSustain:
					r.Probe("arrived-sustain")
				case envelope.StageIdle:
					r.Probe("arrived-idle")
				default:
					r.Fail("liveness", "adsr", "ADSR at %g Hz is still in stage %v after all its times", sr, stage)
					return
				}
			}
			continue
		}
		if mid {
			r.NonTriv = true
		}
		if st := e.GetStage(); st != stage {
			r.Fail("stage", "adsr", "ADSR is in stage %v instead of %v after %s", st, stage, o.K)
			return
		}
	}
	r.State(h)
	r.SimNs += float64(n) / sr * 1e9
	r.ObserveF(value)
}

func execAR(c *core.Case, r *core.Rec) {
	r.Comp("envelope.AR")
	sr := float64(c.CfgF["sr"])
	e := envelope.NewAR(sr)
	att, rel := 0.01, 0.1
	value, target := 0.0, 0.0
	h := core.HashS("ar")
	n := 0
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K))
		mid := math.Abs(value-target) > 1e-3
		switch o.K {
		case "trigger":
			e.Trigger()
			if target == 1 || value > 0 {
				r.Probe("retrigger")
			}
			target = 1
			r.Fault("event")
		case "release":
			e.Release()
			target = 0
			r.Fault("event")
		case "attack":
			att = o.Flt(0)
			e.SetAttack(att)
			r.Fault("automation")
		case "rtime":
			rel = o.Flt(0)
			e.SetRelease(rel)
			r.Fault("automation")
		case "tick", "settle":
			k := int(o.Int(0))
			if o.K == "settle" {
				k = int(math.Max(math.Max(att, rel), 0.001)*sr*10) + 5
			}
			for ; k > 0; k-- {
				v := float64(e.Next())
				n++
				r.Eval()
				t := rel
				if target == 1 {
					t = att
				}
				exp := target + (value-target)*timeConst(t, sr)
				if !(v >= 0 && v <= 1) || math.Abs(v-exp) > 1e-4 || math.Abs(v-target) < math.Abs(exp-target)-2e-6 || (target == 1 && v < value-2e-6) || (target == 0 && v > value+2e-6) {
					r.Fail("law", "ar", "AR at %g Hz, sample %d: %.7g after %.7g on the way to %g (attack %g release %g)", sr, n, v, value, target, att, rel)
					return
				}
				value = v
			}
			if o.K == "settle" && math.Abs(value-target) > 1e-3 {
				r.Fail("liveness", "ar", "AR at %g Hz is at %.6g and not at %g after ten time constants", sr, value, target)
				return
			}
			continue
		}
		if mid {
			r.NonTriv = true
		}
	}
	r.State(h)
	r.SimNs += float64(n) / sr * 1e9
	r.ObserveF(value)
}

// execDetector: followers and detectors.
func execDetector(c *core.Case, r *core.Rec, follower bool) {
	sr := float64(c.CfgF["sr"])
	var det *envelope.Detector
	var fol *envelope.Follower
	att, rel, hold := 0.001, 0.1, 0.01
	mode, typ := envelope.ModePeak, envelope.TypeLinear
	window := int(sr * 0.003)
	if follower {
		fol = envelope.NewFollower(sr)
		att = 0.01
		r.Comp("envelope.Follower")
	} else {
		det = envelope.NewDetector(sr, mode)
		r.Comp("envelope.Detector")
	}
	value, level, wave := 0.0, 0.0, int64(0)
	one := make([]float32, 1)
	scale := 1.0 // of the whole session
	if v := float64(c.CfgF["scale"]); v > 0 && v < 1 {
		scale = math.Max(v, 1e-6)
		r.Probe("quiet")
	}
	peak := 0.0 // of the whole stream since a reset
	held := 0   // samples for which the level must be held
	n := 0
	var ring []float64 // what the RMS window can see
	h := core.HashS("det")
	rmsSince := 0
	coefs := func() float64 {
		if !follower && typ == envelope.TypeLogarithmic {
			return 2.2
		}
		return 1
	}
	step := func() bool {
		x := level
		switch wave {
		case 1:
			if n%2 == 1 {
				x = -x
			}
		case 2:
			x *= math.Sin(float64(n) * 0.7)
		}
		ax := math.Abs(float64(float32(x)))
		peak = math.Max(peak, ax)
		var v float64
		if follower {
			if one[0] = float32(x); n%3 == 0 {
				fol.Process(one, one)
				v = float64(one[0])
			} else {
				v = float64(fol.Follow(float32(x)))
			}
		} else {
			v = float64(det.Detect(float32(x)))
			if math.Abs(v-float64(det.GetEnvelope())) > 1e-7 {
				r.Fail("getter", "detector", "GetEnvelope differs from the value returned")
				return false
			}
		}
		n++
		r.Eval()
		in := ax
		if mode == envelope.ModeRMS {
			ring = append(ring, ax*ax)
			if len(ring) > window {
				ring = ring[len(ring)-window:]
			}
			s := 0.0
			for _, y := range ring {
				s += y
			}
			in = math.Sqrt(s / float64(window))
			rmsSince++
			if rmsSince > 2*window {
				r.Probe("rms-full")
			}
		}
		eps := 1e-5 * math.Max(peak, scale)
		if mode != envelope.ModeRMS { // no running sum with its rounding
			eps /= 10
		}
		bad := func(what string) bool {
			r.Fail("law", "detector", "mode %v type %v follower %v at %g Hz, sample %d: %s (level %.7g, was %.7g, now %.7g; attack %g release %g hold %g)", mode, typ, follower, sr, n, what, in, value, v, att, rel, hold)
			return false
		}
		if !(v >= -eps && v <= peak+eps) {
			return bad("envelope outside the range of the signal")
		}
		k := coefs()
		if in > value+eps {
			a := math.Exp(-k / (math.Max(att, 0.0001) * sr))
			exp := in + (value-in)*a
			if v < exp-2*eps || v > in+eps {
				return bad("attack leaves its curve")
			}
			held = int(math.Max(0, hold)*sr) - 1
		} else if in < value-eps {
			a := math.Exp(-k / (math.Max(rel, 0.0001) * sr))
			exp := in + (value-in)*a
			if mode == envelope.ModePeakHold && held > 0 {
				held--
				if math.Abs(v-value) > eps {
					return bad("the peak is not held")
				}
				r.Probe("held")
			} else if mode == envelope.ModePeakHold && math.Abs(v-value) <= eps {
				// near the end of the hold, or close to the target
			} else if math.Abs(v-exp) > 2*eps {
				return bad("release leaves its curve")
			}
		} else {
			held-- // the hold time runs from the last rise
			if math.Abs(v-in) > 3*eps && math.Abs(v-value) > 3*eps {
				return bad("envelope left the signal it had reached")
			}
		}
		value = v
		return true
	}
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(mode)*7+uint64(typ))
		if math.Abs(value-level) > 1e-3*scale {
			r.NonTriv = true
		}
		switch o.K {
		case "level":
			level, wave = o.Flt(0)*scale, o.Int(0)
		case "attack":
			att = o.Flt(0)
			if follower {
				fol.SetAttack(att)
			} else {
				det.SetAttack(att)
			}
			r.Fault("automation")
		case "rtime":
			rel = o.Flt(0)
			if follower {
				fol.SetRelease(rel)
			} else {
				det.SetRelease(rel)
			}
			r.Fault("automation")
		case "hold":
			if !follower {
				hold = o.Flt(0)
				det.SetHold(hold)
				held = 0
				r.Fault("automation")
			}
		case "type":
			if !follower {
				typ = envelope.DetectorType(o.Int(0))
				det.SetType(typ)
				r.Fault("automation")
			}
		case "mode":
			if !follower {
				mode = envelope.DetectorMode(o.Int(0))
				det.SetMode(mode)
				// The window keeps what it saw the last time; start from a known state.
				det.Reset()
				value, peak, held, ring, rmsSince = 0, 0, 0, nil, 0
				r.Fault("automation")
			}
		case "window":
			if !follower {
				w := int(sr * o.Flt(0) / 1000)
				if w < 1 {
					w = 1
				}
				if w != window {
					window = w
					ring, rmsSince = nil, 0
				}
				det.SetRMSWindow(o.Flt(0))
				r.Fault("automation")
			}
		case "reset":
			if !follower {
				det.Reset()
				value, peak, held, ring, rmsSince = 0, 0, 0, nil, 0
				r.Fault("reset")
			}
		case "tick":
			for k := o.Int(0); k > 0; k-- {
				if !step() {
					return
				}
			}
		case "settle":
			if wave == 2 {
				wave = 1
			}
			lim := int(math.Max(math.Max(att, rel), 0.0001)*sr*12 + float64(window) + math.Max(0.011, hold)*sr + 10)
			if lim > 60000 {
				lim = 60000
			}
			for k := 0; k < lim; k++ {
				if !step() {
					return
				}
				if math.Abs(value-level) < 1e-5*scale {
					break
				}
			}
			if lim < 60000 && math.Abs(value-level) > 2e-4*scale+1e-3*level {
				r.Fail("liveness", "detector", "mode %v type %v at %g Hz: the envelope is %.6g after %d samples of a steady level %.6g", mode, typ, sr, value, lim, level)
				return
			}
		}
	}
	r.State(h)
	r.SimNs += float64(n) / sr * 1e9
	r.ObserveF(value)
}
