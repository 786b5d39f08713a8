package dsp

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
)

// P20: dynamics processors keep their promise at every sample.

func init() {
	core.Register(&core.Check{
		ID: "P20", Quick: 12000, Thorough: 400000,
		Rule:      "A host drives a limiter, compressor, expander or gate, mono or linked stereo, with seeded signals (bursts, steps, single-sample peaks, noise, silence, levels at the threshold) and automation of every control between blocks. Per sample: ceiling, no boost, metered gain equals applied gain, one gain for both channels, static curve reached at steady level, range of the closed gate, hold time, hysteresis without chatter, return to unity within the bound set by the release. Non-trivial: gain reduction began and ended.",
		StateRule: "distinct (processor, stereo, operation sequence)",
		Real:      []string{"pkg/dsp/dynamics", "pkg/dsp/envelope"},
		Stub:      []string{"host (blocks, automation, input signal)"},
		Assume:    []string{"lookahead applies to mono forms only (documented in the code)"},
		Must:      []string{"limiting", "transparent-again", "steady", "gate-open", "gate-hold", "gate-closed", "hysteresis", "knee", "lookahead"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := g.N(4)
			c.Set("kind", int64(kind))
			c.Set("stereo", int64(g.N(2)))
			sr := g.PickF(8000, 44100, 48000, 96000, 192000)
			c.SetF("sr", sr)
			c.Set("sigseed", int64(g.U64()>>1))
			var ops []core.Op
			db := func() float64 { return g.PickF(-60, -40, -20, -12, -6, -3, 0, g.FR(-70, 0), g.FR(-94, 0)) }
			lev := func() float64 { return g.PickF(db(), db(), db(), db(), g.FR(0, 30), g.FR(-120, -60)) }
			ctl := func() core.Op {
				v := 0.0
				names := [][]string{
					{"threshold", "release", "lookahead", "truepeak"},
					{"threshold", "ratio", "attack", "release", "knee", "makeup", "lookahead"},
					{"threshold", "ratio", "attack", "release", "knee", "range"},
					{"threshold", "hysteresis", "attack", "hold", "release", "range"},
				}[kind]
				nm := g.PickS(names...)
				switch nm {
				case "threshold":
					v = db()
				case "ratio":
					v = g.PickF(1, 1.5, 2, 4, 20, 100, 1000, 1e9)
				case "attack":
					v = g.PickF(0, 0.0001, 0.001, 0.005)
				case "release":
					v = g.PickF(0, 0.001, 0.005, 0.02)
				case "hold":
					v = g.PickF(0, 0.0005, 0.002, 0.01)
				case "lookahead":
					v = g.PickF(0, 0.0003, 0.002, 0.005)
				case "truepeak":
					v = float64(g.N(2))
				case "knee":
					v = g.PickF(0, 2, 6, 12)
				case "makeup":
					v = g.PickF(0, 6, -6)
				case "hysteresis":
					v = g.PickF(0, 3, 10)
				case "range":
					v = g.PickF(-80, -40, -12, 0)
				}
				return core.Op{K: nm, F: []core.X{core.X(v)}}
			}
			ops = append(ops, core.Op{K: "release", F: []core.X{core.X(g.PickF(0, 0.001, 0.005, 0.02))}})
			for k := g.Range(1, 5); k > 0; k-- {
				ops = append(ops, ctl())
			}
			for k := g.Range(2, 10); k > 0; k-- {
				// level in dB, shape, samples
				ops = append(ops, core.Op{K: "sig", F: []core.X{core.X(lev())}, I: []int64{int64(g.N(6)), int64(g.Pick(1, 5, 40, 200, 600))}})
				if g.Chance(0.3) {
					ops = append(ops, ctl())
				}
				if g.Chance(0.05) {
					ops = append(ops, core.Op{K: "reset"})
				}
				if g.Chance(0.2) {
					ops = append(ops, core.Op{K: "steady", F: []core.X{core.X(g.PickF(lev(), -1000))}})
				}
			}
			ops = append(ops, core.Op{K: "steady", F: []core.X{core.X(g.PickF(lev(), -1000))}})
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP20,
	})
}

type dynUnit struct {
	mono   func(x float32) float32
	stereo func(l, r, ol, or []float32)
	gr     func() float64
	reset  func()
}

func lin(db float64) float64 { return math.Pow(10, db/20) }

func execP20(c *core.Case, r *core.Rec) {
	sr := float64(c.CfgF["sr"])
	kind, stereo := c.Cfg["kind"], c.Cfg["stereo"] == 1
	name := []string{"Limiter", "Compressor", "Expander", "Gate"}[kind]
	if stereo {
		name += ".stereo"
	}
	r.Comp("dynamics." + name)
	h := core.HashS(name)
	var u dynUnit
	var lim *dynamics.Limiter
	var cmp *dynamics.Compressor
	var exp *dynamics.Expander
	var gate *dynamics.Gate
	P := map[string]float64{}
	switch kind {
	case 0:
		lim = dynamics.NewLimiter(sr)
		u = dynUnit{lim.Process, lim.ProcessStereo, lim.GetGainReduction, lim.Reset}
		P = map[string]float64{"threshold": -0.3, "release": 0.05, "lookahead": 0.005, "truepeak": 1}
	case 1:
		cmp = dynamics.NewCompressor(sr)
		u = dynUnit{cmp.Process, cmp.ProcessStereo, cmp.GetGainReduction, cmp.Reset}
		P = map[string]float64{"threshold": -20, "ratio": 4, "attack": 0.005, "release": 0.05, "knee": 2}
	case 2:
		exp = dynamics.NewExpander(sr)
		u = dynUnit{exp.Process, exp.ProcessStereo, exp.GetGainReduction, exp.Reset}
		P = map[string]float64{"threshold": -40, "ratio": 2, "attack": 0.001, "release": 0.1, "knee": 2, "range": -40}
	case 3:
		gate = dynamics.NewGate(sr)
		u = dynUnit{gate.Process, gate.ProcessStereo, gate.GetGainReduction, gate.Reset}
		P = map[string]float64{"threshold": -40, "hysteresis": 5, "attack": 0.001, "hold": 0.01, "release": 0.1, "range": -80}
	}
	set := func(k string, v float64) {
		r.Fault("automation")
		P[k] = v
		switch kind {
		case 0:
			switch k {
			case "threshold":
				P[k] = math.Min(0, v)
				lim.SetThreshold(v)
			case "release":
				lim.SetRelease(v)
			case "lookahead":
				lim.SetLookahead(v)
			case "truepeak":
				lim.SetTruePeak(v != 0)
			}
		case 1:
			switch k {
			case "threshold":
				cmp.SetThreshold(v)
			case "ratio":
				cmp.SetRatio(v)
			case "attack":
				cmp.SetAttack(v)
			case "release":
				cmp.SetRelease(v)
			case "knee":
				t := dynamics.KneeSoft
				if v == 0 {
					t = dynamics.KneeHard
				}
				cmp.SetKnee(t, v)
			case "makeup":
				cmp.SetMakeupGain(v)
			case "lookahead":
				cmp.SetLookahead(v)
			}
		case 2:
			switch k {
			case "threshold":
				exp.SetThreshold(v)
			case "ratio":
				exp.SetRatio(v)
			case "attack":
				exp.SetAttack(v)
			case "release":
				exp.SetRelease(v)
			case "knee":
				exp.SetKnee(v)
			case "range":
				exp.SetRange(v)
			}
		case 3:
			switch k {
			case "threshold":
				gate.SetThreshold(v)
			case "hysteresis":
				gate.SetHysteresis(v)
			case "attack":
				gate.SetAttack(v)
			case "hold":
				gate.SetHold(v)
			case "release":
				gate.SetRelease(v)
			case "range":
				gate.SetRange(v)
			}
		}
	}
	sig := core.NewR(uint64(c.Cfg["sigseed"]))
	delay := func() int {
		if stereo {
			return 0
		}
		return int(math.Min(P["lookahead"], 0.01) * sr)
	}
	var hist []float32 // inputs since the delay line was last emptied
	if stereo && kind == 0 {
		lim.SetLookahead(0)
		P["lookahead"] = 0
	}
	rangeSeen := P["range"] // lowest so far: the expander glides from the old one
	n := 0
	peakIn := 0.0 // largest detected level since reset
	reduced := false
	// gate history
	aboveOpen, belowClose := 0, 0 // how long the level was >= close threshold; < close threshold
	belowThr := 0                 // how long the level was <= open threshold
	holdMin := 0.0                // shortest hold time that applies
	gateChanged := 0
	failed := false
	fail := func(key, f string, a ...any) {
		failed = true
		r.Fail(key, name, name+" at %g Hz, sample %d: "+f, append([]any{sr, n}, a...)...)
	}
	step := func(xl, xr float32) (gain float64) {
		var yl, yr float32
		wasOpen := gate != nil && gate.IsOpen()
		if stereo {
			il, ir, ol, or := []float32{xl}, []float32{xr}, []float32{77}, []float32{77}
			u.stereo(il, ir, ol, or)
			yl, yr = ol[0], or[0]
		} else {
			xr = 0
			yl = u.mono(xl)
		}
		n++
		r.Eval()
		gr := u.gr()
		level := math.Max(math.Abs(float64(xl)), math.Abs(float64(xr)))
		peakIn = math.Max(peakIn, level)
		// The sample that comes out now.
		src := xl
		if d := delay(); d > 0 {
			r.Probe("lookahead")
			hist = append(hist, xl)
			src = 0
			if len(hist) > d {
				src = hist[len(hist)-1-d]
			}
		}
		// Metered gain.
		mg := gr
		if kind < 2 {
			mg = -gr
		}
		if kind == 1 {
			mg += P["makeup"]
		}
		g := lin(mg)
		tol := 1e-5
		if kind == 3 {
			tol = 0.013 // the gate meters less than 0.1 dB as none
		}
		chk := func(y, s float32) bool {
			return math.Abs(float64(y)-float64(s)*g) <= math.Abs(float64(s))*g*tol+1e-12
		}
		if !chk(yl, src) || stereo && !chk(yr, xr) {
			fail("meter", "output %v from %v (right %v from %v) is not the metered gain %.6g dB", yl, src, yr, xr, mg)
			return
		}
		if stereo && math.Abs(float64(yl)*float64(xr)-float64(yr)*float64(xl)) > 1e-6*math.Abs(float64(yl)*float64(xr))+1e-15 {
			fail("linked", "the channels get different gains: %v from %v, %v from %v", yl, xl, yr, xr)
			return
		}
		switch kind {
		case 0:
			ceil := lin(P["threshold"])
			if m := math.Max(math.Abs(float64(yl)), math.Abs(float64(yr))); m > ceil*1.00001 {
				fail("ceiling", "%.7g leaves the limiter above the ceiling %.7g", m, ceil)
				return
			}
			if gr < 0 {
				fail("boost", "negative gain reduction %g", gr)
				return
			}
			if pk := math.Max(peakIn, 1e-10); gr > math.Max(0, 20*math.Log10(pk)-P["threshold"])+1e-4 {
				fail("over", "reduction of %.6g dB for peaks of %.6g", gr, pk)
				return
			}
		case 1:
			if gr < -1e-9 {
				fail("boost", "negative gain reduction %g", gr)
				return
			}
			max := math.Max(0, 20*math.Log10(math.Max(peakIn, 1e-10))-P["threshold"]) * (1 - 1/P["ratio"])
			if gr > max+1e-4 {
				fail("over", "reduction of %.6g dB, the curve gives at most %.6g", gr, max)
				return
			}
		case 2:
			if gr > 1e-9 || gr < rangeSeen-1e-4 {
				fail("range", "gain of %.6g dB outside [%g, 0]", gr, P["range"])
				return
			}
		case 3:
			dbl := -96.0
			if level > 0 {
				dbl = 20 * math.Log10(float64(float32(level)))
			}
			closeThr := P["threshold"] - P["hysteresis"]
			gateChanged++
			if dbl >= closeThr+1e-6 {
				aboveOpen++
				belowClose = 0
			} else if dbl <= closeThr-1e-6 {
				belowClose++
				aboveOpen = 0
			} else {
				aboveOpen, belowClose = 0, 1<<30 // at the threshold: undecided
			}
			if dbl <= P["threshold"]-1e-6 {
				belowThr++
			} else {
				belowThr = 0
			}
			open := gate.IsOpen()
			st := gate.GetState()
			if open {
				r.Probe("gate-open")
			}
			if (st == "open" || st == "hold") != open {
				fail("state", "state %s but IsOpen %v", st, open)
				return
			}
			if wasOpen && !open {
				if aboveOpen > 0 {
					fail("hysteresis", "an open gate closed at %.4g dB, above its closing threshold %.4g dB", dbl, closeThr)
					return
				}
				if hs := int(holdMin * sr); belowClose > 0 && belowClose < hs && gateChanged > hs {
					fail("hold", "the gate closed %d samples after the level fell, before its hold time of %d samples", belowClose, hs)
					return
				}
			}
			if st == "hold" {
				r.Probe("gate-hold")
			}
			if !wasOpen && open && belowThr > int(P["attack"]*sr*8)+4 {
				fail("hysteresis", "a closed gate opened although the level stayed at or below %.4g dB", P["threshold"])
				return
			}
			if open && dbl < P["threshold"] && dbl > closeThr {
				r.Probe("hysteresis")
			}
			if gr > 0 {
				fail("boost", "gain above unity: %g dB", gr)
				return
			}
		}
		if kind < 2 && gr > 0.1 || kind >= 2 && gr < -0.1 {
			reduced = true
			r.Probe("limiting")
		}
		r.ObserveF(float64(yl))
		return g
	}
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K))
		if o.K == "sig" {
			h = core.HashU(h, uint64(o.Int(0))<<8+uint64(o.Int(1)))
		}
		switch o.K {
		case "reset":
			u.reset()
			hist = nil
			peakIn, aboveOpen, belowClose, belowThr, gateChanged = 0, 0, 0, 0, 0
			r.Fault("reset")
		case "sig":
			a := lin(o.Flt(0))
			for k := o.Int(1); k > 0 && !failed; k-- {
				var xl, xr float64
				switch o.Int(0) {
				case 0:
					xl, xr = a, -a
				case 1:
					xl = a * (2*sig.F() - 1)
					xr = a * (2*sig.F() - 1)
				case 2: // sparse peaks
					if sig.Chance(0.02) {
						xl = a
					}
					if sig.Chance(0.02) {
						xr = -a
					}
				case 3:
					xl, xr = a*math.Sin(float64(n)*0.3), a*0.3
				case 4: // silence on one side
					xl = a * float64(1-2*(n%2))
				default:
					xl, xr = 0, a*float64(1-2*(n%2))
				}
				step(float32(xl), float32(xr))
			}
		case "steady":
			// A constant level, long enough for everything to arrive.
			a := lin(o.Flt(0))
			if o.Flt(0) <= -200 {
				a = 0
			}
			slow := math.Max(math.Max(P["attack"], P["release"]), 0.001)
			k := int(slow*sr*9) + int(math.Max(0.01, P["hold"])*sr) + delay() + 40
			if kind == 3 {
				k += int(math.Max(P["attack"], 0)*sr*6) + int(math.Max(P["release"], 0)*sr*8) // through both transitions
			}
			if kind == 0 {
				k += int(0.009 * sr) // the true-peak detector
			}
			if kind == 2 {
				k *= 2 // the detector and then the gain
			}
			for ; k > 0 && !failed; k-- {
				step(float32(a), float32(a))
			}
			if failed {
				return
			}
			gr := u.gr()
			adb := -96.0
			if a > 0 {
				adb = 20 * math.Log10(a)
			}
			r.Probe("steady")
			switch kind {
			case 0:
				want := math.Max(0, adb-P["threshold"])
				// 9 time constants of the release remain of the loudest peak.
				rest := peakIn * math.Exp(-8.9)
				top := math.Max(0, 20*math.Log10(math.Max(a+1.1*rest, 1e-10))-P["threshold"])
				{
					if gr < want-0.1 || gr > top+0.1 {
						fail("steady", "reduction settles at %.4g dB instead of %.4g dB (level %.4g dB)", gr, want, adb)
						return
					}
					if want == 0 && reduced {
						r.Probe("transparent-again")
						r.NonTriv = true
						reduced = false
					}
				}
			case 1:
				rest := peakIn * math.Exp(-2.2*8.9)
				top := 20 * math.Log10(math.Max(a+rest, 1e-10))
				full := math.Max(0, adb-P["threshold"]) * (1 - 1/P["ratio"])
				half := P["knee"] / 2
				switch {
				case adb > P["threshold"]+half+0.1 && rest < a*0.001:
					if math.Abs(gr-full) > 0.1 {
						fail("steady", "reduction settles at %.4g dB instead of %.4g dB (level %.4g dB)", gr, full, adb)
						return
					}
				case top < P["threshold"]-half-0.1:
					if gr != 0 {
						fail("steady", "reduction stays at %.4g dB below the knee (level %.4g dB)", gr, adb)
						return
					}
					if reduced {
						r.Probe("transparent-again")
						r.NonTriv = true
						reduced = false
					}
				default:
					r.Probe("knee")
				}
			case 2:
				half := P["knee"] / 2
				rest := peakIn * math.Exp(-2.2*8.9)
				if rest > a*0.001 && a > 0 || rest > 1e-6 {
					break
				}
				switch {
				case adb > P["threshold"]+half+0.1:
					if math.Abs(gr) > 0.1 {
						fail("steady", "gain settles at %.4g dB above the threshold", gr)
						return
					}
					if reduced {
						r.NonTriv = true
					}
				case adb < P["threshold"]-half-0.1:
					want := math.Max(P["range"], (adb-P["threshold"])*(P["ratio"]-1))
					if gr > want+0.6 || gr < want-0.6 && a > 0 {
						fail("steady", "gain settles at %.4g dB instead of %.4g dB (level %.4g dB)", gr, want, adb)
						return
					}
				default:
					r.Probe("knee")
				}
			case 3:
				switch {
				case adb > P["threshold"]+0.01:
					if gr < -0.1 || !gate.IsOpen() {
						fail("steady", "the gate is not open at %.4g dB, threshold %.4g dB (gain %.4g dB, %s)", adb, P["threshold"], gr, gate.GetState())
						return
					}
				case adb < P["threshold"]-P["hysteresis"]-0.01:
					if gate.IsOpen() || math.Abs(gr-P["range"]) > 0.2 {
						fail("steady", "the gate is not closed at %.4g dB, threshold %.4g dB (gain %.4g dB, range %.4g dB, %s)", adb, P["threshold"], gr, P["range"], gate.GetState())
						return
					}
					r.Probe("gate-closed")
					if reduced {
						r.NonTriv = true
					}
				}
			}
		default:
			d0 := delay()
			set(o.K, o.Flt(0))
			if delay() != d0 {
				hist = nil
			}
			if o.K == "range" && P["range"] < rangeSeen {
				rangeSeen = P["range"]
			}
			gateChanged = 0
			holdMin = math.Max(0, P["hold"])
			aboveOpen, belowClose, belowThr = 0, 0, 0
		}
		if failed {
			return
		}
	}
	r.State(h)
	r.SimNs += float64(n) / sr * 1e9
}
