package dsp

import (
	"math"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
)

// P30: modulation effects do at every sample what their controls say.

var p30Kinds = []string{"LFO", "LFO", "RingModulator", "Tremolo", "Chorus", "Flanger", "Phaser"}

type p30Ctl struct {
	name string
	vals []float64
	lo   float64
	hi   float64
}

var p30Ctls = map[string][]p30Ctl{
	"LFO": {
		{"frequency", []float64{1, 5, 20, 0.01, 0, -1, 100}, 0.05, 25},
		{"waveform", []float64{0, 1, 2, 3, 4}, 0, 4},
		{"depth", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"offset", []float64{0, 0.5, -0.5, 1, -2}, -1, 1},
		{"phase", []float64{0, 0.25, 0.5, 1, -0.25, 2.75}, -2, 2},
		{"sync", []float64{0, 1, 1, 1}, 0, 1},
		{"syncphase", []float64{0, 0.25, 0.5, 0.75, 1, 2, -1}, 0, 1},
	},
	"RingModulator": {
		{"frequency", []float64{440, 0.1, 0, 30, 3000, 1e6}, 1, 5000},
		{"waveform", []float64{0, 1, 2, 3}, 0, 3},
		{"mix", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"lfo", []float64{0, 1}, 0, 1},
		{"lforate", []float64{0, 1, 20, 50}, 0.1, 20},
		{"lfodepth", []float64{0, 0.1, 1, 3}, 0, 1},
	},
	"Tremolo": {
		{"rate", []float64{5, 20, 0, 100}, 0.1, 20},
		{"depth", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"waveform", []float64{0, 1, 2, 3}, 0, 3},
		{"mode", []float64{0, 1}, 0, 1},
		{"stereo", []float64{0, 1}, 0, 1},
		{"stereophase", []float64{0, 0.25, 0.5, 1}, 0, 1},
		{"smoothing", []float64{0, 1}, 0, 1},
	},
	"Chorus": {
		{"rate", []float64{0.5, 10, 50, 0}, 0.1, 10},
		{"depth", []float64{0, 2, 10, 30}, 0, 10},
		{"delay", []float64{1, 20, 0, 10}, 1, 30},
		{"mix", []float64{0, 0.5, 1, 2}, 0, 1},
		{"feedback", []float64{0, 0.3, 0.5, 1, -1}, 0, 0.5},
		{"spread", []float64{0, 0.5, 1, 2}, 0, 1},
		{"voices", []float64{1, 2, 3, 4, 0, 9}, 1, 4},
	},
	"Flanger": {
		{"rate", []float64{0.5, 20, 50, 0}, 0.1, 20},
		{"depth", []float64{0, 2, 10, 30}, 0, 10},
		{"delay", []float64{5, 10, 0.1, 0, 1}, 0.1, 10},
		{"mix", []float64{0, 0.5, 1, 2}, 0, 1},
		{"feedback", []float64{0, 0.5, -0.5, 0.9, -2}, -0.9, 0.9},
		{"manual", []float64{0, 0.5, 1, 2}, 0, 1},
		{"manualmode", []float64{0, 1}, 0, 1},
	},
	"Phaser": {
		{"rate", []float64{0.5, 10, 50, 0}, 0.1, 10},
		{"depth", []float64{0, 0.5, 1}, 0, 1},
		{"center", []float64{1000, 50, 4000, 1e5}, 100, 4000},
		{"feedback", []float64{0, 0.5, -0.5, 0.9, -2}, -0.9, 0.9},
		{"mix", []float64{0, 0.5, 1, 2}, 0, 1},
		{"stages", []float64{2, 3, 4, 5, 6, 8, 0, 99}, 2, 8},
		{"range", []float64{200, 10, 3000}, 50, 3000},
	},
}

func init() {
	core.Register(&core.Check{
		ID: "P30", Quick: 67000, Thorough: 1340000,
		Rule:      "A host plays an LFO or a modulation effect (ring modulator, tremolo, chorus, flanger, phaser; mono, stereo, buffer and stereo buffer calls) and moves every control at any sample, in and out of its range, with phase jumps, syncs and resets. A reference model written from the documented meaning of the controls runs alongside in double precision; every sample is compared. Random waveform: values in range, held for a period, new after it. Non-trivial: a control changed while the modulation ran and the output differed from the dry input.",
		StateRule: "distinct (effect, rate, operation sequence with controls)",
		Real:      []string{"pkg/dsp/modulation"},
		Stub:      []string{"host (calls, automation, input signal)", "math/rand (seeded stand-in)"},
		Assume: []string{"changing the delay (chorus, flanger), voices or stages starts with empty lines", "phaser depth acts from the next centre frequency or stage change on", "stereo flanger and phaser derive the right wet signal from the left",
			"delays stay within the line sized when the delay was last set", "at a jump of the waveform (within 1e-6 of a period) either side is accepted"},
		Must: []string{"LFO", "RingModulator", "Tremolo", "Chorus", "Flanger", "Phaser", "random-held", "random-new", "sync", "stereo", "mono", "buffer", "smoothing", "feedback", "reset"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := p30Kinds[i%len(p30Kinds)]
			_ = g.U64()
			c.SetS("kind", kind)
			switch kind {
			case "Phaser":
				c.SetF("sr", g.PickF(44100, 48000, 96000))
			case "Chorus", "Flanger":
				c.SetF("sr", g.PickF(8000, 22050, 44100, 96000))
			default:
				c.SetF("sr", g.PickF(1000, 8000, 44100, 48000, 96000))
			}
			stereo := g.N(2)
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			c.SetF("amp", g.PickF(1, 0.5, 0.1))
			ctls := p30Ctls[kind]
			var ops []core.Op
			total := g.Pick(200, 1000, 3000)
			ctl := func() {
				k := g.N(len(ctls))
				v := ctls[k].vals[g.N(len(ctls[k].vals))]
				if g.Chance(0.5) && ctls[k].hi > ctls[k].lo+1.5 || g.Chance(0.3) {
					v = g.FR(ctls[k].lo, ctls[k].hi)
				}
				ops = append(ops, core.Op{K: ctls[k].name, F: []core.X{core.X(v)}})
			}
			if kind == "LFO" && g.Chance(0.4) {
				ops = append(ops, core.Op{K: "waveform", F: []core.X{4}}, core.Op{K: "frequency", F: []core.X{20}})
			}
			for total > 0 {
				for k := g.N(4); k > 0; k-- {
					ctl()
				}
				if g.Chance(0.06) {
					ops = append(ops, core.Op{K: "reset"})
				}
				if kind == "LFO" && g.Chance(0.1) {
					ops = append(ops, core.Op{K: "dosync"})
				}
				n := g.Pick(1, 2, 17, 64, 200, 500)
				ops = append(ops, core.Op{K: "run", I: []int64{int64(n), int64(stereo*2 + g.N(2))}})
				total -= n
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP30,
	})
}

func clamp(v, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, v)) }

func frac01(v float64) float64 { return v - math.Floor(v) }

// mlfo is the model of a low-frequency oscillator.
type mlfo struct {
	sr, f, ph, depth, off float64
	w                     int
}

func newMlfo(sr, f float64, w int) *mlfo { return &mlfo{sr: sr, f: f, depth: 1, w: w} }

func modWave(w int, ph float64) float64 {
	switch w {
	case 0:
		return wave(0, ph, 0)
	case 1:
		return wave(4, ph, 0)
	case 2:
		return wave(2, ph, 0)
	case 3:
		return wave(1, ph, 0)
	}
	return 0
}

func (l *mlfo) freq(f float64) { l.f = clamp(f, 0.01, 20) }

func (l *mlfo) step() { l.ph = frac01(l.ph + l.f/l.sr) }

// next is the value now; edge says a jump of the waveform is within reach.
func (l *mlfo) next() (v float64, edge bool) {
	v = clamp(modWave(l.w, l.ph)*l.depth+l.off, -1, 1)
	edge = edgeOf(l.w, l.ph)
	l.step()
	return
}

func edgeOf(w int, ph float64) bool {
	near := func(x float64) bool { return math.Abs(ph-x) < 1e-6 }
	switch w {
	case 2:
		return near(0) || near(0.5) || near(1)
	case 3:
		return near(0) || near(1)
	}
	return false
}

func execP30(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	r.Comp("modulation." + kind)
	r.Probe(kind)
	h := core.HashU(core.HashS(kind), uint64(float64(c.CfgF["sr"])))
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)*5+o.Int(1)))
	}
	r.State(h)
	srand.Seed(c.Cfg["sigseed"] ^ 0x55)
	srand.Extremes(0)
	if kind == "LFO" {
		p30LFO(c, r)
		return
	}
	p30Effect(c, r)
}

func p30LFO(c *core.Case, r *core.Rec) {
	sr := float64(c.CfgF["sr"])
	l := modulation.NewLFO(sr)
	m := newMlfo(sr, 1, 0)
	sync, syncPh := false, 0.0
	// The random waveform: what is held, and for how many samples already.
	held, count := 0.0, 0
	fresh := false // the held value is not known yet
	n := 0
	fail := func(key, f string, a ...any) {
		r.Fail(key, "LFO", "LFO at %g Hz (rate %g), sample %d: "+f, append([]any{m.f, sr, n}, a...)...)
	}
	for _, o := range c.Threads[0] {
		v := o.Flt(0)
		if o.K != "run" {
			r.Fault("automation")
			r.NonTriv = r.NonTriv || n > 0
		}
		switch o.K {
		case "frequency":
			l.SetFrequency(v)
			m.freq(v)
		case "waveform":
			l.SetWaveform(modulation.Waveform(int(v)))
			m.w = int(v)
			if m.w == 4 {
				count, fresh = 0, true
			}
		case "depth":
			l.SetDepth(v)
			m.depth = clamp(v, 0, 1)
		case "offset":
			l.SetOffset(v)
			m.off = clamp(v, -1, 1)
		case "phase":
			l.SetPhase(v)
			m.ph = frac01(v)
		case "sync", "syncphase":
			if o.K == "sync" {
				sync = v >= 0.5
			} else {
				syncPh = v
			}
			l.EnableSync(sync, syncPh)
		case "dosync":
			r.Probe("sync")
			l.Sync()
			if sync {
				m.ph = clamp(syncPh, 0, 1)
			}
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
			l.Reset()
			m.ph = 0
			count, held, fresh = 0, 0, false
		case "run":
			cnt := int(o.Int(0))
			out := make([]float64, cnt)
			if o.Int(1)%2 == 1 {
				r.Probe("buffer")
				l.ProcessBuffer(out)
			}
			for i := range out {
				if o.Int(1)%2 == 0 {
					if p := l.GetPhase(); !(math.Abs(p-m.ph) < 1e-7 || math.Abs(p-m.ph) > 1-1e-7) {
						fail("phase", "the phase is %g instead of %g", p, m.ph)
						return
					}
					out[i] = l.Process()
				}
				n++
				r.Eval()
				y := out[i]
				r.ObserveF(y)
				if !(y >= -1 && y <= 1) {
					fail("range", "the value %g leaves [-1,1]", y)
					return
				}
				if m.w != 4 {
					ph := m.ph
					want, edge := m.next()
					if math.Abs(y-want) > 1e-6 {
						alt := false
						if edge {
							for _, d := range []float64{1e-6, 1 - 1e-6} {
								if math.Abs(y-clamp(modWave(m.w, frac01(ph+d))*m.depth+m.off, -1, 1)) < 1e-5 {
									alt = true
								}
							}
						}
						if !alt {
							fail("waveform", "waveform %d, depth %g, offset %g: %.9g at phase %.9g instead of %.9g", m.w, m.depth, m.off, y, ph, want)
							return
						}
					}
					continue
				}
				m.step()
				// Sample and hold.
				if count >= int(sr/m.f) {
					count, fresh = 0, true
					r.Probe("random-new")
				}
				count++
				if m.depth == 0 || math.Abs(m.off)+m.depth > 1 {
					// The held value cannot be told from the output.
					want := clamp(held*m.depth+m.off, -1, 1)
					if m.depth == 0 && math.Abs(y-want) > 1e-6 {
						fail("random", "%g instead of %g at depth 0", y, want)
						return
					}
					if !fresh && math.Abs(y-want) > 1e-6 {
						fail("random", "the value changes to %g from %g within a period", y, want)
						return
					}
					if !fresh || y <= -1 || y >= 1 || m.depth == 0 {
						continue
					}
				}
				x := (y - m.off) / m.depth
				if fresh {
					if !(x >= -1.000001 && x <= 1.000001) {
						fail("random", "drew %g", x)
						return
					}
					if math.Abs(x-held) < 1e-12 {
						fail("random", "kept %g after the period of %d samples", x, int(sr/m.f))
						return
					}
					held, fresh = x, false
				} else if math.Abs(x-held) > 1e-6 {
					fail("random", "changes from %g to %g after %d of %d samples", held, x, count, int(sr/m.f))
					return
				} else if count > 1 {
					r.Probe("random-held")
				}
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

// p30Unit is the real effect, p30Model the reference.
type p30Unit struct {
	set    func(k string, v float64)
	mono   func(x float32) float32 // nil if the effect has none
	stereo func(l, r float32) (float32, float32)
	buf    func(in, out []float32)
	sbuf   func(l, r, ol, or []float32)
	reset  func()
}

type p30Model struct {
	set   func(k string, v float64)
	next  func(l, r float64, mono bool) (ol, or, alt float64) // alt: allowed deviation at a jump
	reset func()
}

func p30Effect(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	u, m := p30Make(kind, sr, r)
	inL := newSig(int(c.Cfg["sig"]), uint64(c.Cfg["sigseed"]), float64(c.CfgF["amp"]))
	inR := newSig(int(c.Cfg["sig"]+4)%sigKinds, uint64(c.Cfg["sigseed"])+9, float64(c.CfgF["amp"]))
	n := 0
	last := ""
	changed := false
	for _, o := range c.Threads[0] {
		switch o.K {
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
			u.reset()
			m.reset()
			continue
		case "run":
		default:
			r.Fault("automation")
			changed = changed || n > 0
			u.set(o.K, o.Flt(0))
			m.set(o.K, o.Flt(0))
			last = o.K
			continue
		}
		cnt, mode := int(o.Int(0)), o.Int(1)
		xl, xr := make([]float32, cnt), make([]float32, cnt)
		yl, yr := make([]float32, cnt), make([]float32, cnt)
		for i := range xl {
			xl[i], xr[i] = float32(inL.next()), float32(inR.next())
		}
		mono := mode < 2
		switch {
		case mode == 0 && u.mono != nil:
			r.Probe("mono")
			for i := range xl {
				yl[i] = u.mono(xl[i])
			}
		case mode == 1 && u.buf != nil:
			r.Probe("mono")
			r.Probe("buffer")
			u.buf(xl, yl)
		case mode == 2:
			r.Probe("stereo")
			for i := range xl {
				yl[i], yr[i] = u.stereo(xl[i], xr[i])
			}
		default:
			mono = false
			r.Probe("stereo")
			r.Probe("buffer")
			u.sbuf(xl, xr, yl, yr)
		}
		for i := range xl {
			wl, wr, alt := m.next(float64(xl[i]), float64(xr[i]), mono)
			n++
			r.Eval()
			r.ObserveF(float64(yl[i]))
			tol := 2e-4 + alt
			bad := !(math.Abs(float64(yl[i])-wl) <= tol)
			if !mono {
				r.ObserveF(float64(yr[i]))
				bad = bad || !(math.Abs(float64(yr[i])-wr) <= tol)
			}
			if bad {
				r.Fail("model", kind, "%s at %g Hz, sample %d (mode %d, last control %s): (%.7g, %.7g) for (%.7g, %.7g) where its controls call for (%.7g, %.7g)", kind, sr, n, mode, last, yl[i], yr[i], xl[i], xr[i], wl, wr)
				return
			}
			if changed && math.Abs(wl-float64(xl[i])) > 0.01 {
				r.NonTriv = true
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

func on(v float64) bool { return v >= 0.5 }

func p30Make(kind string, sr float64, r *core.Rec) (p30Unit, p30Model) {
	switch kind {
	case "RingModulator":
		e := modulation.NewRingModulator(sr)
		f, mix, w, ph := 440.0, 0.5, 0, 0.0
		lfo, lon, ldepth := newMlfo(sr, 0.5, 0), false, 0.1
		return p30Unit{
			set: func(k string, v float64) {
				switch k {
				case "frequency":
					e.SetFrequency(v)
				case "waveform":
					e.SetWaveform(modulation.Waveform(int(v)))
				case "mix":
					e.SetMix(v)
				case "lfo":
					e.EnableLFO(on(v))
				case "lforate":
					e.SetLFORate(v)
				case "lfodepth":
					e.SetLFODepth(v)
				}
			},
			mono: e.Process, stereo: e.ProcessStereo, buf: e.ProcessBuffer, sbuf: e.ProcessStereoBuffer, reset: e.Reset,
		}, p30Model{
			set: func(k string, v float64) {
				switch k {
				case "frequency":
					f = clamp(v, 0.1, sr/2)
				case "waveform":
					w = int(v)
				case "mix":
					mix = clamp(v, 0, 1)
				case "lfo":
					lon = on(v)
				case "lforate":
					lfo.freq(v)
				case "lfodepth":
					ldepth = clamp(v, 0, 1)
				}
			},
			reset: func() { ph, lfo.ph = 0, 0 },
			next: func(l, rr float64, mono bool) (float64, float64, float64) {
				fe := f
				if lon {
					v, _ := lfo.next()
					fe = f * (1 + v*ldepth)
				}
				car := modWave(w, ph)
				alt := 0.0
				if edgeOf(w, ph) {
					alt = 2 * mix * math.Max(math.Abs(l), math.Abs(rr))
				}
				ph = frac01(ph + fe/sr)
				g := 1 - mix + mix*car
				return l * g, rr * g, alt
			},
		}
	case "Tremolo":
		e := modulation.NewTremolo(sr)
		L, R := newMlfo(sr, 5, 0), newMlfo(sr, 5, 0)
		depth, mode, stereo, sph := 0.5, 0, false, 0.0
		smooth, gl, gr := false, 1.0, 1.0
		co := math.Exp(-1 / (0.005 * sr))
		slack := 0.0
		align := func() {
			R.ph = L.ph
			if stereo {
				R.ph = frac01(L.ph + sph)
			}
		}
		return p30Unit{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					e.SetRate(v)
				case "depth":
					e.SetDepth(v)
				case "waveform":
					e.SetWaveform(modulation.Waveform(int(v)))
				case "mode":
					e.SetMode(modulation.TremoloMode(int(v)))
				case "stereo":
					e.SetStereo(on(v))
				case "stereophase":
					e.SetStereoPhase(v)
				case "smoothing":
					e.EnableSmoothing(on(v))
				}
			},
			mono: e.Process, stereo: e.ProcessStereo, buf: e.ProcessBuffer, sbuf: e.ProcessStereoBuffer, reset: e.Reset,
		}, p30Model{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					L.freq(v)
					R.freq(v)
				case "depth":
					depth = clamp(v, 0, 1)
				case "waveform":
					L.w, R.w = int(v), int(v)
					smooth = int(v) == 2
				case "mode":
					mode = int(v)
				case "stereo":
					stereo = on(v)
					align()
				case "stereophase":
					sph = clamp(v, 0, 1)
					align()
				case "smoothing":
					smooth = on(v)
				}
			},
			reset: func() {
				L.ph, gl, gr, slack = 0, 1, 1, 0
				align()
			},
			next: func(l, rr float64, mono bool) (float64, float64, float64) {
				vl, e1 := L.next()
				vr, e2 := vl, false
				if stereo {
					vr, e2 = R.next()
				}
				gain := func(v float64) float64 {
					if mode == 1 {
						return 1 - depth*math.Abs(v)
					}
					return 1 - depth*(1-v)/2
				}
				a, b := gain(vl), gain(vr)
				if e1 || e2 {
					slack = depth * 1.01
				}
				alt := slack * math.Max(math.Abs(l), math.Abs(rr))
				if smooth {
					r.Probe("smoothing")
					gl = a + (gl-a)*co
					a = gl
					if !mono {
						gr = b + (gr-b)*co
						b = gr
					}
					slack *= co
					if slack < 1e-4 {
						slack = 0
					}
				} else {
					slack = 0
				}
				return l * a, rr * b, alt
			},
		}
	case "Chorus":
		e := modulation.NewChorus(sr)
		rate, depth, dly, mix, fb, spread, voices := 0.5, 2.0, 20.0, 0.5, 0.0, 1.0, 2
		var lfos []*mlfo
		var hl, hr history
		fl, fr, max := 0.0, 0.0, 0
		lines := func() {
			max = int(float64(int((dly+depth)*sr/1000)) * 1.2)
			hl.v, hr.v, fl, fr = nil, nil, 0, 0
		}
		phases := func() {
			lfos = nil
			for i := 0; i < voices; i++ {
				l := newMlfo(sr, rate, 0)
				l.ph = float64(i) / float64(voices)
				lfos = append(lfos, l)
			}
		}
		phases()
		lines()
		scratch := make([]float32, 4096)
		return p30Unit{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					e.SetRate(v)
				case "depth":
					e.SetDepth(v)
				case "delay":
					e.SetDelay(v)
				case "mix":
					e.SetMix(v)
				case "feedback":
					e.SetFeedback(v)
				case "spread":
					e.SetSpread(v)
				case "voices":
					e.SetVoices(int(v))
				}
			},
			mono:   func(x float32) float32 { y, _ := e.Process(x); return y },
			stereo: e.ProcessStereo,
			buf:    func(in, out []float32) { e.ProcessBuffer(in, out, scratch) },
			sbuf:   e.ProcessStereoBuffer, reset: e.Reset,
		}, p30Model{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					rate = clamp(v, 0.01, 10)
					for _, l := range lfos {
						l.f = rate
					}
				case "depth":
					depth = clamp(v, 0, 10)
				case "delay":
					dly = clamp(v, 1, 50)
					lines()
				case "mix":
					mix = clamp(v, 0, 1)
				case "feedback":
					fb = clamp(v, 0, 0.5)
				case "spread":
					spread = clamp(v, 0, 1)
				case "voices":
					voices = int(clamp(float64(int(v)), 1, 4))
					phases()
					lines()
				}
			},
			reset: func() {
				hl.v, hr.v, fl, fr = nil, nil, 0, 0
				phases()
			},
			next: func(l, rr float64, mono bool) (float64, float64, float64) {
				if mono {
					rr = l
				}
				if fb > 0 && fl != 0 {
					r.Probe("feedback")
				}
				hl.add(l + fl*fb)
				hr.add(rr + fr*fb)
				wl, wr := 0.0, 0.0
				for v, lf := range lfos {
					mod, _ := lf.next()
					d := clamp((dly+depth*mod)*sr/1000, 1, float64(max-1))
					// The sample just written has delay 0.
					a, b := hl.read(d+1, 1<<30), hr.read(d+1, 1<<30)
					if voices > 1 {
						pan := (float64(v)/float64(voices-1)-0.5)*spread + 0.5
						a *= math.Cos(pan*math.Pi/2) / float64(voices)
						b *= math.Sin(pan*math.Pi/2) / float64(voices)
					}
					wl += a
					wr += b
				}
				fl, fr = wl, wr
				return l*(1-mix) + wl*mix, rr*(1-mix) + wr*mix, 0
			},
		}
	case "Flanger":
		e := modulation.NewFlanger(sr)
		depth, dly, mix, fb, man, manual := 2.0, 5.0, 0.5, 0.5, 0.5, false
		lfo := newMlfo(sr, 0.5, 1)
		var hl history
		fs, max := 0.0, 0
		lines := func() {
			max = int(math.Max(2, float64(int(float64(int((dly+depth)*sr/1000))*1.2))))
			hl.v, fs = nil, 0
		}
		lines()
		return p30Unit{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					e.SetRate(v)
				case "depth":
					e.SetDepth(v)
				case "delay":
					e.SetDelay(v)
				case "mix":
					e.SetMix(v)
				case "feedback":
					e.SetFeedback(v)
				case "manual":
					e.SetManual(v)
				case "manualmode":
					e.SetManualMode(on(v))
				}
			},
			mono: e.Process, stereo: e.ProcessStereo, buf: e.ProcessBuffer, sbuf: e.ProcessStereoBuffer, reset: e.Reset,
		}, p30Model{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					lfo.freq(v)
				case "depth":
					depth = clamp(v, 0, 10)
				case "delay":
					dly = clamp(v, 0.1, 10)
					lines()
				case "mix":
					mix = clamp(v, 0, 1)
				case "feedback":
					fb = clamp(v, -0.99, 0.99)
				case "manual":
					man = clamp(v, 0, 1)
				case "manualmode":
					manual = on(v)
				}
			},
			reset: func() { hl.v, fs, lfo.ph = nil, 0, 0 },
			next: func(l, rr float64, mono bool) (float64, float64, float64) {
				if fb != 0 && fs != 0 {
					r.Probe("feedback")
				}
				hl.add(clamp(l+fs*fb, -1, 1))
				mod := 2*man - 1
				if !manual {
					mod, _ = lfo.next()
				}
				d := clamp((dly+depth*mod)*sr/1000, 0.1, float64(max-1))
				fs = hl.read(d+1, 1<<30)
				return l*(1-mix) + fs*mix, rr*(1-mix) - fs*mix, 0
			},
		}
	default: // Phaser
		e := modulation.NewPhaser(sr)
		depth, center, fb, mix, stages := 0.5, 1000.0, 0.5, 0.5, 4
		lo, hi := 0.0, 0.0
		span := func() {
			lo = math.Max(20, center*(1-depth/2))
			hi = math.Min(sr/4, center*(1+depth/2))
		}
		span()
		lfo := newMlfo(sr, 0.5, 0)
		fs := 0.0
		st := make([]float64, 8)
		return p30Unit{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					e.SetRate(v)
				case "depth":
					e.SetDepth(v)
				case "center":
					e.SetCenterFrequency(v)
				case "feedback":
					e.SetFeedback(v)
				case "mix":
					e.SetMix(v)
				case "stages":
					e.SetStages(int(v))
				case "range":
					e.SetFrequencyRange(v, 3*v)
				}
			},
			mono: e.Process, stereo: e.ProcessStereo, buf: e.ProcessBuffer, sbuf: e.ProcessStereoBuffer, reset: e.Reset,
		}, p30Model{
			set: func(k string, v float64) {
				switch k {
				case "rate":
					lfo.f = clamp(v, 0.01, 10)
				case "depth":
					depth = clamp(v, 0, 1)
				case "center":
					center = clamp(v, 100, 4000)
					span()
				case "feedback":
					fb = clamp(v, -0.99, 0.99)
				case "mix":
					mix = clamp(v, 0, 1)
				case "stages":
					stages = int(clamp(float64(int(v)), 2, 8)) / 2 * 2
					st = make([]float64, 8)
					span()
				case "range":
					lo = clamp(v, 20, sr/4)
					hi = math.Max(lo+100, math.Min(sr/2, 3*v))
					center = (lo + hi) / 2
				}
			},
			reset: func() { st, fs, lfo.ph = make([]float64, 8), 0, 0 },
			next: func(l, rr float64, mono bool) (float64, float64, float64) {
				if fb != 0 && fs != 0 {
					r.Probe("feedback")
				}
				mod, _ := lfo.next()
				f := lo * math.Pow(hi/lo, (mod+1)/2)
				t := math.Tan(math.Pi * f / sr)
				a := (1 - t) / (1 + t)
				x := clamp(l+fs*fb, -1, 1)
				for i := 0; i < stages; i++ {
					y := a*x + st[i]
					st[i] = x - a*y
					x = y
				}
				fs = x
				return l*(1-mix) + x*mix, rr*(1-mix) - x*mix, 1e-3
			},
		}
	}
}
