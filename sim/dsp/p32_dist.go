package dsp

import (
	"math"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
)

// P32: distortions follow the curves, grids and recorders their controls
// describe.

var p32Kinds = []string{"Waveshaper", "Tube", "Tape", "Bitcrusher", "Bitcrusher", "Functions"}

var p32Ctls = map[string][]p30Ctl{
	"Waveshaper": {
		{"curve", []float64{0, 1, 2, 3, 4, 5, 6, 7, -1}, 0, 6},
		{"drive", []float64{1, 10, 100, 0, 1000}, 1, 20},
		{"mix", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"output", []float64{0, 0.5, 1, 2, 3, -1}, 0, 2},
		{"asymmetry", []float64{-1, 0, 1, 0.5, 2}, -1, 1},
	},
	"Tube": {
		{"warmth", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"harmonics", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"bias", []float64{0, 0.5, 1, -1, 3}, -1, 1},
		{"hysteresis", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"mix", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"output", []float64{0.5, 1, 2, 3, -1}, 0, 2},
	},
	"Tape": {
		{"saturation", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"compression", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"flutter", []float64{0, 0.5, 1, 2, 0.005, -1}, 0, 1},
		{"warmth", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"mix", []float64{0, 0.5, 1, 2, -1}, 0, 1},
		{"output", []float64{0.5, 1, 2, 3, -1}, 0, 2},
	},
	"Bitcrusher": {
		{"bits", []float64{1, 2, 4, 8, 12, 16, 31.9, 32, 0, 99}, 1, 16},
		{"factor", []float64{1, 2, 3, 10, 100, 0, 999, 2.5}, 1, 20},
		{"antialias", []float64{0, 1}, 0, 1},
		{"dither", []float64{0, 0, 1, 2}, 0, 2},
		{"mix", []float64{0, 0.5, 1, 1, 2, -1}, 0, 1},
		{"output", []float64{0.5, 1, 1, 2, 3, -1}, 0, 2},
	},
}

func init() {
	core.Register(&core.Check{
		ID: "P32", Quick: 72000, Thorough: 1440000,
		Rule:      "A host plays a waveshaper, tube, tape or bitcrusher (mono on the left channel, block and stereo calls, signals up to eight times full scale) and moves every control between any two blocks, in and out of its range, with resets. A model of each runs alongside and is compared at every sample. Random draws of the tape (hiss, flutter jitter, rate) go through the seam: with a constant source the model is exact, with a seeded source the output must lie in the interval the hiss level and the flutter depth allow. Dithered samples lie on the grid, at most one and a half steps from the signal, and right on the mean. The curve functions are compared with their definitions. Non-trivial: a control changed mid-stream and the output differed from the input.",
		StateRule: "distinct (distortion, source of randomness, operation sequence with controls)",
		Real:      []string{"pkg/dsp/distortion"},
		Stub:      []string{"host (calls, automation, input signal)", "math/rand (seeded or constant stand-in)"},
		Assume:    []string{"a sample is held until the count reaches the reduction factor (2.5 holds three)", "the tube's knee is the authors' (it bends back slightly)", "ties of a rounding within 1e-9 may go either way"},
		Must: []string{"Waveshaper", "Tube", "Tape", "Bitcrusher", "Functions", "tape-exact", "tape-interval", "flutter", "dither-white", "dither-triangular", "dither-mean", "held", "antialias", "stereo", "mono", "block", "reset", "folded",
			"curve0", "curve1", "curve2", "curve3", "curve4", "curve5", "curve6"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := p32Kinds[i%len(p32Kinds)]
			_ = g.U64()
			c.SetS("kind", kind)
			c.SetF("sr", g.PickF(8000, 22050, 44100, 48000, 96000))
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			c.SetF("amp", g.PickF(1, 0.5, 0.9, 2, 8, 0.01))
			if kind == "Tape" && g.Chance(0.5) {
				c.SetF("fixed", g.PickF(0.5, 0.5, 0.05, 0.99, g.F())+1) // +1: 0 means seeded
			}
			c.Set("ext", int64(g.Pick(0, 0, 3, 20)))
			var ops []core.Op
			if kind == "Functions" {
				for k := 0; k < 40; k++ {
					x := g.PickF(0, 1, -1, g.FR(-1, 1), g.FR(-20, 20), g.FR(-2, 2))
					fn := g.N(6)
					var a float64
					switch fn {
					case 0:
						a = float64(g.Pick(2, 3, 4, 5, 8, 16, 256, 1, 0, -3, g.Range(2, 1000)))
						x = g.PickF(0, 1, -1, g.FR(-1, 1), g.FR(-1, 1))
					case 1, 2:
						a = g.PickF(1, 0.5, 0.1, g.FR(0.01, 2), 0, -1)
					case 3:
						a = g.PickF(1, 0.1, 10, 0, 100, g.FR(0.1, 10))
					case 4:
						a = float64(g.Range(0, 9))
						x = g.FR(-1, 1)
					default:
						a = float64(g.N(6))
					}
					ops = append(ops, core.Op{K: "fn", I: []int64{int64(fn)}, F: []core.X{core.X(x), core.X(a), core.X(g.FR(-2, 2)), core.X(g.FR(-2, 2)), core.X(g.FR(-2, 2))}})
				}
				c.Threads = [][]core.Op{ops}
				return c
			}
			ctls := p32Ctls[kind]
			total := g.Pick(200, 1000, 3000)
			ctl := func() {
				k := g.N(len(ctls))
				v := ctls[k].vals[g.N(len(ctls[k].vals))]
				if g.Chance(0.4) && ctls[k].name != "curve" && ctls[k].name != "antialias" && ctls[k].name != "dither" {
					v = g.FR(ctls[k].lo, ctls[k].hi)
					if ctls[k].name == "factor" && g.Chance(0.5) {
						v = math.Floor(v)
					}
				}
				ops = append(ops, core.Op{K: ctls[k].name, F: []core.X{core.X(v)}})
			}
			for total > 0 {
				for k := g.N(5); k > 0; k-- {
					ctl()
				}
				if g.Chance(0.05) {
					ops = append(ops, core.Op{K: "reset"})
				}
				n := g.Pick(1, 2, 17, 64, 200, 700)
				ops = append(ops, core.Op{K: "run", I: []int64{int64(n), int64(g.N(3))}})
				total -= n
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP32,
	})
}

type p32Unit struct {
	one    func(x float64) float64
	block  func(in, out []float64)
	stereo func(a, b, c, d []float64)
	set    func(k string, v float64)
	reset  func()
}

// p32Model says which values the output may have; next gets the actual value
// to settle ambiguities.
type p32Model interface {
	set(k string, v float64)
	reset()
	next(x float64, ch int, y float64) (lo, hi float64)
}

func execP32(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	r.Comp("distortion." + kind)
	r.Probe(kind)
	h := core.HashU(core.HashS(kind), uint64(float64(c.CfgF["fixed"])*100))
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)*5+o.Int(1)))
		if len(o.F) > 0 {
			h = core.HashU(h, math.Float64bits(o.Flt(0)))
		}
	}
	r.State(h)
	if kind == "Functions" {
		p32Functions(c, r)
		return
	}
	fixed := float64(c.CfgF["fixed"]) - 1
	srand.Seed(c.Cfg["sigseed"] ^ 0x77)
	srand.Extremes(int(c.Cfg["ext"]))
	if fixed >= 0 {
		srand.Fix(fixed)
		r.Fault("constant-randomness")
	} else if c.Cfg["ext"] != 0 {
		r.Fault("extreme-randomness")
	}
	defer srand.Fix(-1)
	u, m := p32Make(kind, sr, fixed, r)
	inL := newSig(int(c.Cfg["sig"]), uint64(c.Cfg["sigseed"]), float64(c.CfgF["amp"]))
	inR := newSig(int(c.Cfg["sig"]+4)%sigKinds, uint64(c.Cfg["sigseed"])+9, float64(c.CfgF["amp"]))
	n := 0
	last := ""
	changed := false
	for _, o := range c.Threads[0] {
		switch o.K {
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
			u.reset()
			m.reset()
			continue
		case "run":
		default:
			r.Fault("automation")
			changed = changed || n > 0
			u.set(o.K, o.Flt(0))
			m.set(o.K, o.Flt(0))
			last = o.K
			continue
		}
		cnt, mode := int(o.Int(0)), o.Int(1)
		x := [2][]float64{make([]float64, cnt), make([]float64, cnt)}
		y := [2][]float64{make([]float64, cnt), make([]float64, cnt)}
		for i := 0; i < cnt; i++ {
			x[0][i], x[1][i] = inL.next(), inR.next()
		}
		chans := 1
		switch mode {
		case 0:
			r.Probe("mono")
			for i, v := range x[0] {
				y[0][i] = u.one(v)
			}
		case 1:
			r.Probe("block")
			u.block(x[0], y[0])
		default:
			r.Probe("stereo")
			u.stereo(x[0], x[1], y[0], y[1])
			chans = 2
		}
		for i := 0; i < cnt; i++ {
			n++
			for ch := 0; ch < chans; ch++ {
				v := y[ch][i]
				lo, hi := m.next(x[ch][i], ch, v)
				r.Eval()
				r.ObserveF(v)
				tol := 1e-9 * (1 + math.Abs(lo) + math.Abs(hi) + math.Abs(x[ch][i]))
				if !(v >= lo-tol && v <= hi+tol) {
					r.Fail("model", kind, "%s at %g Hz, channel %d, sample %d (last control %s): %.10g for %.10g where its controls call for %.10g to %.10g", kind, sr, ch, n, last, v, x[ch][i], lo, hi)
					return
				}
				if changed && math.Abs(v-x[ch][i]) > 0.01 {
					r.NonTriv = true
				}
			}
		}
	}
	if b, ok := m.(*p32Crush); ok {
		for k, name := range []string{"", "white", "triangular"} {
			if k == 0 || b.cnt[k] < 400 {
				continue
			}
			r.Probe("dither-mean")
			r.Eval()
			if mean := b.sum[k] / b.cnt[k]; math.Abs(mean) > 6*0.8/math.Sqrt(b.cnt[k]) {
				r.Fail("mean", kind, "%s dither moves the signal by %.4f steps on average over %g samples", name, mean, b.cnt[k])
				return
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

func p32Make(kind string, sr, fixed float64, r *core.Rec) (p32Unit, p32Model) {
	switch kind {
	case "Waveshaper":
		w := distortion.NewWaveshaper()
		m := &p32Shaper{curve: 1, drive: 1, mix: 1, out: 1, r: r}
		return p32Unit{w.Process, w.ProcessBlock, w.ProcessStereo, func(k string, v float64) {
			switch k {
			case "curve":
				w.SetCurveType(distortion.CurveType(int(v)))
			case "drive":
				w.SetDrive(v)
			case "mix":
				w.SetMix(v)
			case "output":
				w.SetOutput(v)
			case "asymmetry":
				w.SetAsymmetry(v)
			}
		}, func() {}}, m
	case "Tube":
		t := distortion.NewTubeSaturation()
		m := &p32Tube{warmth: 0.5, harm: 0.5, hyst: 0.1, mix: 1, out: 1}
		return p32Unit{t.Process, t.ProcessBlock, t.ProcessStereo, func(k string, v float64) {
			switch k {
			case "warmth":
				t.SetWarmth(v)
			case "harmonics":
				t.SetHarmonics(v)
			case "bias":
				t.SetBias(v)
			case "hysteresis":
				t.SetHysteresis(v)
			case "mix":
				t.SetMix(v)
			case "output":
				t.SetOutput(v)
			}
		}, t.Reset}, m
	case "Tape":
		t := distortion.NewTapeSaturation(sr)
		m := &p32Tape{sat: 0.5, comp: 0.5, warmth: 0.5, mix: 1, out: 1, sr: sr, fixed: fixed, r: r}
		for ch := range m.line {
			m.line[ch] = newRing(16)
		}
		return p32Unit{t.Process, t.ProcessBlock, t.ProcessStereo, func(k string, v float64) {
			switch k {
			case "saturation":
				t.SetSaturation(v)
			case "compression":
				t.SetCompression(v)
			case "flutter":
				t.SetFlutter(v)
			case "warmth":
				t.SetWarmth(v)
			case "mix":
				t.SetMix(v)
			case "output":
				t.SetOutput(v)
			}
		}, t.Reset}, m
	}
	b := distortion.NewBitcrusher(sr)
	m := &p32Crush{bits: 16, factor: 1, anti: true, mix: 1, out: 1, r: r}
	return p32Unit{b.Process, b.ProcessBlock, b.ProcessStereo, func(k string, v float64) {
		switch k {
		case "bits":
			b.SetBitDepth(v)
		case "factor":
			b.SetSampleRateReduction(v)
		case "antialias":
			b.SetAntiAlias(on(v))
		case "dither":
			b.SetDither(distortion.DitherType(int(v)))
		case "mix":
			b.SetMix(v)
		case "output":
			b.SetOutput(v)
		}
	}, b.Reset}, m
}

type p32Shaper struct {
	curve                 int
	drive, mix, out, asym float64
	r                     *core.Rec
}

func (m *p32Shaper) reset() {}

func (m *p32Shaper) set(k string, v float64) {
	switch k {
	case "curve":
		m.curve = int(v)
	case "drive":
		m.drive = clamp(v, 1, 100)
	case "mix":
		m.mix = clamp(v, 0, 1)
	case "output":
		m.out = clamp(v, 0, 2)
	case "asymmetry":
		m.asym = clamp(v, -1, 1)
	}
}

// foldTri reflects x at both thresholds.
func foldTri(x, t float64) float64 {
	return t * 2 / math.Pi * math.Asin(math.Sin(x/t*math.Pi/2))
}

func (m *p32Shaper) next(in float64, _ int, _ float64) (float64, float64) {
	x := in * m.drive
	y := x
	a, s := math.Abs(x), math.Copysign(1, x)
	switch m.curve {
	case 0:
		y = s * math.Min(1, a)
	case 1:
		y = s * (1 - 2/(math.Exp(2*a)+1))
	case 2:
		y = math.Atan(x*math.Pi/2) * 2 / math.Pi
	case 3:
		y = foldTri(x, 1)
		if a > 1 {
			m.r.Probe("folded")
		}
	case 4:
		y = math.Tanh(x * (1 + s*m.asym))
	case 5:
		y = math.Sin(math.Min(1, a)*math.Pi/2) * s
	case 6:
		y = s
		if a <= 1 {
			y = s * -math.Expm1(-3*a)
		}
		if math.Abs(a-1) < 1e-12 { // the curve jumps here
			lo, hi := s*-math.Expm1(-3), s
			l, h := (lo*m.mix+in*(1-m.mix))*m.out, (hi*m.mix+in*(1-m.mix))*m.out
			return math.Min(l, h), math.Max(l, h)
		}
	}
	if m.curve >= 0 && m.curve < 7 {
		m.r.Probe("curve" + string(rune('0'+m.curve)))
	}
	v := (y*m.mix + in*(1-m.mix)) * m.out
	slack := 0.0
	if m.curve == 3 { // the arcsine is steep at the folds
		slack = 3e-8 * m.out
	}
	return v - slack, v + slack
}

type p32Tube struct {
	warmth, harm, bias, hyst, mix, out float64
	pre, de, in, mem                   [2]float64
	doubt, doubtDe                     [2]float64
}

func (m *p32Tube) reset() {
	m.pre, m.de, m.in, m.mem = [2]float64{}, [2]float64{}, [2]float64{}, [2]float64{}
}

func (m *p32Tube) set(k string, v float64) {
	switch k {
	case "warmth":
		m.warmth = clamp(v, 0, 1)
	case "harmonics":
		m.harm = clamp(v, 0, 1)
	case "bias":
		m.bias = clamp(v, -1, 1)
	case "hysteresis":
		m.hyst = clamp(v, 0, 1)
	case "mix":
		m.mix = clamp(v, 0, 1)
	case "output":
		m.out = clamp(v, 0, 2)
	}
}

func (m *p32Tube) shape(x float64) float64 {
	a := math.Abs(x)
	even := a - 0.1*math.Pow(a, 2) + 0.05*math.Pow(a, 4)
	if x < 0 {
		even = -(a - 0.15*math.Pow(a, 2) + 0.08*math.Pow(a, 4))
	}
	odd := x - 0.15*math.Pow(x, 3) + 0.05*math.Pow(x, 5)
	v := even + m.harm/2*(odd-even)
	b := math.Abs(v)
	over := b - 0.7
	switch {
	case over <= 0:
		return v
	case over < 0.1:
		b = 0.7 + over*(1-2.0/3*math.Pow(over/0.1, 2))
	default:
		b = 0.7 + over/3
	}
	return math.Copysign(b, v)
}

func (m *p32Tube) next(x float64, ch int, y float64) (float64, float64) {
	d := x - m.pre[ch]
	m.pre[ch] += d * (0.1 + 0.4*m.warmth)
	v := x + d*m.warmth/2 + m.bias/10
	rise := v - m.in[ch]
	m.in[ch] = v
	step := func(share float64) (mem, de, out float64) {
		mem = m.mem[ch] + (v-m.mem[ch])*(1-m.hyst*share)
		de = m.de[ch] + (m.shape(mem)-m.de[ch])*(0.9-0.6*m.warmth)
		return mem, de, (de*m.mix + x*(1-m.mix)) * m.out
	}
	share, other := 0.5, 0.3
	if rise > 0 {
		share, other = other, share
	}
	mem, de, out := step(share)
	if math.Abs(rise) < 1e-12 {
		// Rounding decides; take what was heard.
		a, b, c := step(other)
		if math.Abs(c-out) < 1e-9 {
			m.doubt[ch] += math.Abs(a - mem) // nobody can hear which
		} else if math.Abs(c-y) < math.Abs(out-y) {
			mem, de, out = a, b, c
		}
	}
	m.mem[ch], m.de[ch] = mem, de
	m.doubtDe[ch] += (m.doubt[ch]*20 - m.doubtDe[ch]) * (0.9 - 0.6*m.warmth)
	m.doubt[ch] *= m.hyst * 0.5
	// Large levels go through a fifth power.
	slack := 1e-10*math.Abs(out) + 2*m.doubtDe[ch]
	return out - slack, out + slack
}

// p32Tape keeps the interval the hiss and the flutter jitter allow.
type p32Tape struct {
	sat, comp, flutter, warmth, mix, out, sr, fixed float64
	pre, env, deLo, deHi                            [2]float64
	phLo, phHi                                      [2]float64
	line                                            [2]*ring
	r                                               *core.Rec
}

func (m *p32Tape) reset() {
	m.pre, m.env, m.deLo, m.deHi, m.phLo, m.phHi = [2]float64{}, [2]float64{}, [2]float64{}, [2]float64{}, [2]float64{}, [2]float64{}
	for ch := range m.line {
		m.line[ch] = newRing(16)
	}
}

func (m *p32Tape) set(k string, v float64) {
	switch k {
	case "saturation":
		m.sat = clamp(v, 0, 1)
	case "compression":
		m.comp = clamp(v, 0, 1)
	case "flutter":
		m.flutter = clamp(v, 0, 1)
	case "warmth":
		m.warmth = clamp(v, 0, 1)
	case "mix":
		m.mix = clamp(v, 0, 1)
	case "output":
		m.out = clamp(v, 0, 2)
	}
}

// sine is the range of the sine between two phases.
func sineRange(a, b float64) (float64, float64) {
	lo, hi := math.Min(math.Sin(a), math.Sin(b)), math.Max(math.Sin(a), math.Sin(b))
	if b-a >= 2*math.Pi {
		return -1, 1
	}
	if math.Floor((b-math.Pi/2)/(2*math.Pi)) != math.Floor((a-math.Pi/2)/(2*math.Pi)) {
		hi = 1
	}
	if math.Floor((b+math.Pi/2)/(2*math.Pi)) != math.Floor((a+math.Pi/2)/(2*math.Pi)) {
		lo = -1
	}
	return lo, hi
}

func (m *p32Tape) next(x float64, ch int, _ float64) (float64, float64) {
	d := x - m.pre[ch]
	m.pre[ch] += d * (0.15 + 0.1*m.warmth)
	v := x + d*m.warmth*0.3
	if a := math.Abs(v); a > m.env[ch] {
		m.env[ch] += 0.01 * (a - m.env[ch])
	} else {
		m.env[ch] += 0.1 * (a - m.env[ch])
	}
	if e := m.env[ch]; e > 0.5 {
		v *= (0.5 + (e-0.5)/(2+3*m.comp)) / e
	}
	v *= 1 + 4*m.sat
	v = 0.8*math.Tanh(0.7*v) + 0.2*m.sat*(v-0.1*v*v*v)
	lo, hi := v, v
	if m.flutter >= 0.01 {
		m.r.Probe("flutter")
		jl, jh := -1.0, 1.0
		rl, rh := 0.3, 0.5
		if m.fixed >= 0 {
			jl, jh = 2*m.fixed-1, 2*m.fixed-1
			rl, rh = 0.3+0.2*m.fixed, 0.3+0.2*m.fixed
		}
		m.line[ch].put(v)
		m.phLo[ch] += 2 * math.Pi * rl / m.sr
		m.phHi[ch] += 2 * math.Pi * rh / m.sr
		sl, sh := sineRange(m.phLo[ch], m.phHi[ch])
		depth := 3 * m.flutter
		// The newest sample is at a delay of one.
		lo, hi = m.span(ch, 5+depth*(sl+0.3*jl), 5+depth*(sh+0.3*jh))
	}
	hl, hh := -1.0, 1.0
	if m.fixed >= 0 {
		hl, hh = 2*m.fixed-1, 2*m.fixed-1
		m.r.Probe("tape-exact")
	} else {
		m.r.Probe("tape-interval")
	}
	lo += hl * 1e-4 * m.sat
	hi += hh * 1e-4 * m.sat
	k := 0.8 - 0.5*m.warmth
	m.deLo[ch] += (lo - m.deLo[ch]) * k
	m.deHi[ch] += (hi - m.deHi[ch]) * k
	dry := x * (1 - m.mix)
	lo, hi = (m.deLo[ch]*m.mix+dry)*m.out, (m.deHi[ch]*m.mix+dry)*m.out
	slack := 1e-9 * (math.Abs(v) + math.Abs(lo) + math.Abs(hi))
	return lo - slack, hi + slack
}

// span is the range of the line between two delays, interpolated; a delay of
// one is the newest sample.
func (m *p32Tape) span(ch int, a, b float64) (float64, float64) {
	at := func(d float64) float64 {
		i := math.Floor(d)
		f := d - i
		return m.line[ch].at(int(i))*(1-f) + m.line[ch].at(int(i)+1)*f
	}
	lo, hi := math.Min(at(a), at(b)), math.Max(at(a), at(b))
	for k := int(math.Ceil(a)); k <= int(math.Floor(b)); k++ {
		lo, hi = math.Min(lo, m.line[ch].at(k)), math.Max(hi, m.line[ch].at(k))
	}
	return lo, hi
}

type p32Crush struct {
	bits, factor, mix, out float64
	anti                   bool
	dither                 int
	count, held, filt      [2]float64
	sum, cnt               [3]float64
	r                      *core.Rec
}

func (m *p32Crush) reset() { m.count, m.held, m.filt = [2]float64{}, [2]float64{}, [2]float64{} }

func (m *p32Crush) set(k string, v float64) {
	switch k {
	case "bits":
		m.bits = clamp(v, 1, 32)
	case "factor":
		m.factor = clamp(v, 1, 100)
	case "antialias":
		m.anti = on(v)
	case "dither":
		m.dither = int(v)
	case "mix":
		m.mix = clamp(v, 0, 1)
	case "output":
		m.out = clamp(v, 0, 2)
	}
}

func (m *p32Crush) next(x float64, ch int, y float64) (float64, float64) {
	v := x
	if m.factor > 1 {
		if m.anti {
			m.r.Probe("antialias")
			w := 2 * math.Pi * 0.45 / m.factor
			a := math.Sin(w) / (math.Sin(w) + math.Cos(w))
			if !(a >= 0 && a <= 1) {
				a = 1
			}
			m.filt[ch] += a * (v - m.filt[ch])
			v = m.filt[ch]
		}
		if m.count[ch] == 0 {
			m.held[ch] = v
		} else {
			m.r.Probe("held")
		}
		m.count[ch]++
		if m.count[ch] >= m.factor {
			m.count[ch] = 0
		}
		v = m.held[ch]
	} else {
		m.count[ch] = 0
	}
	end := func(v float64) float64 { return (v*m.mix + x*(1-m.mix)) * m.out }
	if m.bits >= 32 {
		return end(v), end(v)
	}
	step := 2 / math.Exp2(m.bits)
	grid := func(k float64) float64 { return clamp(k*step, -1, 1) }
	if m.dither == 0 {
		lo, hi := grid(math.Floor(v/step+0.5-1e-9)), grid(math.Floor(v/step+0.5+1e-9))
		if lo != hi {
			if math.Abs(end(lo)-y) < math.Abs(end(hi)-y) {
				hi = lo
			} else {
				lo = hi
			}
		}
		return end(lo), end(hi)
	}
	lo, hi := grid(math.Ceil(v/step-1.5-1e-9)), grid(math.Floor(v/step+1.5+1e-9))
	if m.mix > 0.05 && m.out > 0.05 {
		// The wet sample is on the grid.
		w := (y/m.out - x*(1-m.mix)) / m.mix
		if k := math.Round(w / step); math.Abs(grid(k)-w) > 1e-9*(1+math.Abs(w)+math.Abs(x))/(m.mix*m.out) && math.Abs(math.Abs(w)-1) > 1e-9 {
			return end(grid(k)), end(grid(k))
		}
		if math.Abs(v) < 1-2*step {
			m.r.Probe([]string{"", "dither-white", "dither-triangular"}[m.dither])
			m.sum[m.dither] += (w - v) / step
			m.cnt[m.dither]++
		}
	}
	return end(lo), end(hi)
}

func p32Functions(c *core.Case, r *core.Rec) {
	for _, o := range c.Threads[0] {
		r.Eval()
		x, a := o.Flt(0), o.Flt(1)
		var got, want float64
		tol := 1e-9
		name := ""
		switch o.Int(0) {
		case 0:
			name = "QuantizeToSteps"
			got = distortion.QuantizeToSteps(x, int(a))
			if a > 1 {
				// The nearest of a levels from -1 to 1; at a tie either.
				best := math.Inf(1)
				for k := 0.0; k < a; k++ {
					best = math.Min(best, math.Abs(x-(2*k/(a-1)-1)))
				}
				if k := (got + 1) * (a - 1) / 2; math.Abs(k-math.Round(k)) > 1e-7 {
					r.Fail("function", name, "QuantizeToSteps(%g, %g) is %.9g, not one of the levels", x, a, got)
					return
				}
				got, want = math.Abs(x-got), best
			}
		case 1:
			name = "FoldbackDistortion"
			got = distortion.FoldbackDistortion(x, a)
			if a > 0 {
				want = foldTri(x, a)
				tol = 1e-6
			}
			r.Probe("folded")
		case 2:
			name = "GateEffect"
			got = distortion.GateEffect(x, a)
			want = x
			if math.Abs(x) < a {
				want = 0
			}
		case 3:
			name = "Sigmoid"
			got = distortion.Sigmoid(x, a)
			want = math.Tanh(clamp(a, 0.1, 10) * x / 2)
			tol = 1.1e-6
			if !(got > -1 && got < 1) {
				r.Fail("function", name, "Sigmoid(%g, %g) is %g", x, a, got)
				return
			}
		case 4:
			name = "ChebyshevPolynomial"
			got = distortion.ChebyshevPolynomial(x, int(a))
			want = math.Cos(a * math.Acos(x))
		default:
			name = "Polynomial"
			co := []float64{a / 3, o.Flt(2), o.Flt(3), o.Flt(4)}[:int(a)%5]
			got = distortion.Polynomial(x, co)
			for k := len(co) - 1; k >= 0; k-- {
				want = want*x + co[k]
			}
			tol = 1e-9 * (1 + math.Pow(math.Abs(x), 4))
		}
		r.ObserveF(got)
		if !(math.Abs(got-want) <= tol) {
			r.Fail("function", name, "%s(%g, %g) gives %.10g instead of %.10g", name, x, a, got, want)
			return
		}
	}
	r.NonTriv = true
}
