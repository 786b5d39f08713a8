package dsp

import (
	"math"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// P24: oscillators play the frequency, phase and waveform they were told to,
// noise generators the colour they are named after.

var p24Kinds = []string{"Oscillator", "Oscillator", "BLIT", "BandLimitedSaw", "Noise", "Noise", "Colour", "Gaussian"}

func init() {
	core.Register(&core.Check{
		ID: "P24", Quick: 50000, Thorough: 1000000,
		Rule:      "A host plays one generator under automation. Oscillator: frequency (up to and beyond the sample rate, negative, zero), phase and waveform change at any sample, sample by sample or by the buffer; every sample is compared with the waveform of a phase accumulated independently. Band-limited oscillators: compared with the sum of the harmonics below half the sample rate, and, over whole periods, with the spectrum of a sawtooth. Noise: type, seed and reset change at any sample; coloured noise is compared with the white noise of the same seed put through the defining filter, statistics of long stretches with those of the colour. Non-trivial: frequency, type or seed changed while playing.",
		StateRule: "distinct (generator, rate, operation sequence with frequencies)",
		Real:      []string{"pkg/dsp/oscillator", "pkg/dsp/utility (noise)"},
		Stub:      []string{"host (calls, automation)", "math/rand (seeded stand-in)"},
		Assume:    []string{"at a jump of the waveform (within 1e-7 of a period) either side is accepted"},
		Must:      []string{"Oscillator", "BLIT", "BandLimitedSaw", "Noise", "Colour", "Gaussian", "backwards", "beyond", "buffer", "seeded", "sine", "saw", "square", "pulse", "triangle", "white", "pink", "brown", "blue", "violet", "spectrum"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := i % len(p24Kinds)
			_ = g.U64()
			c.SetS("kind", p24Kinds[kind])
			c.SetF("sr", g.PickF(8000, 22050, 44100, 48000, 96000, 192000))
			sr := float64(c.CfgF["sr"])
			c.Set("seed", int64(g.U64()>>1))
			freq := func() core.X {
				switch p24Kinds[kind] {
				case "Oscillator":
					return core.X(g.PickF(440, 0, 1, sr/4, sr/2, sr, -440, g.LogR(0.1, sr/2), g.LogR(1, sr/3), -g.LogR(1, sr), g.FR(-3, 3)*sr))
				}
				return core.X(g.PickF(440, sr/8, sr/2.001, sr*0.7, g.LogR(20, sr/2), g.LogR(60, sr/8)))
			}
			var ops []core.Op
			switch p24Kinds[kind] {
			case "Colour", "Gaussian":
				c.Set("type", int64(g.N(5)))
				c.Set("gauss", int64(g.N(2)))
			case "BandLimitedSaw":
				if g.Chance(0.5) {
					// A whole number of samples per period: its spectrum.
					c.Set("period", int64(g.Range(8, 400)))
					break
				}
				fallthrough
			default:
				for k := g.Range(2, 20); k > 0; k-- {
					switch g.N(6) {
					case 0, 1:
						ops = append(ops, core.Op{K: "freq", F: []core.X{freq()}, I: []int64{int64(g.N(5))}})
					case 2:
						ops = append(ops, core.Op{K: "phase", F: []core.X{core.X(g.PickF(0, 0.25, 0.5, 1, 0.75, -0.25, 3.5, g.FR(-2, 2)))}, I: []int64{int64(g.N(1000))}})
					case 3:
						if g.Chance(0.4) {
							ops = append(ops, core.Op{K: "reset"})
						}
						fallthrough
					default:
						ops = append(ops, core.Op{K: "run", I: []int64{int64(g.N(5)), int64(g.Pick(0, 1, 2, 16, 63, 200, 900)), int64(g.N(3))}, F: []core.X{core.X(g.PickF(0.5, 0, 1, 0.1, 0.9, g.F(), 1.2, -0.1))}})
					}
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP24,
	})
}

// wave is the waveform at a phase in [0,1).
func wave(w int, ph, width float64) float64 {
	switch w {
	case 0:
		return math.Sin(2 * math.Pi * ph)
	case 1:
		return 2*ph - 1
	case 2:
		if ph < 0.5 {
			return 1
		}
		return -1
	case 3:
		if ph < width {
			return 1
		}
		return -1
	default: // -1 at 0, 1 at one half, -1 again at 1
		return 1 - 4*math.Abs(ph-0.5)
	}
}

// waveNear says whether y is the waveform at a phase, give or take eps of a
// period.
func waveNear(w int, ph, width, eps, y, tol float64) bool {
	for _, d := range []float64{0, -eps, eps} {
		p := ph + d
		p -= math.Floor(p)
		if math.Abs(y-wave(w, p, width)) <= tol {
			return true
		}
	}
	// Rounding may leave the phase at 1 instead of 0.
	return (ph < eps || ph > 1-eps) && math.Abs(y-wave(w, 1, width)) <= tol
}

var waveNames = []string{"sine", "saw", "square", "pulse", "triangle"}
var noiseNames = []string{"white", "pink", "brown", "blue", "violet"}

func execP24(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	r.Comp(kind)
	r.Probe(kind)
	h := core.HashU(core.HashS(kind), uint64(sr))
	srand.Seed(c.Cfg["seed"])
	srand.Extremes(0)
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(1)*7+o.Int(0)))
		if o.K == "freq" {
			h = core.HashU(h, math.Float64bits(o.Flt(0)))
		}
	}
	r.State(core.HashU(h, uint64(c.Cfg["type"]*1000+c.Cfg["period"])))
	switch kind {
	case "Oscillator":
		p24Osc(c, r, sr)
	case "BLIT":
		p24Blit(c, r, sr)
	case "BandLimitedSaw":
		if c.Cfg["period"] > 0 {
			p24Spectrum(c, r, sr)
		} else {
			p24Blit(c, r, sr)
		}
	case "Noise":
		p24Noise(c, r)
	default:
		p24Colour(c, r, kind)
	}
}

func p24Osc(c *core.Case, r *core.Rec, sr float64) {
	o := oscillator.New(sr)
	f, ph := 440.0, 0.0
	n := 0
	for _, op := range c.Threads[0] {
		switch op.K {
		case "freq":
			r.Fault("automation")
			f = op.Flt(0)
			o.SetFrequency(f)
			r.NonTriv = r.NonTriv || n > 0
			if f < 0 {
				r.Probe("backwards")
			}
			if math.Abs(f) >= sr {
				r.Probe("beyond")
			}
		case "phase":
			r.Fault("phase-jump")
			o.SetPhase(op.Flt(0))
			ph = op.Flt(0) - math.Floor(op.Flt(0))
		case "reset":
			r.Fault("reset")
			o.Reset()
			ph = 0
		case "run":
			w, cnt, width := int(op.Int(0)), int(op.Int(1)), op.Flt(0)
			r.Probe(waveNames[w])
			b := make([]float32, cnt)
			if op.Int(2) > 0 {
				r.Probe("buffer")
				switch w {
				case 0:
					o.ProcessSine(b)
				case 1:
					o.ProcessSaw(b)
				case 2:
					o.ProcessSquare(b)
				case 3:
					o.ProcessPulse(b, width)
				default:
					o.ProcessTriangle(b)
				}
			} else {
				for i := range b {
					switch w {
					case 0:
						b[i] = o.Sine()
					case 1:
						b[i] = o.Saw()
					case 2:
						b[i] = o.Square()
					case 3:
						b[i] = o.Pulse(width)
					default:
						b[i] = o.Triangle()
					}
				}
			}
			for i := range b {
				r.Eval()
				r.ObserveF(float64(b[i]))
				if !waveNear(w, ph, width, 1e-7, float64(b[i]), 1e-5) {
					r.Fail("waveform", "Oscillator."+waveNames[w], "%s at %g Hz (rate %g), %d samples in: %.7g at phase %.9g where the waveform is %.7g", waveNames[w], f, sr, n, b[i], ph, wave(w, ph, width))
					return
				}
				ph += f / sr
				ph -= math.Floor(ph)
				n++
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

// p24Blit: the sum of the harmonics below half the sample rate.
func p24Blit(c *core.Case, r *core.Rec, sr float64) {
	saw := c.CfgS["kind"] == "BandLimitedSaw"
	name := c.CfgS["kind"]
	b := oscillator.NewBLIT(sr)
	s := oscillator.NewBandLimitedSaw(sr)
	f, ph, state := 440.0, 0.0, -0.5
	n := 0
	for _, op := range c.Threads[0] {
		switch op.K {
		case "freq":
			r.Fault("automation")
			f = op.Flt(0)
			b.SetFrequency(f)
			s.SetFrequency(f)
			r.NonTriv = r.NonTriv || n > 0
		case "run":
			cnt := int(op.Int(1))
			buf := make([]float32, cnt)
			if saw && op.Int(2) > 0 {
				r.Probe("buffer")
				s.Process(buf)
			} else {
				for i := range buf {
					if saw {
						buf[i] = s.Next()
					} else {
						buf[i] = b.BLIT()
					}
				}
			}
			m := int(math.Floor(sr / 2 / f))
			for i := range buf {
				r.Eval()
				y := float64(buf[i])
				r.ObserveF(y)
				n++
				want := 1.0
				for k := 1; k <= m; k++ {
					want += 2 * math.Cos(2*math.Pi*float64(k)*ph)
				}
				tol := 1e-4
				if saw {
					state = state*0.999 + (want-1)*f/sr
					want, tol = -2*state, 1e-3
				} else {
					want /= float64(2*m + 1)
				}
				if !(math.Abs(y-want) <= tol) {
					r.Fail("harmonics", name, "%s at %g Hz (rate %g): sample %d at phase %.9g is %.7g, the %d harmonics below half the rate give %.7g", name, f, sr, n, ph, y, m, want)
					return
				}
				ph += f / sr
				ph -= math.Floor(ph)
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

// p24Spectrum: a sawtooth with a whole number of samples per period has
// harmonics of 2/(pi k), no mean, and nothing else changes it.
func p24Spectrum(c *core.Case, r *core.Rec, sr float64) {
	p := int(c.Cfg["period"])
	f := sr / float64(p)
	s := oscillator.NewBandLimitedSaw(sr)
	s.SetFrequency(f * 1.37)
	warm := make([]float32, 200)
	s.Process(warm)
	s.SetFrequency(f)
	settle := make([]float32, 12000/p*p)
	s.Process(settle)
	x := make([]float32, p)
	s.Process(x)
	r.Probe("spectrum")
	r.NonTriv = true
	for _, v := range x {
		r.ObserveF(float64(v))
	}
	for k := 0; k <= (p-1)/2; k++ {
		re, im := 0.0, 0.0
		for i, v := range x {
			a := 2 * math.Pi * float64(k) * float64(i) / float64(p)
			re += float64(v) * math.Cos(a)
			im += float64(v) * math.Sin(a)
		}
		mag := math.Hypot(re, im) * 2 / float64(p)
		r.Eval()
		if k == 0 {
			if mag > 0.1 {
				r.Fail("mean", "BandLimitedSaw", "period of %d samples: the mean is %g", p, mag/2)
				return
			}
			continue
		}
		if 3*k > p {
			break // the discrete integrator deviates towards half the rate
		}
		want := 2 / (math.Pi * float64(k))
		if mag < want*0.75 || mag > want*1.35 {
			r.Fail("spectrum", "BandLimitedSaw", "period of %d samples: harmonic %d has amplitude %.5g, a sawtooth has %.5g", p, k, mag, want)
			return
		}
	}
	// It rises, like the plain sawtooth, but for the jump.
	up := 0
	for i := range x {
		if x[(i+1)%p] > x[i]-0.02 {
			up++
		}
	}
	r.Eval()
	if p >= 20 && up < p/2 {
		r.Fail("direction", "BandLimitedSaw", "period of %d samples: rises at %d samples only", p, up)
		return
	}
	r.SimNs += float64(12200) / sr * 1e9
}

func p24Noise(c *core.Case, r *core.Rec) {
	// Reference: the white noise of the same seed.
	seed := c.Cfg["seed"] >> 20
	mk := func(s int64) *utility.NoiseGenerator {
		g := utility.NewNoiseGenerator(utility.WhiteNoise)
		g.SetSeed(s)
		return g
	}
	white := mk(seed)
	typ := int(seed % 5)
	g := utility.NewNoiseGenerator(utility.NoiseType(typ))
	g.SetSeed(seed)
	r.Probe("seeded")
	// Two generators with one seed and one history agree.
	twin := utility.NewNoiseGenerator(utility.NoiseType(typ))
	twin.SetSeed(seed)
	w1, b1, brown := 0.0, 0.0, 0.0 // previous white, previous blue
	var rows [4]float64
	idx := 0
	n := 0
	for _, op := range c.Threads[0] {
		switch op.K {
		case "freq":
			typ = int(op.Int(0))
			r.Fault("type-change")
			r.NonTriv = r.NonTriv || n > 0
			g.SetType(utility.NoiseType(typ))
			twin.SetType(utility.NoiseType(typ))
		case "phase":
			r.Fault("reseed")
			r.NonTriv = r.NonTriv || n > 0
			s := op.Int(0)
			g.SetSeed(s)
			twin.SetSeed(s)
			white = mk(s)
		case "reset":
			r.Fault("reset")
			g.Reset()
			twin.Reset()
			w1, b1, brown, idx = 0, 0, 0, 0
			rows = [4]float64{}
		case "run":
			cnt := int(op.Int(1))
			r.Probe(noiseNames[typ])
			a := make([]float32, cnt)
			b := make([]float32, cnt)
			switch op.Int(2) {
			case 0:
				for i := range a {
					a[i] = g.Next()
				}
			case 1:
				r.Probe("buffer")
				g.Generate(a)
			default:
				r.Probe("buffer")
				for i := range a {
					a[i] = 0.25
				}
				g.GenerateAdd(a, 0.5)
				for i := range a {
					a[i] = (a[i] - 0.25) * 2
				}
			}
			twin.Generate(b)
			for i := range a {
				n++
				r.Eval()
				r.ObserveF(float64(a[i]))
				if math.Abs(float64(a[i]-b[i])) > 1e-6 {
					r.Fail("reproducible", "Noise."+noiseNames[typ], "%s noise, sample %d: %g and %g from two generators of one seed and history", noiseNames[typ], n, a[i], b[i])
					return
				}
				want := 0.0
				if typ == 1 {
					idx = (idx + 1) % 16
					if idx != 0 {
						k := 0
						for idx>>k&1 == 0 {
							k++
						}
						rows[k] = float64(white.Next())
					}
					sum := 0.0
					for _, v := range rows {
						sum += v
					}
					want = (sum + float64(white.Next())) / 20
				} else {
					w := float64(white.Next())
					switch typ {
					case 0:
						want = w
					case 2:
						brown = math.Max(-1, math.Min(1, (brown+w/16)*0.997))
						want = brown
					case 3:
						want = (w - w1) / 2
						w1 = w
					case 4:
						bl := (w - w1) / 2
						w1 = w
						want = (bl - b1) / 4
						b1 = bl
					}
				}
				tol := 2e-6
				if typ == 1 {
					tol = 2e-5
				} else if typ == 2 {
					tol = 2e-4 // single-precision integrator
				}
				if math.Abs(float64(a[i])-want) > tol {
					r.Fail("colour", "Noise."+noiseNames[typ], "%s noise, sample %d: %.7g instead of %.7g computed from the white noise of the same seed", noiseNames[typ], n, a[i], want)
					return
				}
			}
		}
	}
	r.SimNs += float64(n) / 48000 * 1e9
}

func p24Colour(c *core.Case, r *core.Rec, kind string) {
	n := 40000
	x := make([]float64, n)
	name := kind
	b := make([]float32, n)
	type want struct{ mean, sd, sdTol float64 }
	var w want
	lags := map[int][2]float64{}
	var order []int
	lag := func(k int, lo, hi float64) { lags[k] = [2]float64{lo, hi}; order = append(order, k) }
	if kind == "Gaussian" {
		if c.Cfg["gauss"] == 1 {
			name = "WhiteNoiseBuffer"
			utility.WhiteNoiseBuffer(b)
			for i := 0; i < 1000; i++ {
				b[i] = utility.WhiteNoiseSample()
			}
			w = want{0.02, 0.57735, 0.02}
		} else {
			g := utility.NewGaussianNoise()
			if c.Cfg["type"] < 2 {
				for i := range b {
					b[i] = g.Next()
				}
			} else {
				g.Generate(b[:12345])
				g.Generate(b[12345:])
			}
			w = want{0.02, 0.3, 0.01}
		}
		lag(1, -0.04, 0.04)
		lag(2, -0.04, 0.04)
		lag(3, -0.04, 0.04)
	} else {
		typ := int(c.Cfg["type"])
		name = "Noise." + noiseNames[typ]
		r.Probe(noiseNames[typ])
		g := utility.NewNoiseGenerator(utility.NoiseType(typ))
		g.Generate(b)
		switch typ {
		case 0:
			w = want{0.02, 0.57735, 0.02}
			lag(1, -0.04, 0.04)
			lag(2, -0.04, 0.04)
			lag(7, -0.04, 0.04)
		case 1:
			w = want{0.02, 0.0645, 0.01}
			lag(1, 0.4, 0.8)
			lag(4, 0.1, 0.6)
			lag(1000, -0.2, 0.2)
		case 2:
			w = want{0.35, 0.45, 0.25}
			lag(1, 0.98, 1)
			lag(20, 0.8, 1)
		case 3:
			w = want{0.005, 0.408, 0.02}
			lag(1, -0.55, -0.45)
			lag(2, -0.05, 0.05)
		case 4:
			w = want{0.005, 0.1768, 0.02}
			lag(1, -0.72, -0.61)
			lag(2, 0.1, 0.23)
		}
	}
	mean, sd := 0.0, 0.0
	for i := range b {
		x[i] = float64(b[i])
		mean += x[i]
		r.ObserveF(x[i])
		if !(math.Abs(x[i]) <= 1) && name != "Gaussian" || !(math.Abs(x[i]) <= 3) {
			r.Fail("level", name, "%s: sample %d is %g", name, i, x[i])
			return
		}
	}
	mean /= float64(n)
	for i := range x {
		x[i] -= mean
		sd += x[i] * x[i]
	}
	sd = math.Sqrt(sd / float64(n))
	r.NonTriv = true
	r.Eval()
	if math.Abs(mean) > w.mean || math.Abs(sd-w.sd) > w.sdTol {
		r.Fail("statistics", name, "%s: mean %g and standard deviation %g over %d samples, expected 0 and %g", name, mean, sd, n, w.sd)
		return
	}
	if kind == "Gaussian" && name == "Gaussian" {
		in1, in2 := 0, 0
		for _, v := range x {
			if math.Abs(v) < 0.3 {
				in1++
			}
			if math.Abs(v) < 0.6 {
				in2++
			}
		}
		p1, p2 := float64(in1)/float64(n), float64(in2)/float64(n)
		r.Eval()
		if math.Abs(p1-0.6827) > 0.015 || math.Abs(p2-0.9545) > 0.008 {
			r.Fail("statistics", name, "%s: %.4f of the samples within one deviation and %.4f within two, not 0.683 and 0.954", name, p1, p2)
			return
		}
	}
	for _, k := range order {
		s := 0.0
		for i := 0; i+k < n; i++ {
			s += x[i] * x[i+k]
		}
		s /= float64(n) * sd * sd
		r.Eval()
		if s < lags[k][0] || s > lags[k][1] {
			r.Fail("statistics", name, "%s: correlation %.4f at lag %d, expected %g to %g", name, s, k, lags[k][0], lags[k][1])
			return
		}
	}
	r.SimNs += float64(n) / 48000 * 1e9
}
