// Package dsp simulates hosts that drive the signal processors of pkg/dsp:
// any division into blocks, any automation, suspends, resets, poisoned input.
package dsp

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// setting is one control of a processor.
type setting struct {
	name   string
	lo, hi float64
	log    bool // draw logarithmically
	disc   int  // >0: discrete values 0..disc-1
	clamp  bool // the setter documents or implements limits: anything may be passed
	arg    bool // an argument of the processing call, not a setting of the object
	whole  bool // whole numbers matter
	fn     func(v float64)
}

func (s setting) draw(g *core.R) float64 {
	if s.disc > 0 {
		return float64(g.N(s.disc))
	}
	if s.clamp && g.Chance(0.15) {
		span := s.hi - s.lo
		return g.PickF(s.lo-1, s.hi+1, s.lo-span, s.hi+span, -1e6, 1e6, 0, s.lo-1e-9, s.hi+1e-9)
	}
	switch g.N(8) {
	case 0:
		return s.lo
	case 1:
		return s.hi
	}
	v := 0.0
	if s.log {
		v = g.LogR(s.lo, s.hi)
	} else {
		v = g.FR(s.lo, s.hi)
	}
	if s.whole && g.Chance(0.3) {
		v = math.Floor(v)
	}
	return v
}

type event struct {
	name string
	fn   func()
}

// stream is one live processor instance.
type stream struct {
	sets  []setting
	evs   []event
	reset func()
	frame func(in, out []float64)
	block func(in, out [][]float64, inplace bool)
	bad   string // memory the processor had no business with

	meter     bool // count the allocations of processing calls
	allocated uint64
}

// proc describes one processor in one API form.
type proc struct {
	name      string
	nin, nout int
	gain, off float64 // |out| <= gain*peak(in) + off
	rnd       int     // 0: none; 1: draws when built or set; 2: draws per sample
	link      string  // stereo: "" none, "indep", "linked", "pseudo"
	f64       bool
	exact     bool // blocks and frames must agree to the last bit
	mk        func(sr float64, s *stream)
}

const guard = 4
const guardVal = 12345.5

func (s *stream) fault(f string) {
	if s.bad == "" {
		s.bad = f
	}
}

func buf32(n int) (full, use []float32) {
	full = make([]float32, n+guard)
	for i := range full {
		full[i] = guardVal
	}
	return full, full[:n:n]
}

func buf64(n int) (full, use []float64) {
	full = make([]float64, n+guard)
	for i := range full {
		full[i] = guardVal
	}
	return full, full[:n:n]
}

// blk32 adapts a float32 block form.
func (s *stream) blk32(inplaceOnly bool, f func(in, out [][]float32)) func(in, out [][]float64, inplace bool) {
	return func(in, out [][]float64, inplace bool) {
		n := len(out[0])
		var fulls, ib, ob [][]float32
		for _, x := range in {
			full, u := buf32(n)
			for i := range u {
				u[i] = float32(x[i])
			}
			fulls, ib = append(fulls, full), append(ib, u)
		}
		shared := inplace || inplaceOnly
		for c := range out {
			if shared && c < len(ib) {
				ob = append(ob, ib[c])
				continue
			}
			full, u := buf32(n)
			fulls, ob = append(fulls, full), append(ob, u)
		}
		s.call(func() { f(ib, ob) })
		for _, full := range fulls {
			for _, v := range full[n:] {
				if v != guardVal {
					s.fault("memory beyond the end of a buffer was changed")
				}
			}
		}
		if !shared {
			for c, x := range in {
				for i := range x {
					if a, b := ib[c][i], float32(x[i]); a != b && !(a != a && b != b) {
						s.fault("an input buffer was changed")
					}
				}
			}
		}
		for c := range out {
			for i := range out[c] {
				out[c][i] = float64(ob[c][i])
			}
		}
	}
}

// blk64 adapts a float64 block form.
func (s *stream) blk64(f func(in, out [][]float64)) func(in, out [][]float64, inplace bool) {
	return func(in, out [][]float64, inplace bool) {
		n := len(out[0])
		var fulls, ib, ob [][]float64
		for _, x := range in {
			full, u := buf64(n)
			copy(u, x)
			fulls, ib = append(fulls, full), append(ib, u)
		}
		for c := range out {
			if inplace && c < len(ib) {
				ob = append(ob, ib[c])
				continue
			}
			full, u := buf64(n)
			fulls, ob = append(fulls, full), append(ob, u)
		}
		s.call(func() { f(ib, ob) })
		for _, full := range fulls {
			for _, v := range full[n:] {
				if v != guardVal {
					s.fault("memory beyond the end of a buffer was changed")
				}
			}
		}
		if !inplace {
			for c, x := range in {
				for i := range x {
					if a, b := ib[c][i], x[i]; a != b && !(a != a && b != b) {
						s.fault("an input buffer was changed")
					}
				}
			}
		}
		for c := range out {
			copy(out[c], ob[c])
		}
	}
}

// call runs the processor's own code.
func (s *stream) call(f func()) {
	if !s.meter {
		f()
		return
	}
	s.allocated += mallocs(f)
}

// perFrame makes a frame form of a block form.
func perFrame(b func(in, out [][]float64, inplace bool)) func(in, out []float64) {
	return func(in, out []float64) {
		var i2, o2 [][]float64
		for c := range in {
			i2 = append(i2, in[c:c+1])
		}
		for c := range out {
			o2 = append(o2, out[c:c+1])
		}
		b(i2, o2, false)
	}
}

// perBlock makes a block form of a frame form.
func (s *stream) perBlock(f func(in, out []float64)) func(in, out [][]float64, inplace bool) {
	return func(in, out [][]float64, inplace bool) {
		a, b := make([]float64, len(in)), make([]float64, len(out))
		s.call(func() {
			for i := range out[0] {
				for c := range in {
					a[c] = in[c][i]
				}
				f(a, b)
				for c := range out {
					out[c][i] = b[c]
				}
			}
		})
	}
}

func f11(f func(float32) float32) func(in, out []float64) {
	return func(in, out []float64) { out[0] = float64(f(float32(in[0]))) }
}

func f22(f func(a, b float32) (float32, float32)) func(in, out []float64) {
	return func(in, out []float64) {
		l, r := f(float32(in[0]), float32(in[1]))
		out[0], out[1] = float64(l), float64(r)
	}
}

func f01(f func() float32) func(in, out []float64) {
	return func(in, out []float64) { out[0] = float64(f()) }
}

const maxDelay = 0.02 // seconds held by the simulated delay lines

// delayTime is a control that is passed with every call.
func delayTime(sr float64, d *float64) setting {
	max := math.Floor(maxDelay*sr) + 1 // all the line holds
	*d = 7.25
	return setting{name: "delay", lo: 1, hi: max, log: true, arg: true, whole: true, fn: func(v float64) { *d = v }}
}

func lfoWave(fn func(modulation.Waveform), n int) setting {
	return setting{name: "waveform", disc: n, fn: func(v float64) { fn(modulation.Waveform(int(v))) }}
}

func unit(name string, fn func(float64)) setting {
	return setting{name: name, lo: 0, hi: 1, clamp: true, fn: fn}
}

func rng(name string, lo, hi float64, fn func(float64)) setting {
	return setting{name: name, lo: lo, hi: hi, clamp: true, fn: fn}
}

func rngLog(name string, lo, hi float64, fn func(float64)) setting {
	return setting{name: name, lo: lo, hi: hi, clamp: true, log: true, fn: fn}
}

func biquadSets(sr float64, b *filter.Biquad) []setting {
	typ, f, q, gdb := 0, 1000.0, 0.707, 6.0
	upd := func() {
		switch typ {
		case 0:
			b.SetLowpass(sr, f, q)
		case 1:
			b.SetHighpass(sr, f, q)
		case 2:
			b.SetBandpass(sr, f, q)
		case 3:
			b.SetNotch(sr, f, q)
		case 4:
			b.SetAllpass(sr, f, q)
		case 5:
			b.SetPeakingEQ(sr, f, q, gdb)
		case 6:
			b.SetLowShelf(sr, f, q, gdb)
		case 7:
			b.SetHighShelf(sr, f, q, gdb)
		}
	}
	upd()
	return []setting{
		{name: "type", disc: 8, fn: func(v float64) { typ = int(v); upd() }},
		{name: "frequency", lo: 60, hi: sr * 0.45, log: true, fn: func(v float64) { f = v; upd() }},
		{name: "q", lo: 0.3, hi: 8, log: true, fn: func(v float64) { q = v; upd() }},
		{name: "gain", lo: -12, hi: 12, fn: func(v float64) { gdb = v; upd() }},
	}
}

func svfSets(sr float64, v *filter.SVF) []setting {
	v.SetFrequencyAndQ(sr, 1000, 0.707)
	return []setting{
		{name: "frequency", lo: 20, hi: sr * 0.45, log: true, fn: func(f float64) { v.SetFrequency(sr, f) }},
		{name: "q", lo: 0.3, hi: 10, log: true, fn: v.SetQ},
	}
}

func compSets(c *dynamics.Compressor) []setting {
	return []setting{
		{name: "threshold", lo: -60, hi: 0, fn: c.SetThreshold},
		rngLog("ratio", 1, 100, c.SetRatio),
		rngLog("attack", 0.0001, 0.05, c.SetAttack),
		rngLog("release", 0.001, 0.2, c.SetRelease),
		{name: "knee", disc: 4, fn: func(v float64) {
			c.SetKnee([]dynamics.KneeType{dynamics.KneeHard, dynamics.KneeSoft, dynamics.KneeSoft, dynamics.KneeSoft}[int(v)], []float64{0, 0, 3, 12}[int(v)])
		}},
		{name: "makeup", lo: -12, hi: 12, fn: c.SetMakeupGain},
	}
}

func compLook(c *dynamics.Compressor) setting { return rng("lookahead", 0, 0.01, c.SetLookahead) }

func limSets(l *dynamics.Limiter) []setting {
	return []setting{
		rng("threshold", -40, 0, l.SetThreshold),
		rngLog("release", 0.001, 0.3, l.SetRelease),
		rng("lookahead", 0, 0.01, l.SetLookahead),
		{name: "truepeak", disc: 2, fn: func(v float64) { l.SetTruePeak(v != 0) }},
	}
}

func expSets(e *dynamics.Expander) []setting {
	return []setting{
		{name: "threshold", lo: -60, hi: -3, fn: e.SetThreshold},
		rngLog("ratio", 1, 20, e.SetRatio),
		rng("attack", 0, 0.05, e.SetAttack),
		rng("release", 0, 0.2, e.SetRelease),
		rng("knee", 0, 24, e.SetKnee),
		rng("range", -80, 0, e.SetRange),
	}
}

func gateSets(sr float64, g *dynamics.Gate) []setting {
	en, f := false, 100.0
	return []setting{
		{name: "threshold", lo: -60, hi: -3, fn: g.SetThreshold},
		rng("hysteresis", 0, 12, g.SetHysteresis),
		rng("attack", 0, 0.02, g.SetAttack),
		rng("hold", 0, 0.02, g.SetHold),
		rng("release", 0, 0.1, g.SetRelease),
		rng("range", -80, 0, g.SetRange),
		{name: "hpf", disc: 2, fn: func(v float64) { en = v != 0; g.SetSidechainFilter(en, f) }},
		{name: "hpffreq", lo: 20, hi: sr / 2, log: true, clamp: true, fn: func(v float64) { f = v; g.SetSidechainFilter(en, f) }},
	}
}

func chorusSets(c *modulation.Chorus) []setting {
	return []setting{
		rngLog("rate", 0.01, 10, c.SetRate), rng("depth", 0, 10, c.SetDepth), rng("delay", 1, 50, c.SetDelay),
		unit("mix", c.SetMix), rng("feedback", 0, 0.5, c.SetFeedback), unit("spread", c.SetSpread),
		{name: "voices", disc: 7, fn: func(v float64) { c.SetVoices(int(v)) }},
	}
}

func flangerSets(f *modulation.Flanger) []setting {
	return []setting{
		rngLog("rate", 0.01, 20, f.SetRate), rng("depth", 0, 10, f.SetDepth), rng("delay", 0.1, 10, f.SetDelay),
		rng("feedback", -0.99, 0.99, f.SetFeedback), unit("mix", f.SetMix), unit("manual", f.SetManual),
		{name: "manualmode", disc: 2, fn: func(v float64) { f.SetManualMode(v != 0) }},
	}
}

func phaserSets(sr float64, p *modulation.Phaser) []setting {
	lo := 200.0
	return []setting{
		rngLog("rate", 0.01, 10, p.SetRate), unit("depth", p.SetDepth), rngLog("center", 100, 4000, p.SetCenterFrequency),
		rng("feedback", -0.99, 0.99, p.SetFeedback), unit("mix", p.SetMix),
		{name: "stages", disc: 10, fn: func(v float64) { p.SetStages(int(v)) }},
		rngLog("lowest", 20, sr/4, func(v float64) { lo = v; p.SetFrequencyRange(lo, 2*lo) }),
	}
}

func tremSets(t *modulation.Tremolo, waves int) []setting {
	return []setting{
		rngLog("rate", 0.01, 20, t.SetRate), unit("depth", t.SetDepth), lfoWave(t.SetWaveform, waves),
		{name: "mode", disc: 2, fn: func(v float64) { t.SetMode(modulation.TremoloMode(int(v))) }},
		{name: "stereo", disc: 2, fn: func(v float64) { t.SetStereo(v != 0) }},
		unit("phase", t.SetStereoPhase),
		{name: "smoothing", disc: 2, fn: func(v float64) { t.EnableSmoothing(v != 0) }},
	}
}

func ringSets(sr float64, r *modulation.RingModulator) []setting {
	return []setting{
		rngLog("frequency", 0.1, sr/2, r.SetFrequency), unit("mix", r.SetMix), lfoWave(r.SetWaveform, 4),
		{name: "lfo", disc: 2, fn: func(v float64) { r.EnableLFO(v != 0) }},
		rngLog("lforate", 0.01, 20, r.SetLFORate), unit("lfodepth", r.SetLFODepth),
	}
}

func crushSets(b *distortion.Bitcrusher) []setting {
	return []setting{
		rng("bits", 1, 32, b.SetBitDepth), rngLog("reduce", 1, 100, b.SetSampleRateReduction),
		{name: "antialias", disc: 2, fn: func(v float64) { b.SetAntiAlias(v != 0) }},
		{name: "dither", disc: 3, fn: func(v float64) { b.SetDither(distortion.DitherType(int(v))) }},
		unit("mix", b.SetMix), rng("output", 0, 2, b.SetOutput),
	}
}

func tapeSets(t *distortion.TapeSaturation, flutter bool) []setting {
	s := []setting{
		unit("saturation", t.SetSaturation), unit("compression", t.SetCompression), unit("warmth", t.SetWarmth),
		unit("mix", t.SetMix), rng("output", 0, 2, t.SetOutput),
	}
	if flutter {
		s = append(s, unit("flutter", t.SetFlutter))
	}
	return s
}

func tubeSets(t *distortion.TubeSaturation) []setting {
	return []setting{
		unit("warmth", t.SetWarmth), unit("harmonics", t.SetHarmonics), rng("bias", -1, 1, t.SetBias),
		unit("hysteresis", t.SetHysteresis), unit("mix", t.SetMix), rng("output", 0, 2, t.SetOutput),
	}
}

func shaperSets(w *distortion.Waveshaper) []setting {
	return []setting{
		{name: "curve", disc: 7, fn: func(v float64) { w.SetCurveType(distortion.CurveType(int(v))) }},
		rngLog("drive", 1, 100, w.SetDrive), unit("mix", w.SetMix), rng("output", 0, 2, w.SetOutput), rng("asymmetry", -1, 1, w.SetAsymmetry),
	}
}

func freeverbSets(f *reverb.Freeverb) []setting {
	return []setting{
		unit("room", f.SetRoomSize), unit("damping", f.SetDamping), unit("wet", f.SetWetLevel), unit("dry", f.SetDryLevel),
		unit("width", f.SetWidth), unit("mode", f.SetMode),
		{name: "preset", disc: 4, fn: func(v float64) {
			[]func(){f.SetPresetSmallRoom, f.SetPresetMediumHall, f.SetPresetLargeHall, f.SetPresetCathedral}[int(v)]()
		}},
	}
}

func schroederSets(f *reverb.Schroeder) []setting {
	return []setting{
		unit("room", f.SetRoomSize), unit("damping", f.SetDamping), unit("wet", f.SetWetLevel), unit("dry", f.SetDryLevel), unit("width", f.SetWidth),
	}
}

func fdnSets(f *reverb.FDN) []setting {
	return []setting{
		unit("decay", f.SetDecay), unit("damping", f.SetDamping), unit("diffusion", f.SetDiffusion), unit("modulation", f.SetModulation),
		unit("wet", f.SetWetLevel), unit("dry", f.SetDryLevel),
		{name: "preset", disc: 4, fn: func(v float64) {
			[]func(){f.SetPresetSmallRoom, f.SetPresetMediumHall, f.SetPresetLargeHall, f.SetPresetCathedral}[int(v)]()
		}},
	}
}

func detSets(d *envelope.Detector) []setting {
	return []setting{
		{name: "mode", disc: 3, fn: func(v float64) { d.SetMode(envelope.DetectorMode(int(v))) }},
		{name: "type", disc: 3, fn: func(v float64) { d.SetType(envelope.DetectorType(int(v))) }},
		rngLog("attack", 0.0001, 0.1, d.SetAttack), rngLog("release", 0.0001, 0.2, d.SetRelease),
		rng("hold", 0, 0.02, d.SetHold),
		{name: "window", lo: 0.5, hi: 10, arg: true, fn: d.SetRMSWindow}, // asks for memory
		{name: "both", lo: 0.001, hi: 0.05, fn: func(v float64) { d.SetTimeConstants(v, v*4) }},
	}
}

func adsrSets(e *envelope.ADSR) []setting {
	return []setting{
		rngLog("attack", 0.001, 0.05, e.SetAttack), rngLog("decay", 0.001, 0.05, e.SetDecay), unit("sustain", e.SetSustain), rngLog("release", 0.001, 0.05, e.SetRelease),
		{name: "all", lo: 0.001, hi: 0.03, fn: func(v float64) { e.SetADSR(v, v*2, v*20, v/2) }},
	}
}

func oscSets(sr float64, o *oscillator.Oscillator) []setting {
	return []setting{
		{name: "frequency", lo: 0.1, hi: sr / 2, log: true, fn: o.SetFrequency},
	}
}

var procs []*proc

func add(p *proc) { procs = append(procs, p) }

func init() {
	// delay
	add(&proc{name: "delay.Line", nin: 1, nout: 1, gain: 1, mk: func(sr float64, s *stream) {
		l, d := delay.New(maxDelay, sr), 0.0
		s.sets = []setting{delayTime(sr, &d)}
		s.reset = l.Reset
		s.frame = f11(func(x float32) float32 { return l.Process(x, d) })
		s.block = s.blk32(true, func(in, out [][]float32) { l.ProcessBuffer(in[0], d) })
	}})
	add(&proc{name: "delay.Line.mix", nin: 1, nout: 1, gain: 1, mk: func(sr float64, s *stream) {
		l, d := delay.New(maxDelay, sr), 0.0
		var mix float32 = 0.5
		s.sets = []setting{delayTime(sr, &d), {name: "mix", hi: 1, arg: true, fn: func(v float64) { mix = float32(v) }}}
		s.reset = l.Reset
		s.frame = f11(func(x float32) float32 { w := l.Process(x, d); return x*(1-mix) + w*mix })
		s.block = s.blk32(true, func(in, out [][]float32) { l.ProcessBufferMix(in[0], d, mix) })
	}})
	add(&proc{name: "delay.Line.ms", nin: 1, nout: 1, gain: 1, mk: func(sr float64, s *stream) {
		l, ms := delay.New(maxDelay, sr), 3.0
		s.sets = []setting{{name: "ms", lo: 1, hi: maxDelay * 1000, arg: true, fn: func(v float64) { ms = v }}}
		s.reset = l.Reset
		s.frame = f11(func(x float32) float32 { return l.ProcessMs(x, ms) })
		s.block = s.blk32(true, func(in, out [][]float32) {
			for i, x := range in[0] {
				in[0][i] = l.ReadMs(ms)
				l.Write(x)
			}
		})
	}})
	add(&proc{name: "delay.Allpass", nin: 1, nout: 1, gain: 60, mk: func(sr float64, s *stream) {
		l, d := delay.NewAllpass(maxDelay, sr), 0.0
		s.sets = []setting{delayTime(sr, &d), {name: "feedback", lo: -0.95, hi: 0.95, fn: func(v float64) { l.SetFeedback(float32(v)) }}}
		s.reset = l.Reset
		s.frame = f11(func(x float32) float32 { return l.Process(x, d) })
		s.block = s.blk32(true, func(in, out [][]float32) { l.ProcessBuffer(in[0], d) })
	}})
	add(&proc{name: "delay.Comb", nin: 1, nout: 1, gain: 60, mk: func(sr float64, s *stream) {
		l, d := delay.NewComb(maxDelay, sr), 0.0
		s.sets = []setting{delayTime(sr, &d), {name: "feedback", lo: -0.95, hi: 0.95, fn: func(v float64) { l.SetFeedback(float32(v)) }},
			{name: "damp", hi: 1, fn: func(v float64) { l.SetDamp(float32(v)) }}}
		s.reset = l.Reset
		s.frame = f11(func(x float32) float32 { return l.Process(x, d) })
		s.block = s.blk32(true, func(in, out [][]float32) { l.ProcessBuffer(in[0], d) })
	}})
	add(&proc{name: "delay.MultiTap", nin: 1, nout: 2, gain: 5, mk: func(sr float64, s *stream) {
		l, d := delay.NewMultiTap(maxDelay, sr, 3), 0.0
		pan := 0.0
		s.sets = []setting{delayTime(sr, &d), {name: "pan", lo: -1, hi: 1, arg: true, fn: func(v float64) { pan = v }}}
		s.reset = l.Reset
		s.frame = func(in, out []float64) {
			var a, b float32
			taps := []delay.TapOutput{{DelaySamples: d, Gain: 1, Pan: float32(pan)}, {DelaySamples: 1 + d/2, Gain: 0.5, Pan: -1}, {DelaySamples: 1 + d/3, Gain: 0.25, Pan: 1}, {DelaySamples: 1, Gain: 100}}
			l.ProcessMultiTap(float32(in[0]), taps, &a, &b)
			out[0], out[1] = float64(a), float64(b)
		}
		s.block = s.perBlock(s.frame)
	}})
	add(&proc{name: "delay.Modulated", nin: 1, nout: 1, gain: 1, mk: func(sr float64, s *stream) {
		l := delay.NewModulated(maxDelay, sr)
		rate, depth := 0.5, 5.0
		s.sets = []setting{{name: "rate", lo: 0.01, hi: 20, log: true, arg: true, fn: func(v float64) { rate = v; l.SetLFO(rate, depth) }},
			{name: "depth", hi: 9, arg: true, fn: func(v float64) { depth = v; l.SetLFO(rate, depth) }},
			{name: "center", lo: 1, hi: 11, arg: true, fn: l.SetCenterDelay}}
		s.reset = l.Reset
		s.frame = f11(l.Process)
		s.block = s.blk32(true, func(in, out [][]float32) { l.ProcessBuffer(in[0]) })
	}})

	// oscillators
	for k, nm := range []string{"Sine", "Saw", "Square", "Pulse", "Triangle"} {
		k := k
		add(&proc{name: "oscillator." + nm, nout: 1, off: 1.00001, mk: func(sr float64, s *stream) {
			o, width := oscillator.New(sr), 0.25
			s.sets = append(oscSets(sr, o), setting{name: "width", lo: 0.05, hi: 0.95, fn: func(v float64) { width = v }})
			s.reset = o.Reset
			s.frame = f01([]func() float32{o.Sine, o.Saw, o.Square, func() float32 { return o.Pulse(width) }, o.Triangle}[k])
			s.block = s.blk32(false, func(_, out [][]float32) {
				[]func([]float32){o.ProcessSine, o.ProcessSaw, o.ProcessSquare, func(b []float32) { o.ProcessPulse(b, width) }, o.ProcessTriangle}[k](out[0])
			})
		}})
	}
	add(&proc{name: "oscillator.BandLimitedSaw", nout: 1, off: 40, mk: func(sr float64, s *stream) {
		o := oscillator.NewBandLimitedSaw(sr)
		s.sets = []setting{{name: "frequency", lo: 10, hi: sr / 2.5, log: true, fn: o.SetFrequency}}
		s.frame = f01(o.Next)
		s.block = s.blk32(false, func(_, out [][]float32) { o.Process(out[0]) })
	}})
	add(&proc{name: "oscillator.BLIT", nout: 1, off: 1.01, mk: func(sr float64, s *stream) {
		o := oscillator.NewBLIT(sr)
		s.sets = []setting{{name: "frequency", lo: 10, hi: sr / 2.5, log: true, fn: o.SetFrequency}}
		s.frame = f01(o.BLIT)
		s.block = s.perBlock(s.frame)
	}})

	// envelopes
	gate := func(tr, rel func()) []event { return []event{{"trigger", tr}, {"release", rel}} }
	add(&proc{name: "envelope.ADSR", nout: 1, off: 1.00001, mk: func(sr float64, s *stream) {
		e := envelope.New(sr)
		s.sets, s.evs, s.reset = adsrSets(e), gate(e.Trigger, e.Release), e.Reset
		s.frame = f01(e.Next)
		s.block = s.blk32(false, func(_, out [][]float32) { e.Process(out[0]) })
	}})
	add(&proc{name: "envelope.ADSR.multiply", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		e := envelope.New(sr)
		s.sets, s.evs, s.reset = adsrSets(e), gate(e.Trigger, e.Release), e.Reset
		s.frame = f11(func(x float32) float32 { return x * e.Next() })
		s.block = s.blk32(true, func(in, _ [][]float32) { e.ProcessMultiply(in[0]) })
	}})
	for _, mul := range []bool{false, true} {
		mul := mul
		nm, nin, g, off := "envelope.AR", 0, 0.0, 1.00001
		if mul {
			nm, nin, g, off = "envelope.AR.multiply", 1, 1.00001, 0
		}
		add(&proc{name: nm, nin: nin, nout: 1, gain: g, off: off, mk: func(sr float64, s *stream) {
			e := envelope.NewAR(sr)
			s.sets = []setting{rngLog("attack", 0.001, 0.05, e.SetAttack), rngLog("release", 0.001, 0.05, e.SetRelease)}
			s.evs = gate(e.Trigger, e.Release)
			if mul {
				s.frame = f11(func(x float32) float32 { return x * e.Next() })
				s.block = s.blk32(true, func(in, _ [][]float32) { e.ProcessMultiply(in[0]) })
			} else {
				s.frame = f01(e.Next)
				s.block = s.blk32(false, func(_, out [][]float32) { e.Process(out[0]) })
			}
		}})
	}
	add(&proc{name: "envelope.Follower", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		e := envelope.NewFollower(sr)
		s.sets = []setting{rngLog("attack", 0.0001, 0.05, e.SetAttack), rngLog("release", 0.0001, 0.05, e.SetRelease)}
		s.frame = f11(e.Follow)
		s.block = s.blk32(false, func(in, out [][]float32) { e.Process(in[0], out[0]) })
	}})
	for m := 0; m < 3; m++ {
		m := m
		add(&proc{name: "envelope.Detector." + []string{"peak", "rms", "hold"}[m], nin: 1, nout: 1, gain: 1.00001, off: 1e-4, mk: func(sr float64, s *stream) {
			e := envelope.NewDetector(sr, envelope.DetectorMode(m))
			s.sets, s.reset = detSets(e), e.Reset
			s.frame = f11(e.Detect)
			s.block = s.blk32(false, func(in, out [][]float32) { e.Process(in[0], out[0]) })
		}})
	}
	add(&proc{name: "envelope.Detector.sidechain", nin: 2, nout: 1, gain: 1.00001, off: 1e-4, mk: func(sr float64, s *stream) {
		e := envelope.NewDetector(sr, envelope.ModePeak)
		s.sets, s.reset = detSets(e), e.Reset
		s.frame = func(in, out []float64) { out[0] = float64(e.Detect(float32(in[1]))) }
		s.block = s.blk32(false, func(in, out [][]float32) { e.ProcessSidechain(in[0], in[1], out[0]) })
	}})

	// filters
	add(&proc{name: "filter.Biquad", nin: 2, nout: 2, gain: 400, link: "indep", mk: func(sr float64, s *stream) {
		b := filter.NewBiquad(2)
		s.sets, s.reset = biquadSets(sr, b), b.Reset
		s.block = s.blk32(true, func(in, _ [][]float32) { b.Process(in[0], 0); b.Process(in[1], 1) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "filter.Biquad.multi", nin: 2, nout: 2, gain: 400, link: "indep", mk: func(sr float64, s *stream) {
		b := filter.NewBiquad(2)
		s.sets, s.reset = biquadSets(sr, b), b.Reset
		s.block = s.blk32(true, func(in, _ [][]float32) { b.ProcessMulti(in) })
		s.frame = perFrame(s.blk32(true, func(in, _ [][]float32) { b.Process(in[1], 1); b.Process(in[0], 0) }))
	}})
	for k, nm := range []string{"Lowpass", "Highpass", "Bandpass", "Notch", "Mixed"} {
		k := k
		add(&proc{name: "filter.SVF." + nm, nin: 2, nout: 2, gain: 400, link: "indep", mk: func(sr float64, s *stream) {
			v := filter.NewSVF(2)
			s.sets, s.reset = svfSets(sr, v), v.Reset
			pick := func(o filter.SVFOutputs) float32 {
				switch k {
				case 0:
					return o.Lowpass
				case 1:
					return o.Highpass
				case 2:
					return o.Bandpass
				case 3:
					return o.Notch
				}
				return o.Lowpass*0.25 + o.Highpass*0.5 + o.Bandpass*0.75 - o.Notch*0.125
			}
			s.frame = func(in, out []float64) {
				for c := range in {
					out[c] = float64(pick(v.ProcessSample(float32(in[c]), c)))
				}
			}
			run := []func([]float32, int){v.ProcessLowpass, v.ProcessHighpass, v.ProcessBandpass, v.ProcessNotch, func(b []float32, c int) { v.ProcessMixed(b, c, 0.25, 0.5, 0.75, -0.125) }}[k]
			s.block = s.blk32(true, func(in, _ [][]float32) { run(in[0], 0); run(in[1], 1) })
		}})
	}
	add(&proc{name: "filter.MultiModeSVF", nin: 2, nout: 2, gain: 400, link: "indep", mk: func(sr float64, s *stream) {
		v := filter.NewMultiModeSVF(2)
		s.sets, s.reset = append(svfSets(sr, &v.SVF), setting{name: "mode", lo: -1, hi: 2, fn: v.SetMode}), v.Reset
		s.block = s.blk32(true, func(in, _ [][]float32) { v.Process(in[0], 0); v.Process(in[1], 1) })
		s.frame = perFrame(s.block)
	}})

	// dynamics
	add(&proc{name: "dynamics.Compressor", nin: 1, nout: 1, gain: 4, mk: func(sr float64, s *stream) {
		c := dynamics.NewCompressor(sr)
		s.sets, s.reset = append(compSets(c), compLook(c)), c.Reset
		s.frame = f11(c.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "dynamics.Compressor.stereo", nin: 2, nout: 2, gain: 4, link: "linked", mk: func(sr float64, s *stream) {
		c := dynamics.NewCompressor(sr)
		s.sets, s.reset = compSets(c), c.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "dynamics.Compressor.sidechain", nin: 2, nout: 1, gain: 4, mk: func(sr float64, s *stream) {
		c := dynamics.NewCompressor(sr)
		s.sets, s.reset = compSets(c), c.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessSidechain(in[0], in[1], out[0]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "dynamics.Limiter", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		l := dynamics.NewLimiter(sr)
		s.sets, s.reset = limSets(l), l.Reset
		s.frame = f11(l.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { l.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "dynamics.Limiter.stereo", nin: 2, nout: 2, gain: 1.00001, link: "linked", mk: func(sr float64, s *stream) {
		l := dynamics.NewLimiter(sr)
		l.SetLookahead(0)
		s.sets, s.reset = append(limSets(l)[:2], limSets(l)[3]), l.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { l.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "dynamics.Expander", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		e := dynamics.NewExpander(sr)
		s.sets, s.reset = expSets(e), e.Reset
		s.frame = f11(e.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { e.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "dynamics.Expander.stereo", nin: 2, nout: 2, gain: 1.00001, link: "linked", mk: func(sr float64, s *stream) {
		e := dynamics.NewExpander(sr)
		s.sets, s.reset = expSets(e), e.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { e.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "dynamics.Gate", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		g := dynamics.NewGate(sr)
		s.sets, s.reset = gateSets(sr, g), g.Reset
		s.frame = f11(g.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { g.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "dynamics.Gate.stereo", nin: 2, nout: 2, gain: 1.00001, link: "linked", mk: func(sr float64, s *stream) {
		g := dynamics.NewGate(sr)
		s.sets, s.reset = gateSets(sr, g), g.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { g.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})

	// modulation
	lfo := func(waves int) func(sr float64, s *stream) {
		return func(sr float64, s *stream) {
			l := modulation.NewLFO(sr)
			s.sets = []setting{rngLog("frequency", 0.01, 20, l.SetFrequency), unit("depth", l.SetDepth), rng("offset", -1, 1, l.SetOffset),
				lfoWave(l.SetWaveform, waves), {name: "sync", disc: 3, fn: func(v float64) { l.EnableSync(v > 0, v/4) }}}
			s.evs = []event{{"sync", l.Sync}, {"phase", func() { l.SetPhase(3.25) }}}
			s.reset = l.Reset
			s.frame = func(_, out []float64) { out[0] = l.Process() }
			s.block = s.blk64(func(_, out [][]float64) { l.ProcessBuffer(out[0]) })
		}
	}
	add(&proc{name: "modulation.LFO", nout: 1, off: 1, mk: lfo(4)})
	add(&proc{name: "modulation.LFO.random", nout: 1, off: 1, rnd: 2, mk: lfo(5)})
	add(&proc{name: "modulation.Chorus", nin: 1, nout: 2, gain: 8, mk: func(sr float64, s *stream) {
		c := modulation.NewChorus(sr)
		s.sets, s.reset = chorusSets(c), c.Reset
		s.frame = func(in, out []float64) {
			l, r := c.Process(float32(in[0]))
			out[0], out[1] = float64(l), float64(r)
		}
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0], out[1]) })
	}})
	add(&proc{name: "modulation.Chorus.stereo", nin: 2, nout: 2, gain: 8, link: "indep", mk: func(sr float64, s *stream) {
		c := modulation.NewChorus(sr)
		s.sets, s.reset = chorusSets(c), c.Reset
		s.frame = f22(c.ProcessStereo)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[1], out[0], out[1]) })
	}})
	add(&proc{name: "modulation.Flanger", nin: 1, nout: 1, gain: 1, off: 1, mk: func(sr float64, s *stream) {
		c := modulation.NewFlanger(sr)
		s.sets, s.reset = flangerSets(c), c.Reset
		s.frame = f11(c.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "modulation.Flanger.stereo", nin: 2, nout: 2, gain: 2, off: 2, link: "pseudo", mk: func(sr float64, s *stream) {
		c := modulation.NewFlanger(sr)
		s.sets, s.reset = flangerSets(c), c.Reset
		s.frame = f22(c.ProcessStereo)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[1], out[0], out[1]) })
	}})
	add(&proc{name: "modulation.Phaser", nin: 1, nout: 1, gain: 1, off: 100, mk: func(sr float64, s *stream) {
		c := modulation.NewPhaser(sr)
		s.sets, s.reset = phaserSets(sr, c), c.Reset
		s.frame = f11(c.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "modulation.Phaser.stereo", nin: 2, nout: 2, gain: 2, off: 100, link: "pseudo", mk: func(sr float64, s *stream) {
		c := modulation.NewPhaser(sr)
		s.sets, s.reset = phaserSets(sr, c), c.Reset
		s.frame = f22(c.ProcessStereo)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[1], out[0], out[1]) })
	}})
	add(&proc{name: "modulation.AllPassFilter", nin: 1, nout: 1, gain: 8, mk: func(sr float64, s *stream) {
		a := modulation.NewAllPassFilter()
		a.SetFrequency(500, sr)
		s.sets = []setting{{name: "frequency", lo: 20, hi: sr * 0.45, log: true, fn: func(v float64) { a.SetFrequency(v, sr) }}}
		s.reset = a.Reset
		s.frame = f11(a.Process)
		s.block = s.perBlock(s.frame)
	}})
	add(&proc{name: "modulation.Tremolo", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		c := modulation.NewTremolo(sr)
		s.sets, s.reset = tremSets(c, 4), c.Reset
		s.frame = f11(c.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "modulation.Tremolo.stereo", nin: 2, nout: 2, gain: 1.00001, link: "indep", mk: func(sr float64, s *stream) {
		c := modulation.NewTremolo(sr)
		s.sets, s.reset = tremSets(c, 4), c.Reset
		s.frame = f22(c.ProcessStereo)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[1], out[0], out[1]) })
	}})
	add(&proc{name: "modulation.RingModulator", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		c := modulation.NewRingModulator(sr)
		s.sets, s.reset = ringSets(sr, c), c.Reset
		s.frame = f11(c.Process)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0]) })
	}})
	add(&proc{name: "modulation.RingModulator.stereo", nin: 2, nout: 2, gain: 1.00001, link: "indep", mk: func(sr float64, s *stream) {
		c := modulation.NewRingModulator(sr)
		s.sets, s.reset = ringSets(sr, c), c.Reset
		s.frame = f22(c.ProcessStereo)
		s.block = s.blk32(false, func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[1], out[0], out[1]) })
	}})

	// distortion
	g11 := func(f func(float64) float64) func(in, out []float64) {
		return func(in, out []float64) { out[0] = f(in[0]) }
	}
	add(&proc{name: "distortion.Bitcrusher", nin: 1, nout: 1, gain: 2, off: 2, f64: true, mk: func(sr float64, s *stream) {
		b := distortion.NewBitcrusher(sr)
		s.sets, s.reset = crushSets(b), b.Reset
		s.frame = g11(b.Process)
		s.block = s.blk64(func(in, out [][]float64) { b.ProcessBlock(in[0], out[0]) })
	}})
	add(&proc{name: "distortion.Bitcrusher.stereo", nin: 2, nout: 2, gain: 2, off: 2, link: "indep", f64: true, mk: func(sr float64, s *stream) {
		b := distortion.NewBitcrusher(sr)
		s.sets, s.reset = crushSets(b), b.Reset
		s.block = s.blk64(func(in, out [][]float64) { b.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	for _, fl := range []bool{false, true} {
		fl, sfx, rnd := fl, "", 1
		if fl {
			sfx, rnd = ".flutter", 2
		}
		add(&proc{name: "distortion.Tape" + sfx, nin: 1, nout: 1, gain: 2, off: 200, f64: true, rnd: rnd, mk: func(sr float64, s *stream) {
			t := distortion.NewTapeSaturation(sr)
			s.sets, s.reset = tapeSets(t, fl), t.Reset
			s.frame = g11(t.Process)
			s.block = s.blk64(func(in, out [][]float64) { t.ProcessBlock(in[0], out[0]) })
		}})
		add(&proc{name: "distortion.Tape.stereo" + sfx, nin: 2, nout: 2, gain: 2, off: 200, link: "indep", f64: true, rnd: rnd, mk: func(sr float64, s *stream) {
			t := distortion.NewTapeSaturation(sr)
			s.sets, s.reset = tapeSets(t, fl), t.Reset
			s.block = s.blk64(func(in, out [][]float64) { t.ProcessStereo(in[0], in[1], out[0], out[1]) })
			s.frame = perFrame(s.block)
		}})
	}
	add(&proc{name: "distortion.Tube", nin: 1, nout: 1, gain: 2, off: 40, f64: true, mk: func(sr float64, s *stream) {
		t := distortion.NewTubeSaturation()
		s.sets, s.reset = tubeSets(t), t.Reset
		s.frame = g11(t.Process)
		s.block = s.blk64(func(in, out [][]float64) { t.ProcessBlock(in[0], out[0]) })
	}})
	add(&proc{name: "distortion.Tube.stereo", nin: 2, nout: 2, gain: 2, off: 40, link: "indep", f64: true, mk: func(sr float64, s *stream) {
		t := distortion.NewTubeSaturation()
		s.sets, s.reset = tubeSets(t), t.Reset
		s.block = s.blk64(func(in, out [][]float64) { t.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "distortion.Waveshaper", nin: 1, nout: 1, gain: 2, off: 2, f64: true, mk: func(sr float64, s *stream) {
		t := distortion.NewWaveshaper()
		s.sets = shaperSets(t)
		s.frame = g11(t.Process)
		s.block = s.blk64(func(in, out [][]float64) { t.ProcessBlock(in[0], out[0]) })
	}})
	add(&proc{name: "distortion.Waveshaper.stereo", nin: 2, nout: 2, gain: 2, off: 2, link: "indep", f64: true, mk: func(sr float64, s *stream) {
		t := distortion.NewWaveshaper()
		s.sets = shaperSets(t)
		s.block = s.blk64(func(in, out [][]float64) { t.ProcessStereo(in[0], in[1], out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})

	// reverbs
	add(&proc{name: "reverb.Freeverb", nin: 2, nout: 2, gain: 250, link: "pseudo", mk: func(sr float64, s *stream) {
		f := reverb.NewFreeverb(sr)
		s.sets, s.reset = freeverbSets(f), f.Reset
		s.frame = f22(f.ProcessStereo)
		s.block = s.perBlock(s.frame)
	}})
	add(&proc{name: "reverb.Freeverb.mono", nin: 1, nout: 1, gain: 250, mk: func(sr float64, s *stream) {
		f := reverb.NewFreeverb(sr)
		s.sets, s.reset = freeverbSets(f), f.Reset
		s.frame = f11(f.Process)
		s.block = s.perBlock(f11(func(x float32) float32 { l, _ := f.ProcessStereo(x, x); return l }))
	}})
	add(&proc{name: "reverb.Schroeder", nin: 1, nout: 1, gain: 400, mk: func(sr float64, s *stream) {
		f := reverb.NewSchroeder(sr)
		s.sets, s.reset = schroederSets(f)[:4], f.Reset
		s.frame = f11(f.Process)
		s.block = s.perBlock(f11(func(x float32) float32 { l, _ := f.ProcessStereo(x, x); return l }))
	}})
	add(&proc{name: "reverb.Schroeder.stereo", nin: 2, nout: 2, gain: 400, link: "pseudo", mk: func(sr float64, s *stream) {
		f := reverb.NewSchroeder(sr)
		s.sets, s.reset = schroederSets(f), f.Reset
		s.frame = f22(f.ProcessStereo)
		s.block = s.perBlock(s.frame)
	}})
	for _, n := range []int{4, 8, 6, 2} {
		n := n
		rnd := 0
		if n != 4 && n != 8 {
			rnd = 1
		}
		add(&proc{name: "reverb.FDN" + string(rune('0'+n)), nin: 1, nout: 1, gain: 200, rnd: rnd, mk: func(sr float64, s *stream) {
			f := reverb.NewFDN(n, sr)
			s.sets, s.reset = fdnSets(f), f.Reset
			s.frame = f11(f.Process)
			s.block = s.perBlock(s.frame)
		}})
		add(&proc{name: "reverb.FDN" + string(rune('0'+n)) + ".stereo", nin: 2, nout: 2, gain: 200, rnd: rnd, link: "pseudo", mk: func(sr float64, s *stream) {
			f := reverb.NewFDN(n, sr)
			s.sets, s.reset = fdnSets(f), f.Reset
			s.frame = f22(f.ProcessStereo)
			s.block = s.perBlock(s.frame)
		}})
	}
	add(&proc{name: "reverb.CombFilter", nin: 1, nout: 1, gain: 60, mk: func(sr float64, s *stream) {
		f := reverb.NewCombFilter(int(sr * 0.004))
		s.sets = []setting{{name: "feedback", lo: 0, hi: 0.98, fn: f.SetFeedback}, {name: "damping", hi: 1, fn: f.SetDamping}}
		s.reset = f.Reset
		s.frame = f11(f.Process)
		s.block = s.perBlock(s.frame)
	}})
	add(&proc{name: "reverb.AllPassFilter", nin: 1, nout: 1, gain: 60, mk: func(sr float64, s *stream) {
		f := reverb.NewAllPassFilter(int(sr * 0.003))
		s.sets = []setting{{name: "feedback", lo: -0.9, hi: 0.9, fn: f.SetFeedback}}
		s.reset = f.Reset
		s.frame = f11(f.Process)
		s.block = s.perBlock(s.frame)
	}})
	add(&proc{name: "reverb.DampingFilter", nin: 1, nout: 1, gain: 1.0001, mk: func(sr float64, s *stream) {
		f := reverb.NewDampingFilter()
		s.sets = []setting{unit("damping", f.SetDamping)}
		s.reset = f.Reset
		s.frame = f11(f.Process)
		s.block = s.perBlock(s.frame)
	}})

	// utility
	add(&proc{name: "utility.DCBlocker", nin: 2, nout: 2, gain: 2.0001, link: "indep", mk: func(sr float64, s *stream) {
		d := utility.NewDCBlocker(2, 20, sr)
		s.sets = []setting{rngLog("cutoff", 1, 500, func(v float64) { d.SetCutoff(float32(v), sr) })}
		s.reset = d.Reset
		s.frame = func(in, out []float64) {
			for c := range in {
				out[c] = float64(d.Process(float32(in[c]), c))
			}
		}
		k := 0
		s.block = s.blk32(true, func(in, _ [][]float32) {
			k++
			switch k % 3 {
			case 0:
				d.ProcessStereo(in[0], in[1])
			case 1:
				d.ProcessMultiChannel(in)
			default:
				d.ProcessBuffer(in[1], 1)
				d.ProcessBuffer(in[0], 0)
			}
		})
	}})
	add(&proc{name: "utility.SimpleDCBlocker", nin: 1, nout: 1, gain: 2.0001, mk: func(sr float64, s *stream) {
		d := utility.NewSimpleDCBlocker(sr)
		s.reset = d.Reset
		s.frame = f11(d.Process)
		s.block = s.blk32(true, func(in, _ [][]float32) { d.ProcessBuffer(in[0]) })
	}})
	for t := 0; t < 5; t++ {
		t := t
		add(&proc{name: "utility.Noise." + []string{"white", "pink", "brown", "blue", "violet"}[t], nout: 1, off: 1.00001, rnd: 2, mk: func(sr float64, s *stream) {
			n := utility.NewNoiseGenerator(utility.NoiseType(t))
			n.SetSeed(77)
			s.sets = []setting{{name: "type", disc: 5, fn: func(v float64) { n.SetType(utility.NoiseType(int(v))) }}}
			s.reset = n.Reset
			s.frame = f01(n.Next)
			k := 0
			s.block = s.blk32(false, func(_, out [][]float32) {
				k++
				if k%2 == 0 {
					for i := range out[0] {
						out[0][i] = 0
					}
					n.GenerateAdd(out[0], 1)
					return
				}
				n.Generate(out[0])
			})
		}})
	}
	add(&proc{name: "pan.AutoPan", nin: 1, nout: 2, gain: 1.0001, mk: func(sr float64, s *stream) {
		a := pan.NewAutoPan(0.5, 0.5, pan.ConstantPower)
		s.sets = []setting{{name: "rate", lo: 0.01, hi: 20, log: true, fn: func(v float64) { a.SetRate(float32(v)) }}, {name: "depth", hi: 1, fn: func(v float64) { a.SetDepth(float32(v)) }}}
		s.reset = a.Reset
		s.block = s.blk32(false, func(in, out [][]float32) { a.Process(in[0], float32(sr), out[0], out[1]) })
		s.frame = perFrame(s.block)
	}})
	chainProcs(add)
}

func procByName(n string) *proc {
	for _, p := range procs {
		if p.name == n {
			return p
		}
	}
	return nil
}

func (p *proc) make(sr float64) *stream {
	s := &stream{}
	p.mk(sr, s)
	return s
}

var rates = []float64{8000, 11025, 22050, 44100, 48000, 96000, 192000}

// sigGen is a deterministic input signal.
type sigGen struct {
	kind int
	r    *core.R
	n    int
	amp  float64
	inc  float64
	held float64
}

func newSig(kind int, seed uint64, amp float64) *sigGen {
	g := core.NewR(seed)
	return &sigGen{kind: kind, r: g, amp: amp, inc: g.LogR(0.0005, 0.45)}
}

const sigKinds = 9

func (s *sigGen) next() float64 {
	n := s.n
	s.n++
	switch s.kind {
	case 0: // noise
		return s.amp * (2*s.r.F() - 1)
	case 1: // sine
		return s.amp * math.Sin(2*math.Pi*s.inc*float64(n))
	case 2: // impulses
		if s.r.Chance(0.01) {
			return s.amp
		}
		return 0
	case 3: // constant
		return s.amp
	case 4: // silence
		return 0
	case 5: // extremes
		if s.r.Chance(0.5) {
			return s.amp
		}
		return -s.amp
	case 6: // bursts between silence
		if n%400 < 150 {
			return s.amp * (2*s.r.F() - 1)
		}
		return 0
	case 7: // very small values
		return 1e-39 * (2*s.r.F() - 1)
	default: // steps held for a while, with rare full-scale peaks
		if n%64 == 0 {
			s.held = s.amp * (2*s.r.F() - 1) * 0.5
		}
		if s.r.Chance(0.004) {
			return s.amp
		}
		return s.held
	}
}
