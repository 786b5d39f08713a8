package dsp

import (
	"fmt"
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// P31: filters are the difference equations of their settings, while the
// settings move.

var p31Kinds = []string{"Biquad", "Biquad", "Biquad", "SVF", "MultiModeSVF", "DCBlocker", "SimpleDCBlocker"}

var p31Types = []string{"lowpass", "highpass", "bandpass", "notch", "allpass", "peak", "lowshelf", "highshelf"}

func init() {
	core.Register(&core.Check{
		ID: "P31", Quick: 96000, Thorough: 1920000,
		Rule:      "A host filters one to four channels through a biquad (all eight designs and direct coefficients), a state-variable filter (each output, mixes, every sample's four outputs), a morphing filter or a DC blocker, divides the channels into blocks in any order, and changes type, frequency, Q, gain, mode and cutoff between any two blocks, with resets in between. A double-precision model derived from the analogue prototypes by the bilinear transform runs alongside and is compared at every sample; what single precision may do to the filter is measured by two single-precision shadows. Non-trivial: a setting changed while the filter rang.",
		StateRule: "distinct (filter, rate, channels, operation sequence with settings)",
		Real:      []string{"pkg/dsp/filter", "pkg/dsp/utility/dcblocker.go"},
		Stub:      []string{"host (calls, automation, input signal)"},
		Assume:    []string{"frequencies from 10 Hz to 0.49 of the rate, Q from 0.1 to 30, gains to 24 dB", "the band-pass has unit gain at its centre", "a channel beyond the ones allocated is left alone"},
		Must:      append([]string{"Biquad", "SVF", "MultiModeSVF", "DCBlocker", "SimpleDCBlocker", "coefficients", "multi", "excess", "reset", "sample", "buffer", "mixed", "lp", "hp", "bp", "nt", "stereo"}, p31Types...),
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := p31Kinds[i%len(p31Kinds)]
			_ = g.U64()
			c.SetS("kind", kind)
			sr := g.PickF(8000, 22050, 44100, 48000, 96000, 192000)
			c.SetF("sr", sr)
			nch := g.Range(1, 4)
			if kind == "SimpleDCBlocker" {
				nch = 1
			}
			c.Set("nch", int64(nch))
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			c.SetF("amp", g.PickF(1, 0.5, 0.01))
			freq := func() float64 {
				f := math.Exp(g.FR(math.Log(10), math.Log(0.49*sr)))
				return math.Min(0.49*sr, math.Max(10, g.PickF(f, f, f, f, 0.25*sr, 1000, 100)))
			}
			q := func() float64 {
				return g.PickF(math.Exp(g.FR(math.Log(0.1), math.Log(30))), 0.5, math.Sqrt2/2, 1, 4, g.FR(0.3, 3))
			}
			hot := freq() // sessions stay around one frequency half of the time
			near := func() float64 {
				if g.Chance(0.5) {
					return math.Min(0.49*sr, math.Max(10, hot*g.PickF(1, 1, 1.01, 0.99, 2, 0.5)))
				}
				return freq()
			}
			var ops []core.Op
			set := func(first bool) {
				switch kind {
				case "Biquad":
					if !first && g.Chance(0.1) {
						// A stable filter: poles inside the unit circle.
						rad, th := g.FR(0, 0.98), g.FR(0, math.Pi)
						a0 := g.PickF(1, 1, 2, -0.5, g.FR(0.2, 3))
						ops = append(ops, core.Op{K: "coefficients", F: []core.X{core.X(g.FR(-2, 2)), core.X(g.FR(-2, 2)), core.X(g.FR(-2, 2)), core.X(a0), core.X(-2 * rad * math.Cos(th) * a0), core.X(rad * rad * a0)}})
						return
					}
					ops = append(ops, core.Op{K: "type", I: []int64{int64(g.N(8))}, F: []core.X{core.X(near()), core.X(q()), core.X(g.PickF(0, 6, -6, 12, -12, g.FR(-24, 24)))}})
				case "SVF", "MultiModeSVF":
					k := g.N(4)
					if first {
						k = 0
					}
					switch {
					case k == 1:
						ops = append(ops, core.Op{K: "freq", F: []core.X{core.X(near())}})
					case k == 2:
						ops = append(ops, core.Op{K: "q", F: []core.X{core.X(q())}})
					case k == 3 && kind == "MultiModeSVF":
						ops = append(ops, core.Op{K: "mode", F: []core.X{core.X(g.PickF(0, 0.25, 0.5, 0.75, 1, g.F(), g.FR(-2, 3)))}})
					default:
						ops = append(ops, core.Op{K: "freqq", F: []core.X{core.X(near()), core.X(q())}})
					}
				case "DCBlocker":
					if first {
						c.SetF("cutoff", g.PickF(5, 10, 20, g.FR(0.1, 2000)))
						return
					}
					ops = append(ops, core.Op{K: "cutoff", F: []core.X{core.X(g.PickF(5, 10, 20, 100, 0, g.FR(0.1, 2000)))}})
				}
			}
			set(true)
			total := g.Pick(100, 600, 2500)
			for total > 0 {
				for g.Chance(0.4) {
					set(false)
				}
				if g.Chance(0.05) {
					ops = append(ops, core.Op{K: "reset"})
				}
				n := g.Pick(1, 2, 5, 17, 64, 256)
				o := core.Op{K: "run", I: []int64{int64(n), int64(g.N(8)), int64(g.N(nch))}}
				if kind == "SVF" {
					o.F = []core.X{core.X(g.PickF(0, 1, g.FR(-1, 1))), core.X(g.PickF(0, 1, g.FR(-1, 1))), core.X(g.PickF(0, 1, g.FR(-1, 1))), core.X(g.PickF(0, 1, g.FR(-1, 1)))}
				}
				ops = append(ops, o)
				total -= n
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP31,
	})
}

// p31Coef gives b0,b1,b2,a1,a2 of a design: its analogue prototype
// (n2 s^2+n1 s+n0)/(d2 s^2+d1 s+d0) at frequency 1, carried over by
// s = (1-z)/(1+z) / tan(pi f/sr).
func p31Coef(typ int, sr, f, q, gain float64) [5]float64 {
	var n, d [3]float64 // s^0, s^1, s^2
	A := math.Pow(10, gain/40)
	d = [3]float64{1, 1 / q, 1}
	switch p31Types[typ] {
	case "lowpass":
		n = [3]float64{1, 0, 0}
	case "highpass":
		n = [3]float64{0, 0, 1}
	case "bandpass":
		n = [3]float64{0, 1 / q, 0}
	case "notch":
		n = [3]float64{1, 0, 1}
	case "allpass":
		n = [3]float64{1, -1 / q, 1}
	case "peak":
		n = [3]float64{1, A / q, 1}
		d = [3]float64{1, 1 / (A * q), 1}
	case "lowshelf":
		n = [3]float64{A * A, A * math.Sqrt(A) / q, A}
		d = [3]float64{1, math.Sqrt(A) / q, A}
	case "highshelf":
		n = [3]float64{A, A * math.Sqrt(A) / q, A * A}
		d = [3]float64{A, math.Sqrt(A) / q, 1}
	}
	k := 1 / math.Tan(math.Pi*f/sr)
	z := func(p [3]float64) (c0, c1, c2 float64) {
		a, b, c := p[0], p[1]*k, p[2]*k*k
		return a + b + c, 2*a - 2*c, a - b + c
	}
	n0, n1, n2 := z(n)
	d0, d1, d2 := z(d)
	return [5]float64{n0 / d0, n1 / d0, n2 / d0, d1 / d0, d2 / d0}
}

// p31Chan is one channel of the model and of its single-precision shadows.
type p31Chan struct {
	m          [4]float64
	s          [4][4]float32
	peak, dev  float64
	rang, wide bool
}

func (h *p31Chan) tol() float64 { return 10*h.dev + 3e-6*(h.peak+1e-3) }

func (h *p31Chan) note(x, y, shadow float64) {
	h.peak = math.Max(h.peak, math.Max(math.Abs(x), math.Abs(y)))
	h.dev = math.Max(h.dev, math.Abs(shadow-y))
}

func (h *p31Chan) biquad(c [5]float64, x float64) float64 {
	m := &h.m
	y := c[0]*x + c[1]*m[0] + c[2]*m[1] - c[3]*m[2] - c[4]*m[3]
	*m = [4]float64{x, m[0], y, m[2]}
	// The shadows' coefficients are off by a few units in the last place, one
	// pair at a time so that the errors do not cancel.
	xf := float32(x)
	for k := range h.s {
		s := &h.s[k]
		var a [5]float32
		for i := range c {
			a[i] = float32(c[i])
		}
		switch k {
		case 0:
			a[3] *= 1 + 3e-7
		case 1:
			a[4] *= 1 - 3e-7
		case 2:
			a[1] *= 1 + 3e-7
		case 3:
			a[0] *= 1 + 3e-7
			a[3] *= 1 - 3e-7
		}
		ys := a[0]*xf + a[1]*s[0] + a[2]*s[1] - a[3]*s[2] - a[4]*s[3]
		*s = [4]float32{xf, s[0], ys, s[2]}
		h.note(x, y, float64(ys))
	}
	return y
}

// svf gives lowpass, highpass, bandpass, notch.
func (h *p31Chan) svf(g, k, x float64) [4]float64 {
	m := &h.m
	hp := (x - (k+g)*m[0] - m[1]) / (1 + g*(g+k))
	bp := g*hp + m[0]
	lp := g*bp + m[1]
	m[0], m[1] = g*hp+bp, g*bp+lp
	sh := func(s *[4]float32, g, k float32) (hp, bp, lp float32) {
		hp = (float32(x) - (k+g)*s[0] - s[1]) / (1 + g*(g+k))
		bp = g*hp + s[0]
		lp = g*bp + s[1]
		s[0], s[1] = g*hp+bp, g*bp+lp
		return
	}
	for i := range h.s {
		gf, kf := float32(g), float32(k)
		switch i {
		case 0:
			gf *= 1 + 3e-7
		case 1:
			kf *= 1 + 3e-7
		case 2:
			gf, kf = gf*(1-3e-7), kf*(1+3e-7)
		}
		hs, bs, ls := sh(&h.s[i], gf, kf)
		// Every step rounds the states.
		switch i {
		case 0:
			h.s[i][0] *= 1 - 1.2e-7
		case 1:
			h.s[i][1] *= 1 + 1.2e-7
		case 2:
			h.s[i][0] *= 1 + 1.2e-7
		}
		h.note(x, lp, float64(ls))
		h.note(x, hp, float64(hs))
		h.note(x, bp, float64(bs))
	}
	// The highpass as the input less the others cancels at low frequencies.
	h.dev = math.Max(h.dev, (math.Abs(x)+math.Abs(k*bp)+math.Abs(lp))*6e-8)
	return [4]float64{lp, hp, bp, x - k*bp}
}

func (h *p31Chan) dc(rr, x float64) float64 {
	m := &h.m
	y := x - m[0] + rr*m[1]
	m[0], m[1] = x, y
	xf := float32(x)
	for i, rf := range []float32{float32(rr), float32(rr) * (1 + 2e-7), float32(rr) * (1 - 2e-7)} {
		s := &h.s[i]
		ys := xf - s[0] + rf*s[1]
		s[0], s[1] = xf, ys
		h.note(x, y, float64(ys))
	}
	return y
}

func execP31(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	nch := int(c.Cfg["nch"])
	r.Probe(kind)
	r.Comp("filter." + kind)
	h := core.HashU(core.HashS(kind), uint64(sr))
	h = core.HashU(h, uint64(nch))
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)*31+o.Int(1)*7+o.Int(2)))
		if len(o.F) > 0 {
			h = core.HashU(h, math.Float64bits(o.Flt(0)))
		}
	}
	r.State(h)
	var bq *filter.Biquad
	var sv *filter.SVF
	var mm *filter.MultiModeSVF
	var dc *utility.DCBlocker
	var sd *utility.SimpleDCBlocker
	var co [5]float64
	var g, k, mode, rr float64
	okF := func(f float64) float64 { return clamp(f, 10, 0.49*sr) }
	okQ := func(q float64) float64 { return clamp(q, 0.1, 30) }
	cut := func(f float64) float64 { return clamp(1-2*math.Pi*f/sr, 0.9, 0.999) }
	switch kind {
	case "Biquad":
		bq = filter.NewBiquad(nch)
	case "SVF":
		sv = filter.NewSVF(nch)
	case "MultiModeSVF":
		mm = filter.NewMultiModeSVF(nch)
		sv = &mm.SVF
	case "DCBlocker":
		f := float64(c.CfgF["cutoff"])
		if f == 0 {
			f = 10
		}
		dc = utility.NewDCBlocker(nch, float32(f), sr)
		rr = cut(f)
	case "SimpleDCBlocker":
		sd = utility.NewSimpleDCBlocker(sr)
		rr = 1 - 2*math.Pi*10/sr
	}
	ch := make([]*p31Chan, nch)
	sigs := make([]*sigGen, nch+2)
	for i := range sigs {
		sigs[i] = newSig((int(c.Cfg["sig"])+i*2)%sigKinds, uint64(c.Cfg["sigseed"])+uint64(i), float64(c.CfgF["amp"]))
	}
	reset := func() {
		for i := range ch {
			ch[i] = &p31Chan{}
		}
	}
	reset()
	n := 0
	desc := "unset"
	ready := kind == "DCBlocker" || kind == "SimpleDCBlocker"
	setG, setK := false, false
	for _, o := range c.Threads[0] {
		if o.K != "run" {
			r.Fault("automation")
			for _, x := range ch {
				r.NonTriv = r.NonTriv || x.rang
			}
		}
		switch o.K {
		case "type":
			f, q, gain := okF(o.Flt(0)), okQ(o.Flt(1)), clamp(o.Flt(2), -24, 24)
			typ := int(o.Int(0)) & 7
			r.Probe(p31Types[typ])
			switch typ {
			case 0:
				bq.SetLowpass(sr, f, q)
			case 1:
				bq.SetHighpass(sr, f, q)
			case 2:
				bq.SetBandpass(sr, f, q)
			case 3:
				bq.SetNotch(sr, f, q)
			case 4:
				bq.SetAllpass(sr, f, q)
			case 5:
				bq.SetPeakingEQ(sr, f, q, gain)
			case 6:
				bq.SetLowShelf(sr, f, q, gain)
			case 7:
				bq.SetHighShelf(sr, f, q, gain)
			}
			co = p31Coef(typ, sr, f, q, gain)
			desc = fmt.Sprintf("%s at %g Hz, Q %g, gain %g dB", p31Types[typ], f, q, gain)
			ready = true
		case "coefficients":
			r.Probe("coefficients")
			var v [6]float32
			for i := range v {
				v[i] = float32(o.Flt(i))
			}
			if math.Abs(o.Flt(3)) < 0.1 || math.Abs(o.Flt(5)/o.Flt(3)) > 0.97 || math.Abs(o.Flt(4)/o.Flt(3)) > 0.99*(1+o.Flt(5)/o.Flt(3)) {
				continue // not a stable filter
			}
			bq.SetCoefficients(v[0], v[1], v[2], v[3], v[4], v[5])
			a0 := float64(v[3])
			co = [5]float64{float64(v[0]) / a0, float64(v[1]) / a0, float64(v[2]) / a0, float64(v[4]) / a0, float64(v[5]) / a0}
			desc = fmt.Sprintf("coefficients %v", v)
			ready = true
		case "freq", "freqq", "q":
			switch o.K {
			case "freq":
				f := okF(o.Flt(0))
				sv.SetFrequency(sr, f)
				g = math.Tan(math.Pi * f / sr)
				setG = true
			case "q":
				sv.SetQ(okQ(o.Flt(0)))
				k = 1 / okQ(o.Flt(0))
				setK = true
			default:
				f, q := okF(o.Flt(0)), okQ(o.Flt(1))
				sv.SetFrequencyAndQ(sr, f, q)
				g, k = math.Tan(math.Pi*f/sr), 1/q
				setG, setK = true, true
			}
			ready = setG && setK
			desc = fmt.Sprintf("g %g, damping %g", g, k)
		case "mode":
			mm.SetMode(o.Flt(0))
			mode = o.Flt(0) - math.Floor(o.Flt(0))
		case "cutoff":
			dc.SetCutoff(float32(o.Flt(0)), sr)
			rr = cut(o.Flt(0))
			desc = fmt.Sprintf("cutoff %g Hz", o.Flt(0))
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
			switch {
			case bq != nil:
				bq.Reset()
			case sv != nil:
				sv.Reset()
			case dc != nil:
				dc.Reset()
			default:
				sd.Reset()
			}
			reset()
		case "run":
			if !ready {
				continue
			}
			if !p31Run(c, r, o, kind, bq, sv, mm, dc, sd, ch, sigs, co, g, k, mode, rr, &n, desc) {
				return
			}
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}

func p31Run(c *core.Case, r *core.Rec, o core.Op, kind string, bq *filter.Biquad, sv *filter.SVF, mm *filter.MultiModeSVF, dc *utility.DCBlocker, sd *utility.SimpleDCBlocker,
	ch []*p31Chan, sigs []*sigGen, co [5]float64, g, k, mode, rr float64, n *int, desc string) bool {
	cnt, how, first := int(o.Int(0)), o.Int(1), int(o.Int(2))%len(ch)
	last := first
	multi := false
	switch {
	case kind == "Biquad" && how >= 4, kind == "DCBlocker" && how >= 6:
		multi = true
		first, last = 0, len(ch)-1
		r.Probe("multi")
	case kind == "DCBlocker" && how >= 4:
		first, last = 0, len(ch)-1
		if last > 1 {
			last = 1
		}
	}
	bufs := make([][]float32, 0, len(sigs))
	in := make([][]float32, 0, len(sigs))
	excess := 0
	if multi && how == 7 {
		excess = 2
		r.Probe("excess")
	}
	for i := first; i <= last+excess; i++ {
		b := make([]float32, cnt)
		for j := range b {
			b[j] = float32(sigs[i].next())
		}
		bufs = append(bufs, b)
		in = append(in, append([]float32(nil), b...))
	}
	out := ""
	untouched := false
	var all []filter.SVFOutputs
	switch {
	case multi && bq != nil:
		bq.ProcessMulti(bufs)
	case bq != nil:
		bq.Process(bufs[0], first)
	case mm != nil && how < 6:
		mm.Process(bufs[0], first)
		out = "mode"
	case sv != nil:
		out = [...]string{"sample", "lp", "hp", "bp", "nt", "mixed", "sample", "mixed"}[how]
		r.Probe(out)
		switch out {
		case "lp":
			sv.ProcessLowpass(bufs[0], first)
		case "hp":
			sv.ProcessHighpass(bufs[0], first)
		case "bp":
			sv.ProcessBandpass(bufs[0], first)
		case "nt":
			sv.ProcessNotch(bufs[0], first)
		case "mixed":
			sv.ProcessMixed(bufs[0], first, float32(o.Flt(0)), float32(o.Flt(1)), float32(o.Flt(2)), float32(o.Flt(3)))
		default:
			for j, x := range bufs[0] {
				all = append(all, sv.ProcessSample(x, first))
				bufs[0][j] = all[j].Lowpass
			}
			out = "lp"
		}
	case dc != nil && multi:
		dc.ProcessMultiChannel(bufs)
	case dc != nil && how >= 4:
		r.Probe("stereo")
		if len(ch) < 2 {
			two := append([]float32(nil), bufs[0]...)
			dc.ProcessStereo(bufs[0], two)
			untouched = true
		} else {
			dc.ProcessStereo(bufs[0], bufs[1])
		}
	case dc != nil && how < 2:
		r.Probe("sample")
		for j, x := range bufs[0] {
			bufs[0][j] = dc.Process(x, first)
		}
		if y := dc.Process(0.25, len(ch)); y != 0.25 {
			r.Fail("excess", kind, "a channel beyond the last changes 0.25 to %g", y)
			return false
		}
	case dc != nil:
		r.Probe("buffer")
		dc.ProcessBuffer(bufs[0], first)
	case how < 4:
		for j, x := range bufs[0] {
			bufs[0][j] = sd.Process(x)
		}
	default:
		sd.ProcessBuffer(bufs[0])
	}
	for b := range bufs {
		if b >= len(bufs)-excess || untouched {
			for j := range in[b] {
				if bufs[b][j] != in[b][j] {
					r.Fail("excess", kind, "%s with %d channels changes a sample of channel %d", kind, len(ch), first+b)
					return false
				}
			}
			continue
		}
		m := ch[first+b]
		for j, x := range in[b] {
			var want float64
			switch {
			case bq != nil:
				want = m.biquad(co, float64(x))
			case sv != nil:
				v := m.svf(g, k, float64(x))
				switch out {
				case "lp":
					want = v[0]
				case "hp":
					want = v[1]
				case "bp":
					want = v[2]
				case "nt":
					want = v[3]
				case "mixed":
					want = v[0]*o.Flt(0) + v[1]*o.Flt(1) + v[2]*o.Flt(2) + v[3]*o.Flt(3)
				case "mode":
					ring := [...]float64{v[0], v[2], v[1], v[3], v[0], v[2]}
					p := mode * 4
					i := int(p)
					want = ring[i]*(1-(p-float64(i))) + ring[i+1]*(p-float64(i))
				}
				if all != nil {
					a := all[j]
					tol := m.tol() * (1 + k)
					for i, y := range []float32{a.Lowpass, a.Highpass, a.Bandpass, a.Notch} {
						if !(math.Abs(float64(y)-v[i]) <= tol) {
							r.Fail("model", kind, "%s, sample %d: output %d is %.9g for %.9g instead of %.9g", desc, *n, i, y, x, v[i])
							return false
						}
					}
				}
			default:
				want = m.dc(rr, float64(x))
			}
			*n++
			r.Eval()
			y := float64(bufs[b][j])
			r.ObserveF(y)
			m.rang = m.rang || math.Abs(want) > 1e-3
			tol := m.tol() * (1 + k)
			if out == "mixed" {
				tol *= 4
			}
			if !(math.Abs(y-want) <= tol) {
				r.Fail("model", kind, "%s (%s) on channel %d, sample %d: %.9g for %.9g instead of %.9g (tolerance %.2g)", kind, desc, first+b, *n, y, x, want, tol)
				return false
			}
		}
	}
	return true
}
