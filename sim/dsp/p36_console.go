package dsp

import (
	"fmt"
	"math"

	"vstsim/core"

	dspbuf "github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// P36: gains, fades, clips, mixes, pans and interpolators give their law on
// the frames all their buffers have and touch nothing else.

const guard36 = 8

// strip is a buffer of the simulated console between guards.
type strip struct {
	all, was []float32
	b        []float32
}

func newStrip(n int, g *core.R, amp float64) *strip {
	s := &strip{all: make([]float32, n+2*guard36)}
	for i := range s.all {
		s.all[i] = float32(amp * (2*g.F() - 1))
		if g.N(12) == 0 {
			s.all[i] = 0
		}
	}
	s.b = s.all[guard36 : guard36+n] // the capacity reaches into the guard
	s.keep()
	return s
}

func (s *strip) keep() { s.was = append(s.was[:0], s.all...) }

func (s *strip) at(i int) float64 { return float64(s.was[guard36+i]) }

// same tells whether everything but the first n samples is untouched.
func (s *strip) same(n int) int {
	for i, v := range s.all {
		if i >= guard36 && i < guard36+n {
			continue
		}
		if math.Float32bits(v) != math.Float32bits(s.was[i]) {
			return i - guard36
		}
	}
	return math.MinInt32
}

var ops36 = []string{
	"Clear", "Copy", "Add", "AddScaled", "Scale", "MixBuf", "Peak", "RMS", "ClipBuf", "SoftClipBuf",
	"gain.Apply", "gain.ApplyDb", "gain.ApplyBuffer", "gain.ApplyDbBuffer", "gain.ApplyBufferTo", "gain.Fade", "gain.FadeDb", "gain.SoftClip", "gain.HardClip", "gain.db",
	"mix.DryWet", "mix.DryWetBuffer", "mix.DryWetBufferTo", "mix.Crossfade", "mix.CrossfadeBuffer", "mix.Sum", "mix.SumWeighted", "mix.Blend",
	"pan.law", "pan.Process", "pan.ProcessStereo", "pan.Width", "pan.Balance", "AutoPan", "AutoPan", "AutoPan",
	"interp.point", "interp.Sinc", "interp.Lanczos", "interp.AllPass", "interp.AllPass", "interp.Resample", "interp.ResampleCubic", "interp.Smooth",
	"scale",
}

func init() {
	core.Register(&core.Check{
		ID: "P36", Quick: 240000, Thorough: 4800000,
		Rule:      "A simulated mixing console: channel strips of differing lengths (stalled channels deliver short or empty buffers, others long ones), faders, dB values from below the floor up, pans, widths, fades, crossfades, sums of any number of strips in place and into other strips, auto-pan with automation, interpolation and resampling. Every result is compared with the published law in double precision; buffers lie between guards, and every sample outside the common frames, sources included, must stay as it was. Non-trivial: buffers of different lengths met.",
		StateRule: "distinct (operation sequence with lengths)",
		Real:      []string{"pkg/dsp (buffer.go)", "pkg/dsp/gain", "pkg/dsp/mix", "pkg/dsp/pan", "pkg/dsp/interpolation", "pkg/dsp/utility (parameter.go)"},
		Stub:      []string{"console (strips, faders)"},
		Assume:    []string{"controls within their documented ranges", "single precision: 2e-6 of the largest term, more for running phases and fades"},
		Must:      append([]string{"short-buffer", "empty-buffer", "in-place", "floor", "automation", "long-buffer", "slow-pan", "long-pan"}, ops36...),
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			var ops []core.Op
			for k := g.Range(2, 8); k > 0; k-- {
				base := g.Pick(0, 1, 2, 5, 16, 33, 64, g.Range(1, 100))
				if g.Chance(0.002) { // a whole take, rendered offline
					base = g.Pick(4096, 8192, 9000, 16384, 40000)
				}
				o := core.Op{K: ops36[g.N(len(ops36))], I: []int64{int64(g.U64() >> 1)}}
				for m := 0; m < 4; m++ {
					n := base
					if g.Chance(0.25) {
						n = g.Pick(0, 1, base/2, base+1, base+7, 2*base)
					}
					o.I = append(o.I, int64(n))
				}
				o.I = append(o.I, int64(g.N(4)), int64(g.N(1000)))
				for m := 0; m < 4; m++ {
					o.F = append(o.F, core.X(g.PickF(0, 1, 0.5, -1, g.FR(-1, 1), g.FR(-1, 1), g.FR(-1, 1))))
				}
				ops = append(ops, o)
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP36,
	})
}

type console struct {
	r    *core.Rec
	ap   *pan.AutoPan
	law  pan.Law
	ph   float64
	rate float64
	dep  float64
	n    int
	ip   *interpolation.AllPass
	x1   float64
	y1   float64
}

func panLaw(p float64, l pan.Law) (float64, float64) {
	if l == pan.Linear {
		return 0.5 * (1 - p), 0.5 * (1 + p)
	}
	a := (p + 1) * math.Pi / 4
	x, y := math.Cos(a), math.Sin(a)
	if l == pan.Balanced {
		// 0.595 in the centre, 1 at the sides
		k := 1 - 0.159*(1-p*p)
		x, y = x*k, y*k
	}
	return x, y
}

func dbLin(db float64) float64 {
	if db <= -200 {
		return 0
	}
	return math.Pow(10, db/20)
}

func execP36(c *core.Case, r *core.Rec) {
	q := &console{r: r, ip: interpolation.NewAllPass()}
	h := uint64(0)
	for _, o := range c.Threads[0] {
		for k := 1; k <= 4; k++ {
			if n := o.Int(k); n < 0 || n > 100000 {
				return
			}
		}
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(1)+o.Int(2)*401+o.Int(3)*401*401+o.Int(5)*401*401*401))
		r.Probe(o.K)
		if !q.op(o) {
			return
		}
	}
	r.State(h)
}

func (q *console) op(o core.Op) bool {
	r := q.r
	r.Eval()
	g := core.NewR(uint64(o.Int(0)))
	amp := g.PickF(1, 1, 0.3, 3)
	st := make([]*strip, 4)
	min := int(o.Int(1))
	for k := range st {
		n := int(o.Int(k + 1))
		// Now and then one strip is many orders louder or quieter than the others.
		st[k] = newStrip(n, g, amp*g.PickF(1, 1, 1, 1, 1, 1, 1e-6, 1e6))
		if n > 8192 {
			r.Probe("long-buffer")
		}
		if n == 0 {
			r.Probe("empty-buffer")
		}
		if n != int(o.Int(1)) {
			r.Probe("short-buffer")
			r.Fault("stalled-channel")
			r.NonTriv = true
		}
		if n < min {
			min = n
		}
	}
	a, b, d, e := st[0], st[1], st[2], st[3]
	f := func(k int) float64 { return float64(float32(o.Flt(k))) }
	u := func(k int) float64 { return math.Abs(f(k)) } // 0..1
	common := func(s ...*strip) int {
		n := len(s[0].b)
		for _, x := range s {
			if len(x.b) < n {
				n = len(x.b)
			}
		}
		return n
	}
	// ends allows for a linear mix: at either end the source comes out as it is.
	ends := func(x, y, m float64) float64 {
		switch m {
		case 0:
			return 2e-6*math.Abs(x) + 1e-12
		case 1:
			return 2e-6*math.Abs(y) + 1e-12
		}
		return 2e-6*(math.Abs(x)+math.Abs(y)) + 1e-12
	}
	bad := func(i int, got float32, want float64, what string) bool {
		r.Fail("law", o.K, "%s%s, frame %d: %.9g instead of %.9g (controls %v, lengths %v)", o.K, what, i, got, want, o.F, o.I[1:5])
		return false
	}
	// want compares the first n samples of s with a law and the rest of every
	// strip with what it was.
	want := func(s *strip, n int, law func(i int) (float64, float64)) bool {
		for i := 0; i < n; i++ {
			w, t := law(i)
			r.ObserveF(float64(s.b[i]))
			if !(math.Abs(float64(s.b[i])-w) <= t) {
				return bad(i, s.b[i], w, "")
			}
		}
		return true
	}
	intact := func(written map[*strip]int) bool {
		for k, s := range st {
			if i := s.same(written[s]); i != math.MinInt32 {
				r.Fail("overreach", o.K, "%s changed frame %d of buffer %d (%d frames; lengths %v)", o.K, i, k, len(s.b), o.I[1:5])
				return false
			}
		}
		return true
	}
	single := func(s *strip, n int, law func(i int) (float64, float64)) bool {
		return want(s, n, law) && intact(map[*strip]int{s: n})
	}
	value := func(got float32, w, tol float64, what string) bool {
		if !(math.Abs(float64(got)-w) <= tol) {
			return bad(0, got, w, what)
		}
		return intact(nil)
	}
	tol := func(v ...float64) float64 {
		m := 0.0
		for _, x := range v {
			m += math.Abs(x)
		}
		return 2e-6*m + 1e-12
	}
	inPlace := o.Int(5) == 0
	out := func(alias *strip) *strip {
		if inPlace {
			r.Probe("in-place")
			return alias
		}
		return d
	}
	db := func(v float64) float64 {
		x := v * 60
		if o.Int(6)%9 == 0 {
			x = []float64{-200, -250, -199, 0, 20}[o.Int(6)/9%5]
			if x <= -200 {
				r.Probe("floor")
			}
		}
		return float64(float32(x))
	}
	n := 0
	switch o.K {
	case "Clear":
		dspbuf.Clear(a.b)
		return single(a, len(a.b), func(int) (float64, float64) { return 0, 0 })
	case "Copy":
		dspbuf.Copy(a.b, b.b)
		return single(a, common(a, b), func(i int) (float64, float64) { return b.at(i), 0 })
	case "Add":
		dspbuf.Add(a.b, b.b)
		return single(a, common(a, b), func(i int) (float64, float64) { return a.at(i) + b.at(i), tol(a.at(i), b.at(i)) })
	case "AddScaled":
		dspbuf.AddScaled(a.b, b.b, float32(f(0)))
		return single(a, common(a, b), func(i int) (float64, float64) { return a.at(i) + b.at(i)*f(0), tol(a.at(i), b.at(i)) })
	case "Scale":
		dspbuf.Scale(a.b, float32(f(0)))
		return single(a, len(a.b), func(i int) (float64, float64) { return a.at(i) * f(0), tol(a.at(i)) })
	case "MixBuf":
		t := out(a)
		n = common(a, b, t)
		dspbuf.Mix(t.b, a.b, b.b, float32(u(0)))
		return single(t, n, func(i int) (float64, float64) { return a.at(i)*(1-u(0)) + b.at(i)*u(0), ends(a.at(i), b.at(i), u(0)) })
	case "Peak":
		w := 0.0
		for i := range a.b {
			w = math.Max(w, math.Abs(a.at(i)))
		}
		return value(dspbuf.Peak(a.b), w, 0, "")
	case "RMS":
		w := 0.0
		for i := range a.b {
			w += a.at(i) * a.at(i)
		}
		if len(a.b) > 0 {
			w = math.Sqrt(w / float64(len(a.b)))
		}
		return value(dspbuf.RMS(a.b), w, 2e-6*w, "")
	case "ClipBuf":
		l := u(0)
		dspbuf.Clip(a.b, float32(l))
		return single(a, len(a.b), func(i int) (float64, float64) { return clamp(a.at(i), -l, l), 0 })
	case "SoftClipBuf":
		l := u(0)
		dspbuf.SoftClip(a.b, float32(l))
		return single(a, len(a.b), func(i int) (float64, float64) {
			x := a.at(i)
			if m := math.Abs(x); m > l {
				return math.Copysign(l+(1-l)*math.Tanh(m-l), x), 1e-6
			}
			return x, 0
		})
	case "gain.Apply":
		x := float32(amp * f(1))
		return value(gain.Apply(x, float32(f(0))), float64(x)*f(0), tol(f(0)), "")
	case "gain.ApplyDb":
		x := float32(amp * f(1))
		return value(gain.ApplyDb(x, float32(db(f(0)))), float64(x)*dbLin(db(f(0))), 1e-5*dbLin(db(f(0)))*(1+math.Abs(float64(x))), "")
	case "gain.ApplyBuffer":
		gain.ApplyBuffer(a.b, float32(f(0)))
		return single(a, len(a.b), func(i int) (float64, float64) { return a.at(i) * f(0), tol(a.at(i)) })
	case "gain.ApplyDbBuffer":
		k := dbLin(db(f(0)))
		gain.ApplyDbBuffer(a.b, float32(db(f(0))))
		return single(a, len(a.b), func(i int) (float64, float64) { return a.at(i) * k, 1e-5 * k * math.Abs(a.at(i)) })
	case "gain.ApplyBufferTo":
		t := out(a)
		gain.ApplyBufferTo(a.b, float32(f(0)), t.b)
		return single(t, common(a, t), func(i int) (float64, float64) { return a.at(i) * f(0), tol(a.at(i)) })
	case "gain.Fade", "gain.FadeDb":
		from, to := f(0), f(1)
		if o.K == "gain.Fade" {
			gain.Fade(a.b, float32(from), float32(to))
		} else {
			gain.FadeDb(a.b, float32(db(from)), float32(db(to)))
			from, to = dbLin(db(from)), dbLin(db(to))
		}
		last := float64(len(a.b) - 1)
		return single(a, len(a.b), func(i int) (float64, float64) {
			k := from
			if last > 0 {
				k += (to - from) * float64(i) / last
			}
			return a.at(i) * k, 2e-6 * math.Abs(a.at(i)) * (math.Abs(from) + math.Abs(to))
		})
	case "gain.SoftClip":
		t := 0.01 + u(0)
		t = float64(float32(t))
		single1 := func(x float64) bool {
			x = float64(float32(x))
			y := float64(gain.SoftClip(float32(x), float32(t)))
			w, k := x, math.Min(math.Abs(x)/t, 3)
			if math.Abs(x) > t {
				w = math.Copysign(t*k*(27+k*k)/(27+9*k*k), x)
			}
			if math.Abs(y-w) > 2e-6*t && !(math.Abs(x) > t && math.Abs(y) >= t*0.99999 && math.Abs(y) <= t*1.1 && x*y > 0) {
				return bad(0, float32(y), w, fmt.Sprintf("(%g, %g)", x, t))
			}
			return true
		}
		for i := range a.b {
			if !single1(a.at(i)) {
				return false
			}
		}
		if !(single1(t*0.9) && single1(-t*1.5) && single1(t*2.5) && single1(t*1.01)) {
			return false
		}
		at, above := gain.SoftClip(float32(t), float32(t)), gain.SoftClip(float32(t*1.001), float32(t))
		if above < at*0.99999 {
			r.Fail("clip-step", "gain.SoftClip just above its threshold", "SoftClip(%g, %g) is %g and SoftClip(%g, %g) is %g", t, t, at, t*1.001, t, above)
		}
		gain.SoftClipBuffer(a.b, float32(t))
		return single(a, len(a.b), func(i int) (float64, float64) { return float64(gain.SoftClip(float32(a.at(i)), float32(t))), 0 })
	case "gain.HardClip":
		l := u(0)
		for i := range a.b {
			if v := gain.HardClip(a.b[i], float32(l)); float64(v) != clamp(a.at(i), -l, l) {
				return bad(i, v, clamp(a.at(i), -l, l), "")
			}
		}
		gain.HardClipBuffer(a.b, float32(l))
		return single(a, len(a.b), func(i int) (float64, float64) { return clamp(a.at(i), -l, l), 0 })
	case "gain.db":
		x := f(0) * 10
		w := -200.0
		if x > 0 {
			w = 20 * math.Log10(x)
		} else {
			r.Probe("floor")
		}
		if v := gain.LinearToDb(x); !(math.Abs(v-w) <= 1e-9*(1+math.Abs(w))) {
			return bad(0, float32(v), w, " LinearToDb")
		}
		if v := gain.LinearToDb32(float32(x)); !(math.Abs(float64(v)-w) <= 1e-5*(1+math.Abs(w))) {
			return bad(0, v, w, " LinearToDb32")
		}
		y := db(f(1))
		if v := gain.DbToLinear(y); !(math.Abs(v-dbLin(y)) <= 1e-9*dbLin(y)) {
			return bad(0, float32(v), dbLin(y), " DbToLinear")
		}
		return value(gain.DbToLinear32(float32(y)), dbLin(y), 1e-5*dbLin(y), " DbToLinear32")
	case "mix.DryWet":
		x, y, m := f(0), f(1), u(2)
		return value(mix.DryWet(float32(x), float32(y), float32(m)), x*(1-m)+y*m, ends(x, y, m), "")
	case "mix.DryWetBuffer":
		m := u(0)
		mix.DryWetBuffer(a.b, b.b, float32(m))
		return single(a, common(a, b), func(i int) (float64, float64) { return a.at(i)*(1-m) + b.at(i)*m, ends(a.at(i), b.at(i), m) })
	case "mix.DryWetBufferTo":
		m := u(0)
		t := out(a)
		mix.DryWetBufferTo(a.b, b.b, float32(m), t.b)
		return single(t, common(a, b, t), func(i int) (float64, float64) { return a.at(i)*(1-m) + b.at(i)*m, ends(a.at(i), b.at(i), m) })
	case "mix.Crossfade":
		x, y, m := f(0), f(1), u(2)
		if !value(mix.CrossfadeLinear(float32(x), float32(y), float32(m)), x*(1-m)+y*m, ends(x, y, m), " linear") {
			return false
		}
		return value(mix.CrossfadeCosine(float32(x), float32(y), float32(m)), x*math.Cos(m*math.Pi/2)+y*math.Sin(m*math.Pi/2), tol(x, y), " cosine")
	case "mix.CrossfadeBuffer", "mix.Blend":
		m := u(0)
		power := o.Int(6)&1 == 0
		t := out(b)
		if o.K == "mix.Blend" {
			mix.Blend(a.b, b.b, float32(f(0)), t.b)
			power, m = true, (f(0)+1)/2
		} else {
			mix.CrossfadeBuffer(a.b, b.b, float32(m), power, t.b)
		}
		ka, kb := 1-m, m
		if power {
			ka, kb = math.Cos(m*math.Pi/2), math.Sin(m*math.Pi/2)
		}
		return single(t, common(a, b, t), func(i int) (float64, float64) {
			if !power {
				return a.at(i)*ka + b.at(i)*kb, ends(a.at(i), b.at(i), m)
			}
			return a.at(i)*ka + b.at(i)*kb, tol(a.at(i), b.at(i))
		})
	case "mix.Sum", "mix.SumWeighted":
		src := [][]float32{a.b, b.b, e.b}[:1+o.Int(6)%3]
		ss := []*strip{a, b, e}[:len(src)]
		gs := []float32{float32(f(0)), float32(f(1)), float32(f(2))}[:o.Int(5)]
		if n := o.Int(6); n%16 == 15 { // a large desk
			r.Probe("large-desk")
			for len(src) < int(4+n%73) {
				k := len(src)
				src, ss = append(src, src[k%3%len(src)]), append(ss, ss[k%3%len(ss)])
				if len(gs) == k {
					gs = append(gs, float32(f(k%3))/4)
				}
			}
		}
		if o.K == "mix.Sum" {
			mix.Sum(src, d.b)
			gs = nil
		} else {
			mix.SumWeighted(src, gs, d.b)
		}
		return single(d, len(d.b), func(i int) (float64, float64) {
			w, t := 0.0, 1e-12
			for k, s := range ss {
				if i < len(s.b) {
					x := s.at(i)
					t += 2e-6 * math.Abs(x)
					if k < len(gs) {
						x *= float64(gs[k])
					}
					w += x
				}
			}
			return w, t
		})
	case "pan.law":
		l := pan.Law(o.Int(6) % 3)
		x, y := pan.MonoToStereo(float32(f(0)), l)
		wx, wy := panLaw(f(0), l)
		if x < 0 || y < 0 || x > 1 || y > 1 {
			return bad(0, x, wx, " gain out of range")
		}
		return value(x, wx, 2e-6, " left") && value(y, wy, 2e-6, " right")
	case "pan.Process":
		l := pan.Law(o.Int(6) % 3)
		t := a
		if !inPlace {
			t = d
		}
		n = common(a, t, e)
		pan.Process(a.b, float32(f(0)), l, t.b, e.b)
		x, y := panLaw(f(0), l)
		return want(t, n, func(i int) (float64, float64) { return a.at(i) * x, tol(2 * a.at(i)) }) &&
			want(e, n, func(i int) (float64, float64) { return a.at(i) * y, tol(2 * a.at(i)) }) && intact(map[*strip]int{t: n, e: n})
	case "pan.ProcessStereo", "pan.Width", "pan.Balance":
		tl, tr := d, e
		if inPlace {
			r.Probe("in-place")
			tl, tr = a, b
		}
		n = common(a, b, tl, tr)
		v := f(0)
		var law func(i int) (float64, float64)
		switch o.K {
		case "pan.Width":
			v = 2 * u(0)
			pan.Width(a.b, b.b, float32(v), tl.b, tr.b)
			law = func(i int) (float64, float64) {
				m, s := (a.at(i)+b.at(i))/2, (a.at(i)-b.at(i))/2*v
				return m + s, m - s
			}
		case "pan.Balance":
			pan.Balance(a.b, b.b, float32(v), tl.b, tr.b)
			law = func(i int) (float64, float64) {
				return a.at(i) * math.Min(1, 1-v), b.at(i) * math.Min(1, 1+v)
			}
		default:
			l := pan.Law(o.Int(6) % 3)
			pan.ProcessStereo(a.b, b.b, float32(v), l, tl.b, tr.b)
			x, y := panLaw(v, l)
			if v <= 0 {
				x = 1
			}
			if v >= 0 {
				y = 1
			}
			law = func(i int) (float64, float64) { return a.at(i) * x, b.at(i) * y }
		}
		return want(tl, n, func(i int) (float64, float64) { w, _ := law(i); return w, tol(2*a.at(i), 2*b.at(i)) }) &&
			want(tr, n, func(i int) (float64, float64) { _, w := law(i); return w, tol(2*a.at(i), 2*b.at(i)) }) && intact(map[*strip]int{tl: n, tr: n})
	case "AutoPan":
		if q.ap == nil {
			q.law = pan.Law(o.Int(6) % 3)
			q.rate, q.dep = float64(float32(5*u(0))), u(1)
			q.ap = pan.NewAutoPan(float32(q.rate), float32(q.dep), q.law)
		} else {
			switch o.Int(6) % 4 {
			case 0:
				q.rate = float64(float32(20 * u(0)))
				if o.Int(6)%12 == 0 { // hardly moving
					q.rate = float64(float32(0.002 * u(0)))
					r.Probe("slow-pan")
				}

				q.ap.SetRate(float32(q.rate))
				r.Probe("automation")
				r.Fault("automation")
			case 1:
				q.dep = u(1)
				q.ap.SetDepth(float32(q.dep))
				r.Fault("automation")
			case 2:
				q.ap.Reset()
				q.ph, q.n = 0, 0
				r.Fault("reset")
			}
		}
		sr := []float64{100, 1000, 44100}[o.Int(0)%3]
		t := out(a)
		n = common(a, t, e)
		reps := 8
		if o.Int(6)%50 == 3 && n > 0 { // minutes of it
			if reps = 20000 / n; reps > 2000 {
				reps = 2000
			}
			r.Probe("long-pan")
		}
		for rep := 0; rep < reps; rep++ {
			q.ap.Process(a.b, float32(sr), t.b, e.b)
			ph := q.ph
			ok := true
			for i := 0; i < n && ok; i++ {
				x, y := panLaw(q.dep*math.Sin(ph), q.law)
				lim := (1e-5 + 1e-9*float64(q.n+i)) * (math.Abs(a.at(i)) + 1e-9)
				if math.Abs(float64(t.b[i])-a.at(i)*x) > lim || math.Abs(float64(e.b[i])-a.at(i)*y) > lim {
					return bad(i, t.b[i], a.at(i)*x, fmt.Sprintf(" after %d frames at phase %g, right %g instead of %g", q.n+i, ph, e.b[i], a.at(i)*y))
				}
				ph += 2 * math.Pi * q.rate / sr
			}
			q.ph, q.n = ph, q.n+n
			if !intact(map[*strip]int{t: n, e: n}) {
				return false
			}
			a.keep()
			e.keep()
			d.keep()
		}
	case "interp.point":
		y0, y1, y2, y3, x := amp*f(0), amp*f(1), amp*f(2), amp*f(3), g.PickF(0, 1, g.F())
		y0, y1, y2, y3, x = float64(float32(y0)), float64(float32(y1)), float64(float32(y2)), float64(float32(y3)), float64(float32(x))
		t := tol(4*y0, 4*y1, 4*y2, 4*y3)
		if !value(interpolation.Linear(float32(y0), float32(y1), float32(x)), y0*(1-x)+y1*x, t, " Linear") {
			return false
		}
		// Hermite basis with the slopes of the neighbours.
		m1, m2 := (y2-y0)/2, (y3-y1)/2
		w := y1*(2*x*x*x-3*x*x+1) + m1*(x*x*x-2*x*x+x) + y2*(3*x*x-2*x*x*x) + m2*(x*x*x-x*x)
		return value(interpolation.Cubic(float32(y0), float32(y1), float32(y2), float32(y3), float32(x)), w, t, " Cubic") &&
			value(interpolation.Hermite(float32(y0), float32(y1), float32(y2), float32(y3), float32(x)), w, t, " Hermite")
	case "interp.Sinc", "interp.Lanczos":
		x := g.PickF(0, 0.5, g.F())
		x = float64(float32(x))
		at := int(o.Int(6))%(len(a.b)+4) - 2
		w, mag := 0.0, 0.0
		size := int(o.Int(0)>>8) % 12
		sinc := func(v float64) float64 {
			if v == 0 {
				return 1
			}
			return math.Sin(math.Pi*v) / (math.Pi * v)
		}
		var got float32
		if o.K == "interp.Sinc" {
			got = interpolation.Sinc(a.b, at, float32(x), size)
			if size < 2 {
				size = 2
			}
			for k := -(size / 2); k <= size/2; k++ {
				if at+k < 0 || at+k >= len(a.b) {
					continue
				}
				t := 2 * math.Pi * float64(k+size/2) / float64(size)
				win := 0.42 - 0.5*math.Cos(t) + 0.08*math.Cos(2*t)
				if float64(k) == x {
					win = 1
				}
				w += a.at(at+k) * sinc(float64(k)-x) * win
				mag += math.Abs(a.at(at + k))
			}
		} else {
			got = interpolation.Lanczos(a.b, at, float32(x), size)
			if size < 1 {
				size = 2
			}
			for k := 1 - size; k <= size; k++ {
				if at+k < 0 || at+k >= len(a.b) {
					continue
				}
				if v := float64(k) - x; math.Abs(v) < float64(size) {
					w += a.at(at+k) * sinc(v) * sinc(v/float64(size))
				}
				mag += math.Abs(a.at(at + k))
			}
		}
		return value(got, w, 5e-6*mag, fmt.Sprintf(" at %d+%g, size %d", at, x, size))
	case "interp.AllPass":
		if o.Int(6)%7 == 0 {
			q.ip.Reset()
			q.x1, q.y1 = 0, 0
			r.Fault("reset")
		}
		x := u(0)
		k := (1 - x) / (1 + x)
		m := 1.0
		for i := range a.b {
			got := q.ip.Process(a.b[i], float32(x))
			w := k*a.at(i) + q.x1 - k*q.y1
			m = math.Max(m, math.Max(math.Abs(w), math.Max(math.Abs(q.x1), math.Abs(q.y1))))
			if !(math.Abs(float64(got)-w) <= 1e-4*m) {
				return bad(i, got, w, fmt.Sprintf(" with fraction %g", x))
			}
			// The model follows the real state: at fraction 0 rounding does not die away.
			q.x1, q.y1 = a.at(i), float64(got)
		}
		return intact(nil)
	case "interp.Resample", "interp.ResampleCubic":
		ratio := float64(float32(g.PickF(1, 2, 0.5, g.FR(0.2, 4), 0, -1)))
		cubic := o.K == "interp.ResampleCubic"
		var got int
		if cubic {
			got = interpolation.ResampleCubic(a.b, float32(ratio), d.b)
		} else {
			got = interpolation.Resample(a.b, float32(ratio), d.b)
		}
		// Positions with neighbours on both sides must be there.
		edge, least := 1.0, 1
		if cubic {
			edge, least = 2, 4
		}
		must := 0
		if ratio > 0 && len(a.b) >= least {
			for must < len(d.b) && float64(must)/ratio < (float64(len(a.b))-edge)*(1-1e-6) {
				must++
			}
		}
		if got < must || got > len(d.b) || (must == 0 && ratio <= 0 && got != 0) {
			r.Fail("law", o.K, "%s of %d samples by %g into %d: %d written, at least %d were due", o.K, len(a.b), ratio, len(d.b), got, must)
			return false
		}
		if got > 0 && float64(got-1)/ratio > float64(len(a.b)-1)*(1+1e-6) {
			r.Fail("law", o.K, "%s of %d samples by %g: %d written, past the end of the input", o.K, len(a.b), ratio, got)
			return false
		}
		v := func(k int) float64 { return a.at(int(clamp(float64(k), 0, float64(len(a.b)-1)))) }
		return single(d, got, func(i int) (float64, float64) {
			p := float64(i) / ratio
			k := int(p + 1e-9)
			x := p - float64(k)
			t := 1e-4 * (math.Abs(v(k-1)) + math.Abs(v(k)) + math.Abs(v(k+1)) + math.Abs(v(k+2)))
			if cubic && k >= 1 && k < len(a.b)-2 {
				m1, m2 := (v(k+1)-v(k-1))/2, (v(k+2)-v(k))/2
				return v(k)*(2*x*x*x-3*x*x+1) + m1*(x*x*x-2*x*x+x) + v(k+1)*(3*x*x-2*x*x*x) + m2*(x*x*x-x*x), t
			}
			return v(k)*(1-x) + v(k+1)*x, t
		})
	case "interp.Smooth":
		t, k := f(0), u(1)
		interpolation.SmoothBuffer(a.b, float32(t), float32(k))
		return single(a, len(a.b), func(i int) (float64, float64) { return a.at(i) + (t-a.at(i))*k, tol(a.at(i), t) })
	case "scale":
		return q.scale(o, g)
	}
	return true
}

// scale: mapping a control to a range and back.
func (q *console) scale(o core.Op, g *core.R) bool {
	x := math.Abs(o.Flt(0))
	lo, hi := g.PickF(0, -24, 20, 0.001, g.FR(-100, 100)), g.PickF(1, 24, 20000, 5, g.FR(-100, 100))
	near := func(name string, got, want float64) bool {
		if !(math.Abs(got-want) <= 1e-9*(1+math.Abs(want))) {
			q.r.Fail("law", "utility."+name, "%s of %g in %g to %g: %.12g instead of %.12g", name, x, lo, hi, got, want)
			return false
		}
		return true
	}
	lin := lo + x*(hi-lo)
	expo := lin
	if lo > 0 && hi > 0 {
		expo = lo * math.Pow(hi/lo, x)
	}
	back := x
	if lo == hi {
		back = 0
	}
	c := g.PickF(1, 2, 0.5, g.FR(0.1, 4))
	steps := g.Range(-1, 9)
	quant := x
	if steps > 1 {
		best := math.Inf(1)
		got := utility.QuantizeParameter(x, steps)
		for k := 0; k < steps; k++ {
			best = math.Min(best, math.Abs(x-float64(k)/float64(steps-1)))
		}
		if k := got * float64(steps-1); math.Abs(k-math.Round(k)) > 1e-9 {
			return near("QuantizeParameter", got, x)
		}
		if !near("QuantizeParameter", math.Abs(got-x), best) {
			return false
		}
	} else if !near("QuantizeParameter", utility.QuantizeParameter(x, steps), quant) {
		return false
	}
	a, b := math.Min(lo, hi), math.Max(lo, hi)
	v := 3*o.Flt(1)*(b-a) + a
	return near("ScaleParameter", utility.ScaleParameter(x, lo, hi), lin) && near("ScaleParameterExp", utility.ScaleParameterExp(x, lo, hi), expo) &&
		near("UnscaleParameter", utility.UnscaleParameter(lin, lo, hi), back) && near("UnscaleParameterExp", utility.UnscaleParameterExp(expo, lo, hi), back) &&
		near("ClampParameter", utility.ClampParameter(v, a, b), clamp(v, a, b)) && near("ScaleParameterWithCurve", utility.ScaleParameterWithCurve(x, lo, hi, c), lo+math.Pow(x, c)*(hi-lo)) &&
		near("BipolarToUnipolar", utility.BipolarToUnipolar(2*x-1), x) && near("UnipolarToBipolar", utility.UnipolarToBipolar(x), 2*x-1) &&
		near("SkewParameter", utility.SkewParameter(x, c), math.Pow(x, 1/c))
}
