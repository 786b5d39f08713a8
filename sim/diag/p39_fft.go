package diag

import (
	"fmt"
	"math"
	"math/cmplx"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
)

// P39: a transform gives the discrete Fourier transform of the windowed
// frame, whatever the transform object worked on before.

var win39 = []analysis.WindowFunc{analysis.RectangularWindow, analysis.HannWindow, analysis.HammingWindow, analysis.BlackmanWindow, analysis.BlackmanHarrisWindow, analysis.KaiserWindow, analysis.FlatTopWindow}

// window39 is the published window, n samples, symmetric; what a sum of
// cosines gives below zero is shown as zero for Blackman and flat top.
func window39(w, n int) []float64 {
	cs := [][]float64{{1}, {0.5, -0.5}, {0.54, -0.46}, {0.42, -0.5, 0.08}, {0.35875, -0.48829, 0.14128, -0.01168}, nil, {0.21557895, -0.41663158, 0.277263158, -0.083578947, 0.006947368}}[w]
	out := make([]float64, n)
	for i := range out {
		x := 2 * math.Pi * float64(i) / float64(n-1)
		if cs == nil {
			u := 2*float64(i)/float64(n-1) - 1
			out[i] = besselI0(8.6*math.Sqrt(math.Max(0, 1-u*u))) / besselI0(8.6)
			continue
		}
		for k, c := range cs {
			out[i] += c * math.Cos(float64(k)*x)
		}
		if out[i] < 0 && (w == 3 || w == 6) {
			out[i] = 0
		}
	}
	return out
}

func besselI0(x float64) float64 {
	s, t := 1.0, 1.0
	for k := 1; k < 60; k++ {
		t *= x / 2 / float64(k)
		s += t * t
	}
	return s
}

// dft is the Fourier sum: directly for short frames; for long ones even and
// odd samples are summed apart until they are short.
func dft(x []complex128) []complex128 {
	n := len(x)
	if n > 64 {
		ev, od := make([]complex128, n/2), make([]complex128, n/2)
		for i := range ev {
			ev[i], od[i] = x[2*i], x[2*i+1]
		}
		ev, od = dft(ev), dft(od)
		out := make([]complex128, n)
		for k := range out {
			out[k] = ev[k%(n/2)] + od[k%(n/2)]*cmplx.Rect(1, -2*math.Pi*float64(k)/float64(n))
		}
		return out
	}
	out := make([]complex128, n)
	for k := range out {
		for i, v := range x {
			out[k] += v * cmplx.Rect(1, -2*math.Pi*float64(i*k%n)/float64(n))
		}
	}
	return out
}

func frame39(o core.Op) []complex128 {
	g := core.NewR(uint64(o.Int(0)))
	n := int(o.Int(1))
	if n < 0 || n > 1<<18+300 {
		n = 0
	}
	x := make([]complex128, n)
	kind, f, amp := g.N(6), g.FR(0, 3.2), g.PickF(1, 1e-6, 1e6, 0.3)
	at := n / 3
	if n > 0 && g.Chance(0.5) {
		at = g.N(n)
	}
	for i := range x {
		switch kind {
		case 0:
			x[i] = complex(amp*math.Sin(f*float64(i)), amp*math.Cos(2*f*float64(i)))
		case 1:
			x[i] = complex(amp*(2*g.F()-1), amp*(2*g.F()-1))
		case 2:
			x[i] = complex(amp, 0)
		case 3:
			if i == at {
				x[i] = complex(amp, amp/2)
			}
		case 4:
			x[i] = complex(amp*float64(1-2*(i&1)), 0)
		}
	}
	return x
}

func init() {
	core.Register(&core.Check{
		ID: "P39", Quick: 48000, Thorough: 960000,
		Rule:      "An analysis thread works through seeded streams with one transform object per window and size, or three in turn, two of them of one size, made when first needed (sizes 2 to 128, now and then to 262144): real and complex frames shorter, equal to and longer than the transform, inverses of full and short spectra, round trips, level and bin queries, and cross-correlations, in any order, with frames of NaN and infinity in between (drop-outs of the capture device). Every result is compared with a direct Fourier sum over the published window; later frames must show no trace of earlier ones, nor of the other objects. Non-trivial: a transform followed one on other data.",
		StateRule: "distinct (window, size, operation sequence)",
		Real:      []string{"pkg/dsp/analysis/fft.go"}, Stub: []string{"capture device"},
		Assume: []string{"sizes are powers of two from 2; results of Forward are read before the next call on the same object"},
		Must:   []string{"real", "complex", "inverse", "roundtrip", "corr", "short", "long", "after-nonfinite", "db", "bands", "large", "several", "long-corr", "same-slice"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			c.Set("win", int64(i%len(win39)))
			c.Set("size", int64(g.Pick(2, 4, 8, 16, 32, 64, 128)))
			left := g.Range(2, 9)
			if i%250 == 100 {
				c.Set("size", int64(g.Pick(256, 512, 1024, 2048, 8192, 32768, 65536, 131072, 262144)))
				left = g.Range(1, 3)
			}
			ns := []int64{c.Cfg["size"], c.Cfg["size"], int64(g.Pick(2, 4, 8, 16, 32, 64, 128))}
			c.Set("size2", ns[2])
			c.Set("win1", int64(g.N(len(win39))))
			c.Set("win2", int64(g.N(len(win39))))
			several := i%3 == 0
			var ops []core.Op
			for k := left; k > 0; k-- {
				which := 0
				if several {
					which = g.N(3)
				}
				n := ns[which]
				m := n
				switch g.N(4) {
				case 0:
					m = int64(g.N(int(n) + 1))
				case 1:
					m = n + int64(g.N(9))
				}
				ops = append(ops, core.Op{K: g.PickS("real", "real", "real", "complex", "complex", "inverse", "inverse", "roundtrip", "corr", "bad", "db", "bands"), I: []int64{int64(g.U64() >> 1), m, int64(g.N(int(n) + 1)), int64(which)}})
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP39,
	})
}

func execP39(c *core.Case, r *core.Rec) {
	type obj struct {
		fft         *analysis.FFT
		n, w        int
		win, mag    []float64 // mag: of the last Forward
		magTol      float64
		bad, badMag bool
		calls       int
	}
	var objs [3]*obj
	sizes := [3]int64{c.Cfg["size"], c.Cfg["size"], c.Cfg["size2"]}
	wins := [3]int64{c.Cfg["win"], c.Cfg["win1"], c.Cfg["win2"]}
	h := uint64(0)
	frameBuf := make([]float64, 512)
	for k, o := range c.Threads[0] {
		which := int(o.Int(3))
		if which < 0 || which > 2 {
			which = 0
		}
		n, w := int(sizes[which]), int(wins[which])
		if n < 2 || n > 1<<18 || n&(n-1) != 0 || w < 0 || w >= len(win39) {
			continue
		}
		if n > 65536 {
			r.Probe("large")
		}
		if objs[which] == nil { // made when it is first needed
			objs[which] = &obj{fft: analysis.NewFFT(n, win39[w]), n: n, w: w, win: window39(w, n), mag: make([]float64, n/2+1)}
		}
		ob := objs[which]
		if which > 0 && objs[0] != nil {
			r.Probe("several")
		}
		fft, win, mag, magTol, bad, badMag := ob.fft, ob.win, ob.mag, &ob.magTol, &ob.bad, &ob.badMag
		h = core.HashS(o.K) ^ h*31 ^ core.HashU(uint64(n), uint64(w))
		r.Eval()
		x := frame39(o)
		// what the transform sees of the frame
		in := make([]complex128, n)
		peak := 0.0
		for i, v := range x {
			if i < n {
				in[i] = v * complex(win[i], 0)
				peak = math.Max(peak, cmplx.Abs(v))
			}
		}
		tol := 4e-7*peak*float64(n) + 1e-300 // the Bessel approximation is good to 2e-7
		if w != 5 {
			tol = 1e-12 * peak * float64(n)
		}
		note := func() {
			if len(x) < n {
				r.Probe("short")
			} else if len(x) > n {
				r.Probe("long")
			}
			if *bad {
				r.Probe("after-nonfinite")
			}
			r.NonTriv = r.NonTriv || ob.calls > 0
			ob.calls++
			r.Probe(o.K)
		}
		fail := func(f string, a ...any) {
			r.Fail(o.K, o.K, "size %d, window %d, call %d: %s", n, w, k, fmt.Sprintf(f, a...))
		}
		switch o.K {
		case "real":
			note()
			re := frameBuf[:min(len(x), len(frameBuf))] // the capture device reuses its buffer
			if len(re) < len(x) || o.Int(0)%3 == 0 {
				re = make([]float64, len(x))
			} else {
				r.Probe("same-slice")
			}
			for i := range x {
				re[i] = real(x[i])
			}
			for i := range in {
				in[i] = complex(real(in[i]), 0)
			}
			was := append([]float64(nil), re...)
			m, p := fft.Forward(re)
			want := dft(in)
			if len(m) != n/2+1 || len(p) != n/2+1 {
				fail("%d magnitudes, %d phases", len(m), len(p))
				return
			}
			for i := range m {
				r.ObserveF(m[i])
				if !(cmplx.Abs(cmplx.Rect(m[i], p[i])-want[i]) <= tol) || m[i] < 0 {
					fail("bin %d is %g at phase %g instead of %g at %g", i, m[i], p[i], cmplx.Abs(want[i]), cmplx.Phase(want[i]))
					return
				}
				mag[i] = cmplx.Abs(want[i])
			}
			*magTol, *badMag = tol, false
			pw := analysis.PowerSpectrum(m)
			for i := range pw {
				if pw[i] != m[i]*m[i] {
					fail("power of bin %d is %g for magnitude %g", i, pw[i], m[i])
					return
				}
			}
			for i := range re {
				if re[i] != was[i] {
					fail("sample %d of the input was changed", i)
					return
				}
			}
			if hw := analysis.ApplyHannWindow(re); len(re) > 1 {
				hann := window39(1, len(re))
				for i := range hw {
					if !(math.Abs(hw[i]-re[i]*hann[i]) <= 1e-12*peak+1e-12*math.Abs(re[i])) {
						fail("Hann-windowed sample %d of %d is %g for %g", i, len(re), hw[i], re[i])
						return
					}
				}
			}
		case "complex":
			note()
			got := fft.ForwardComplex(x)
			want := dft(in)
			if len(got) != n {
				fail("%d bins", len(got))
				return
			}
			for i := range got {
				if !(cmplx.Abs(got[i]-want[i]) <= 2*tol) {
					fail("bin %d is %v instead of %v", i, got[i], want[i])
					return
				}
			}
		case "inverse", "roundtrip":
			note()
			full := make([]complex128, n)
			if o.K == "roundtrip" {
				full = fft.ForwardComplex(x)
			} else {
				copy(full, x)
			}
			re, im := make([]float64, n), make([]float64, n)
			for i, v := range full {
				re[i], im[i] = real(v), imag(v)
			}
			if o.K == "inverse" {
				if m := int(o.Int(2)); m < n && m >= 0 { // the rest of the spectrum is missing
					re = re[:m]
					for i := m; i < n; i++ {
						full[i] = complex(0, imag(full[i]))
					}
				}
				if m := len(x); m < n {
					im = im[:m]
				}
			}
			got := fft.Inverse(re, im)
			if len(got) != n {
				fail("%d samples", len(got))
				return
			}
			conj := make([]complex128, n)
			for i, v := range full {
				conj[i] = cmplx.Conj(v) / complex(float64(n), 0)
			}
			sums := dft(conj)
			for i := range got {
				want := real(sums[i])
				if o.K == "roundtrip" {
					want = real(in[i])
				}
				if !(math.Abs(got[i]-want) <= 4*tol) {
					fail("sample %d is %g instead of %g", i, got[i], want)
					return
				}
			}
		case "db":
			note()
			if *badMag {
				continue
			}
			db := fft.GetMagnitudeDB()
			for i := range db {
				lo, hi := mag[i]-*magTol, mag[i]+*magTol
				switch {
				case hi == 0 && db[i] != -120:
					fail("bin %d is silent and shows %g dB", i, db[i])
					return
				case lo > 0 && !(db[i] >= 20*math.Log10(lo)-1e-9 && db[i] <= 20*math.Log10(hi)+1e-9):
					fail("bin %d of magnitude %g shows %g dB", i, mag[i], db[i])
					return
				}
				if f := fft.GetFrequencyBin(i, 48000); math.Abs(f-48000*float64(i)/float64(n)) > 1e-6 {
					fail("bin %d lies at %g Hz", i, f)
					return
				}
			}
		case "corr":
			note()
			m := len(x)
			if m > 20000 {
				m, x = 20000, x[:20000]
			}
			if m > 4096 {
				r.Probe("long-corr")
			}
			if m == 0 {
				continue
			}
			a, b := make([]float64, m), make([]float64, m)
			for i, v := range x {
				peak = math.Max(peak, cmplx.Abs(v))
				a[i], b[i] = real(v), imag(v)
			}
			got := analysis.CrossCorrelation(a, b)
			if len(got) != 2*m-1 {
				fail("%d lags for %d samples", len(got), m)
				return
			}
			g := core.NewR(uint64(o.Int(0)) ^ 77)
			for lag := -(m - 1); lag < m; lag++ {
				if m > 2500 && lag != 0 && lag > -(m-40) && lag < m-40 && g.N(m/600) != 0 {
					continue // of a long signal some lags only
				}
				want := 0.0
				for i := range a {
					if j := i + lag; j >= 0 && j < m {
						want += a[i] * b[j]
					}
				}
				if !(math.Abs(got[m-1+lag]-want) <= 1e-11*float64(m)*(peak+1e-300)*(peak+1e-300)*40) {
					fail("lag %d of %d samples is %g instead of %g", lag, m, got[m-1+lag], want)
					return
				}
			}
		case "bad":
			r.Fault("non-finite-frame")
			re := make([]float64, len(x))
			for i := range re {
				re[i] = []float64{math.NaN(), math.Inf(1), real(x[i]), math.Inf(-1)}[(i+int(o.Int(2)))%4]
			}
			fft.Forward(re)
			*bad, *badMag = true, true
		case "bands":
			note()
			one, third := analysis.StandardOctaveBands(), analysis.StandardThirdOctaveBands()
			if len(one) != 10 || len(third) != 29 {
				fail("%d octaves, %d thirds", len(one), len(third))
				return
			}
			for i, f := range one {
				if math.Abs(math.Log2(f/1000)-float64(i-5)) > 0.02 {
					fail("octave %d lies at %g Hz", i, f)
					return
				}
			}
			for i, f := range third {
				if math.Abs(math.Log2(f/1000)-float64(i-16)/3) > 1e-9 {
					fail("third %d lies at %g Hz", i, f)
					return
				}
			}
		}
	}
	for _, ob := range objs {
		if ob != nil {
			r.SimNs += float64(ob.calls*ob.n) / 48000 * 1e9
		}
	}
	r.State(h)
}
