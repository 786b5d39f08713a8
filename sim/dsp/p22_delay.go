package dsp

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
)

// P22: a delay line gives back exactly what was written that long ago.

// history is the model of a delay line: everything written since the last
// reset.
type history struct{ v []float64 }

func (h *history) at(k int) float64 {
	if k < 1 || k > len(h.v) {
		return 0
	}
	return h.v[len(h.v)-k]
}

func (h *history) add(x float64) { h.v = append(h.v, x) }

// read interpolates between whole samples of delay; size is the longest delay.
func (h *history) read(d float64, size int) float64 {
	d = math.Min(d, float64(size))
	k := math.Floor(d)
	f := d - k
	y := h.at(int(k))
	if f > 0 {
		y = y*(1-f) + h.at(int(k)+1)*f
	}
	return y
}

var p22Kinds = []string{"Line", "Allpass", "Comb", "MultiTap", "Modulated"}

func init() {
	core.Register(&core.Check{
		ID: "P22", Quick: 96000, Thorough: 1920000,
		Rule:      "A host drives one delay line (plain, allpass, comb, multi-tap, modulated): writes, reads, taps, per-sample and buffer processing in any order, delay times that jump, glide, are whole, fractional, in milliseconds, as long as the line or longer, gain and modulation automation, resets in mid-stream. Every sample read is compared with a plain list of everything written. Non-trivial: more was written than the line holds and something non-zero came back.",
		StateRule: "distinct (kind, size of the line, operation sequence)",
		Real:      []string{"pkg/dsp/delay"},
		Stub:      []string{"host (calls, automation, input signal)"},
		Assume:    []string{"delays below one sample are not defined", "single precision: 1e-4 of the peak"},
		Must:      []string{"Line", "Allpass", "Comb", "MultiTap", "Modulated", "whole", "fractional", "longest", "beyond", "wrapped", "seconds-long", "milliseconds", "buffer", "mix"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := i % 5
			_ = g.U64()
			c.Set("kind", int64(kind))
			sr := g.PickF(1000, 8000, 22050, 44100, 48000, 96000)
			c.SetF("sr", sr)
			max := g.PickF(float64(g.Range(1, 20)), float64(g.Range(20, 300)), g.FR(1, 700))
			long := g.Chance(0.004) // seconds of delay, written at once
			if long {
				max = g.LogR(2000, 300000)
			}
			c.SetF("max", max/sr)
			c.Set("taps", int64(g.Range(1, 6)))
			more := 8
			if kind == 3 && g.Chance(0.06) { // a cloud of echoes
				c.Set("taps", int64(g.Range(7, 70)))
				more = 80
			}
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			d := func() core.X {
				switch g.N(8) {
				case 0:
					return core.X(max)
				case 1:
					return core.X(math.Floor(max) + 1)
				case 2:
					return core.X(max*g.FR(1, 3) + 1)
				case 3:
					return 1
				case 4, 5:
					return core.X(math.Max(1, math.Floor(g.FR(1, max+1))))
				default:
					return core.X(math.Max(1, g.FR(1, max+1)))
				}
			}
			var ops []core.Op
			n := g.Range(3, 25)
			for k := 0; k < n; k++ {
				cnt := int64(g.Pick(1, 1, 2, 7, 31, 64, int(max)/2, int(max)+1, 3*int(max)))
				if cnt < 1 {
					cnt = 1
				}
				if cnt > 1500 && !(long && g.Chance(0.3)) {
					cnt = 1500
				}
				if k > 8 && long {
					break
				}
				switch g.N(12) {
				case 0:
					ops = append(ops, core.Op{K: "write", I: []int64{cnt}})
				case 1:
					ops = append(ops, core.Op{K: "read", F: []core.X{d()}, I: []int64{int64(g.N(3))}})
				case 2, 3:
					ops = append(ops, core.Op{K: "glide", I: []int64{cnt, int64(g.N(2))}, F: []core.X{d(), d()}})
				case 4:
					ops = append(ops, core.Op{K: "buf", I: []int64{cnt}, F: []core.X{d()}})
				case 5:
					ops = append(ops, core.Op{K: "mix", I: []int64{cnt}, F: []core.X{d(), core.X(g.PickF(0, 1, 0.5, g.F()))}})
				case 6:
					ops = append(ops, core.Op{K: "p0", F: []core.X{core.X(g.PickF(0, 0.5, -0.5, 0.9, -0.9, 0.97, g.FR(-0.97, 0.97)))}})
				case 7:
					ops = append(ops, core.Op{K: "p1", F: []core.X{core.X(g.PickF(0, 0.5, 0.2, 0.9, 1, g.F()))}})
				case 8:
					ops = append(ops, core.Op{K: "lfo", F: []core.X{core.X(g.PickF(0, 0.1, 1, 5, 20, g.FR(0, 30))), core.X(g.FR(0, 1.2) * max / sr * 1000)}})
				case 9:
					ops = append(ops, core.Op{K: "center", F: []core.X{core.X(g.FR(0, 1.2) * max / sr * 1000)}})
				case 10:
					if g.Chance(0.3) {
						ops = append(ops, core.Op{K: "reset"})
						break
					}
					fallthrough
				default:
					var f []core.X
					for t := g.N(more); t >= 0; t-- {
						f = append(f, d(), core.X(g.PickF(1, 0.5, -1, g.FR(-1, 1))), core.X(g.PickF(-1, 0, 1, g.FR(-1, 1))))
					}
					ops = append(ops, core.Op{K: "run", I: []int64{cnt}, F: f})
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP22,
	})
}

func execP22(c *core.Case, r *core.Rec) {
	kind := int(c.Cfg["kind"])
	name := "delay." + p22Kinds[kind]
	sr, max := float64(c.CfgF["sr"]), float64(c.CfgF["max"])
	size := int(max*sr) + 1
	if size > 100000 {
		r.Probe("seconds-long")
	}
	r.Comp(name)
	r.Probe(p22Kinds[kind])
	in := newSig(int(c.Cfg["sig"]), uint64(c.Cfg["sigseed"]), 1)
	var line *delay.Line
	var ap *delay.AllpassDelay
	var cb *delay.CombDelay
	var mt *delay.MultiTapDelay
	var md *delay.ModulatedDelay
	switch kind {
	case 0:
		line = delay.New(max, sr)
	case 1:
		ap = delay.NewAllpass(max, sr)
		line = &ap.Line
	case 2:
		cb = delay.NewComb(max, sr)
		line = &cb.Line
	case 3:
		mt = delay.NewMultiTap(max, sr, int(c.Cfg["taps"]))
		line = &mt.Line
	default:
		md = delay.NewModulated(max, sr)
		line = &md.Line
	}
	var h history
	fb, damp, store := 0.5, 0.5, 0.0
	rate, depth, center, phase := 0.5, 5.0, 10.0, 0.0
	peak := 0.01
	heard := false
	n := 0
	note := func(d float64) {
		switch {
		case d > float64(size):
			r.Probe("beyond")
		case d == float64(size) || d == max*sr:
			r.Probe("longest")
		case d == math.Floor(d):
			r.Probe("whole")
		default:
			r.Probe("fractional")
		}
	}
	check := func(op string, got float32, want float64) bool {
		r.Eval()
		r.ObserveF(float64(got))
		n++
		peak = math.Max(peak, math.Abs(want))
		heard = heard || want != 0
		if !(math.Abs(float64(got)-want) <= 1e-4*peak) {
			r.Fail("delay", name, "%s at %g Hz for %g samples, %s, sample %d: %.9g came back instead of %.9g", name, sr, max*sr, op, n, got, want)
			return false
		}
		return true
	}
	// One sample through the model.
	model := func(x, d float64) float64 {
		switch kind {
		case 1:
			y := h.read(d, size)
			h.add(x + y*fb)
			return y - x
		case 2:
			y := h.read(d, size)
			store = y*(1-damp) + store*damp
			h.add(x + store*fb)
			return y
		case 4:
			d = math.Max(1, (center+depth*math.Sin(2*math.Pi*phase))*sr/1000)
			y := h.read(d, size)
			h.add(x)
			phase += rate / sr
			phase -= math.Floor(phase)
			return y
		}
		y := h.read(d, size)
		h.add(x)
		return y
	}
	one := func(x float32, d float64) float32 {
		switch kind {
		case 1:
			return ap.Process(x, d)
		case 2:
			return cb.Process(x, d)
		case 4:
			return md.Process(x)
		}
		return line.Process(x, d)
	}
	next := func() float32 { return float32(in.next()) }
	hash := core.HashU(core.HashS(name), uint64(size))
	for _, o := range c.Threads[0] {
		cnt := int(o.Int(0))
		hash = core.HashU(hash, core.HashS(o.K)+uint64(cnt))
		d := o.Flt(0)
		switch o.K {
		case "reset":
			r.Fault("reset")
			switch kind {
			case 1:
				ap.Reset()
			case 2:
				cb.Reset()
			case 3:
				mt.Reset()
			case 4:
				md.Reset()
			default:
				line.Reset()
			}
			h.v, store, phase = nil, 0, 0
		case "p0":
			r.Fault("automation")
			fb = float64(float32(d))
			if kind == 1 {
				ap.SetFeedback(float32(d))
			} else if kind == 2 {
				cb.SetFeedback(float32(d))
			}
		case "p1":
			r.Fault("automation")
			damp = float64(float32(d))
			if damp >= 1 {
				store = 0
			}
			if kind == 2 {
				cb.SetDamp(float32(d))
			}
		case "lfo":
			r.Fault("automation")
			rate, depth = d, o.Flt(1)
			if kind == 4 {
				md.SetLFO(rate, depth)
			}
		case "center":
			r.Fault("automation")
			center = d
			if kind == 4 {
				md.SetCenterDelay(d)
			}
		case "write":
			for i := 0; i < cnt; i++ {
				x := next()
				line.Write(x)
				h.add(float64(x))
			}
		case "read":
			note(d)
			var y float32
			switch o.Int(0) {
			case 0:
				y = line.Read(d)
			case 1:
				y = line.Tap(d)
			default:
				r.Probe("milliseconds")
				y = line.ReadMs(d * 1000 / sr)
			}
			if !check("read", y, h.read(d, size)) {
				return
			}
		case "glide":
			r.Fault("delay-glide")
			for i := 0; i < cnt; i++ {
				di := d + (o.Flt(1)-d)*float64(i)/float64(cnt)
				note(di)
				x := next()
				var y float32
				if o.Int(1) == 1 && (kind == 0 || kind == 3) {
					r.Probe("milliseconds")
					y = line.ProcessMs(x, di*1000/sr)
				} else {
					y = one(x, di)
				}
				if !check("gliding delay", y, model(float64(x), di)) {
					return
				}
			}
		case "buf", "mix":
			if o.K == "mix" && kind != 0 && kind != 3 {
				break
			}
			note(d)
			r.Fault("delay-jump")
			b := make([]float32, cnt)
			want := make([]float64, cnt)
			for i := range b {
				b[i] = next()
				want[i] = model(float64(b[i]), d)
				if o.K == "mix" {
					m := float64(float32(o.Flt(1)))
					want[i] = float64(b[i])*(1-m) + want[i]*m
				}
			}
			switch {
			case o.K == "mix":
				r.Probe("mix")
				line.ProcessBufferMix(b, d, float32(o.Flt(1)))
			case kind == 1:
				ap.ProcessBuffer(b, d)
			case kind == 2:
				cb.ProcessBuffer(b, d)
			case kind == 4:
				md.ProcessBuffer(b)
			default:
				line.ProcessBuffer(b, d)
			}
			r.Probe("buffer")
			for i := range b {
				if !check(o.K, b[i], want[i]) {
					return
				}
			}
		case "run":
			r.Fault("delay-jump")
			for i := 0; i < cnt; i++ {
				x := next()
				if kind != 3 {
					if i == 0 {
						note(d)
					}
					if !check("processing", one(x, d), model(float64(x), d)) {
						return
					}
					continue
				}
				var taps []delay.TapOutput
				wl, wr := 0.0, 0.0
				h.add(float64(x))
				for k := 0; k+2 < len(o.F); k += 3 {
					t := delay.TapOutput{DelaySamples: o.Flt(k), Gain: float32(o.Flt(k + 1)), Pan: float32(o.Flt(k + 2))}
					taps = append(taps, t)
					if i == 0 {
						note(t.DelaySamples)
					}
					if k/3 < int(c.Cfg["taps"]) {
						a := (float64(t.Pan) + 1) * math.Pi / 4
						v := h.read(t.DelaySamples, size) * float64(t.Gain)
						wl += v * math.Cos(a)
						wr += v * math.Sin(a)
					}
				}
				yl, yr := float32(55), float32(-55)
				mt.ProcessMultiTap(x, taps, &yl, &yr)
				if !check("left of the taps", yl, wl) || !check("right of the taps", yr, wr) {
					return
				}
			}
		}
		if len(h.v) > size {
			r.Probe("wrapped")
			r.NonTriv = r.NonTriv || heard
		}
	}
	r.State(hash)
	r.SimNs += float64(n) / sr * 1e9
}
