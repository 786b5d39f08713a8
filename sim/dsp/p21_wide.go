package dsp

import (
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// Wide runs of P21: one filter with up to 40 channels against as many filters
// of one channel each.

// wideForm is a filter made for n channels; run plays a block through one
// channel, all plays one block per channel.
type wideForm struct {
	name string
	mk   func(n int, sr float64) (sets []setting, reset func(), run func([]float32, int), all func([][]float32))
}

var wideForms = []wideForm{
	{"Biquad", func(n int, sr float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
		b := filter.NewBiquad(n)
		return biquadSets(sr, b), b.Reset, b.Process, b.ProcessMulti
	}},
	{"SVF.low", svfForm(func(v *filter.SVF) func([]float32, int) { return v.ProcessLowpass })},
	{"SVF.high", svfForm(func(v *filter.SVF) func([]float32, int) { return v.ProcessHighpass })},
	{"SVF.band", svfForm(func(v *filter.SVF) func([]float32, int) { return v.ProcessBandpass })},
	{"SVF.notch", svfForm(func(v *filter.SVF) func([]float32, int) { return v.ProcessNotch })},
	{"SVF.sample", svfForm(func(v *filter.SVF) func([]float32, int) {
		return func(b []float32, ch int) {
			for i := range b {
				b[i] = v.ProcessSample(b[i], ch).Bandpass
			}
		}
	})},
	{"MultiModeSVF", func(n int, sr float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
		v := filter.NewMultiModeSVF(n)
		return append(svfSets(sr, &v.SVF), setting{name: "mode", lo: -1, hi: 2, fn: v.SetMode}), v.Reset, v.Process, nil
	}},
	{"DCBlocker", func(n int, sr float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
		d := utility.NewDCBlocker(n, 20, sr)
		return []setting{{name: "cutoff", lo: 1, hi: 200, log: true, fn: func(v float64) { d.SetCutoff(float32(v), sr) }}}, d.Reset, d.ProcessBuffer, d.ProcessMultiChannel
	}},
	{"DCBlocker.sample", func(n int, sr float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
		d := utility.NewDCBlocker(n, 20, sr)
		return []setting{{name: "cutoff", lo: 1, hi: 200, log: true, fn: func(v float64) { d.SetCutoff(float32(v), sr) }}}, d.Reset, func(b []float32, ch int) {
			for i := range b {
				b[i] = d.Process(b[i], ch)
			}
		}, nil
	}},
}

func svfForm(f func(*filter.SVF) func([]float32, int)) func(int, float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
	return func(n int, sr float64) ([]setting, func(), func([]float32, int), func([][]float32)) {
		v := filter.NewSVF(n)
		return svfSets(sr, v), v.Reset, f(v), nil
	}
}

func genWide(g *core.R, i int) *core.Case {
	c := &core.Case{}
	c.Set("wide", 1)
	k := i / 16 % len(wideForms)
	c.Set("form", int64(k))
	c.SetF("sr", g.PickF(rates...))
	n := g.Pick(1, 2, 3, 6, 8, 12, 16, 24, 32, g.Range(1, 40))
	c.Set("n", int64(n))
	c.Set("sigseed", int64(g.U64()>>1))
	sets, _, _, _ := wideForms[k].mk(1, float64(c.CfgF["sr"]))
	s := &stream{sets: sets}
	var ops []core.Op
	for t := g.Range(2, 12); t > 0; t-- {
		switch g.N(6) {
		case 0:
			ops = append(ops, drawSet(g, s))
		case 1:
			if g.Chance(0.3) {
				ops = append(ops, core.Op{K: "reset"})
			}
		case 2: // some channels only, in any order
			ops = append(ops, core.Op{K: "some", I: []int64{int64(g.Pick(1, 5, 64)), int64(g.U64() >> 1)}})
		case 3:
			ops = append(ops, core.Op{K: "poison", I: []int64{int64(g.N(n)), int64(g.N(4))}})
		default: // as many buffers as the host has
			ops = append(ops, core.Op{K: "all", I: []int64{int64(g.Pick(0, 1, 5, 64, 200)), int64(max(0, g.Pick(n, n, n, n-1, 1, 0)))}})
		}
	}
	c.Threads = [][]core.Op{ops}
	return c
}

func execWide(c *core.Case, r *core.Rec) {
	f := wideForms[int(min(max(c.Cfg["form"], 0), int64(len(wideForms)-1)))]
	n := int(min(max(c.Cfg["n"], 1), 64))
	sr := float64(c.CfgF["sr"])
	if !(sr >= 8000) {
		return
	}
	name := "wide." + f.name
	r.Comp(name)
	r.Probe("wide")
	if n > 8 {
		r.Probe("more-than-8-channels")
		r.NonTriv = true
	}
	sets, reset, run, all := f.mk(n, sr)
	whole := &stream{sets: sets, reset: reset}
	singles := make([]*stream, n)
	runs := make([]func([]float32, int), n)
	sigs := make([]*sigGen, n)
	bad := make([]int, n)
	for k := range singles {
		singles[k] = &stream{}
		singles[k].sets, singles[k].reset, runs[k], _ = f.mk(1, sr)
		sigs[k] = newSig(k%sigKinds, uint64(c.Cfg["sigseed"])+uint64(k), 1)
	}
	h := core.HashU(core.HashS(name), uint64(n))
	at := 0
	block := func(k, m int) []float32 {
		b := make([]float32, m)
		for i := range b {
			b[i] = float32(sigs[k].next())
			if bad[k] > 0 {
				b[i] = float32(poisonVal(bad[k]-1, i))
			}
		}
		return b
	}
	check := func(k int, in, got []float32) bool {
		want := append([]float32(nil), in...)
		runs[k](want, 0)
		peak := 0.01
		for _, v := range want {
			if a := math.Abs(float64(v)); a > peak && !math.IsInf(a, 0) {
				peak = a
			}
		}
		for i := range want {
			r.ObserveF(float64(got[i]))
			a, b := float64(got[i]), float64(want[i])
			if a == b || math.IsNaN(a) && math.IsNaN(b) || math.Abs(a-b) <= 1e-5*peak {
				continue
			}
			r.Fail("leak", name, "%s with %d channels at %g Hz, step %d: sample %d of channel %d is %.9g; alone it is %.9g", f.name, n, sr, at, i, k, a, b)
			return false
		}
		return true
	}
	for _, o := range c.Threads[0] {
		at++
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)))
		switch o.K {
		case "set", "reset":
			r.Fault("automation")
			whole.apply(o)
			for _, s := range singles {
				s.apply(o)
			}
		case "poison":
			k := int(min(max(o.Int(0), 0), int64(n-1)))
			bad[k] = int(min(max(o.Int(1), 0), 4))
			if bad[k] > 0 {
				r.Fault("poisoned-channel")
			}
		case "some":
			g := core.NewR(uint64(o.Int(1)))
			for t := g.Range(1, n); t > 0; t-- {
				k := g.N(n)
				in := block(k, int(min(max(o.Int(0), 0), 1000)))
				got := append([]float32(nil), in...)
				run(got, k)
				r.Eval()
				if !check(k, in, got) {
					return
				}
				r.SimNs += float64(len(in)) / sr * 1e9
			}
		case "all":
			m := int(min(max(o.Int(1), 0), int64(n)))
			ins, outs := make([][]float32, m), make([][]float32, m)
			for k := range ins {
				ins[k] = block(k, int(min(max(o.Int(0), 0), 1000)))
				outs[k] = append([]float32(nil), ins[k]...)
			}
			if all != nil {
				r.Probe("all-channels-in-one-call")
				all(outs)
			} else {
				for k := range outs {
					run(outs[k], k)
				}
			}
			r.Eval()
			for k := range ins {
				if !check(k, ins[k], outs[k]) {
					return
				}
			}
			r.SimNs += float64(o.Int(0)) / sr * 1e9
		}
	}
	if n > 1 {
		r.NonTriv = true
	}
	r.State(h)
}
