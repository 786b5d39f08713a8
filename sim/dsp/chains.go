package dsp

import (
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
)

// Chains: the block form runs the chain, the frame form runs a second set of
// members composed by hand. P15 compares the two.

type stereoGain struct{ l, r, zl, zr float32 }

func (g *stereoGain) step(l, r float32) (float32, float32) {
	l, r = l*g.l+0.25*g.zl, r*g.r+0.25*g.zr
	g.zl, g.zr = l, r
	return l, r
}

func (g *stereoGain) ProcessStereo(left, right []float32) {
	for i := range left {
		left[i], right[i] = g.step(left[i], right[i])
	}
}

func (g *stereoGain) Reset() { g.zl, g.zr = 0, 0 }

type members struct {
	dc   *utility.SimpleDCBlocker
	gate *dynamics.Gate
	comp *dynamics.Compressor
}

func newMembers(sr float64) *members {
	m := &members{utility.NewSimpleDCBlocker(sr), dynamics.NewGate(sr), dynamics.NewCompressor(sr)}
	m.gate.SetThreshold(-40)
	m.gate.SetRange(-60)
	m.comp.SetThreshold(-20)
	m.comp.SetRatio(4)
	m.comp.SetRelease(0.05)
	return m
}

func (m *members) reset() { m.dc.Reset(); m.gate.Reset(); m.comp.Reset() }

func (m *members) sets(n *members) []setting {
	two := func(a, b func(float64)) func(float64) { return func(v float64) { a(v); b(v) } }
	return []setting{
		{name: "gate", lo: -80, hi: 0, fn: two(m.gate.SetThreshold, n.gate.SetThreshold)},
		{name: "threshold", lo: -60, hi: 0, fn: two(m.comp.SetThreshold, n.comp.SetThreshold)},
		{name: "ratio", lo: 1, hi: 20, log: true, fn: two(m.comp.SetRatio, n.comp.SetRatio)},
		{name: "attack", lo: 0.0001, hi: 0.05, log: true, fn: two(m.comp.SetAttack, n.comp.SetAttack)},
	}
}

func chainProcs(add func(*proc)) {
	add(&proc{name: "chain.Series", nin: 1, nout: 1, gain: 4, exact: true, mk: func(sr float64, s *stream) {
		m, n := newMembers(sr), newMembers(sr)
		c := fdsp.NewChain("series")
		half := func(b []float32) {
			for i := range b {
				b[i] *= 0.5
			}
		}
		c.Add(fdsp.NewGateAdapter(m.gate)).AddFunc("half", half).Add(fdsp.NewCompressorAdapter(m.comp))
		dc := fdsp.NewDCBlockerAdapter(sr)
		c.Add(dc)
		off := false
		s.sets = append(m.sets(n), setting{name: "bypass", disc: 2, fn: func(v float64) { off = v > 0; c.SetBypass(off) }})
		s.reset = func() { c.Reset(); n.reset() }
		s.block = s.blk32(true, func(in, _ [][]float32) { c.Process(in[0]) })
		s.frame = f11(func(x float32) float32 {
			if off {
				return x
			}
			return n.dc.Process(n.comp.Process(0.5 * n.gate.Process(x)))
		})
	}})
	add(&proc{name: "chain.Parallel", nin: 1, nout: 1, gain: 8, mk: func(sr float64, s *stream) {
		m, n := newMembers(sr), newMembers(sr)
		p := fdsp.NewParallelChain("parallel")
		inner := fdsp.NewChain("inner")
		inner.Add(fdsp.NewGateAdapter(m.gate)).Add(fdsp.NewDCBlockerAdapter(sr))
		dry := fdsp.NewChain("dry")
		p.Add(inner, 0.5).Add(fdsp.NewCompressorAdapter(m.comp), -0.25).Add(dry, 0.75)
		off := false
		s.sets = append(m.sets(n), setting{name: "bypass", disc: 2, fn: func(v float64) { off = v > 0; p.SetBypass(off) }})
		s.reset = func() { p.Reset(); n.reset() }
		s.block = s.blk32(true, func(in, _ [][]float32) { p.Process(in[0]) })
		s.frame = f11(func(x float32) float32 {
			if off {
				return x
			}
			return 0.5*n.dc.Process(n.gate.Process(x)) - 0.25*n.comp.Process(x) + 0.75*x
		})
	}})
	add(&proc{name: "chain.Stereo", nin: 2, nout: 2, gain: 3, link: "indep", mk: func(sr float64, s *stream) {
		mk := func() []*stereoGain { return []*stereoGain{{l: 0.5, r: 0.25}, {l: 0.75, r: 1}} }
		m, n := mk(), mk()
		c, _ := fdsp.NewStereoBuilder("stereo").WithProcessor(m[0]).WithProcessor(m[1]).Build()
		off := false
		s.sets = []setting{{name: "bypass", disc: 2, fn: func(v float64) { off = v > 0; c.SetBypass(off) }}}
		s.reset = func() {
			c.Reset()
			for _, x := range n {
				x.Reset()
			}
		}
		s.block = s.blk32(true, func(in, _ [][]float32) { c.ProcessStereo(in[0], in[1]) })
		s.frame = f22(func(a, b float32) (float32, float32) {
			if off {
				return a, b
			}
			a, b = n[0].step(a, b)
			return n[1].step(a, b)
		})
	}})
	add(&proc{name: "chain.Dynamics", nin: 1, nout: 1, gain: 1.00001, mk: func(sr float64, s *stream) {
		c, _ := fdsp.CreateDynamicsChain(sr)
		s.sets = []setting{{name: "bypass", disc: 2, fn: func(v float64) { c.SetBypass(v > 0) }}}
		s.reset = c.Reset
		s.block = s.blk32(true, func(in, _ [][]float32) { c.Process(in[0]) })
		s.frame = perFrame(s.block)
	}})
	add(&proc{name: "chain.Noise", nin: 1, nout: 1, gain: 1, off: 0.5, rnd: 2, mk: func(sr float64, s *stream) {
		a := fdsp.NewNoiseAdapter(utility.WhiteNoise, 0.5)
		s.sets = []setting{unit("mix", func(v float64) { a.SetMix(float32(0.5 * min(1, max(0, v)))) })}
		s.block = s.blk32(true, func(in, _ [][]float32) { a.Process(in[0]) })
		s.frame = perFrame(s.block)
	}})
}
