package dsp

import (
	"fmt"
	"math"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
)

// P35: a chain is its processors one after the other, a parallel chain the
// weighted sum of its branches.

// leaf35 is a processor of the simulated plugin; it counts what reaches it.
type leaf35 struct {
	kind           int64
	a, b           float32
	z              float32
	frames, resets int
}

const leafKinds = 5

func (l *leaf35) one(x float32) float32 {
	switch l.kind {
	case 0:
		return x * l.a
	case 1: // remembers one sample
		y := x*l.a + l.z*l.b
		l.z = x
		return y
	case 2: // does not commute with a gain
		if x > l.a {
			return l.a
		}
		if x < -l.a {
			return -l.a
		}
		return x
	case 3:
		return x + 0.25*l.b
	}
	return -x
}

func (l *leaf35) Process(b []float32) {
	l.frames += len(b)
	for i := range b {
		b[i] = l.one(b[i])
	}
}

func (l *leaf35) ProcessStereo(left, right []float32) {
	l.frames += len(left)
	for i := range left {
		a, b := left[i], right[i]
		switch l.kind {
		case 0:
			left[i], right[i] = a*l.a, b*l.b
		case 1:
			left[i], right[i] = l.one(a), b
		case 2: // crosses the channels over
			left[i], right[i] = b, a
		case 3:
			left[i], right[i] = a+0.25*l.b, b
		default:
			left[i], right[i] = 0.5*(a+b), 0.5*(a-b)
		}
	}
}

func (l *leaf35) Reset() { l.resets++; l.z = 0 }

// node35 is a processor and its model.
type node35 struct {
	leaf   *leaf35
	twin   leaf35 // the model's state of the leaf
	fn     bool   // added as a function: not reset
	dc     *utility.SimpleDCBlocker
	comp   *dynamics.Compressor // what the processor behind an adapter does by itself
	gate   *dynamics.Gate
	noise  bool
	nmix   float64
	series *fdsp.Chain
	par    *fdsp.ParallelChain
	stereo *fdsp.StereoChain
	kids   []*node35
	gains  []float64
	bypass bool
	frames int // frames that must have reached the leaf
	resets int
}

// run gives what comes out for x; mag tells how large the numbers got.
func (n *node35) run(x, white float64, mag *float64) float64 {
	*mag = math.Max(*mag, math.Abs(x))
	switch {
	case n.leaf != nil:
		n.frames++
		return float64(n.twin.one(float32(x)))
	case n.dc != nil:
		return float64(n.dc.Process(float32(x)))
	case n.comp != nil:
		return float64(n.comp.Process(float32(x)))
	case n.gate != nil:
		return float64(n.gate.Process(float32(x)))
	case n.noise:
		return x + n.nmix*white
	case n.bypass:
		return x
	case n.par != nil:
		if len(n.kids) == 0 {
			return x
		}
		y := 0.0
		for i, k := range n.kids {
			v := n.gains[i] * k.run(x, white, mag)
			*mag = math.Max(*mag, math.Abs(v))
			y += v
		}
		return y
	}
	for _, k := range n.kids {
		x = k.run(x, white, mag)
		*mag = math.Max(*mag, math.Abs(x))
	}
	return x
}

func (n *node35) run2(a, b float32) (float32, float32) {
	if n.leaf == nil {
		if n.bypass {
			return a, b
		}
		for _, k := range n.kids {
			a, b = k.run2(a, b)
		}
		return a, b
	}
	n.frames++
	x, y := []float32{a}, []float32{b}
	n.twin.ProcessStereo(x, y)
	return x[0], y[0]
}

func (n *node35) reset() {
	if n.leaf != nil && !n.fn {
		n.resets++
		n.twin.z = 0
	}
	if n.dc != nil {
		n.dc.Reset()
	}
	if n.comp != nil {
		n.comp.Reset()
	}
	if n.gate != nil {
		n.gate.Reset()
	}
	for _, k := range n.kids {
		k.reset()
	}
}

type build35 struct {
	ops    []core.Op
	all    []*node35 // every node
	chains []*node35 // nodes that have a bypass
	r      *core.Rec
}

func (b *build35) next() core.Op {
	if len(b.ops) == 0 {
		return core.Op{K: "leaf"}
	}
	o := b.ops[0]
	b.ops = b.ops[1:]
	return o
}

func mkLeaf(o core.Op) *node35 {
	l := &leaf35{kind: ((o.Int(0) % leafKinds) + leafKinds) % leafKinds, a: float32(clamp(o.Flt(0), -1.2, 1.2)), b: float32(clamp(o.Flt(1), -1, 1))}
	if l.kind == 2 {
		l.a = float32(math.Abs(float64(l.a))) + 0.05
	}
	return &node35{leaf: l, twin: *l}
}

// add puts a node below a parent; the parent's real chain gets its processor.
func (b *build35) add(p *node35, o core.Op, depth int) {
	var k *node35
	var proc fdsp.Processor
	switch {
	case o.K == "series" && depth < 3 || o.K == "parallel" && depth < 3:
		k = b.chain(o, depth+1)
		if k.par != nil {
			proc = k.par
		} else {
			proc = k.series
		}
	case o.K == "dc":
		b.r.Probe("adapter")
		a := fdsp.NewDCBlockerAdapter(48000)
		k = &node35{dc: utility.NewSimpleDCBlocker(48000)}
		proc = a
	case o.K == "dyn" && o.Int(0)&3 == 0 && depth == 0 && p.series != nil && len(p.kids) == 0:
		// only where its input is known to the last bit: it switches
		b.r.Probe("adapter")
		b.r.Probe("gate-adapter")
		var two [2]*dynamics.Gate
		for i := range two {
			g := dynamics.NewGate(48000)
			g.SetThreshold(-20 + 15*clamp(o.Flt(0), -1.2, 1.2))
			g.SetHysteresis(3 + 3*clamp(o.Flt(1), -1, 1))
			g.SetHold(0.002 * math.Abs(clamp(o.Flt(1), -1, 1)))
			g.SetRelease(0.003 * math.Abs(clamp(o.Flt(2), -1, 1)))
			two[i] = g
		}
		k = &node35{gate: two[1]}
		proc = fdsp.NewGateAdapter(two[0])
	case o.K == "dyn":
		b.r.Probe("adapter")
		b.r.Probe("compressor-adapter")
		var two [2]*dynamics.Compressor
		for i := range two {
			m := dynamics.NewCompressor(48000)
			m.SetThreshold(-25 + 15*clamp(o.Flt(0), -1.2, 1.2))
			m.SetRatio(1 + 19*math.Abs(clamp(o.Flt(1), -1, 1)))
			m.SetAttack(0.002 * math.Abs(clamp(o.Flt(2), -1, 1)))
			m.SetRelease(0.003 * math.Abs(clamp(o.Flt(0), -1, 1)))
			two[i] = m
		}
		k = &node35{comp: two[1]}
		proc = fdsp.NewCompressorAdapter(two[0])
	case o.K == "noise":
		b.r.Probe("adapter")
		m := clamp(o.Flt(0), -1, 1)
		a := fdsp.NewNoiseAdapter(utility.WhiteNoise, float32(m))
		k = &node35{noise: true, nmix: float64(float32(m))}
		if o.Int(0)&1 == 1 {
			m = clamp(o.Flt(1), -1, 1)
			a.SetMix(float32(m))
			k.nmix = float64(float32(m))
		}
		proc = a
	default:
		k = mkLeaf(o)
		if o.Int(1) == 1 && p.series != nil {
			b.r.Probe("function")
			k.fn = true
			p.series.AddFunc("f", k.leaf.Process)
		} else if o.Int(1) == 2 {
			b.r.Probe("function")
			k.fn = true
			proc = fdsp.ProcessorFunc(k.leaf.Process)
		} else {
			proc = k.leaf
		}
	}
	b.all = append(b.all, k)
	p.kids = append(p.kids, k)
	if p.par != nil {
		g := clamp(o.Flt(2), -1, 1)
		p.gains = append(p.gains, float64(float32(g)))
		if k.fn && proc == nil {
			proc = k.leaf
		}
		p.par.Add(proc, float32(g))
		return
	}
	if proc != nil {
		p.series.Add(proc)
	}
}

func (b *build35) chain(o core.Op, depth int) *node35 {
	n := &node35{}
	cnt := int(o.Int(0))
	if cnt < 0 || cnt > 6 {
		cnt = 2
	}
	if o.K == "parallel" {
		b.r.Probe("parallel")
		n.par = fdsp.NewParallelChain("p")
	} else {
		b.r.Probe("series")
		n.series = fdsp.NewChain("s")
	}
	b.chains = append(b.chains, n)
	b.all = append(b.all, n)
	for i := 0; i < cnt; i++ {
		b.add(n, b.next(), depth)
	}
	if cnt == 0 {
		b.r.Probe("empty-chain")
	}
	return n
}

func init() {
	leaf := func(g *core.R) core.Op {
		k := g.PickS("leaf", "leaf", "leaf", "leaf", "dc", "noise", "dyn")
		return core.Op{K: k, I: []int64{int64(g.N(leafKinds)), int64(g.N(3))}, F: []core.X{core.X(g.FR(-1, 1)), core.X(g.FR(-1, 1)), core.X(g.FR(-1, 1))}}
	}
	core.Register(&core.Check{
		ID: "P35", Quick: 160000, Thorough: 3200000,
		Rule:      "A plugin builds a tree of chains (series, parallel, builders, functions, adapters; processors that remember, clip, offset and therefore do not commute) and a host plays blocks through it, from empty to longer than the scratch buffers; chains at any level are bypassed and switched back, reset, grown in mid-stream. Each block is compared with the members applied one after the other, branches summed, and every member must have been given each frame and each reset once. Builders get missing processors. Non-trivial: a chain at some level was bypassed or reset between two blocks.",
		StateRule: "distinct (tree, operation sequence)",
		Real:      []string{"pkg/framework/dsp", "pkg/dsp/utility", "pkg/dsp/dynamics"},
		Stub:      []string{"member processors (seeded stand-ins that count frames and resets)", "host (blocks)", "math/rand (constant)"},
		Assume:    []string{"single precision: 1e-5 of the largest partial sum"},
		Must:      []string{"series", "parallel", "stereo", "function", "adapter", "gate-adapter", "compressor-adapter", "silent-block", "empty-chain", "empty-block", "long-block", "bypass", "reset", "grown", "builder-ok", "builder-error"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			var tree, ops []core.Op
			kind := i % 4
			c.Set("kind", int64(kind))
			c.Set("seed", int64(g.U64()>>1))
			c.SetF("white", g.PickF(0, 0.25, 0.9, g.F()))
			switch kind {
			case 3: // stereo
				for k := g.Range(0, 5); k > 0; k-- {
					tree = append(tree, leaf(g))
				}
			default:
				tree = append(tree, core.Op{K: g.PickS("series", "parallel"), I: []int64{int64(g.Range(0, 4))}})
				for k := g.Range(2, 14); k > 0; k-- {
					if g.Chance(0.35) {
						tree = append(tree, core.Op{K: g.PickS("series", "parallel"), I: []int64{int64(g.Range(0, 4)), 0}, F: []core.X{0, 0, core.X(g.FR(-1, 1))}})
						continue
					}
					tree = append(tree, leaf(g))
				}
			}
			for k := g.Range(3, 15); k > 0; k-- {
				switch g.N(8) {
				case 0:
					ops = append(ops, core.Op{K: "bypass", I: []int64{int64(g.N(8)), int64(g.N(2))}})
				case 1:
					ops = append(ops, core.Op{K: "reset", I: []int64{int64(g.N(8) * g.N(2))}})
				case 2:
					o := leaf(g)
					o.K = "leaf"
					o.I = append(o.I, int64(g.N(8)))
					ops = append(ops, core.Op{K: "grow", I: o.I, F: o.F})
				case 3:
					var a []int64
					for m := g.N(5); m > 0; m-- {
						a = append(a, int64(g.PickF(0, 0, 1, 2, 3)))
					}
					ops = append(ops, core.Op{K: "builder", I: a})
				default:
					ops = append(ops, core.Op{K: "run", I: []int64{int64(g.Pick(0, 1, 2, 16, 64, 64, 100, g.Range(1, 300))), int64(g.Pick(0, 0, 0, 0, 1))}})
				}
			}
			if g.Chance(0.03) {
				ops = append(ops, core.Op{K: "run", I: []int64{int64(g.Pick(8191, 8192, 8193, 9000, 20000))}}, core.Op{K: "run", I: []int64{50}})
			}
			c.Threads = [][]core.Op{tree, ops}
			return c
		},
		Exec: execP35,
	})
}

func execP35(c *core.Case, r *core.Rec) {
	b := &build35{ops: c.Threads[0], r: r}
	u := core.X(c.CfgF["white"])
	white := float64(float32(float64(uint64(float64(u)*(1<<53)))/(1<<53)*2 - 1))
	srand.Fix(float64(u))
	defer srand.Fix(-1)
	var root *node35
	stereo := c.Cfg["kind"] == 3
	h := uint64(0)
	for _, t := range c.Threads {
		for _, o := range t {
			h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)*31+o.Int(1)))
		}
	}
	r.State(h)
	if stereo {
		r.Probe("stereo")
		root = &node35{stereo: fdsp.NewStereoChain("st")}
		for _, o := range c.Threads[0] {
			k := mkLeaf(o)
			root.kids = append(root.kids, k)
			b.all = append(b.all, k)
			root.stereo.Add(k.leaf)
		}
		b.chains = []*node35{root}
	} else {
		root = b.chain(b.next(), 0)
	}
	sig, sig2 := newSig(0, uint64(c.Cfg["seed"]), 0.9), newSig(0, uint64(c.Cfg["seed"])+1, 0.9)
	ran := false
	for at, o := range c.Threads[1] {
		switch o.K {
		case "bypass":
			n := b.chains[int(o.Int(0)&0xff)%len(b.chains)]
			n.bypass = o.Int(1) == 1
			switch {
			case n.par != nil:
				n.par.SetBypass(n.bypass)
			case n.series != nil:
				n.series.SetBypass(n.bypass)
			default:
				n.stereo.SetBypass(n.bypass)
			}
			r.Probe("bypass")
			r.Fault("bypass")
			r.NonTriv = r.NonTriv || ran
		case "reset":
			n := b.chains[int(o.Int(0)&0xff)%len(b.chains)]
			switch {
			case n.par != nil:
				n.par.Reset()
			case n.series != nil:
				n.series.Reset()
			default:
				n.stereo.Reset()
			}
			n.reset()
			r.Probe("reset")
			r.Fault("reset")
			r.NonTriv = r.NonTriv || ran
		case "grow":
			n := b.chains[int(o.Int(2)&0xff)%len(b.chains)]
			if len(n.kids) > 8 {
				continue
			}
			r.Probe("grown")
			r.Fault("grown-in-mid-stream")
			if stereo {
				k := mkLeaf(o)
				n.kids = append(n.kids, k)
				b.all = append(b.all, k)
				n.stereo.Add(k.leaf)
				continue
			}
			b.add(n, o, 3)
		case "builder":
			if !p35Builder(r, o.I) {
				return
			}
		case "run":
			ran = true
			n := int(o.Int(0))
			if n < 0 {
				n = 0
			}
			if n == 0 {
				r.Probe("empty-block")
			}
			if n > 8192 {
				r.Probe("long-block")
			}
			x, y := make([]float32, n), make([]float32, n)
			in, in2 := make([]float32, n), make([]float32, n)
			if o.Int(1) == 1 {
				r.Probe("silent-block")
				r.Fault("silence")
			}
			for i := range x {
				if o.Int(1) == 1 {
					break
				}
				in[i], in2[i] = float32(sig.next()), float32(sig2.next())
			}
			copy(x, in)
			copy(y, in2)
			switch {
			case stereo:
				root.stereo.ProcessStereo(x, y)
			case root.par != nil:
				root.par.Process(x)
			default:
				root.series.Process(x)
			}
			for i := range x {
				r.Eval()
				var want, want2, mag float64
				if stereo {
					a, bb := root.run2(in[i], in2[i])
					want, want2, mag = float64(a), float64(bb), 1
				} else {
					want, want2 = root.run(float64(in[i]), white, &mag), float64(y[i])
				}
				if d := math.Max(math.Abs(float64(x[i])-want), math.Abs(float64(y[i])-want2)); !(d <= 1e-5*(1+mag)) {
					r.Fail("output", "chain", "operation %d, sample %d of %d: the chain gives %.8g where its processors one after the other give %.8g (stereo %v, right channel %.8g / %.8g)", at, i, n, x[i], want, stereo, y[i], want2)
					return
				}
			}
		}
		if !stereo {
			for _, n := range b.chains {
				if n.series != nil && (n.series.Count() != len(n.kids) || n.series.IsEmpty() != (len(n.kids) == 0)) {
					r.Fail("count", "chain", "a chain of %d processors counts %d, empty %v", len(n.kids), n.series.Count(), n.series.IsEmpty())
					return
				}
			}
		}
		for i, n := range b.all {
			if n.leaf != nil && (n.leaf.frames != n.frames || n.leaf.resets != n.resets) {
				r.Fail("members", "chain", "operation %d (%s): processor %d of the tree was given %d frames and %d resets instead of %d and %d", at, o.K, i, n.leaf.frames, n.leaf.resets, n.frames, n.resets)
				return
			}
		}
	}
}

// p35Builder builds from a list of present and missing members.
func p35Builder(r *core.Rec, list []int64) bool {
	r.Eval()
	bl, sb := fdsp.NewBuilder("b"), fdsp.NewStereoBuilder("s")
	var marks, smarks []int
	bad, sbad, n, sn := false, false, 0, 0
	for i, k := range list {
		i := i
		switch k {
		case 0:
			bl.WithProcessor(fdsp.ProcessorFunc(func([]float32) { marks = append(marks, i) }))
			sb.WithProcessor(mark35{&smarks, i})
			n++
			sn++
		case 1:
			bl.WithFunc("f", func([]float32) { marks = append(marks, i) })
			n++
		case 2:
			bl.WithProcessor(nil)
			sb.WithProcessor(nil)
			bad, sbad = true, true
			r.Fault("missing-processor")
		default:
			bl.WithFunc("f", nil)
			bad = true
			r.Fault("missing-processor")
		}
	}
	c, err := bl.Build()
	if (err != nil) != (bad || n == 0) || (c == nil) != (err != nil) {
		r.Fail("builder", "Builder", "%d members, some missing %v: chain %v, error %v", n, bad, c != nil, err)
		return false
	}
	sc, serr := sb.Build()
	if (serr != nil) != (sbad || sn == 0) || (sc == nil) != (serr != nil) {
		r.Fail("builder", "StereoBuilder", "%d members, some missing %v: chain %v, error %v", sn, sbad, sc != nil, serr)
		return false
	}
	order := func(name string, got []int, stereo bool) bool {
		k := 0
		for i, v := range list {
			if v == 0 || v == 1 && !stereo {
				if k >= len(got) || got[k] != i {
					r.Fail("builder", name, "members %v ran in the order %v", list, got)
					return false
				}
				k++
			}
		}
		if k != len(got) {
			r.Fail("builder", name, "members %v ran in the order %v", list, got)
			return false
		}
		return true
	}
	if c != nil {
		r.Probe("builder-ok")
		c.Process(make([]float32, 4))
		if c.Count() != n {
			r.Fail("builder", "Builder", "%d members counted %d", n, c.Count())
			return false
		}
		if !order("Builder", marks, false) {
			return false
		}
	} else {
		r.Probe("builder-error")
		if s := fmt.Sprint(err); s == "" {
			return false
		}
	}
	if sc != nil {
		sc.ProcessStereo(make([]float32, 4), make([]float32, 4))
		return order("StereoBuilder", smarks, true)
	}
	return true
}

type mark35 struct {
	list *[]int
	i    int
}

func (m mark35) ProcessStereo(_, _ []float32) { *m.list = append(*m.list, m.i) }
func (m mark35) Reset()                       {}
