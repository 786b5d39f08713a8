package dsp

import (
	"runtime"

	"vstsim/core"
)

// P25: the audio path does not allocate memory.

func init() {
	core.Register(&core.Check{
		ID: "P25", Quick: 91000, Thorough: 1820000,
		Rule:      "A host session on every processor form of pkg/dsp (automation, triggers, resets, blocks of any size, poisoned input); the heap's allocation counter is read around every processing call and must not move. A call that seems to allocate is repeated from a fresh instance and must do so again. Non-trivial: at least three blocks after the first.",
		StateRule: "distinct (processor, rate, signal, operation sequence with block sizes)",
		Real:      realPkgs(),
		Stub:      []string{"host (blocks, automation, input signal)", "math/rand (seeded stand-in)"},
		Assume:    []string{"control setters may allocate, processing calls may not"},
		Must:      []string{"measured"},
		Gen: func(g *core.R, i int) *core.Case {
			if i%40 == 39 {
				return genWide(g, i*16/40)
			}
			p := drawProc(g, i, nil)
			c, sr := baseCase(g, p, 48000)
			s := p.make(sr)
			total, block := g.Pick(100, 400, 1500), 256
			if g.Chance(0.1) || p.nout == 1 && p.off == 1 && g.Chance(0.4) { // generators are cheap
				total, block = g.Pick(10000, 40000), 8192
			}
			c.Threads = [][]core.Op{drawOps(g, s, total, block, true)}
			return c
		},
		Exec: execP25,
	})
}

// execWide25 plays one filter with many channels.
func execWide25(c *core.Case, r *core.Rec) {
	f := wideForms[int(min(max(c.Cfg["form"], 0), int64(len(wideForms)-1)))]
	n := int(min(max(c.Cfg["n"], 1), 64))
	sr := float64(c.CfgF["sr"])
	if !(sr >= 8000) {
		return
	}
	r.Comp("wide." + f.name)
	total, blocks, h := 0, 0, core.HashU(core.HashS(f.name), uint64(n))
	pass := func(count bool) (worst uint64, at int) {
		sets, reset, run, all := f.mk(n, sr)
		whole := &stream{sets: sets, reset: reset}
		sigs := make([]*sigGen, n)
		for k := range sigs {
			sigs[k] = newSig(k%sigKinds, uint64(c.Cfg["sigseed"])+uint64(k), 1)
		}
		block := func(m int) []float32 {
			b := make([]float32, min(max(m, 0), 1000))
			for i := range b {
				b[i] = float32(sigs[0].next())
			}
			return b
		}
		for j, o := range c.Threads[0] {
			var a uint64
			switch o.K {
			case "set", "reset":
				whole.apply(o)
				if count {
					r.Fault(o.K)
				}
			case "some":
				b := block(int(o.Int(0)))
				ch := int(uint64(o.Int(1)) % uint64(n))
				a = mallocs(func() { run(b, ch) })
			case "all":
				bs := make([][]float32, min(max(o.Int(1), 0), int64(n)))
				for k := range bs {
					bs[k] = block(int(o.Int(0)))
				}
				a = mallocs(func() {
					if all != nil {
						all(bs)
						return
					}
					for k := range bs {
						run(bs[k], k)
					}
				})
				if count {
					total += int(o.Int(0))
					blocks++
				}
			}
			if count {
				h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)))
			}
			if a > worst {
				worst, at = a, j
			}
		}
		return
	}
	a, at := pass(true)
	r.Eval()
	r.Probe("wide")
	r.NonTriv = blocks > 1
	for k := 0; k < 3 && a > 0; k++ {
		if a2, at2 := pass(false); a2 < a {
			a, at = a2, at2
		}
	}
	if a > 0 {
		r.Fail("allocation", "wide."+f.name, "%s with %d channels at %g Hz, step %d: a block made %d heap allocations", f.name, n, sr, at, a)
	}
	r.SimNs += float64(total) / sr * 1e9
	r.State(h)
}

func execP25(c *core.Case, r *core.Rec) {
	if c.Cfg["wide"] > 0 {
		execWide25(c, r)
		return
	}
	var q sess
	q.cfg(c)
	r.Comp(q.p.name)
	ops := c.Threads[0]
	r.State(q.shape(ops))
	total, blocks := 0, 0
	pass := func(count bool) (int, uint64) {
		s := q.build()
		in := q.input()
		worst, at := uint64(0), -1
		for k, o := range ops {
			if o.K != "run" {
				s.apply(o)
				if count {
					r.Fault(o.K)
				}
				continue
			}
			n := int(o.Int(0))
			x := in.take(n)
			if count {
				total += n
				blocks++
			}
			if a := s.allocs(q.p, x, n, o.Int(1) == 1); a > worst {
				worst, at = a, k
			}
		}
		return at, worst
	}
	at, a := pass(true)
	r.Eval()
	r.Probe("measured")
	r.NonTriv = blocks > 3
	for k := 0; k < 3 && a > 0; k++ {
		// Something else in the process may have allocated: ask again.
		at2, a2 := pass(false)
		if a2 < a {
			at, a = at2, a2
		}
	}
	if a > 0 {
		r.Fail("allocation", q.p.name, "%s at %g Hz: a block of %d frames made %d heap allocations", q.p.name, q.sr, ops[at].Int(0), a)
	}
	r.SimNs += float64(total) / q.sr * 1e9
}

// allocs runs one block and counts the heap allocations of the processor.
func (s *stream) allocs(p *proc, x [][]float64, n int, inplace bool) uint64 {
	s.meter = true
	s.allocated = 0
	outs := make([][]float64, p.nout)
	s.runBlock(x, p.nout, n, inplace, outs)
	a := s.allocated
	s.meter = false
	return a
}

var ms0, ms1 runtime.MemStats

func mallocs(f func()) uint64 {
	runtime.ReadMemStats(&ms0)
	f()
	runtime.ReadMemStats(&ms1)
	return ms1.Mallocs - ms0.Mallocs
}
