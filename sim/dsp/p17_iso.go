package dsp

import (
	"fmt"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
)

// P17: instances are independent, on whatever threads and in whatever
// interleaving they run.

func init() {
	core.Register(&core.Check{
		ID: "P17", Quick: 70000, Thorough: 1400000, RaceQuick: 3000, RaceThoro: 60000,
		Rule:      "Two to four processor instances (same kind, or any mix), each driven by a host thread of its own with its own rate, blocks, automation, triggers and resets. Each session is first played alone, then all of them together under a seeded scheduler that may preempt before every statement of pkg/dsp. Every recording must equal the one played alone, to the last bit; the race build must report no access conflict. Non-trivial: threads were preempted inside a call.",
		StateRule: "distinct interleavings (hash of the switch points)",
		Real:      realPkgs(),
		Stub:      []string{"host threads", "scheduler", "math/rand (one seeded stream per simulated thread)"},
		Assume:    []string{"one thread at a time uses an instance", "an instance is created on the thread that uses it, or before the threads start"},
		Must:      []string{"same-kind", "mixed", "reset", "spectrum", "made-on-thread"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(2, 4)
			p := drawProc(g, i, nil)
			same := g.Chance(0.6)
			budget := g.Pick(20, 60, 160)
			for k := 0; k < n; k++ {
				if k > 0 && !same {
					p = procs[g.N(len(procs))]
				}
				one, sr := baseCase(g, p, 48000)
				c.SetS(fmt.Sprintf("proc%d", k), p.name)
				c.SetF(fmt.Sprintf("sr%d", k), sr)
				c.Set(fmt.Sprintf("sig%d", k), one.Cfg["sig"])
				c.Set(fmt.Sprintf("sigseed%d", k), one.Cfg["sigseed"])
				c.SetF(fmt.Sprintf("amp%d", k), float64(one.CfgF["amp"]))
				s := p.make(sr)
				ops := drawOps(g, s, g.Range(budget/2, budget), 40, true)
				for at := 0; at < len(ops) && g.Chance(0.3); at += g.Range(1, 20) {
					o := core.Op{K: "spectrum", I: []int64{int64(g.N(9)), int64(g.N(7)), int64(g.N(100))}}
					ops = append(ops[:at:at], append([]core.Op{o}, ops[at:]...)...)
				}
				c.Threads = append(c.Threads, ops)
			}
			c.SetS("proc", c.CfgS["proc0"])
			if g.Chance(0.3) {
				c.Set("late", 1)
			}
			c.Scheds = append(c.Scheds, core.GenSched(g, n, n*budget*25, true))
			return c
		},
		Exec: execP17,
	})
}

// playOn plays the session on an existing stream.
func (q *sess) playOn(s *stream, ops []core.Op) [][]float64 {
	in := q.input()
	outs := make([][]float64, q.p.nout)
	for _, o := range ops {
		if o.K == "spectrum" {
			// The thread looks at a frame of its own with an analyser of its own.
			size := 1 << (1 + uint64(o.Int(0))%9)
			f := analysis.NewFFT(size, analysis.WindowFunc(uint64(o.Int(1))%7))
			x := make([]float64, size)
			for i := range x {
				x[i] = float64((i*i*7+i*3+int(o.Int(2)&255))%17) - 8
			}
			m, _ := f.Forward(x)
			outs[0] = append(outs[0], m...)
			continue
		}
		if o.K != "run" {
			s.apply(o)
			continue
		}
		n := int(o.Int(0))
		if o.Int(1) == 1 {
			s.runFrames(in.take(n), q.p.nout, n, outs)
		} else {
			s.runBlock(in.take(n), q.p.nout, n, false, outs)
		}
	}
	return outs
}

func execP17(c *core.Case, r *core.Rec) {
	n := len(c.Threads)
	qs := make([]sess, n)
	kinds := map[string]bool{}
	for k := range qs {
		q := &qs[k]
		q.p = procByName(c.CfgS[fmt.Sprintf("proc%d", k)])
		q.sr = float64(c.CfgF[fmt.Sprintf("sr%d", k)])
		q.sig = int(c.Cfg[fmt.Sprintf("sig%d", k)])
		q.seed = uint64(c.Cfg[fmt.Sprintf("sigseed%d", k)])
		q.amp = float64(c.CfgF[fmt.Sprintf("amp%d", k)])
		kinds[q.p.name] = true
		r.Comp(q.p.name)
		for _, o := range c.Threads[k] {
			if o.K == "reset" {
				r.Probe("reset")
			}
			if o.K == "spectrum" {
				r.Probe("spectrum")
			}
			if o.K != "run" {
				r.Fault(o.K)
			}
		}
	}
	if len(kinds) < n {
		r.Probe("same-kind")
	}
	if len(kinds) > 1 {
		r.Probe("mixed")
	}
	alone := make([][][]float64, n)
	solo := func() {
		for k := range qs {
			s := qs[k].build()
			srand.Seed(int64(qs[k].seed >> 4))
			alone[k] = qs[k].playOn(s, c.Threads[k])
		}
	}
	late := c.Cfg["late"] == 1
	if late {
		r.Probe("made-on-thread") // and before anyone made one
	} else {
		solo()
	}
	streams := make([]*stream, n)
	got := make([][][]float64, n)
	var fns []func()
	for k := range qs {
		k := k
		if !late {
			streams[k] = qs[k].build()
			srand.SeedTask(k, int64(qs[k].seed>>4))
			fns = append(fns, func() { got[k] = qs[k].playOn(streams[k], c.Threads[k]) })
			continue
		}
		// Every thread makes its own instance.
		srand.SeedTask(k, int64(qs[k].seed>>3))
		fns = append(fns, func() {
			s := qs[k].p.make(qs[k].sr)
			srand.SeedTask(k, int64(qs[k].seed>>4))
			got[k] = qs[k].playOn(s, c.Threads[k])
		})
	}
	res := r.Run(4000000, fns...)
	if r.Failed() || res.Aborted != "" {
		return
	}
	if late {
		solo()
	}
	for k := range qs {
		if got[k] == nil {
			continue // stopped by an injected stall
		}
		r.Eval()
		for ch := range got[k] {
			for _, v := range got[k][ch] {
				r.ObserveF(v)
			}
			if len(got[k][ch]) != len(alone[k][ch]) {
				continue
			}
		}
		if ch, i, ok := diff(alone[k], got[k], 0); !ok {
			r.Fail("coupled", qs[k].p.name, "%s at %g Hz on thread %d: sample %d of channel %d is %.9g beside %d other instances but %.9g alone", qs[k].p.name, qs[k].sr, k, i, ch, got[k][ch][i], n-1, alone[k][ch][i])
			return
		}
	}
}
