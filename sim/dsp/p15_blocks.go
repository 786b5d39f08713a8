package dsp

import (
	"vstsim/core"
)

// P15: block boundaries, API forms and buffer sharing are invisible.

func init() {
	core.Register(&core.Check{
		ID: "P15", Quick: 36000, Thorough: 720000,
		Rule:      "A host session on one of the processor forms of pkg/dsp (round robin over all of them): seeded block sizes (0 to 4096, odd ones too), in-place or separate buffers, automation, triggers and resets between blocks. The same session is played frame by frame, in the listed blocks, and in blocks cut again at seeded places; the three recordings must agree, nothing outside the buffers and no separate input buffer may change. Non-trivial: at least three blocks of different sizes.",
		StateRule: "distinct (processor, rate, signal, operation sequence with block sizes)",
		Real:      realPkgs(),
		Stub:      []string{"host (blocks, automation, input signal)", "math/rand (seeded stand-in, reseeded before each pass)"},
		Assume:    []string{"a control that is an argument of the call is constant during a block", "agreement means within 2e-4 of the running peak (float32 against float64 arithmetic)"},
		Must:      []string{"zero-block", "in-place", "automation", "reset"},
		Gen: func(g *core.R, i int) *core.Case {
			p := drawProc(g, i, nil)
			c, sr := baseCase(g, p, 192000)
			s := p.make(sr)
			total, block := drawSpan(g, g.Pick(300, 1200, 3000, 6000), g.Pick(64, 1024, 4096))
			c.Threads = [][]core.Op{drawOps(g, s, total, block, true)}
			return c
		},
		Exec: execP15,
	})
}

func execP15(c *core.Case, r *core.Rec) {
	var q sess
	q.cfg(c)
	ops := c.Threads[0]
	r.Comp(q.p.name)
	r.State(q.shape(ops))
	sizes := map[int64]bool{}
	total := int64(0)
	for _, o := range ops {
		switch o.K {
		case "run":
			total += o.Int(0)
			if o.Int(0) == 0 {
				r.Probe("zero-block")
			}
			if o.Int(1) == 1 {
				r.Probe("in-place")
			}
			sizes[o.Int(0)] = true
			r.Fault("block-size-change")
		case "set":
			r.Probe("automation")
			r.Fault("automation")
		case "ev":
			r.Fault("event")
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
		}
	}
	r.NonTriv = len(sizes) >= 3
	r.SimNs += float64(total) / q.sr * 1e9
	const tol = 2e-4
	ref, _ := q.play(ops, 1)
	for _, mode := range []int{0, 2} {
		name := "the host's blocks"
		if mode == 2 {
			name = "blocks cut again"
		}
		got, bad := q.play(ops, mode)
		r.Eval()
		if bad != "" {
			r.Fail("memory", q.p.name, "%s, %s: %s", q.p.name, name, bad)
			return
		}
		for ch := range got {
			for _, v := range got[ch] {
				r.ObserveF(v)
			}
		}
		if ch, i, ok := diff(ref, got, tol); !ok {
			r.Fail("blocks", q.p.name, "%s at %g Hz: sample %d of channel %d is %.9g frame by frame but %.9g in %s", q.p.name, q.sr, i, ch, ref[ch][i], got[ch][i], name)
			return
		}
	}
}
