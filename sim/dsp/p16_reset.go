package dsp

import (
	"math"
	"strings"

	srand "vstrt/srand"
	"vstsim/core"
)

// P16: Reset makes a processor like a new one with the same settings,
// whatever it went through, non-finite samples included.

func resettable(p *proc) bool {
	if p.make(48000).reset == nil {
		return false
	}
	switch p.name {
	case "modulation.LFO.random":
		return false // random streams are not rewound by Reset
	}
	return len(p.name) < 13 || p.name[:13] != "utility.Noise"
}

func init() {
	core.Register(&core.Check{
		ID: "P16", Quick: 53000, Thorough: 1060000,
		Rule:      "A host session on every processor form with a Reset: automation, triggers, blocks of any size, bursts of NaN and infinite samples, denormals, then Reset; afterwards a second session. A new instance gets the settings of the first session (no audio, no triggers) and plays the second session too; both recordings must agree. Non-trivial: the processor had heard sound before the reset.",
		StateRule: "distinct (processor, rate, signal, operation sequence with block sizes)",
		Real:      realPkgs(),
		Stub:      []string{"host (blocks, automation, input signal)", "math/rand (seeded stand-in, reseeded for both instances)"},
		Assume:    []string{"random generators are not rewound by Reset (noise and the random LFO are left out, tape flutter runs on a constant one)", "agreement means within 2e-4 of the running peak"},
		Must:      []string{"poison", "clean", "double-reset", "automation-before"},
		Gen: func(g *core.R, i int) *core.Case {
			p := drawProc(g, i, resettable)
			c, sr := baseCase(g, p, 96000)
			s := p.make(sr)
			a := drawOps(g, s, g.Pick(100, 500, 2000), 512, false)
			if len(s.sets) > 0 && p.nin > 0 && g.Chance(0.5) || p.nin > 0 && g.Chance(0.4) {
				for k := g.Range(1, 3); k > 0; k-- {
					at := g.N(len(a) + 1)
					a = append(a[:at:at], append([]core.Op{{K: "poison", I: []int64{int64(g.Pick(1, 1, 2, 40)), int64(g.N(6)), int64(g.N(4))}}}, a[at:]...)...)
				}
			}
			if g.Chance(0.1) {
				a = append(a, core.Op{K: "reset"})
			}
			if g.Chance(0.012) { // a long session before
				for n := g.Pick(4096, 8192, 32768, 65536) + g.N(1700); n > 0; n -= 8192 {
					a = append(a, core.Op{K: "run", I: []int64{int64(min(n, 8192)), 0}})
				}
			}
			total, block := drawSpan(g, g.Pick(100, 600, 2500), 512)
			b := drawOps(g, s, total, block, false)
			if g.Chance(0.3) { // a control moved before the reset goes back to a value it had
				var old []core.Op
				for _, o := range a {
					if o.K == "set" {
						old = append(old, o)
					}
				}
				if len(old) > 0 {
					o := old[g.N(len(old))]
					for k := 0; k < 60; k++ {
						if x := drawSet(g, s); x.Int(0) == o.Int(0) {
							a = append(a, x)
							break
						}
					}
					at := g.N(len(b)/2 + 1)
					b = append(b[:at:at], append([]core.Op{o}, b[at:]...)...)
				}
			}
			c.Threads = [][]core.Op{a, b}
			return c
		},
		Exec: execP16,
	})
}

func poisonVal(kind, i int) float64 {
	switch kind {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0}[i%4]
	case 4:
		return 3e38
	default:
		return 1e-42
	}
}

func execP16(c *core.Case, r *core.Rec) {
	var q sess
	q.cfg(c)
	r.Comp(q.p.name)
	a, b := c.Threads[0], c.Threads[1]
	r.State(core.HashU(q.shape(a), q.shape(b)))
	if strings.HasSuffix(q.p.name, "flutter") { // its random numbers are always the same one
		srand.Fix(0.37)
		defer srand.Fix(-1)
	}
	one, two := q.build(), q.build()
	in := q.input()
	sink := make([][]float64, q.p.nout)
	heard, poisoned := false, false
	total := 0
	for _, o := range a {
		switch o.K {
		case "run":
			n := int(o.Int(0))
			total += n
			for k := range sink {
				sink[k] = sink[k][:0]
			}
			one.runBlock(in.take(n), q.p.nout, n, o.Int(1) == 1, sink)
			for k := range sink {
				heard = heard || maxAbs(sink[k]) > 1e-9
			}
		case "poison":
			poisoned = true
			n, kind, chans := int(o.Int(0)), int(o.Int(1)), int(o.Int(2))
			r.Fault([]string{"nan", "plus-inf", "minus-inf", "non-finite-mix", "huge", "denormal"}[kind])
			x := in.take(n)
			for ch := range x {
				if chans == 3 || ch == chans%len(x) {
					for i := range x[ch] {
						x[ch][i] = poisonVal(kind, i)
					}
				}
			}
			one.runBlock(x, q.p.nout, n, false, sink)
		default:
			one.apply(o)
			if o.K == "set" {
				two.apply(o)
				r.Probe("automation-before")
			}
			if o.K == "reset" {
				r.Probe("double-reset")
			}
		}
	}
	if poisoned {
		r.Probe("poison")
	} else {
		r.Probe("clean")
	}
	r.Fault("reset")
	r.NonTriv = heard
	if one.reset == nil {
		return
	}
	one.reset()
	var rec [2][][]float64
	for k, s := range []*stream{one, two} {
		srand.Seed(int64(q.seed>>5) + 1)
		rec[k] = make([][]float64, q.p.nout)
		in := q.input()
		for _, o := range b {
			if o.K == "run" {
				n := int(o.Int(0))
				s.runBlock(in.take(n), q.p.nout, n, o.Int(1) == 1, rec[k])
				if k == 0 {
					total += n
				}
			} else {
				s.apply(o)
			}
		}
	}
	r.SimNs += float64(total) / q.sr * 1e9
	r.Eval()
	for ch := range rec[0] {
		for _, v := range rec[0][ch] {
			r.ObserveF(v)
		}
	}
	if ch, i, ok := diff(rec[1], rec[0], 2e-4); !ok {
		what := "after Reset"
		if poisoned {
			what = "after non-finite samples and Reset"
		}
		r.Fail("reset", q.p.name, "%s at %g Hz: sample %d of channel %d is %.9g %s but %.9g from a new instance with the same settings", q.p.name, q.sr, i, ch, rec[0][ch][i], what, rec[1][ch][i])
	}
}
