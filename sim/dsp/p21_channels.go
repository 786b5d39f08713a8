package dsp

import (
	srand "vstrt/srand"
	"vstsim/core"
)

// P21: channels of a stereo or multi-channel processor do not leak into each
// other, and linked processors treat them alike.

func channelled(p *proc) bool { return p.link == "indep" || p.link == "linked" }

// sameChannels: both channels run the very same algorithm.
func sameChannels(p *proc) bool {
	switch p.name {
	case "modulation.Tremolo.stereo", "modulation.Chorus.stereo":
		return false // the modulators of the channels differ in phase
	case "distortion.Tape.stereo", "distortion.Tape.stereo.flutter":
		return false // noise differs
	case "chain.Stereo":
		return false // its members have other gains on the right
	case "distortion.Bitcrusher.stereo":
		return false // dither differs
	}
	return true
}

func init() {
	core.Register(&core.Check{
		ID: "P21", Quick: 67000, Thorough: 1340000,
		Rule:      "A host session on every two-channel processor form whose channels are independent or linked: the session is played twice with the same input on one channel and something else (another signal, silence, NaN, infinities, huge values) on the other. The channel that kept its input must come out the same to the last bit (independent processors). With the same input on both channels, both outputs must be the same (where the channels run the same algorithm). In one run of sixteen a filter of up to 40 channels is played against as many filters of one channel each, some channels of them broken. Non-trivial: the other channel really differed.",
		StateRule: "distinct (processor, rate, signal, operation sequence with block sizes)",
		Real:      realPkgs(),
		Stub:      []string{"host (blocks, automation, input signal)", "math/rand (seeded stand-in, reseeded before each pass)"},
		Assume:    []string{"stereo chorus and tremolo modulate the channels with different phases, tape noise and dither differ per channel"},
		Must:      []string{"other-signal", "non-finite", "same-input", "linked", "wide", "more-than-8-channels", "all-channels-in-one-call"},
		Gen: func(g *core.R, i int) *core.Case {
			if i%16 == 5 {
				return genWide(g, i)
			}
			p := drawProc(g, i, channelled)
			c, sr := baseCase(g, p, 192000)
			s := p.make(sr)
			c.Set("keep", int64(g.N(2)))
			c.Set("other", int64(g.N(6)))
			total, block := drawSpan(g, g.Pick(200, 800, 2000), g.Pick(64, 512))
			c.Threads = [][]core.Op{drawOps(g, s, total, block, true)}
			return c
		},
		Exec: execP21,
	})
}

func execP21(c *core.Case, r *core.Rec) {
	if c.Cfg["wide"] != 0 {
		execWide(c, r)
		return
	}
	var q sess
	q.cfg(c)
	ops := c.Threads[0]
	r.Comp(q.p.name)
	r.State(core.HashU(q.shape(ops), uint64(c.Cfg["other"])))
	keep, other := int(c.Cfg["keep"]), int(c.Cfg["other"])
	total := 0
	play := func(same bool, disturb bool) [][]float64 {
		s := q.build()
		srand.Seed(int64(q.seed >> 6))
		in := q.input()
		in.same = same
		alt := newSig(0, q.seed^0xabc, 1)
		outs := make([][]float64, 2)
		at := 0
		for _, o := range ops {
			if o.K != "run" {
				s.apply(o)
				continue
			}
			n := int(o.Int(0))
			x := in.take(n)
			if disturb {
				y := x[1-keep]
				for i := range y {
					switch other {
					case 0:
						y[i] = alt.next()
					case 1:
						y[i] = 0
					case 2:
						y[i] = 1
					default:
						if (at+i)%37 > 20 {
							y[i] = poisonVal(other-2, at+i)
						} else {
							y[i] = alt.next()
						}
					}
				}
			}
			at += n
			total += n
			s.runBlock(x, 2, n, o.Int(1) == 1, outs)
		}
		return outs
	}
	if q.p.link == "indep" {
		if other >= 3 {
			r.Probe("non-finite")
			r.Fault("poisoned-channel")
		} else {
			r.Probe("other-signal")
			r.Fault("other-signal")
		}
		a, b := play(false, false), play(false, true)
		r.Eval()
		r.NonTriv = true
		for _, v := range a[keep] {
			r.ObserveF(v)
		}
		// Processors that draw random numbers per sample draw them for both
		// channels in turn; the draws do not depend on the input.
		if ch, i, ok := diff(a[keep:keep+1], b[keep:keep+1], 0); !ok {
			_ = ch
			r.Fail("leak", q.p.name, "%s at %g Hz: sample %d of channel %d is %.9g instead of %.9g when only the other channel's input changes", q.p.name, q.sr, i, keep, b[keep][i], a[keep][i])
			return
		}
	} else {
		r.Probe("linked")
	}
	if sameChannels(q.p) {
		r.Probe("same-input")
		a := play(true, false)
		r.Eval()
		if _, i, ok := diff(a[0:1], a[1:2], 1e-7); !ok {
			r.Fail("asymmetry", q.p.name, "%s at %g Hz: sample %d is %.9g on the left and %.9g on the right for the same input", q.p.name, q.sr, i, a[0][i], a[1][i])
			return
		}
		if q.p.link == "linked" {
			r.NonTriv = true
		}
	}
	r.SimNs += float64(total) / q.sr * 1e9
}
