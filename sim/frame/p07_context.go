package frame

import (
	"fmt"
	"math"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
)

// P07: a process context delivers a block's automation and events exactly
// once, in time order, and nothing of an earlier block.

// changeCap is the number of points per block the context promises to hold.
const changeCap = 128

func init() {
	core.Register(&core.Check{
		ID: "P07", Quick: 188000, Thorough: 3760000,
		Rule:      "A simulated host runs a session of 1-6 blocks of varying size and channel count: it delivers automation points (many at equal offsets, out of order, sometimes more than the context can hold) and events, the processor walks the block in seeded sub-ranges applying changes and consuming events, and emits output events; an editor thread reads the parameters meanwhile. Everything delivered is compared with a stable per-block model. Non-trivial: at least one block with two changes or events at the same offset.",
		StateRule: "distinct (changes, events, sub-ranges, block size) shapes",
		Real:      []string{"pkg/framework/process.Context", "pkg/midi.EventBuffer", "pkg/framework/param"}, Stub: []string{"host (block schedule, automation delivery)", "thread scheduler"},
		Assume: []string{"the context itself is used by the audio thread only; other threads touch parameters"},
		Must:   []string{"over-capacity", "same-offset", "stale-block", "thousand-changes", "unknown-parameter", "huge-block", "wide"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			c.Set("maxblock", int64(g.Pick(1, 16, 64, 512)))
			c.Set("params", int64(g.Range(1, 4)))
			big := i%400 == 130
			if big { // off-line rendering, wide buses, dense automation of many parameters
				c.Set("maxblock", int64(g.Pick(512, 4096, 8192, 8193, 16384, 65536)))
				c.Set("params", int64(g.Pick(4, 64, 130, 300)))
			}
			var ops []core.Op
			tag := g.N(200)
			uniq := 0
			for b := g.Range(1, 6); b > 0; b-- {
				frames := 1 + g.N(int(c.Cfg["maxblock"]))
				if g.Chance(0.2) {
					frames = int(c.Cfg["maxblock"])
				}
				ops = append(ops, core.Op{K: "block", I: []int64{int64(frames), int64(g.N(4)), int64(g.N(4)), int64(g.U64() >> 1)}})
				if big && frames <= 8193 && g.Chance(0.3) {
					ops[len(ops)-1].I[1], ops[len(ops)-1].I[2] = int64(g.Pick(2, 8, 9, 17, 32, 40)), int64(g.Pick(2, 8, 9, 17, 32, 40))
				}
				m := g.Pick(0, 1, 3, 8, 16, 40)
				if g.Chance(0.08) {
					m = g.Pick(127, 128, 129, 150)
				}
				if big {
					m = g.Pick(8, 128, 300, 1000, 1100)
				}
				span := frames
				if g.Chance(0.4) {
					span = 1 + g.N(3)
				}
				for ; m > 0; m-- {
					uniq++
					ops = append(ops, core.Op{K: "chg", I: []int64{int64(g.N(int(c.Cfg["params"]) + 1)), int64(g.N(span))}, F: []core.X{core.X(float64(uniq%997) / 1000)}})
				}
				m = g.Pick(0, 1, 2, 6, 14)
				if big {
					m = g.Pick(0, 14, 200, 700)
				}
				for ; m > 0; m-- {
					tag++
					ops = append(ops, core.Op{K: "ev", I: []int64{int64(tag & 255), int64(g.N(span))}})
				}
				for m := g.Pick(0, 0, 1, 5); m > 0; m-- {
					tag++
					ops = append(ops, core.Op{K: "out", I: []int64{int64(tag & 255), int64(g.N(span))}})
				}
			}
			var ui []core.Op
			for k := g.N(6); k > 0; k-- {
				ui = append(ui, core.Op{K: "read", I: []int64{int64(g.N(int(c.Cfg["params"])))}})
			}
			c.Threads = [][]core.Op{ops, ui}
			c.Scheds = []rt.Schedule{core.GenSched(g, 2, 2000, true)}
			return c
		},
		Exec: execP07,
	})
}

func execP07(c *core.Case, r *core.Rec) {
	np := int(c.Cfg["params"])
	maxBlock := int(c.Cfg["maxblock"])
	reg := param.NewRegistry()
	legal := map[float64]bool{0: true}
	for p := 0; p < np; p++ {
		reg.Add(param.New(uint32(p), fmt.Sprint(p)).Range(-10, 10).Default(-10).Build())
	}
	for _, o := range c.Threads[0] {
		if o.K == "chg" {
			legal[o.Flt(0)] = true
		}
	}
	ctx := process.NewContext(maxBlock, reg)
	var uiBad string
	audio := func() { contextSession(c, r, ctx, np) }
	ui := func() {
		for _, o := range c.Threads[1] {
			v := reg.Get(uint32(int(o.Int(0)) % np)).GetValue()
			if !legal[v] {
				uiBad = fmt.Sprintf("the editor read %v, a value no automation point has", v)
			}
		}
	}
	r.Run(60_000_000, audio, ui)
	if uiBad != "" {
		r.Fail("torn-value", "torn-value", "%s", uiBad)
	}
}

func contextSession(c *core.Case, r *core.Rec, ctx *process.Context, np int) {
	ops := c.Threads[0]
	values := make([]float64, np)
	var prev []mEv
	for at := 0; at < len(ops); {
		frames, nin, nout := 1, 1, 1
		g := core.NewR(c.Seed)
		if ops[at].K == "block" {
			o := ops[at]
			frames, nin, nout = int(o.Int(0)), int(o.Int(1)), int(o.Int(2))
			if frames < 1 {
				frames = 1
			}
			g = core.NewR(uint64(o.Int(3)))
			at++
		}
		end := at
		for end < len(ops) && ops[end].K != "block" {
			end++
		}
		blk := ops[at:end]
		at = end
		r.Eval()
		ctx.Input, ctx.Output = nil, nil
		for ch := 0; ch < nin; ch++ {
			b := make([]float32, frames)
			for i := range b {
				b[i] = float32(ch*100000+i) + 0.5
			}
			ctx.Input = append(ctx.Input, b)
		}
		for ch := 0; ch < nout; ch++ {
			b := make([]float32, frames)
			for i := range b {
				b[i] = -7
			}
			ctx.Output = append(ctx.Output, b)
		}
		n := frames
		if nin == 0 && nout == 0 {
			n = 0
		}
		// Host side: a new block.
		ctx.ResetParameterChanges()
		ctx.ClearAllEvents()
		if len(prev) > 0 {
			r.Probe("stale-block")
		}
		var chg []process.ParameterChange
		var evs, outs []mEv
		dropped := 0
		for _, o := range blk {
			switch o.K {
			case "chg":
				pc := process.ParameterChange{ParamID: uint32(o.Int(0)), Value: o.Flt(0), SampleOffset: int(o.Int(1)) % frames}
				ctx.AddParameterChange(pc.ParamID, pc.Value, pc.SampleOffset)
				chg = append(chg, pc)
				if len(chg) > changeCap {
					dropped++
				}
			case "ev":
				e := mEv{int(o.Int(0)), int32(o.Int(1)) % int32(frames)}
				ctx.AddInputEvent(makeEvent(e.Tag, e.Off))
				evs = append(evs, e)
			}
		}
		if len(chg) >= 1000 {
			r.Probe("thousand-changes")
		}
		if frames > 8192 {
			r.Probe("huge-block")
		}
		if nin > 8 && nout > 8 {
			r.Probe("wide")
		}
		if dropped > 0 {
			r.Probe("over-capacity")
			r.FaultN("automation-overflow", dropped)
		}
		fail := func(class, f string, a ...any) { r.Fail(class, class, f, a...) }
		if ctx.HasParameterChanges() != (len(chg) > 0) {
			fail("changes-lost", "HasParameterChanges is %v with %d changes", ctx.HasParameterChanges(), len(chg))
			return
		}
		ctx.SortParameterChanges()
		got := ctx.GetParameterChanges()
		want := stableChanges(chg)
		if len(got) != len(want) {
			fail("changes-lost", "%d changes delivered, %d expected", len(got), len(want))
			return
		}
		for i := range want {
			if i > 0 && want[i].SampleOffset == want[i-1].SampleOffset {
				r.Probe("same-offset")
				r.NonTriv = true
			}
			if got[i] != want[i] {
				fail("changes-misordered", "change %d of the block is %+v, expected %+v", i, got[i], want[i])
				return
			}
		}
		if ctx.NumSamples() != n || ctx.NumInputChannels() != nin || ctx.NumOutputChannels() != nout {
			fail("block-shape", "block of %d frames, %d/%d channels seen as %d, %d/%d", n, nin, nout, ctx.NumSamples(), ctx.NumInputChannels(), ctx.NumOutputChannels())
			return
		}
		w, t := ctx.WorkBuffer(), ctx.TempBuffer()
		if len(w) != n || len(t) != n {
			fail("work-buffer", "work buffers of %d and %d samples in a block of %d", len(w), len(t), n)
			return
		}
		for i := range w {
			w[i] = 1
		}
		for i := range t {
			t[i] = 2
		}
		for i := range w {
			if w[i] != 1 || t[i] != 2 {
				fail("work-buffer", "the two work buffers overlap at %d", i)
				return
			}
		}
		if n > 0 && ctx.HasInputEvents() != (len(evs) > 0) {
			fail("events-lost", "HasInputEvents is %v with %d events", ctx.HasInputEvents(), len(evs))
			return
		}
		if n > 0 {
			if all := readEvents(ctx.GetAllInputEvents()); !sameEvs(all, sortedEvs(evs)) {
				fail("events-lost", "the block's events are %v, expected %v", all, sortedEvs(evs))
				return
			}
		}
		// Processor side: walk the block in sub-ranges.
		var consumed []mEv
		pos, ci, subs := 0, 0, 0
		for pos < frames {
			step := 1 + g.N(frames)
			if g.Chance(0.3) {
				step = frames
			}
			stop := pos + step
			if stop > frames {
				stop = frames
			}
			for ci < len(got) && got[ci].SampleOffset < stop {
				ctx.ApplyParameterChange(got[ci])
				if int(got[ci].ParamID) >= np {
					r.Probe("unknown-parameter")
				}
				if int(got[ci].ParamID) < np {
					values[got[ci].ParamID] = got[ci].Value
				}
				ci++
			}
			if a, b := ctx.Param(uint32(np)+7), ctx.ParamPlain(uint32(np)+7); a != 0 || b != 0 {
				fail("automation-value", "a parameter that does not exist is %v, plain %v", a, b)
				return
			}
			for p := 0; p < np; p++ {
				if v := ctx.Param(uint32(p)); v != values[p] {
					fail("automation-value", "after the changes before sample %d parameter %d is %v, expected %v", stop, p, v, values[p])
					return
				}
				if v := ctx.ParamPlain(uint32(p)); math.Abs(v-(-10+20*values[p])) > 1e-9 {
					fail("automation-value", "parameter %d plain value is %v, expected %v", p, v, -10+20*values[p])
					return
				}
			}
			if g.Chance(0.5) {
				pr := &recProc{}
				ctx.ProcessEvents(pr, int32(pos), int32(stop))
				consumed = append(consumed, pr.evs...)
			} else {
				consumed = append(consumed, readEvents(ctx.GetInputEvents(int32(pos), int32(stop)))...)
			}
			pos = stop
			subs++
		}
		if !sameEvs(consumed, sortedEvs(evs)) {
			fail("events-lost", "walking the block in %d parts consumed %v, expected %v", subs, consumed, sortedEvs(evs))
			return
		}
		for _, o := range blk {
			if o.K == "out" {
				e := mEv{int(o.Int(0)), int32(o.Int(1)) % int32(frames)}
				ctx.AddOutputEvent(makeEvent(e.Tag, e.Off))
				outs = append(outs, e)
			}
		}
		if got := readEvents(ctx.GetOutputEvents()); !sameEvs(got, sortedEvs(outs)) {
			fail("output-events", "output events %v, expected %v", got, sortedEvs(outs))
			return
		}
		if n > 0 {
			if all := readEvents(ctx.GetAllInputEvents()); !sameEvs(all, sortedEvs(evs)) {
				fail("events-lost", "emitting output events changed the input events: %v", all)
				return
			}
		}
		if g.Chance(0.3) {
			ctx.ClearOutputEvents()
			if got := readEvents(ctx.GetOutputEvents()); len(got) != 0 {
				fail("output-events", "output events %v after they were cleared", got)
				return
			}
			if all := readEvents(ctx.GetAllInputEvents()); n > 0 && !sameEvs(all, sortedEvs(evs)) {
				fail("events-lost", "clearing the output events changed the input events: %v", all)
				return
			}
		}
		channelHelpers(ctx, g, r, frames, nin, nout)
		if r.Failed() {
			return
		}
		prev = evs
		r.State(core.HashU(uint64(len(chg))<<40|uint64(len(evs))<<20|uint64(subs), uint64(frames)))
		r.SimNs += float64(frames) / 48000 * 1e9
	}
	for _, v := range values {
		r.ObserveF(v)
	}
}

func stableChanges(l []process.ParameterChange) []process.ParameterChange {
	o := append([]process.ParameterChange{}, l...)
	for i := 1; i < len(o); i++ { // insertion sort: stable, independent of the library
		for j := i; j > 0 && o[j].SampleOffset < o[j-1].SampleOffset; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}

func channelHelpers(ctx *process.Context, g *core.R, r *core.Rec, frames, nin, nout int) {
	common := nin
	if nout < common {
		common = nout
	}
	check := func(what string, upto int, f func(ch, i int) float32) {
		for ch := range ctx.Output {
			for i := range ctx.Output[ch] {
				w := float32(-7)
				if ch < upto {
					w = f(ch, i)
				}
				if ctx.Output[ch][i] != w {
					r.Fail("channel-routing", "channel-routing", "%s: output %d sample %d is %v, expected %v", what, ch, i, ctx.Output[ch][i], w)
					return
				}
			}
			for i := range ctx.Output[ch] {
				ctx.Output[ch][i] = -7
			}
		}
		for ch := range ctx.Input {
			for i := range ctx.Input[ch] {
				if ctx.Input[ch][i] != float32(ch*100000+i)+0.5 {
					r.Fail("input-modified", "input-modified", "%s modified the input", what)
					return
				}
			}
		}
	}
	in := func(ch, i int) float32 { return float32(ch*100000+i) + 0.5 }
	two := common
	if two > 2 {
		two = 2
	}
	one := common
	if one > 1 {
		one = 1
	}
	switch g.N(8) {
	case 0:
		ctx.PassThrough()
		check("PassThrough", common, in)
	case 1:
		ctx.Clear()
		check("Clear", nout, func(int, int) float32 { return 0 })
	case 2:
		ctx.ProcessChannels(func(ch int, a, b []float32) {
			for i := range b {
				b[i] = a[i] + float32(ch)
			}
		})
		check("ProcessChannels", common, func(ch, i int) float32 { return in(ch, i) + float32(ch) })
	case 3:
		ctx.ProcessStereo(func(ch int, a, b []float32) { copy(b, a) })
		check("ProcessStereo", two, in)
	case 4:
		ctx.ProcessMono(func(a, b []float32) { copy(b, a) })
		check("ProcessMono", one, in)
	case 5:
		next := 0
		ctx.ProcessSamples(func(s int, a, b []float32) {
			if s != next || len(a) != common || len(b) != common {
				r.Fail("channel-routing", "channel-routing", "ProcessSamples: sample %d, expected %d", s, next)
			}
			next++
			for ch := range b {
				b[ch] = -1
			}
			for ch := range b { // all inputs of a frame mix into its outputs
				b[ch] = a[len(a)-1-ch]*2 + a[0]
			}
		})
		if common > 0 {
			check("ProcessSamples", common, func(ch, i int) float32 { return in(common-1-ch, i)*2 + in(0, i) })
		}
	case 6:
		k := g.N(5)
		var fs []func(a, b []float32)
		for ch := 0; ch < k; ch++ {
			ch := ch
			fs = append(fs, func(a, b []float32) {
				for i := range b {
					b[i] = a[i] - float32(ch)
				}
			})
		}
		if common < k {
			k = common
		}
		ctx.ProcessChannelsSeparately(fs...)
		check("ProcessChannelsSeparately", k, func(ch, i int) float32 { return in(ch, i) - float32(ch) })
	default:
		ctx.CopyInputToOutput()
		check("CopyInputToOutput", common, in)
		if ctx.GetNumChannels() != common || ctx.GetNumStereoChannels() != two {
			r.Fail("block-shape", "block-shape", "channel counts")
		}
	}
}
