package abi

// #include "host.h"
// #include <stdlib.h>
import "C"

import (
	"fmt"
	"math"
	"unsafe"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/vst3"
)

// P42: the Go view of a host's block is the host's block.

func init() {
	core.Register(&core.Check{
		ID: "P42", Quick: 100000, Thorough: 2000000, RaceQuick: 800, RaceThoro: 20000,
		Rule:      "1-3 host threads hand over blocks with 0-12 buses (now and then 40) of 0-33 (now and then 300) channels and 0-2048 frames, and transport data of any flags and values, and read and write them through the wrapper while the other threads do the same with theirs; faults: buses, channel tables, channels and transport the host leaves out. Every answer is compared with the host's own memory, which lies between guards. Non-trivial: something was left out or two threads were at work.",
		StateRule: "distinct (bus layout, left-out parts, flags) tuples and interleavings",
		Real:      []string{"pkg/vst3.ProcessDataWrapper", "pkg/vst3.AudioBuffer", "pkg/vst3.ProcessContext", "pkg/vst3.ToTUID"},
		Stub:      []string{"host memory", "thread scheduler", "VST3 header (stand-in)"},
		Assume:    []string{"counts and sample numbers the host gives are not negative"},
		Must:      []string{"no-bus-table", "no-channel-table", "no-channel", "no-transport", "zero-channels", "empty-block", "concurrent", "all-there", "wide-bus"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Pick(1, 1, 2, 3)
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(1, 5); k > 0; k-- {
					miss := int64(0) // bit 0: transport, 1: input table, 2: output table, 3: a channel table, 4: a channel
					if g.Chance(0.6) {
						miss = int64(g.N(32))
					}
					o := core.Op{K: "block", I: []int64{int64(g.Pick(0, 1, 2, 17, 64, 64, 65, 2048)), miss, int64(g.U64() & 0xffffffff), int64(g.U64() >> 1), int64(g.N(1 << 20)), int64(g.N(1 << 20))}}
					for d := 0; d < 6; d++ {
						o.F = append(o.F, core.X(g.PickF(0, -1.5, 120, 4, 1e9, math.NaN(), math.Inf(1), g.FR(-100, 100))))
					}
					if len(ops) > 0 && g.Chance(0.5) {
						// much of it as in the block before
						p := ops[len(ops)-1]
						for d := range 6 {
							if g.Chance(0.7) {
								o.I[d] = p.I[d]
							}
							if g.Chance(0.6) {
								o.F[d] = p.F[d]
							}
						}
					}
					nb := g.Pick(0, 1, 2, 3, 4, 5, 6, 6, 12) // buses: direction, channels
					wide := g.Chance(0.03)
					if wide && g.Chance(0.5) {
						nb = 40
					}
					for b := 0; b < nb; b++ {
						nc := g.Pick(0, 1, 2, 2, 2, 6, 9, 33)
						if wide && g.Chance(0.2) {
							nc = g.Pick(64, 65, 128, 130, 256, 300)
							o.I[0] = min(o.I[0], 64)
						}
						o.I = append(o.I, int64(g.N(2)), int64(nc))
					}
					ops = append(ops, o)
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = append(c.Scheds, core.GenSched(g, n, 1500, false))
			return c
		},
		Exec: execP42,
	})
}

type host42 struct {
	tally
	*arena
	w   *world
	bad string
}

func (h *host42) fail(f string, a ...any) {
	if h.bad == "" {
		h.bad = fmt.Sprintf(f, a...)
	}
}

func execP42(c *core.Case, r *core.Rec) {
	w := newWorld(r)
	n := len(c.Threads)
	hosts := make([]*host42, n)
	fns := make([]func(), n)
	for t := range fns {
		h := &host42{tally: newTally(), arena: w.newArena(), w: w}
		hosts[t] = h
		ops := c.Threads[t]
		fns[t] = func() {
			for k, o := range ops {
				if h.bad == "" && len(o.I) >= 6 {
					h.block(k, o)
				}
			}
		}
	}
	if n > 1 {
		r.Probe("concurrent")
		r.NonTriv = true
	}
	r.Run(400000, fns...)
	for t, h := range hosts {
		if h.bad != "" {
			r.Fail("view", "view", "thread %d: %s", t, h.bad)
			return
		}
		for k := int64(0); k < h.evals; k++ {
			r.Eval()
		}
		for _, s := range h.shapes {
			r.State(s)
			r.Observe(s)
		}
		r.NonTriv = r.NonTriv || h.nt
		for _, p := range []string{"no-bus-table", "no-channel-table", "no-channel", "no-transport", "zero-channels", "empty-block", "all-there", "wide-bus"} {
			if v := h.probes[p]; v > 0 {
				r.Probe(p)
				if p[:3] == "no-" {
					r.FaultN(p, v)
				}
			}
		}
	}
}

const guard42 = 3

func (h *host42) block(k int, o core.Op) {
	clamp := func(v int64, hi int64) int {
		if v < 0 {
			v = 0
		}
		return int(v % (hi + 1))
	}
	frames := clamp(o.I[0], 2048)
	miss := o.I[1]
	type busT struct {
		ch    []ptr // the channels' memory, nil: left out
		table bool
	}
	var dirs [2][]busT
	nth := 0
	for q := 6; q+1 < len(o.I); q += 2 {
		d := clamp(o.I[q], 1)
		b := busT{table: true}
		nc := clamp(o.I[q+1], 300)
		if nc > 33 {
			h.probes["wide-bus"]++
		}
		if nc == 0 {
			h.probes["zero-channels"]++
		}
		if miss&8 != 0 && int64(nth)%3 == o.I[4]%3 {
			b.table = false
			h.probes["no-channel-table"]++
			h.nt = true
		}
		for j := 0; j < nc; j++ {
			if miss&16 != 0 && (int64(j)+o.I[5])%3 == 0 {
				b.ch = append(b.ch, nil)
				if b.table {
					h.probes["no-channel"]++
					h.nt = true
				}
				continue
			}
			b.ch = append(b.ch, h.alloc(4*(frames+2*guard42)))
		}
		nth++
		dirs[d] = append(dirs[d], b)
	}
	val := func(d, b, j, f int) float32 { return float32(((d*40+b)*301+j)*313+f+k*7) + 0.25 }
	var tables [2]*C.struct_Steinberg_Vst_AudioBusBuffers
	data := (*C.struct_Steinberg_Vst_ProcessData)(h.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	data.numSamples = C.int32_t(frames)
	for d := range dirs {
		size := unsafe.Sizeof(C.struct_Steinberg_Vst_AudioBusBuffers{})
		tables[d] = (*C.struct_Steinberg_Vst_AudioBusBuffers)(h.alloc(int(size) * (len(dirs[d]) + 1)))
		for b, bb := range dirs[d] {
			var tab **C.float
			if bb.table {
				m := h.alloc(8*len(bb.ch) + 8)
				s := unsafe.Slice((*ptr)(m), len(bb.ch))
				for j, p := range bb.ch {
					s[j] = p
					if p != nil {
						x := unsafe.Slice((*float32)(p), frames+2*guard42)
						for f := range x {
							x[f] = -99
						}
						for f := 0; f < frames; f++ {
							x[guard42+f] = val(d, b, j, f)
						}
						s[j] = ptr(uintptr(p) + 4*guard42)
					}
				}
				tab = (**C.float)(m)
			}
			C.vs_bus(tables[d], C.int32_t(b), C.int32_t(len(bb.ch)), tab)
		}
	}
	data.numInputs, data.numOutputs = C.int32_t(len(dirs[0])), C.int32_t(len(dirs[1]))
	data.inputs, data.outputs = tables[0], tables[1]
	none := [2]bool{miss&2 != 0, miss&4 != 0}
	if none[0] {
		data.inputs = nil
	}
	if none[1] {
		data.outputs = nil
	}
	if none[0] && len(dirs[0]) > 0 || none[1] && len(dirs[1]) > 0 {
		h.probes["no-bus-table"]++
		h.nt = true
	}
	x := (*C.struct_Steinberg_Vst_ProcessContext)(h.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
	fl := func(i int) float64 { return o.Flt(i) }
	x.state = C.Steinberg_uint32(o.I[2])
	x.sampleRate, x.tempo = C.double(fl(0)), C.double(fl(1))
	x.projectTimeSamples, x.systemTime, x.continousTimeSamples = C.int64_t(o.I[3]), C.int64_t(o.I[3]^0x55), C.int64_t(-o.I[3])
	x.projectTimeMusic, x.barPositionMusic, x.cycleStartMusic, x.cycleEndMusic = C.double(fl(2)), C.double(fl(3)), C.double(fl(4)), C.double(fl(5))
	x.timeSigNumerator, x.timeSigDenominator, x.samplesToNextClock = C.int32_t(o.I[4]), C.int32_t(o.I[5]), C.int32_t(o.I[4]-o.I[5])
	data.processContext = x
	if miss&1 != 0 {
		data.processContext = nil
		h.probes["no-transport"]++
		h.nt = true
	}
	if frames == 0 {
		h.probes["empty-block"]++
	}
	if miss == 0 && frames > 0 && len(dirs[0]) > 0 && len(dirs[1]) > 0 {
		h.probes["all-there"]++
	}
	h.shape(uint64(miss), uint64(len(dirs[0])*8+len(dirs[1])), uint64(o.I[2]))
	h.evals++

	var v *vst3.ProcessDataWrapper
	if !h.w.guard("NewProcessDataWrapper", func() { v = vst3.NewProcessDataWrapper(ptr(data)) }) {
		return
	}
	if v == nil {
		h.fail("block %d has no view", k)
		return
	}
	if vst3.NewProcessDataWrapper(nil) != nil {
		h.fail("no block has a view")
	}
	if v.NumSamples() != int32(frames) {
		h.fail("block %d of %d frames has %d", k, frames, v.NumSamples())
		return
	}
	for d := range dirs {
		get := v.GetInput
		if d == 1 {
			get = v.GetOutput
		}
		for b := -1; b <= len(dirs[d])+1; b++ {
			var a *vst3.AudioBuffer
			if !h.w.guard("GetInput/GetOutput", func() { a = get(b) }) {
				return
			}
			there := b >= 0 && b < len(dirs[d]) && !none[d] && len(dirs[d][b].ch) > 0
			if (a != nil) != there {
				h.fail("block %d direction %d bus %d: view there %v, bus there %v", k, d, b, a != nil, there)
				return
			}
			if a == nil {
				continue
			}
			bb := dirs[d][b]
			if a.NumChannels() != len(bb.ch) || a.NumSamples() != int32(frames) {
				h.fail("block %d direction %d bus %d: %d channels of %d frames, the host gave %d of %d", k, d, b, a.NumChannels(), a.NumSamples(), len(bb.ch), frames)
				return
			}
			rt.Y(-78)
			for j := -1; j <= len(bb.ch)+1; j++ {
				s := a.GetChannel(j)
				if j < 0 || j >= len(bb.ch) || !bb.table || bb.ch[j] == nil {
					if s != nil {
						h.fail("block %d direction %d bus %d: channel %d is left out, but has %d frames", k, d, b, j, len(s))
						return
					}
					continue
				}
				if len(s) != frames || cap(s) != frames {
					h.fail("block %d direction %d bus %d channel %d: length %d, capacity %d, the host gave %d frames", k, d, b, j, len(s), cap(s), frames)
					return
				}
				mem := unsafe.Slice((*float32)(bb.ch[j]), frames+2*guard42)
				for f := range s {
					if s[f] != val(d, b, j, f) {
						h.fail("block %d direction %d bus %d channel %d frame %d: %v, the host wrote %v", k, d, b, j, f, s[f], val(d, b, j, f))
						return
					}
					s[f] = -s[f]
				}
				for f := range mem {
					w := float32(-99)
					if f >= guard42 && f < guard42+frames {
						w = -val(d, b, j, f-guard42)
					}
					if mem[f] != w {
						h.fail("block %d direction %d bus %d channel %d: host memory at %d is %v, written %v", k, d, b, j, f-guard42, mem[f], w)
						return
					}
				}
			}
		}
	}
	h.context(k, o, v, miss&1 == 0)
	if iid := [16]byte{byte(o.I[3]), 1, byte(o.I[2]), 15: byte(o.I[4])}; *(*[16]byte)(vst3.ToTUID(iid)) != iid {
		h.fail("ToTUID changed the interface ID")
	}
}

func (h *host42) context(k int, o core.Op, v *vst3.ProcessDataWrapper, there bool) {
	c := v.GetContext()
	if (c != nil) != there {
		h.fail("block %d: transport there %v, the host gave it: %v", k, c != nil, there)
		return
	}
	if c == nil {
		return
	}
	bits := func(f float64) uint64 { return math.Float64bits(f) }
	got := []uint64{uint64(c.State), bits(c.SampleRate), bits(c.Tempo), uint64(c.ProjectTimeSamples), uint64(c.SystemTime), uint64(c.ContinuousTimeSamples),
		bits(c.ProjectTimeMusic), bits(c.BarPositionMusic), bits(c.CycleStartMusic), bits(c.CycleEndMusic),
		uint64(c.TimeSigNumerator), uint64(c.TimeSigDenominator), uint64(c.SamplesToNextClock)}
	want := []uint64{uint64(uint32(o.I[2])), bits(o.Flt(0)), bits(o.Flt(1)), uint64(o.I[3]), uint64(o.I[3] ^ 0x55), uint64(-o.I[3]),
		bits(o.Flt(2)), bits(o.Flt(3)), bits(o.Flt(4)), bits(o.Flt(5)),
		uint64(int32(o.I[4])), uint64(int32(o.I[5])), uint64(int32(o.I[4] - o.I[5]))}
	names := []string{"state", "sample rate", "tempo", "project time", "system time", "continuous time", "musical time", "bar position", "cycle start", "cycle end", "numerator", "denominator", "samples to clock"}
	for i := range got {
		if got[i] != want[i] {
			h.fail("block %d: %s is %#x, the host wrote %#x", k, names[i], got[i], want[i])
			return
		}
	}
	st := uint32(o.I[2])
	flags := []struct {
		name string
		bit  uint
		got  bool
	}{{"playing", 1, c.IsPlaying()}, {"cycle", 2, c.IsCycleActive()}, {"recording", 3, c.IsRecording()}, {"tempo", 10, c.HasTempo()},
		{"time signature", 13, c.HasTimeSignature()}, {"bar position", 11, c.HasBarPosition()}, {"musical time", 9, c.HasProjectTimeMusic()}}
	for _, f := range flags {
		if f.got != (st>>f.bit&1 != 0) {
			h.fail("block %d: %s is %v with host flags %#x", k, f.name, f.got, st)
			return
		}
	}
}
