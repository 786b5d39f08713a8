package abi

// #include "host.h"
// #include <stdlib.h>
// #include <string.h>
import "C"

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fwplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/plugin"
)

// P26: processing blocks through IAudioProcessor.

const budget = 40_000_000

func init() {
	core.Register(&core.Check{
		ID: "P26", Quick: 30000, Thorough: 600000, RaceQuick: 1500, RaceThoro: 30000,
		Rule:      "A host creates the plugin through the factory and plays a session of blocks: 0-4 (at times 20) buses per direction of 0-20 channels (also in place), blocks of 0-600 samples (at times 16384), automation queues (equal, unsorted, negative and late offsets, unknown IDs, getPoint errors, NULL queues, up to 5000 points), note events, transport, setup and processing changes, panics of the plugin in any chunk; in half of the runs 1-2 further host threads switch processing, reconfigure, set other parameters and save state under a seeded schedule. Each block is compared with a sample-level reference model. Non-trivial: a block with automation or events, or a preemption.",
		StateRule: "distinct (chunks, points, events, layout, flags) shapes of a block and interleavings",
		Real:      []string{"bridge/*.c", "pkg/plugin", "pkg/framework/process.Context", "pkg/framework/param", "pkg/midi"},
		Stub:      []string{"host (vtable objects, buffers, threads)", "thread scheduler", "plugin author's ProcessAudio (recorder)", "VST3 header (stand-in)"},
		Assume:    []string{"the host passes valid buffers of numSamples samples and blocks not larger than maxSamplesPerBlock"},
		Gen:       genP26,
		Exec:      execP26,
		Must:      []string{"automated", "noted", "panicked", "flush", "not-processing", "wide", "concurrent", "long-block", "many-points", "many-events"},
	})
}

func layout(g *core.R, must bool) string {
	n := g.Pick(0, 1, 1, 1, 1, 2, 2, 3, 4)
	if must && n == 0 {
		n = 1
	}
	if g.Chance(0.02) {
		n = g.Range(5, 20)
	}
	var s []string
	for ; n > 0; n-- {
		s = append(s, fmt.Sprint(g.Pick(1, 1, 2, 2, 2, 2, 6, 8, 12, 20, 0)))
	}
	return strings.Join(s, ",")
}

func parseLayout(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(f); err == nil {
			out = append(out, n)
		}
	}
	return out
}

// position is a transport position in samples.
func position(g *core.R) int64 {
	if g.Chance(0.3) {
		return int64(g.U64()>>1) >> g.Range(0, 62) * int64(g.Pick(1, 1, -1))
	}
	return int64(g.N(1 << 30))
}

func genP26(g *core.R, i int) *core.Case {
	c := &core.Case{}
	np := g.Pick(0, 1, 2, 3, 6)
	c.Set("np", int64(np))
	c.SetS("in", layout(g, false))
	c.SetS("out", layout(g, true))
	maxb := g.Pick(1, 16, 64, 64, 256, 600)
	if g.Chance(0.02) {
		maxb = g.Pick(2048, 8192, 8200, 16384)
	}
	c.Set("maxb", int64(maxb))
	multi := i%2 == 1 && g.Chance(0.9)
	wild := g.Chance(0.3)
	var ops []core.Op
	for b := g.Range(1, 8); b > 0; b-- {
		n := g.Range(1, maxb)
		if g.Chance(0.1) {
			n = 0
		} else if g.Chance(0.3) {
			n = maxb
		}
		off := func() int64 {
			if wild && g.Chance(0.1) {
				return int64(g.PickF(-1, -100, float64(n), float64(n)+7, 1<<30, -(1 << 30)))
			}
			if g.Chance(0.3) {
				return int64(g.Pick(0, 0, n-1, n/2, 1))
			}
			return int64(g.N(n + 1))
		}
		if np > 0 && g.Chance(0.7) {
			k := g.Pick(1, 1, 2, 3, 5, 10)
			if g.Chance(0.05) {
				k = g.Range(100, 400)
				if g.Chance(0.3) {
					k = g.Range(1000, 5000)
				}
			}
			var offs []int64
			for j := 0; j < k; j++ {
				offs = append(offs, off())
			}
			if g.Chance(0.8) {
				sort.Slice(offs, func(a, b int) bool { return offs[a] < offs[b] })
			}
			for j := 0; j < k; j++ {
				v := g.F()
				if g.Chance(0.1) {
					v = g.PickF(0, 1, 1.5, -0.5, math.NaN(), 0.5)
				}
				fl := int64(0)
				if wild && g.Chance(0.1) {
					fl = 1
				}
				pi := g.N(np)
				if wild && g.Chance(0.1) {
					pi = np + g.N(2)
				}
				ops = append(ops, core.Op{K: "pt", I: []int64{int64(pi), offs[j], fl}, F: []core.X{core.X(v)}})
			}
			if wild && g.Chance(0.1) {
				ops = append(ops, core.Op{K: "nullq", I: []int64{int64(g.N(3))}})
			}
		}
		if g.Chance(0.6) {
			k := g.Pick(1, 1, 2, 3, 6, 12)
			if g.Chance(0.03) {
				k = g.Pick(130, 260, 600, 1100, 3000)
			}
			var offs []int64
			for j := 0; j < k; j++ {
				offs = append(offs, off())
			}
			if g.Chance(0.8) {
				sort.Slice(offs, func(a, b int) bool { return offs[a] < offs[b] })
			}
			for j := 0; j < k; j++ {
				fl := int64(0)
				if wild && g.Chance(0.1) {
					fl = 1
				}
				ops = append(ops, core.Op{K: "ev", I: []int64{int64(g.Pick(0, 0, 0, 1, 1, 3, 2, 65535)), offs[j], int64(g.N(16)), int64(g.N(128)), fl},
					F: []core.X{core.X(g.PickF(0.5, 1, 0, 0.3, 0.0039, 0.997, 1.5, -1, math.NaN(), g.F()))}})
			}
		}
		if g.Chance(0.5) {
			ops = append(ops, core.Op{K: "ctx", I: []int64{int64(g.U64() & 0x7ffff), position(g), position(g), int64(g.Range(1, 12)), int64(g.Pick(1, 2, 4, 8)), int64(g.N(4000))},
				F: []core.X{core.X(g.FR(20, 300)), core.X(g.FR(0, 1000)), core.X(g.FR(0, 1000)), core.X(g.FR(0, 100)), core.X(g.FR(100, 200))}})
		}
		if g.Chance(0.12) {
			ops = append(ops, core.Op{K: "panic", I: []int64{int64(g.N(4))}})
		}
		ops = append(ops, core.Op{K: "block", I: []int64{int64(n), int64(g.Pick(0, 0, 0, 1, 2, 3))}})
		if g.Chance(0.15) {
			switch g.N(4) {
			case 0:
				ops = append(ops, core.Op{K: "proc", I: []int64{int64(g.Pick(0, 0, 0, 1, 1, 2, 255))}})
			case 1:
				ops = append(ops, core.Op{K: "setup", I: []int64{int64(g.Pick(maxb, maxb, 0, 0, 1, maxb/2, g.Range(1, maxb)))}, F: []core.X{core.X(g.PickF(44100, 48000, 96000, 192000, 8000, 22050.5, 384000))}})
			case 2:
				ops = append(ops, core.Op{K: "set", I: []int64{int64(g.N(np + 1))}, F: []core.X{core.X(g.F())}})
			default:
				ops = append(ops, core.Op{K: "active", I: []int64{int64(g.N(2))}})
			}
		}
		if !multi && g.Chance(0.1) {
			ops = append(ops, core.Op{K: "proc", I: []int64{1}})
		}
	}
	c.Threads = [][]core.Op{ops}
	if multi {
		for t := g.Range(1, 2); t > 0; t-- {
			var ui []core.Op
			for k := g.Range(1, 8); k > 0; k-- {
				switch g.N(8) {
				case 0, 1:
					ui = append(ui, core.Op{K: "proc", I: []int64{int64(g.Pick(0, 0, 0, 1, 1, 2, 255))}})
				case 2:
					ui = append(ui, core.Op{K: "setup", I: []int64{int64(maxb)}, F: []core.X{core.X(g.PickF(44100, 48000, 96000, 192000))}})
				case 3, 4:
					ui = append(ui, core.Op{K: "uiset", I: []int64{int64(g.N(2))}, F: []core.X{core.X(g.F())}})
				case 5:
					ui = append(ui, core.Op{K: "active", I: []int64{int64(g.N(2))}})
				case 6:
					ui = append(ui, core.Op{K: "save"})
				default:
					ui = append(ui, core.Op{K: "query"})
				}
			}
			c.Threads = append(c.Threads, ui)
		}
		c.Scheds = append(c.Scheds, core.GenSched(g, len(c.Threads), 4000, false))
	}
	return c
}

const guardV = float32(12345.5)
const guardN = 8

type blocks struct {
	w       *world
	r       *core.Rec
	in      *instance
	p       *proc
	ids     []uint32 // automated parameters
	uiIDs   []uint32
	vals    []float64
	inB     []int
	outB    []int
	maxb    int // capacity of the buffers
	curb    int // announced to the plugin
	multi   bool
	proc    bool
	srs     map[float64]bool // every rate configured so far (concurrent runs)
	sr      float64
	ch      *changes
	chObj   ptr
	ev      *events
	evObj   ptr
	data    *C.struct_Steinberg_Vst_ProcessData
	ctx     *C.struct_Steinberg_Vst_ProcessContext
	ins     *C.struct_Steinberg_Vst_AudioBusBuffers
	outs    *C.struct_Steinberg_Vst_AudioBusBuffers
	slab    []float32
	chanIn  []int // start of each input channel in slab
	chanOut []int
	pIn     []*C.float
	pOut    []*C.float
	count   int64 // samples played

	pts    []core.Op
	evs    []core.Op
	nullq  map[int]bool
	ctxOp  *core.Op
	evals  int64
	probes map[string]int
	faults map[string]int
	shapes []uint64
}

func mkReg(ids []uint32) *param.Registry {
	reg := param.NewRegistry()
	for k, id := range ids {
		reg.Add(param.New(id, fmt.Sprintf("P%d", k)).Range(0, 10).Default(2.5).Build())
	}
	return reg
}

func newBlocks(c *core.Case, r *core.Rec, multi bool) *blocks {
	b := &blocks{w: newWorld(r), r: r, multi: multi, srs: map[float64]bool{}, probes: map[string]int{}, faults: map[string]int{}}
	b.inB, b.outB = parseLayout(c.CfgS["in"]), parseLayout(c.CfgS["out"])
	chans := 0
	for _, n := range append(append([]int{}, b.inB...), b.outB...) {
		chans += n
	}
	if chans == 0 { // without a channel the plugin cannot tell the block's length
		b.outB = append(b.outB, 1)
	}
	b.maxb = int(c.Cfg["maxb"])
	np := int(c.Cfg["np"])
	for k := 0; k < np; k++ {
		b.ids = append(b.ids, uint32(10+7*k))
	}
	b.uiIDs = []uint32{1000, 1001}
	b.p = &proc{reg: mkReg(append(append([]uint32{}, b.ids...), b.uiIDs...)), ids: b.ids, panicIn: -1}
	b.p.gate = true
	bb := bus.NewBuilder()
	for k, n := range b.inB {
		bb = bb.WithAudioInput(fmt.Sprintf("in%d", k), int32(n))
	}
	for k, n := range b.outB {
		bb = bb.WithAudioOutput(fmt.Sprintf("out%d", k), int32(n))
	}
	cfg, err := bb.WithEventInput("ev").Build()
	if err != nil {
		cfg = bus.NewStereoConfiguration()
	}
	b.p.bus = cfg
	pl := &plug{info: fwplugin.Info{ID: "vs.blocks", Name: "Blocks"}, create: func() plugin.Processor { return b.p }}
	in, why := b.w.open(pl)
	if why != "" {
		r.Fail("create", "create", "%s", why)
		return nil
	}
	b.in = in
	b.in.p = b.p
	for k := 0; k < np+len(b.uiIDs); k++ {
		b.vals = append(b.vals, 0)
	}
	b.vals = b.vals[:np]
	for k, id := range b.ids {
		b.vals[k] = float64(C.e_get(in.ctl, C.uint32_t(id)))
	}
	// Buffers: one C slab; every channel between guards.
	tot := 0
	for _, n := range append(append([]int{}, b.inB...), b.outB...) {
		tot += n
	}
	size := tot*(b.maxb+2*guardN) + guardN
	b.slab = unsafe.Slice((*float32)(b.w.alloc(size*4)), size)
	at := guardN
	bufs := func(l []int, starts *[]int) (*C.struct_Steinberg_Vst_AudioBusBuffers, []*C.float) {
		nb := C.vs_buses(C.int32_t(len(l)))
		b.w.mem = append(b.w.mem, ptr(nb))
		n := 0
		for _, k := range l {
			n += k
		}
		if n == 0 {
			return nb, nil
		}
		ps := unsafe.Slice((**C.float)(b.w.alloc(n*8)), n)
		k := 0
		for i, cnt := range l {
			for j := 0; j < cnt; j++ {
				ps[k+j] = (*C.float)(ptr(&b.slab[at]))
				*starts = append(*starts, at)
				at += b.maxb + 2*guardN
			}
			if cnt > 0 {
				C.vs_bus(nb, C.int32_t(i), C.int32_t(cnt), (**C.float)(ptr(&ps[k])))
			}
			k += cnt
		}
		return nb, ps
	}
	b.ins, b.pIn = bufs(b.inB, &b.chanIn)
	b.outs, b.pOut = bufs(b.outB, &b.chanOut)
	b.chObj, b.ch = b.w.newChanges(np + 2)
	b.ev = &events{}
	b.evObj = b.w.add(kEvents, b.ev)
	b.data = (*C.struct_Steinberg_Vst_ProcessData)(b.w.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	b.ctx = (*C.struct_Steinberg_Vst_ProcessContext)(b.w.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
	b.nullq = map[int]bool{}
	b.sr = 48000
	ok := C.c_init(in.comp, nil) == 0 && b.setup(b.sr, b.maxb) && C.c_active(in.comp, 1) == 0 && C.a_setproc(in.aud, 1) == 0
	if !ok {
		r.Fail("start", "start", "initialize, setupProcessing, setActive or setProcessing failed")
		return nil
	}
	b.proc = true
	return b
}

func (b *blocks) setup(sr float64, n int) bool {
	b.srs[sr] = true
	n = min(n, b.maxb)
	if n > 0 {
		b.curb = n
	}
	rc := C.a_setup(b.in.aud, 0, 0, C.int32_t(n), C.double(sr))
	if rc == 0 {
		b.sr = sr
	}
	return rc == 0
}

func clamp1(v float64) float64 {
	if !(v >= 0) {
		return 0
	}
	return min(v, 1)
}

func vel7(v float64) int {
	if !(v > 0) {
		return 0
	}
	return int(math.Round(min(v, 1) * 127))
}

func (b *blocks) fail(class, f string, a ...any) {
	b.r.Fail(class, class, f, a...)
}

func (b *blocks) op(o core.Op) {
	in := b.in
	rt.Y(-70)
	switch o.K {
	case "pt":
		b.pts = append(b.pts, o)
	case "nullq":
		b.nullq[int(o.Int(0))] = true
	case "ev":
		b.evs = append(b.evs, o)
	case "ctx":
		b.ctxOp = &o
	case "panic":
		b.p.panicIn = int(o.Int(0))
	case "proc":
		if C.a_setproc(in.aud, C.int32_t(o.Int(0))) != 0 {
			b.fail("call-failed", "setProcessing failed")
		}
		b.proc = o.Int(0) != 0
	case "setup":
		n := int(o.Int(0))
		if b.multi {
			n = b.maxb
		}
		if !b.setup(o.Flt(0), n) {
			b.fail("call-failed", "setupProcessing failed")
		}
	case "active":
		if C.c_active(in.comp, C.int32_t(o.Int(0))) != 0 {
			b.fail("call-failed", "setActive failed")
		}
	case "set":
		if k := int(o.Int(0)); k < len(b.ids) {
			if C.e_set(in.ctl, C.uint32_t(b.ids[k]), C.double(o.Flt(0))) != 0 {
				b.fail("call-failed", "setParamNormalized failed")
			}
			b.vals[k] = clamp1(o.Flt(0))
		}
	case "block":
		b.block(int(o.Int(0)), o.Int(1))
	}
}

type refPoint struct {
	k   int // index in b.ids
	off int
	v   float64
}

func (b *blocks) block(n int, flags int64) {
	n = min(n, b.curb)
	r, p := b.r, b.p
	b.evals++
	inplace := flags&1 != 0
	nullLists := flags&2 != 0
	// Buffers.
	for i := range b.slab {
		b.slab[i] = guardV
	}
	for c, s := range b.chanIn {
		for i := 0; i < n; i++ {
			b.slab[s+i] = inVal(b.count+int64(i), c)
		}
	}
	for c, s := range b.chanOut {
		if inplace && c < len(b.chanIn) {
			b.pOut[c] = b.pIn[c]
			continue
		}
		b.pOut[c] = (*C.float)(ptr(&b.slab[s]))
		for i := 0; i < n; i++ {
			b.slab[s+i] = -1
		}
	}
	// Automation, as queues in the order of first use.
	for _, q := range b.ch.qs {
		q.pts, q.null = nil, false
	}
	b.ch.count = 0
	slot := map[int]int{}
	var ref []refPoint
	var late []float64
	nq := 0
	for _, o := range b.pts {
		k := int(o.Int(0))
		s, ok := slot[k]
		if !ok {
			if nq >= len(b.ch.qs) {
				continue
			}
			s = nq
			nq++
			slot[k] = s
			q := b.ch.qs[s]
			q.null = b.nullq[s]
			if k < len(b.ids) {
				q.id = b.ids[k]
			} else {
				q.id = uint32(5000 + k)
			}
		}
		b.ch.qs[s].pts = append(b.ch.qs[s].pts, point{int32(o.Int(1)), o.Flt(0), o.Int(2)&1 != 0})
	}
	b.ch.count = nq
	for s := 0; s < nq; s++ {
		q := b.ch.qs[s]
		k := -1
		for j, id := range b.ids {
			if id == q.id {
				k = j
			}
		}
		for _, pt := range q.pts {
			switch {
			case q.null:
				b.faults["null-queue"]++
			case pt.fail:
				b.faults["getpoint-error"]++
			case k >= 0:
				ref = append(ref, refPoint{k, int(pt.off), clamp1(pt.v)})
				if int(pt.off) >= n {
					late = append(late, clamp1(pt.v))
				}
				if int(pt.off) >= n || pt.off < 0 {
					b.faults["offset-out-of-range"]++
				}
			}
		}
	}
	sort.SliceStable(ref, func(i, j int) bool { return ref[i].off < ref[j].off })
	// Events.
	b.ev.ev = nil
	if n > 0 {
		for _, o := range b.evs {
			b.ev.ev = append(b.ev.ev, hostEvent{int32(o.Int(0)), 0, int32(o.Int(1)), int32(o.Int(2)), int32(o.Int(3)), float32(o.Flt(0)), o.Int(4)&1 != 0})
		}
	}
	type refEv struct {
		off int
		s   string
	}
	var evs []refEv
	for _, e := range b.ev.ev {
		if e.fail {
			b.faults["getevent-error"]++
			continue
		}
		kind := "on"
		if e.typ == 1 {
			kind = "off"
		}
		if e.typ > 1 {
			continue
		}
		evs = append(evs, refEv{min(max(int(e.off), 0), n-1), fmt.Sprintf("%s c%d n%d v%d", kind, e.ch, e.pitch, vel7(float64(e.vel)))})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].off < evs[j].off })
	// ProcessData.
	d := b.data
	*d = C.struct_Steinberg_Vst_ProcessData{}
	d.numSamples = C.int32_t(n)
	d.numInputs, d.numOutputs = C.int32_t(len(b.inB)), C.int32_t(len(b.outB))
	if len(b.inB) > 0 {
		d.inputs = b.ins
	}
	if len(b.outB) > 0 {
		d.outputs = b.outs
	}
	if len(b.pts) > 0 || !nullLists {
		d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(b.chObj)
	}
	if len(b.ev.ev) > 0 || !nullLists {
		d.inputEvents = (*C.struct_Steinberg_Vst_IEventList)(b.evObj)
	}
	want, loose := b.transport(d)

	first := len(p.chunks)
	total := p.total
	overlap := p.overlap
	armed := p.panicIn >= 0
	var rc int32
	if !b.w.guard("process", func() { rc = int32(C.a_process(b.in.aud, ptr(d))) }) {
		return
	}
	got := p.chunks[first:]
	if p.overlap != overlap {
		b.fail("overlap", "%s ran while a block was being processed", p.overlap)
		return
	}
	panicked := false
	for _, c := range got {
		panicked = panicked || c.panics
	}
	b.pts, b.evs, b.ctxOp, b.nullq = nil, nil, nil, map[int]bool{}
	defer func() {
		b.count += int64(n)
		if len(p.chunks) > 4096 {
			p.chunks = nil
		}
	}()
	resync := func() {
		for k, id := range b.ids {
			b.vals[k] = float64(C.e_get(b.in.ctl, C.uint32_t(id)))
		}
	}
	// Guards and inputs, whatever happened.
	if !b.guards(n, inplace) {
		return
	}
	b.shapes = append(b.shapes, core.HashU(core.HashU(core.HashU(uint64(len(got)), uint64(len(ref))), uint64(len(evs))), uint64(len(b.chanIn)*100+len(b.chanOut))+uint64(flags)<<32))
	if panicked {
		b.probes["panicked"]++
		b.faults["plugin-panic"]++
		if rc == 0 {
			b.fail("panic-hidden", "the plugin panicked while processing, but process returned success")
		}
		resync()
		return
	}
	if armed && p.panicIn >= 0 {
		p.panicIn = -1
	}
	if rc != 0 {
		b.fail("call-failed", "process returned %d for a block of %d samples, %d points, %d events", rc, n, len(ref), len(evs))
		resync()
		return
	}
	if len(got) == 0 && n > 0 {
		if !b.multi && b.proc {
			b.fail("not-processed", "a block of %d samples was not passed to the plugin", n)
			return
		}
		b.probes["not-processing"]++
		resync()
		return
	}
	if !b.multi && !b.proc {
		if len(got) > 0 {
			b.fail("processed-while-off", "the plugin was called although processing is switched off")
		}
		resync()
		return
	}
	if n == 0 {
		b.probes["flush"]++
	}
	if b.multi && len(got) == 0 {
		// a flush: processed or not is not visible
		resync()
		return
	}
	// Samples.
	at := 0
	vi := 0 // visible changes compared
	var vis []refPoint
	for _, c := range got {
		if c.nin != len(b.chanIn) || c.nout != len(b.chanOut) {
			b.fail("channels", "the plugin sees %d input and %d output channels, the host passed %d and %d", c.nin, c.nout, len(b.chanIn), len(b.chanOut))
			return
		}
		if at+c.n > n {
			b.fail("samples", "the chunks of a block of %d samples cover at least %d", n, at+c.n)
			return
		}
		for ch := range c.in {
			if len(c.in[ch]) != c.n {
				b.fail("samples", "input channel %d has %d samples, the chunk %d", ch, len(c.in[ch]), c.n)
				return
			}
			for i, v := range c.in[ch] {
				if e := inVal(b.count+int64(at+i), ch); v != e {
					b.fail("samples", "input channel %d, sample %d of %d: the plugin sees %v instead of %v", ch, at+i, n, v, e)
					return
				}
			}
		}
		if b.multi {
			if !b.srs[c.sr] || c.sr != got[0].sr {
				b.fail("sample-rate", "sample rate %v in a block that began with %v", c.sr, got[0].sr)
				return
			}
		} else if c.sr != b.sr {
			b.fail("sample-rate", "the plugin sees the sample rate %v, configured is %v", c.sr, b.sr)
			return
		}
		if t := c.tr; t != want {
			if loose {
				t.ContinuousTimeSamples = want.ContinuousTimeSamples
			}
			if t != want {
				b.fail("transport", "transport %+v, the host sent %+v", c.tr, want)
				return
			}
		}
		// Parameter values: constant over the chunk, and those in effect at it.
		for k := range b.ids {
			e := b.vals[k]
			for _, pt := range ref {
				if pt.k != k {
					continue
				}
				if pt.off <= at {
					e = pt.v
				} else if pt.off < at+c.n && e != pt.v {
					b.fail("automation", "parameter %d changes at sample %d, but samples %d to %d are processed in one piece", b.ids[k], pt.off, at, at+c.n-1)
					return
				}
			}
			if n > 0 && c.vals[k] != e {
				b.fail("automation", "parameter %d is %v for samples %d to %d of %d, automation says %v (points %v, before %v)", b.ids[k], c.vals[k], at, at+c.n-1, n, e, ref, b.vals[k])
				return
			}
		}
		for _, ch := range c.changes {
			for k, id := range b.ids {
				if id == ch.ParamID {
					vis = append(vis, refPoint{k, at + ch.SampleOffset, clamp1(ch.Value)})
				}
			}
		}
		var es []string
		for _, e := range evs {
			if e.off >= at && e.off < at+c.n {
				es = append(es, fmt.Sprintf("%d %s", e.off-at, e.s))
			}
		}
		if fmt.Sprint(es) != fmt.Sprint(c.events) {
			b.fail("events", "samples %d to %d of %d: the plugin sees events %v, expected %v", at, at+c.n-1, n, c.events, es)
			return
		}
		at += c.n
	}
	if at != n {
		b.fail("samples", "the plugin processed %d of %d samples", at, n)
		return
	}
	_ = vi
	if n > 0 {
		var exp []refPoint
		for _, pt := range ref {
			if pt.off < n {
				exp = append(exp, refPoint{pt.k, max(pt.off, 0), pt.v})
			}
		}
		var seen []refPoint
	next:
		for _, v := range vis {
			for _, l := range late {
				if l == v.v && !contains(exp, v) {
					continue next
				}
			}
			seen = append(seen, v)
		}
		if fmt.Sprint(exp) != fmt.Sprint(seen) {
			b.fail("changes", "block of %d samples: the plugin sees the changes %v, the host sent %v", n, seen, exp)
			return
		}
	}
	// Outputs.
	for ch := range b.chanOut {
		o := unsafe.Slice((*float32)(ptr(b.pOut[ch])), n+1)
		for i := 0; i < n; i++ {
			if e := outVal(total+int64(i), ch); o[i] != e {
				b.fail("output", "output channel %d, sample %d of %d is %v, the plugin wrote %v", ch, i, n, o[i], e)
				return
			}
		}
	}
	// Values after the block.
	for _, pt := range ref {
		b.vals[pt.k] = pt.v
	}
	for k, id := range b.ids {
		if v := float64(C.e_get(b.in.ctl, C.uint32_t(id))); v != b.vals[k] {
			b.fail("automation", "after a block of %d samples parameter %d is %v, the last point says %v", n, id, v, b.vals[k])
			return
		}
	}
	if len(ref) > 0 {
		b.probes["automated"]++
	}
	if n > 600 {
		b.probes["long-block"]++
	}
	if len(ref) > 1000 {
		b.probes["many-points"]++
	}
	if len(evs) > 512 {
		b.probes["many-events"]++
	}
	if len(evs) > 0 {
		b.probes["noted"]++
	}
	if len(b.chanIn) > 16 || len(b.inB) > 1 {
		b.probes["wide"]++
	}
	_ = r
}

func contains(l []refPoint, v refPoint) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (b *blocks) guards(n int, inplace bool) bool {
	used := map[int]bool{}
	mark := func(starts []int) {
		for _, s := range starts {
			for i := 0; i < n; i++ {
				used[s+i] = true
			}
		}
	}
	if len(b.slab) < 20000 {
		mark(b.chanIn)
		mark(b.chanOut)
		for i, v := range b.slab {
			if !used[i] && v != guardV {
				b.fail("out-of-bounds", "memory outside the host's buffers was written (%v)", v)
				return false
			}
		}
	}
	for c, s := range b.chanIn {
		if inplace && c < len(b.chanOut) {
			continue
		}
		for i := 0; i < n; i++ {
			if b.slab[s+i] != inVal(b.count+int64(i), c) {
				b.fail("input-written", "input channel %d was modified", c)
				return false
			}
		}
	}
	return true
}

// transport fills the host's context and returns what the plugin has to see.
func (b *blocks) transport(d *C.struct_Steinberg_Vst_ProcessData) (t process.TransportInfo, loose bool) {
	o := b.ctxOp
	if o == nil {
		return
	}
	x := b.ctx
	*x = C.struct_Steinberg_Vst_ProcessContext{}
	st := uint32(o.Int(0))
	x.state = C.uint32_t(st)
	x.sampleRate = C.double(b.sr)
	x.projectTimeSamples = C.int64_t(o.Int(1))
	x.continousTimeSamples = C.int64_t(o.Int(2))
	x.timeSigNumerator, x.timeSigDenominator = C.int32_t(o.Int(3)), C.int32_t(o.Int(4))
	x.samplesToNextClock = C.int32_t(o.Int(5))
	x.tempo, x.projectTimeMusic, x.barPositionMusic = C.double(o.Flt(0)), C.double(o.Flt(1)), C.double(o.Flt(2))
	x.cycleStartMusic, x.cycleEndMusic = C.double(o.Flt(3)), C.double(o.Flt(4))
	d.processContext = x
	on := func(bit uint) bool { return st&(1<<bit) != 0 }
	t.IsPlaying, t.IsCycling, t.IsRecording = on(1), on(2), on(3)
	t.ProjectTimeSamples, t.ContinuousTimeSamples = o.Int(1), o.Int(2)
	loose = !on(17)
	if on(9) {
		t.HasMusicalTime, t.ProjectTimeMusic = true, o.Flt(1)
	}
	if on(10) {
		t.HasTempo, t.Tempo = true, o.Flt(0)
	}
	if on(11) {
		t.HasBarPosition, t.BarPositionMusic = true, o.Flt(2)
	}
	if on(12) {
		t.HasCycle, t.CycleStartMusic, t.CycleEndMusic = true, o.Flt(3), o.Flt(4)
	}
	if on(13) {
		t.HasTimeSignature, t.TimeSigNumerator, t.TimeSigDenominator = true, int32(o.Int(3)), int32(o.Int(4))
	}
	if on(15) {
		t.SamplesToNextClock = int32(o.Int(5))
	}
	return
}

func (b *blocks) ui(o core.Op, s *stream, sObj ptr) {
	in := b.in
	rt.Y(-71)
	switch o.K {
	case "proc":
		if C.a_setproc(in.aud, C.int32_t(o.Int(0))) != 0 {
			b.fail("call-failed", "setProcessing failed")
		}
	case "setup":
		if C.a_setup(in.aud, 0, 0, C.int32_t(b.maxb), C.double(o.Flt(0))) != 0 {
			b.fail("call-failed", "setupProcessing failed")
		}
	case "uiset":
		id := b.uiIDs[o.Int(0)%2]
		if C.e_set(in.ctl, C.uint32_t(id), C.double(o.Flt(0))) != 0 {
			b.fail("call-failed", "setParamNormalized failed")
		}
	case "active":
		if C.c_active(in.comp, C.int32_t(o.Int(0))) != 0 {
			b.fail("call-failed", "setActive failed")
		}
	case "save":
		s.b, s.pos = nil, 0
		if C.c_getstate(in.comp, sObj) != 0 {
			b.fail("call-failed", "getState failed")
		}
	case "query":
		if n := C.e_count(in.ctl); int(n) != len(b.ids)+2 {
			b.fail("call-failed", "getParameterCount returned %d", int(n))
		}
		C.a_latency(in.aud)
		C.c_buscount(in.comp, 0, 0)
	}
}

func execP26(c *core.Case, r *core.Rec) {
	multi := len(c.Threads) > 1
	var b *blocks
	ok := false
	setup := func() {
		if b = newBlocks(c, r, multi); b != nil {
			ok = true
		}
	}
	if f, st := rt.Solo(budget, setup); f != "" {
		r.Fail("start-"+f, "start-failure", "%s\n%s", f, st)
		return
	}
	if !ok {
		return
	}
	audio := func() {
		for _, o := range c.Threads[0] {
			if r.Failed() || rt.Aborting() {
				return
			}
			b.op(o)
		}
	}
	if multi {
		for _, t := range c.Threads {
			for _, o := range t {
				if o.K == "setup" {
					b.srs[o.Flt(0)] = true
				}
			}
		}
		fns := []func(){audio}
		for k := 1; k < len(c.Threads); k++ {
			s := newStream(nil)
			obj := b.w.add(kStream, s)
			ops := c.Threads[k]
			fns = append(fns, func() {
				for _, o := range ops {
					if rt.Aborting() {
						return
					}
					b.ui(o, s, obj)
				}
			})
		}
		b.probes["concurrent"]++
		r.Run(budget, fns...)
	} else {
		solo(r, audio)
	}
	for _, k := range []string{"automated", "noted", "panicked", "flush", "not-processing", "wide", "concurrent", "long-block", "many-points", "many-events"} {
		if b.probes[k] > 0 {
			r.Probe(k)
		}
	}
	for _, k := range []string{"null-queue", "getpoint-error", "offset-out-of-range", "getevent-error", "plugin-panic"} {
		if b.faults[k] > 0 {
			r.FaultN(k, b.faults[k])
		}
	}
	for _, h := range b.shapes {
		r.State(h)
		r.Observe(h)
	}
	if b.probes["automated"]+b.probes["noted"] > 0 {
		r.NonTriv = true
	}
	r.Evals += b.evals
	r.Observe(uint64(b.p.total))
	r.SimNs += float64(b.count) / 48000 * 1e9
	if r.Failed() {
		return
	}
	b.in.close()
	b.w.drained("after releasing the instance")
}

// solo runs fn outside the scheduler; a step overrun swallowed by the code
// under test still counts.
func solo(r *core.Rec, fn func()) {
	if f, st := rt.Solo(budget, fn); f != "" {
		r.Fail("run-"+f, "run-failure", "%s\n%s", f, st)
	} else if rt.Steps() > budget {
		r.Fail("no-progress", "no-progress", "step budget exhausted (no progress)")
	}
}
