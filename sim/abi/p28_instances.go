package abi

// #include "host.h"
import "C"

import (
	"fmt"
	"runtime"
	"strings"
	"unicode/utf8"
	"unsafe"
	"weak"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fwplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
)

// P28: factory, instances, interfaces and their lifetime.

func init() {
	core.Register(&core.Check{
		ID: "P28", Quick: 52000, Thorough: 1040000, RaceQuick: 1200, RaceThoro: 24000,
		Rule:      "A host takes and returns factory references, creates instances by right and wrong class and interface IDs, asks every facet for every interface, adds and releases references, sets parameters, initializes, sets up, activates, queries buses, latency and tail, and releases everything in any order; now and then up to 70000 references are held at once or up to 66000 further instances come and go; faults: the plugin returns no processor, panics or fails in any call, memory runs out at the n-th allocation. Half of the runs use 2-3 host threads with instances of their own and one shared instance. Every 200th run also checks that released instances become garbage. Non-trivial: at least two instances or a fault.",
		StateRule: "distinct (operation, outcome, live references) tuples and interleavings",
		Real:      []string{"bridge/*.c", "pkg/plugin (factory, component table, IComponent, IAudioProcessor)", "pkg/framework/bus", "pkg/framework/plugin.Info"},
		Stub:      []string{"host", "thread scheduler", "C allocator (guards, quarantine, scripted failure)", "plugin author's processor", "VST3 header (stand-in)"},
		Assume:    []string{"a host does not use an interface after releasing its last reference to the instance"},
		Gen:       genP28,
		Exec:      execP28,
		Must:      []string{"created", "refused", "freed", "qi", "plugin-error", "concurrent", "out-of-memory", "gc", "factory-again", "bus-info", "capabilities", "many-references", "churn"},
	})
}

func genP28(g *core.R, i int) *core.Case {
	c := &core.Case{}
	conc := i%2 == 1
	name := ""
	for n := g.Pick(0, 1, 5, 20, 62, 63, 64, 80, 300); n > 0; n-- {
		name += string(rune(g.Pick('a', 'b', ' ', 'é', 0x4e2d, 0x1f600)))
	}
	c.SetS("name", name)
	c.SetS("in", layout(g, false))
	c.SetS("out", layout(g, true))
	c.SetS("busname", strings.Repeat(string(rune(g.Pick('x', 'é', 0x1f600))), g.Pick(0, 1, 63, 64, 126, 127, 128, 200)))
	c.Set("aux", int64(g.N(3)))
	c.Set("off", int64(g.N(4)))
	if i%200 == 0 {
		c.Set("gc", 1)
	}
	mk := func(n int) []core.Op {
		var ops []core.Op
		mb, sr := int64(512), 48000.0
		if g.Chance(0.2) {
			n *= 4
		}
		for ; n > 0; n-- {
			slot := int64(g.N(3))
			k := g.N(18)
			if k > 14 {
				k = 11
			}
			switch k {
			case 0:
				ops = append(ops, core.Op{K: "factory"})
			case 1:
				ops = append(ops, core.Op{K: "frel"})
			case 2, 3, 4:
				f := int64(0)
				if !conc && g.Chance(0.4) {
					f = int64(g.Range(1, 4))
				}
				cid := int64(0)
				if g.Chance(0.1) {
					cid = int64(g.Range(1, 17))
				}
				ops = append(ops, core.Op{K: "create", I: []int64{slot, cid, int64(g.Pick(0, 1, 2, 2, 2, 3, 4, 5, 6, 7)), f, int64(g.Range(1, 4))}})
			case 5, 6:
				ops = append(ops, core.Op{K: "qi", I: []int64{slot, int64(g.N(3)), int64(g.N(8))}})
			case 7:
				ops = append(ops, core.Op{K: "add", I: []int64{slot, int64(g.N(3))}})
			case 8, 9:
				ops = append(ops, core.Op{K: "rel", I: []int64{slot, int64(g.N(3))}})
			case 10:
				ops = append(ops, core.Op{K: "set", I: []int64{slot}, F: []core.X{core.X(g.F())}})
			case 11:
				f := int64(0)
				if g.Chance(0.4) {
					f = int64(g.Range(1, 2))
				}
				// Often what was configured before is configured again.
				if g.Chance(0.4) {
					mb = int64(g.Pick(1, 64, 512, 8192, 10000))
				}
				if g.Chance(0.4) {
					sr = g.PickF(44100, 48000, 96000)
				}
				ops = append(ops, core.Op{K: "life", I: []int64{slot, int64(g.Pick(0, 1, 1, 1, 2, 2, 3, 4, 5)), f, mb}, F: []core.X{core.X(sr)}})
			case 12:
				ops = append(ops, core.Op{K: "query", I: []int64{slot, int64(g.N(9))}})
			case 13:
				if g.Chance(0.03) {
					ops = append(ops, core.Op{K: "many", I: []int64{slot, int64(g.N(3)), int64(g.Pick(120, 130, 256, 300, 1000, 33000, 70000))}})
				} else if !conc && g.Chance(0.03) {
					ops = append(ops, core.Op{K: "churn", I: []int64{0, int64(g.Pick(30, 130, 260, 300, 1100, 1100))}})
					if i%5000 < 100 {
						ops[len(ops)-1].I[1] = 66000
					}
				}
			default:
				ops = append(ops, core.Op{K: "class", I: []int64{int64(g.Pick(0, 0, 0, 1, -1, 7))}})
			}
		}
		return ops
	}
	if conc {
		for t := g.Range(2, 3); t > 0; t-- {
			c.Threads = append(c.Threads, mk(g.Range(2, 10)))
		}
		c.Scheds = append(c.Scheds, core.GenSched(g, len(c.Threads), 3000, false))
	} else {
		c.Threads = append(c.Threads, mk(g.Range(2, 30)))
	}
	return c
}

type inst28 struct {
	f    [3]ptr // component, processor, controller
	refs int
	p    *proc
	val  float64
}

type st28 struct {
	w      *world
	r      *core.Rec
	conc   bool
	name   string
	info   fwplugin.Info
	cid    ptr
	frefs  int
	f      ptr
	fEver  bool
	pl     *plug
	fault  int
	procs  [1024]*proc
	nprocs int
	cfg    *bus.Configuration
	buses  []bus.Info
	tally
	out []ptr // scratch per thread
}

func (t *st28) fail(class, f string, a ...any) { t.r.Fail(class, class, f, a...) }

func (t *st28) mkProc() *proc {
	id := t.newProc()
	reg := param.NewRegistry()
	reg.Add(param.New(1, "Id").Range(0, 1000).Default(float64(id)).Build())
	reg.Add(param.New(2, "V").Range(0, 1).Default(0.5).Build())
	p := &proc{id: id, reg: reg, ids: []uint32{1, 2}, panicIn: -1, bus: t.cfg, latency: int32(id*10 + 1), tail: int32(id*100 + 7)}
	t.setProc(id, p)
	return p
}

func newSt28(c *core.Case, r *core.Rec) *st28 {
	t := &st28{w: newWorld(r), r: r, conc: len(c.Threads) > 1, tally: newTally()}
	t.name = c.CfgS["name"]
	t.info = fwplugin.Info{ID: "vs.inst." + t.name, Name: t.name}
	t.pl = &plug{info: t.info}
	t.pl.create = func() plugin.Processor {
		switch t.fault {
		case 1:
			return nil
		case 2:
			panic("plugin: CreateProcessor")
		}
		return t.mkProc()
	}
	plugin.Register(t.pl)
	t.cid = t.w.uid(t.info.UID())
	// Buses: the model is a plain list.
	bb := bus.NewBuilder()
	bn := c.CfgS["busname"]
	add := func(dir bus.Direction, typ bus.Type, n int) {
		name := fmt.Sprint(len(t.buses), bn)
		t.buses = append(t.buses, bus.Info{MediaType: bus.MediaTypeAudio, Direction: dir, ChannelCount: int32(n), Name: name, BusType: typ, IsActive: typ == bus.TypeMain})
		switch {
		case typ == bus.TypeAux && dir == bus.DirectionInput:
			bb = bb.WithAuxInput(name, int32(n))
		case typ == bus.TypeAux:
			bb = bb.WithAuxOutput(name, int32(n))
		case dir == bus.DirectionInput:
			bb = bb.WithAudioInput(name, int32(n))
		default:
			bb = bb.WithAudioOutput(name, int32(n))
		}
	}
	for _, n := range parseLayout(c.CfgS["in"]) {
		add(bus.DirectionInput, bus.TypeMain, n)
	}
	for _, n := range parseLayout(c.CfgS["out"]) {
		add(bus.DirectionOutput, bus.TypeMain, n)
	}
	if c.Cfg["aux"] > 0 {
		add(bus.DirectionInput, bus.TypeAux, 2)
	}
	if c.Cfg["aux"] > 1 {
		add(bus.DirectionOutput, bus.TypeAux, 1)
	}
	ev := bus.Info{MediaType: bus.MediaTypeEvent, Direction: bus.DirectionInput, ChannelCount: 1, Name: "ev" + bn, BusType: bus.TypeMain, IsActive: true}
	t.buses = append(t.buses, ev)
	cfg, err := bb.WithEventInput(ev.Name).Build()
	if err != nil {
		// The builder refuses this layout: use the standard one.
		cfg = bus.NewStereoConfiguration()
		t.buses = []bus.Info{{MediaType: bus.MediaTypeAudio, Direction: bus.DirectionInput, ChannelCount: 2, Name: "Stereo In", IsActive: true},
			{MediaType: bus.MediaTypeAudio, Direction: bus.DirectionOutput, ChannelCount: 2, Name: "Stereo Out", IsActive: true}}
	}
	if c.Cfg["off"] == 3 {
		if cfg.SetBusActive(t.buses[0].MediaType, t.buses[0].Direction, 0, false) == nil {
			t.buses[0].IsActive = false
		}
	}
	t.cfg = cfg
	return t
}

func (h *host28) getFactory() bool {
	t := h.t
	f := factory()
	if f == nil {
		t.fail("factory", "GetPluginFactory returned NULL")
		return false
	}
	other, again := t.tookFactory(f)
	if other {
		t.fail("factory", "GetPluginFactory returned another factory while one is in use")
		return false
	}
	if again {
		h.probes["factory-again"]++
	}
	h.f = f
	return true
}

func (h *host28) relFactory() {
	t := h.t
	n := release(h.f)
	refs := t.droppedFactory()
	if int(n) != refs {
		t.fail("refcount", "releasing the factory returned %d, %d references remain", n, refs)
	}
	if alive := C.vs_is_live(h.f) != 0; alive != (refs > 0) {
		t.fail("refcount", "the factory's memory is in use: %v, with %d references", alive, refs)
	}
}

// The model all threads share. The scheduler runs one thread at a time; these
// functions are hidden from the race detector, and so that they do not order
// the threads they use no synchronisation.

//go:norace
func (t *st28) tookFactory(f ptr) (other, again bool) {
	other, again = t.frefs > 0 && f != t.f, t.frefs == 0 && t.fEver
	t.f, t.fEver = f, true
	t.frefs++
	return
}

//go:norace
func (t *st28) droppedFactory() int {
	t.frefs--
	return t.frefs
}

//go:norace
func (t *st28) newProc() int {
	t.nprocs++
	return t.nprocs - 1
}

//go:norace
func (t *st28) setProc(id int, p *proc) { t.procs[id] = p }

//go:norace
func (t *st28) proc(id int) *proc {
	if id < 0 || id >= t.nprocs {
		return nil
	}
	return t.procs[id]
}

//go:norace
func (t *st28) count() int { return t.nprocs }

var facetOf = [8]int{0, 0, 0, 1, 2, -1, -1, -1}

type host28 struct {
	tally
	*arena
	t    *st28
	s    [3]*inst28
	f    ptr // the factory
	held int // factory references of this thread
}

func (h *host28) op(o core.Op) {
	t := h.t
	rt.Y(-76)
	h.evals++
	var x *inst28
	if len(o.I) > 0 && o.K != "class" {
		x = h.s[o.Int(0)]
	}
	switch o.K {
	case "factory":
		if h.getFactory() {
			h.held++
		}
	case "frel":
		if h.held > 0 {
			h.held--
			h.relFactory()
		}
	case "class":
		h.class(int(o.Int(0)))
	case "create":
		h.create(o)
	case "qi":
		if x == nil {
			return
		}
		k := int(o.Int(2))
		p, rc := qi(x.f[o.Int(1)], k)
		h.probes["qi"]++
		if facetOf[k] < 0 {
			if rc == 0 || p != nil {
				t.fail("qi", "queryInterface for interface %d returned %d and %v instead of failing with NULL", k, rc, p)
			}
			return
		}
		if rc != 0 || p == nil {
			t.fail("qi", "queryInterface for interface %d from facet %d returned %d", k, o.Int(1), rc)
			return
		}
		x.refs++
		if p != x.f[facetOf[k]] {
			t.fail("qi", "queryInterface for interface %d from facet %d returned another object than before", k, o.Int(1))
		}
	case "add":
		if x == nil {
			return
		}
		n := addRef(x.f[o.Int(1)])
		x.refs++
		if int(n) != x.refs {
			t.fail("refcount", "addRef returned %d, the host holds %d references", n, x.refs)
		}
	case "rel":
		if x != nil {
			h.release(int(o.Int(0)), int(o.Int(1)))
		}
	case "many":
		if x == nil {
			return
		}
		k := int(min(max(o.Int(2), 0), 100000))
		h.probes["many-references"]++
		for d := 0; d < k; d++ {
			x.refs++
			if n := addRef(x.f[(int(o.Int(1))+d)%3]); int(n) != x.refs {
				t.fail("refcount", "addRef returned %d, the host holds %d references", n, x.refs)
				return
			}
		}
		for ; k > 0; k-- {
			x.refs--
			if n := release(x.f[(int(o.Int(1))+k*2)%3]); int(n) != x.refs {
				t.fail("refcount", "release returned %d, the host holds %d references", n, x.refs)
				return
			}
		}
	case "churn":
		if t.conc {
			return
		}
		h.churn(int(min(max(o.Int(1), 0), 70000)))
	case "set":
		if x == nil {
			return
		}
		if C.e_set(x.f[2], 2, C.double(o.Flt(0))) != 0 {
			t.fail("call-failed", "setParamNormalized failed")
		}
		x.val = clamp1(o.Flt(0))
	case "life":
		if x != nil {
			h.life(x, o)
		}
	case "query":
		if x != nil {
			h.query(x, int(o.Int(1)))
		}
	}
	// Isolation: every instance still has its own values.
	for k, x := range h.s {
		if x == nil {
			continue
		}
		if v := float64(C.e_get(x.f[2], 2)); v != x.val {
			t.fail("isolation", "after %s the parameter of instance %d is %v instead of %v", o.K, k, v, x.val)
			return
		}
		if v := float64(C.e_toplain(x.f[2], 1, C.e_get(x.f[2], 1))); int(v+0.5) != x.p.id {
			t.fail("isolation", "instance %d answers for the processor %v instead of %d", k, v, x.p.id)
			return
		}
	}
}

func (h *host28) create(o core.Op) {
	t := h.t
	slot := int(o.Int(0))
	if h.s[slot] != nil {
		return
	}
	if h.held == 0 {
		if !h.getFactory() {
			return
		}
		h.held++
	}
	cid := t.cid
	if k := o.Int(1); k > 0 {
		u := t.info.UID()
		if k == 17 {
			u = [16]byte{}
		} else {
			u[k-1] ^= 0x10
		}
		cid = h.uid(u)
	}
	want := int(o.Int(2))
	flt := int(o.Int(3))
	live := C.vs_alloc_live()
	first := t.count()
	switch flt {
	case 1, 2:
		t.fault = flt
	case 3:
		t.pl.infoPan = true
	case 4:
		C.vs_alloc_fail(C.int64_t(o.Int(4)))
	}
	failedBefore := C.vs_alloc_failed()
	var p ptr
	var rc int32
	if !t.w.guard("createInstance", func() { p, rc = create(h.f, cid, iid(want)) }) {
		return
	}
	if !t.conc {
		t.fault, t.pl.infoPan = 0, false
	}
	if flt == 4 {
		C.vs_alloc_fail(0)
	}
	oom := C.vs_alloc_failed() != failedBefore
	if oom {
		h.probes["out-of-memory"]++
		h.faults["allocation-failure"]++
	}
	bad := o.Int(1) != 0 || facetOf[want] < 0 || (flt >= 1 && flt <= 3) || oom
	if flt >= 1 && flt <= 3 {
		h.nt = true
		h.faults[[]string{"no-processor", "create-panic", "info-panic"}[flt-1]]++
	}
	h.shape(1, uint64(want)*32+uint64(flt), uint64(uint32(rc)))
	if bad {
		h.probes["refused"]++
		if rc == 0 || p != nil {
			t.fail("created", "createInstance (class %d, interface %d, fault %d) returned %d and %v instead of failing with NULL", o.Int(1), want, flt, rc, p)
			return
		}
		if n := C.vs_alloc_live(); !t.conc && n != live {
			t.fail("leak", "a failed createInstance (class %d, interface %d, fault %d) left %d allocations behind", o.Int(1), want, flt, int(n-live))
		}
		return
	}
	if rc != 0 || p == nil {
		t.fail("created", "createInstance (interface %d) returned %d", want, rc)
		return
	}
	h.probes["created"]++
	x := &inst28{refs: 1, val: 0.5}
	x.f[facetOf[want]] = p
	for k := range x.f {
		if x.f[k] == nil {
			q, rc := qi(p, []int{iidComponent, iidProcessor, iidController}[k])
			if rc != 0 || q == nil {
				t.fail("qi", "a new instance does not hand out facet %d (%d)", k, rc)
				return
			}
			x.f[k] = q
			x.refs++
		}
	}
	// Which processor is it?
	v := float64(C.e_toplain(x.f[2], 1, C.e_get(x.f[2], 1)))
	id := int(v + 0.5)
	if t.proc(id) == nil || (!t.conc && (id != first || t.count() != first+1)) {
		t.fail("created", "createInstance made %d processors and the instance answers for number %d", t.count()-first, id)
		return
	}
	x.p = t.proc(id)
	if x.p.released {
		t.fail("isolation", "two instances share one processor")
	}
	x.p.released = true // taken
	h.s[slot] = x
	// all facets share one count
	for x.refs > 1 {
		h.evals++
		n := release(x.f[x.refs%3])
		x.refs--
		if int(n) != x.refs {
			t.fail("refcount", "release returned %d, the host holds %d references", n, x.refs)
			return
		}
	}
}

// churn creates and releases further instances; the ones in use stay as they are.
func (h *host28) churn(n int) {
	t := h.t
	if h.held == 0 {
		if !h.getFactory() {
			return
		}
		h.held++
	}
	h.probes["churn"]++
	for k := 0; k < n; k++ {
		h.evals++
		id := t.count()
		p, rc := create(h.f, t.cid, iid(iidProcessor))
		if rc != 0 || p == nil || t.count() != id+1 {
			t.fail("created", "instance %d of many: createInstance returned %d and made %d processors", k, rc, t.count()-id)
			return
		}
		if v := uint32(C.a_latency(p)); v != uint32(t.proc(id).latency) {
			t.fail("isolation", "instance %d of many answers for another processor", k)
			return
		}
		if r := release(p); r != 0 {
			t.fail("refcount", "release of the only reference returned %d", r)
			return
		}
		t.setProc(id, nil)
		t.nprocs = id
	}
}

func (h *host28) release(slot, facet int) {
	t := h.t
	x := h.s[slot]
	c := x.f[0]
	n := release(x.f[facet])
	x.refs--
	h.shape(2, uint64(facet), uint64(x.refs))
	if int(n) != x.refs {
		t.fail("refcount", "release returned %d, the host holds %d references", n, x.refs)
		return
	}
	alive := C.vs_is_live(c) != 0
	if alive != (x.refs > 0) {
		t.fail("refcount", "the instance's memory is in use: %v, with %d references", alive, x.refs)
		return
	}
	if x.refs == 0 {
		h.probes["freed"]++
		h.s[slot] = nil
	}
}

func (h *host28) life(x *inst28, o core.Op) {
	t := h.t
	p := x.p
	mb := o.Int(3)
	sr := o.Flt(0)
	inits, acts := len(p.inits), len(p.actives)
	f := int(o.Int(2))
	var rc int32
	var what string
	fault := func(e, pan *int) {
		switch f {
		case 1:
			*e = 1
		case 2:
			*pan = 1
		}
	}
	bad := false
	call := func(fn func() C.int32_t) {
		t.w.guard(what, func() { rc = int32(fn()) })
	}
	switch o.Int(1) {
	case 0:
		what = "initialize"
		fault(&p.initErr, &p.initPan)
		bad = f > 0
		call(func() C.int32_t { return C.c_init(x.f[0], nil) })
		if len(p.inits) != inits+1 {
			t.fail("lifecycle", "initialize called the plugin's Initialize %d times", len(p.inits)-inits)
		}
	case 1:
		what = "setupProcessing"
		fault(&p.initErr, &p.initPan)
		bad = f > 0
		call(func() C.int32_t { return C.a_setup(x.f[1], 0, 0, C.int32_t(mb), C.double(sr)) })
		if len(p.inits) == inits || p.inits[len(p.inits)-1] != fmt.Sprintf("%g/%d", sr, mb) {
			t.fail("lifecycle", "setupProcessing with %g Hz and %d samples initialized the plugin with %v", sr, mb, p.inits[inits:])
		}
	case 2, 3:
		on := o.Int(1) == 2
		what = fmt.Sprintf("setActive(%v)", on)
		fault(&p.actErr, &p.actPan)
		bad = f > 0
		call(func() C.int32_t { return C.c_active(x.f[0], b2i(on)) })
		if len(p.actives) != acts+1 || p.actives[acts] != on {
			t.fail("lifecycle", "%s reached the plugin as %v", what, p.actives[acts:])
		}
	case 4:
		what = "terminate"
		call(func() C.int32_t { return C.c_term(x.f[0]) })
	case 5:
		what = "controller initialize and terminate"
		call(func() C.int32_t { return C.e_init(x.f[2]) | C.e_term(x.f[2]) })
		if len(p.inits) != inits {
			t.fail("lifecycle", "initializing the controller initialized the processor again")
		}
	}
	p.initErr, p.initPan, p.actErr, p.actPan = 0, 0, 0, 0
	h.shape(3, uint64(o.Int(1))*4+uint64(f), uint64(uint32(rc)))
	if bad {
		h.nt = true
		h.probes["plugin-error"]++
		h.faults[[]string{"plugin-error", "plugin-panic"}[f-1]]++
	}
	if bad != (rc != 0) {
		t.fail("result", "%s returned %d, the plugin failed: %v", what, rc, bad)
	}
}

func b2i(b bool) C.int32_t {
	if b {
		return 1
	}
	return 0
}

func (h *host28) query(x *inst28, k int) {
	t := h.t
	switch k {
	case 0, 1:
		x.p.qpanic = []string{"", "latency"}[k]
		var v uint32
		if !t.w.guard("getLatencySamples", func() { v = uint32(C.a_latency(x.f[1])) }) {
			return
		}
		if k == 0 && v != uint32(x.p.latency) {
			t.fail("isolation", "latency %d, the plugin says %d", v, x.p.latency)
		}
	case 2, 3:
		x.p.qpanic = []string{"", "tail"}[k-2]
		var v uint32
		if !t.w.guard("getTailSamples", func() { v = uint32(C.a_tail(x.f[1])) }) {
			return
		}
		if k == 2 && v != uint32(x.p.tail) {
			t.fail("isolation", "tail %d, the plugin says %d", v, x.p.tail)
		}
	case 4:
		x.p.qpanic = "buses"
		var n int32
		if !t.w.guard("getBusCount", func() { n = int32(C.c_buscount(x.f[0], 0, 0)) }) {
			return
		}
		if n < 0 || int(n) > len(t.buses) {
			t.fail("bus", "getBusCount returned %d after a panic of the plugin", n)
		}
		x.p.qpanic = "buses"
		var rc int32
		if !t.w.guard("getBusInfo", func() { rc = int32(C.c_businfo(x.f[0], 0, 1, 0, t.out[0])) }) {
			return
		}
		if rc == 0 {
			t.fail("result", "getBusInfo returned success although the plugin panicked")
		}
		h.faults["plugin-panic"] += 2
	case 7:
		h.caps(x)
	default:
		h.buses(x)
	}
	x.p.qpanic = ""
	if k == 1 || k == 3 {
		h.faults["plugin-panic"]++
	}
}

// caps asks what the instance can do; whatever the host tells it about modes,
// arrangements and active buses leaves its description as it was.
func (h *host28) caps(x *inst28) {
	t := h.t
	h.probes["capabilities"]++
	for _, size := range []int32{0, 1, -1, 2, 7} {
		if rc := int32(C.a_cansize(x.f[1], C.int32_t(size))); (rc == 0) != (size == 0) {
			t.fail("capability", "canProcessSampleSize(%d) returned %d; blocks are processed as 32-bit floats only", size, rc)
			return
		}
	}
	for _, m := range []int32{0, 1, 2} {
		if rc := int32(C.c_iomode(x.f[0], C.int32_t(m))); rc != 0 {
			t.fail("capability", "setIoMode(%d) returned %d", m, rc)
			return
		}
	}
	id := h.alloc(16)
	for i := range unsafe.Slice((*byte)(id), 16) {
		unsafe.Slice((*byte)(id), 16)[i] = 0x5a
	}
	if rc := int32(C.c_ctrlid(x.f[0], id)); rc == 0 {
		var zero [16]byte
		if got := [16]byte(unsafe.Slice((*byte)(id), 16)); got != zero {
			t.fail("capability", "the single component names a controller class %x, which the factory does not have", got)
			return
		}
	}
	for m := int32(0); m < 2; m++ {
		for d := int32(0); d < 2; d++ {
			n := int32(C.c_buscount(x.f[0], C.int32_t(m), C.int32_t(d)))
			for i := int32(0); i < n; i++ {
				for s := int32(0); s < 2; s++ {
					if rc := int32(C.c_activate(x.f[0], C.int32_t(m), C.int32_t(d), C.int32_t(i), C.int32_t(s))); rc != 0 {
						t.fail("bus", "activateBus of media %d direction %d bus %d returned %d", m, d, i, rc)
						return
					}
				}
			}
			k := -1
			for _, b := range t.buses {
				if b.MediaType != bus.MediaTypeAudio || m != 0 || int32(b.Direction) != d {
					continue
				}
				k++
				arr := (*uint64)(h.alloc(8))
				*arr = 0
				if rc := int32(C.a_getarr(x.f[1], C.int32_t(d), C.int32_t(k), ptr(arr))); b.ChannelCount == 2 && (rc != 0 || *arr != 3) {
					t.fail("bus", "direction %d: the arrangement of the stereo bus %d is %#x (result %d)", d, k, *arr, rc)
					return
				}
			}
		}
	}
	arrs := h.alloc(8 * 4)
	for i := range unsafe.Slice((*uint64)(arrs), 4) {
		unsafe.Slice((*uint64)(arrs), 4)[i] = 3
	}
	for _, n := range []int32{0, 1, 4} {
		C.a_setarr(x.f[1], arrs, C.int32_t(n), arrs, C.int32_t(n))
		C.a_setarr(x.f[1], nil, C.int32_t(n), nil, C.int32_t(n))
	}
	if rc := int32(C.c_routing(x.f[0])); rc == 0 {
		t.fail("capability", "getRoutingInfo succeeded without giving routing")
		return
	}
	name := h.alloc(7)
	copy(unsafe.Slice((*byte)(name), 7), "editor")
	if v := C.e_view(x.f[2], (*C.char)(name)); v != nil {
		t.fail("capability", "createView returned a view; the plugin has none")
		return
	}
	h.buses(x)
}

func (h *host28) buses(x *inst28) {
	t := h.t
	h.probes["bus-info"]++
	for m := int32(0); m < 2; m++ {
		for d := int32(0); d < 2; d++ {
			var l []bus.Info
			for _, b := range t.buses {
				if int32(b.MediaType) == m && int32(b.Direction) == d {
					l = append(l, b)
				}
			}
			if n := int32(C.c_buscount(x.f[0], C.int32_t(m), C.int32_t(d))); int(n) != len(l) {
				t.fail("bus", "media %d direction %d: %d buses reported, %d configured", m, d, n, len(l))
				return
			}
			for i := int32(-1); int(i) <= len(l); i++ {
				in := (*C.struct_Steinberg_Vst_BusInfo)(h.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_BusInfo{}))))
				rc := int32(C.c_businfo(x.f[0], C.int32_t(m), C.int32_t(d), C.int32_t(i), ptr(in)))
				if i < 0 || int(i) >= len(l) {
					if rc == 0 {
						t.fail("bus", "media %d direction %d: getBusInfo(%d) of %d buses succeeded", m, d, i, len(l))
						return
					}
					continue
				}
				b := l[i]
				name, ok := str16(ptr(&in.name[0]), 128)
				fl := uint32(0)
				if b.IsActive {
					fl = 1
				}
				if rc != 0 || !ok || name != cut16(b.Name, 128) || int32(in.channelCount) != b.ChannelCount || int32(in.mediaType) != m || int32(in.direction) != d ||
					int32(in.busType) != int32(b.BusType) || uint32(in.flags)&1 != fl {
					t.fail("bus", "media %d direction %d bus %d: result %d, name %q (ok %v), %d channels, type %d, flags %d; configured %+v", m, d, i, rc, name, ok, in.channelCount, in.busType, in.flags, b)
					return
				}
			}
		}
	}
}

func cut8(s string, n int) string {
	if len(s) <= n-1 {
		return s
	}
	k := n - 1
	for k > 0 && !utf8.RuneStart(s[k]) {
		k--
	}
	return s[:k]
}

func str8(p ptr, n int) (string, bool) {
	b := unsafe.Slice((*byte)(p), n)
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), true
		}
	}
	return "", false
}

func (h *host28) class(i int) {
	t := h.t
	if h.held == 0 {
		return
	}
	size := int(unsafe.Sizeof(C.struct_Steinberg_PClassInfo{}))
	m := h.alloc(size + 64)
	raw := unsafe.Slice((*byte)(m), size+64)
	for k := range raw {
		raw[k] = 0x5A
	}
	in := (*C.struct_Steinberg_PClassInfo)(m)
	if n := C.f_count(h.f); n != 1 {
		t.fail("class", "countClasses returned %d", int(n))
		return
	}
	rc := int32(C.f_class(h.f, C.int32_t(i), m))
	for _, c := range raw[size:] {
		if c != 0x5A {
			t.fail("class", "getClassInfo(%d) wrote beyond the structure", i)
			return
		}
	}
	if i != 0 {
		if rc == 0 {
			t.fail("class", "getClassInfo(%d) succeeded", i)
		}
		return
	}
	name, ok := str8(ptr(&in.name[0]), 64)
	cat, ok2 := str8(ptr(&in.category[0]), 32)
	u := t.info.UID()
	if rc != 0 || !ok || !ok2 || name != cut8(t.name, 64) || cat != "Audio Module Class" || string(raw[:16]) != string(u[:]) {
		t.fail("class", "getClassInfo: result %d, name %q (%v) of %q, category %q, class ID %x of %x", rc, name, ok, t.name, cat, raw[:16], u)
		return
	}
	// The factory's own description.
	fs := int(unsafe.Sizeof(C.struct_Steinberg_PFactoryInfo{}))
	fm := h.alloc(fs + 64)
	fr := unsafe.Slice((*byte)(fm), fs+64)
	for k := range fr {
		fr[k] = 0x5A
	}
	if C.f_info(h.f, fm) != 0 {
		t.fail("class", "getFactoryInfo failed")
		return
	}
	fi := (*C.struct_Steinberg_PFactoryInfo)(fm)
	if v, ok := str8(ptr(&fi.vendor[0]), len(fi.vendor)); !ok || v != cut8(fInfo.Vendor, len(fi.vendor)) {
		t.fail("class", "getFactoryInfo: vendor %q of %q", v, fInfo.Vendor)
	}
	if v, ok := str8(ptr(&fi.url[0]), len(fi.url)); !ok || v != cut8(fInfo.URL, len(fi.url)) {
		t.fail("class", "getFactoryInfo: url %q of %q", v, fInfo.URL)
	}
	if v, ok := str8(ptr(&fi.email[0]), len(fi.email)); !ok || v != cut8(fInfo.Email, len(fi.email)) {
		t.fail("class", "getFactoryInfo: email %q of %q", v, fInfo.Email)
	}
	for _, c := range fr[fs:] {
		if c != 0x5A {
			t.fail("class", "getFactoryInfo wrote beyond the structure")
			return
		}
	}
}

var fInfo plugin.FactoryInfo

func (h *host28) end() {
	for k, x := range h.s {
		for x != nil && h.s[k] != nil && !h.t.r.Failed() {
			h.release(k, (k+x.refs)%3)
		}
	}
	for h.held > 0 && !h.t.r.Failed() {
		h.held--
		h.relFactory()
	}
}

// garbage checks that released instances do not stay in memory: of many, most
// have to be collected (a few may be kept by stale stack slots).
func (t *st28) garbage() {
	t.probes["gc"]++
	const n = 40
	var ws []weak.Pointer[proc]
	for k := 0; k < n; k++ {
		x, why := t.w.open(t.pl)
		if why != "" {
			t.fail("created", "%s", why)
			return
		}
		p := t.proc(t.count() - 1)
		ws = append(ws, weak.Make(p))
		t.setProc(t.count()-1, nil)
		x.close()
	}
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
	alive := 0
	for _, w := range ws {
		if w.Value() != nil {
			alive++
		}
	}
	if alive > n/2 {
		t.fail("leak", "%d of %d released instances stay in memory", alive, n)
	}
}

func execP28(c *core.Case, r *core.Rec) {
	var t *st28
	if f, st := rt.Solo(budget, func() {
		t = newSt28(c, r)
		t.out = append(t.out, t.w.alloc(1024))
		fInfo = plugin.FactoryInfo{Vendor: t.name, URL: strings.Repeat("u", len(t.name)*3), Email: t.name + "@"}
		plugin.SetFactoryInfo(fInfo)
	}); f != "" {
		r.Fail("start-"+f, "start-failure", "%s\n%s", f, st)
		return
	}
	var hs []*host28
	for range c.Threads {
		hs = append(hs, &host28{t: t, tally: newTally(), arena: t.w.newArena()})
	}
	if t.conc {
		t.probes["concurrent"]++
		var fns []func()
		for k, ops := range c.Threads {
			h := hs[k]
			fns = append(fns, func() {
				for _, o := range ops {
					if rt.Aborting() || r.Failed() {
						return
					}
					h.op(o)
				}
			})
		}
		// One instance is shared: every thread holds one reference and lets
		// it go in the end.
		var shared *instance
		solo(r, func() {
			var why string
			if shared, why = t.w.open(t.pl); why != "" {
				t.fail("created", "%s", why)
				return
			}
			t.proc(t.count() - 1).released = true
			release(shared.ctl)
			release(shared.aud)
			for k := 1; k < len(fns); k++ {
				addRef(shared.comp)
			}
		})
		if r.Failed() {
			return
		}
		zero := 0
		for k := range fns {
			fn := fns[k]
			f := []ptr{shared.comp, shared.aud, shared.ctl}[k%3]
			fns[k] = func() {
				fn()
				if rt.Aborting() {
					return
				}
				if C.a_latency(shared.aud) != C.uint32_t(1) {
					t.fail("isolation", "the shared instance answers for another processor")
				}
				if release(f) == 0 {
					zero++
				}
			}
		}
		r.Run(budget, fns...)
		if !r.Failed() && zero != 1 {
			t.fail("refcount", "of %d releases of the shared instance %d were the last", len(fns), zero)
		}
		if !r.Failed() && C.vs_is_live(shared.comp) != 0 {
			t.fail("refcount", "the shared instance is still in memory")
		}
	} else {
		solo(r, func() {
			for _, o := range c.Threads[0] {
				if r.Failed() {
					return
				}
				hs[0].op(o)
			}
		})
	}
	if !r.Failed() {
		solo(r, func() {
			for _, h := range hs {
				h.end()
			}
			if t.frefs != 0 && !r.Failed() {
				t.fail("refcount", "model: %d", t.frefs)
			}
			if c.Cfg["gc"] != 0 && !r.Failed() {
				t.garbage()
			}
			// Memory may run out for the factory as well.
			C.vs_alloc_fail(1)
			f := factory()
			C.vs_alloc_fail(0)
			if f != nil {
				release(f)
			}
		})
	}
	for _, h := range hs {
		t.merge(&h.tally, "created", "refused", "freed", "qi", "plugin-error", "concurrent", "out-of-memory", "gc", "factory-again", "bus-info", "many-references", "churn",
			"allocation-failure", "no-processor", "create-panic", "info-panic", "plugin-panic")
	}
	for _, k := range []string{"created", "refused", "freed", "qi", "plugin-error", "concurrent", "out-of-memory", "gc", "factory-again", "bus-info", "capabilities", "many-references", "churn"} {
		if t.probes[k] > 0 {
			r.Probe(k)
		}
	}
	for _, k := range []string{"allocation-failure", "no-processor", "create-panic", "info-panic", "plugin-error", "plugin-panic"} {
		if t.faults[k] > 0 {
			r.FaultN(k, t.faults[k])
		}
	}
	for _, h := range t.shapes {
		r.State(h)
		r.Observe(h)
	}
	r.NonTriv = t.nt || t.conc || t.probes["created"] > 1
	r.Evals += t.evals
	if !r.Failed() {
		t.w.drained("after releasing every instance and the factory")
	}
}
