// Package abi drives the VST3 plugin wrapper through its C interfaces, the way
// a host does: every call goes through the vtables the plugin hands out, and
// every interface the host passes in is a simulated object.
package abi

// #cgo CFLAGS: -I${SRCDIR}/../../repo/include -w
// #include "host.h"
// #include <stdlib.h>
// #include <string.h>
import "C"

import (
	"fmt"
	"io"
	"math"
	"unicode/utf16"
	"unsafe"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fwplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/pkg/plugin"
	_ "github.com/justyntemme/vst3go/pkg/plugin/cbridge"
)

const (
	iidUnknown = iota
	iidPluginBase
	iidComponent
	iidProcessor
	iidController
	iidFactory
	iidStream
	iidJunk
)

const (
	kStream = iota
	kChanges
	kQueue
	kEvents
	kHandler
)

type ptr = unsafe.Pointer

// world is everything one run's simulated host owns. Objects are created
// before the tasks start; each belongs to one task.
type world struct {
	r    *core.Rec
	objs []any
	c    []ptr
	arena
	arenas []*arena
}

// arena is memory the host owns. Each simulated thread has its own: the race
// detector watches the host as well.
type arena struct{ mem []ptr }

func (w *world) newArena() *arena {
	a := &arena{}
	w.arenas = append(w.arenas, a)
	return a
}

// tally collects what a thread of a run reports in the end.
type tally struct {
	evals  int64
	shapes []uint64
	probes map[string]int
	faults map[string]int
	nt     bool
}

func newTally() tally { return tally{probes: map[string]int{}, faults: map[string]int{}} }

func (t *tally) shape(a, b, c uint64) {
	t.shapes = append(t.shapes, core.HashU(core.HashU(a, b), c))
}

func (t *tally) merge(o *tally, names ...string) {
	t.evals += o.evals
	t.shapes = append(t.shapes, o.shapes...)
	t.nt = t.nt || o.nt
	for _, k := range names {
		if n := o.probes[k]; n > 0 {
			t.probes[k] += n
		}
		if n := o.faults[k]; n > 0 {
			t.faults[k] += n
		}
	}
}

var w *world

func (w *world) add(kind int, o any) ptr {
	w.objs = append(w.objs, o)
	p := ptr(C.vs_obj(C.int32_t(kind), C.int64_t(len(w.objs)-1)))
	w.c = append(w.c, p)
	return p
}

func newWorld(r *core.Rec) *world {
	w = &world{r: r}
	return w
}

// drop ends the run: whatever the plugin side still holds is thrown away.
func resetHost() {
	f := ptr(C.vs_factory())
	for k := 0; k < 1000 && f != nil && C.vs_release(f) != 0; k++ {
	}
	C.vs_exit()
	C.vs_alloc_reset()
	if w != nil {
		for _, p := range w.c {
			C.vs_obj_free(p)
		}
		for _, a := range append(w.arenas, &w.arena) {
			for _, p := range a.mem {
				C.free(p)
			}
		}
		w = nil
	}
}

func init() { rt.OnReset(func(uint64) { resetHost() }) }

func (w *arena) alloc(n int) ptr {
	p := ptr(C.malloc(C.size_t(n + 1)))
	C.memset(p, 0, C.size_t(n+1))
	w.mem = append(w.mem, p)
	return p
}

// ---- IBStream ----

type stream struct {
	b      []byte
	pos    int64
	seekNo bool // seek and tell are not implemented
	frag   int  // 0 whole, 1 one byte, 2 random, 3 blocks of 7, 4 of 1000
	failRd int  // calls to read until one fails; -1 never
	failWr int
	zeroWr int // calls to write until one accepts nothing
	endAt  int // the data ends here although its size says more; -1 never
	capAt  int // the stream is full at this size; -1 never
	seekIn int // seek calls until one fails; -1 never
	rnd    *core.R
	calls  int
	failed bool // a fault was delivered
	what   string
	task   bool
}

func newStream(b []byte) *stream {
	return &stream{b: b, failRd: -1, failWr: -1, zeroWr: -1, endAt: -1, capAt: -1, seekIn: -1}
}

func (s *stream) cut(n int) int {
	switch s.frag {
	case 1:
		return min(n, 1)
	case 2:
		return min(n, 1+s.rnd.N(n))
	case 3:
		return min(n, 7)
	case 4:
		return min(n, 1000)
	}
	return n
}

func (s *stream) fault(what string) {
	s.failed = true
	s.what += what + " "
}

//export vsRead
func vsRead(id C.int64_t, buf ptr, n C.int32_t, got *C.int32_t) C.int32_t {
	s := w.objs[id].(*stream)
	rt.Y(-90)
	s.calls++
	if n < 0 {
		return 2
	}
	if s.failRd >= 0 {
		if s.failRd == 0 {
			s.fault("read-error")
			if got != nil {
				*got = 0
			}
			return 1
		}
		s.failRd--
	}
	end := int64(len(s.b))
	if s.endAt >= 0 && int64(s.endAt) < end {
		end = int64(s.endAt)
		if s.pos+int64(n) > end {
			s.fault("early-end")
		}
	}
	k := int(max(min(int64(n), end-s.pos), 0))
	if k > 0 {
		k = s.cut(k)
		copy(unsafe.Slice((*byte)(buf), k), s.b[s.pos:s.pos+int64(k)])
		s.pos += int64(k)
	}
	if got != nil {
		*got = C.int32_t(k)
	}
	return 0
}

//export vsWrite
func vsWrite(id C.int64_t, buf ptr, n C.int32_t, got *C.int32_t) C.int32_t {
	s := w.objs[id].(*stream)
	rt.Y(-91)
	s.calls++
	if n < 0 {
		return 2
	}
	set := func(k int) {
		if got != nil {
			*got = C.int32_t(k)
		}
	}
	if s.failWr >= 0 {
		if s.failWr == 0 {
			s.fault("write-error")
			set(0)
			return 1
		}
		s.failWr--
	}
	if s.zeroWr >= 0 {
		if s.zeroWr == 0 {
			s.fault("zero-write")
			set(0)
			return 0
		}
		s.zeroWr--
	}
	k := int(n)
	if k > 0 {
		k = s.cut(k)
	}
	if s.capAt >= 0 && int(s.pos)+k > s.capAt {
		k = max(s.capAt-int(s.pos), 0)
		s.fault("stream-full")
	}
	for int64(len(s.b)) < s.pos+int64(k) {
		s.b = append(s.b, 0)
	}
	if k > 0 {
		copy(s.b[s.pos:], unsafe.Slice((*byte)(buf), k))
	}
	s.pos += int64(k)
	set(k)
	return 0
}

//export vsSeek
func vsSeek(id C.int64_t, pos C.int64_t, mode C.int32_t, res *C.int64_t) C.int32_t {
	s := w.objs[id].(*stream)
	rt.Y(-92)
	if s.seekNo {
		return 3
	}
	if s.seekIn >= 0 {
		if s.seekIn == 0 {
			s.fault("seek-error")
			return 1
		}
		s.seekIn--
	}
	p := int64(pos)
	switch mode {
	case 1:
		p += s.pos
	case 2:
		p += int64(len(s.b))
	}
	if p < 0 {
		return 2
	}
	s.pos = p
	if res != nil {
		*res = C.int64_t(p)
	}
	return 0
}

//export vsTell
func vsTell(id C.int64_t, pos *C.int64_t) C.int32_t {
	s := w.objs[id].(*stream)
	if s.seekNo {
		return 3
	}
	if pos != nil {
		*pos = C.int64_t(s.pos)
	}
	return 0
}

// ---- parameter changes and events ----

type point struct {
	off  int32
	v    float64
	fail bool // getPoint reports an error
}

type queue struct {
	id   uint32
	pts  []point
	null bool // getParameterData returns NULL
}

// changes owns a fixed set of queue objects that are refilled per block.
type changes struct {
	qs    []*queue
	objs  []ptr
	count int
}

func (w *world) newChanges(n int) (ptr, *changes) {
	c := &changes{}
	for k := 0; k < n; k++ {
		q := &queue{}
		c.qs = append(c.qs, q)
		c.objs = append(c.objs, w.add(kQueue, q))
	}
	return w.add(kChanges, c), c
}

//export vsPCount
func vsPCount(id C.int64_t) C.int32_t { return C.int32_t(w.objs[id].(*changes).count) }

//export vsPData
func vsPData(id C.int64_t, i C.int32_t) ptr {
	c := w.objs[id].(*changes)
	if i < 0 || int(i) >= c.count || c.qs[i].null {
		return nil
	}
	return c.objs[i]
}

//export vsQId
func vsQId(id C.int64_t) C.uint32_t { return C.uint32_t(w.objs[id].(*queue).id) }

//export vsQCount
func vsQCount(id C.int64_t) C.int32_t { return C.int32_t(len(w.objs[id].(*queue).pts)) }

//export vsQPoint
func vsQPoint(id C.int64_t, i C.int32_t, off *C.int32_t, v *C.double) C.int32_t {
	q := w.objs[id].(*queue)
	rt.Y(-93)
	if i < 0 || int(i) >= len(q.pts) {
		return 2
	}
	p := q.pts[i]
	if p.fail {
		// a failing call leaves garbage behind
		*off, *v = 0x7fffffff, 77
		return 1
	}
	*off, *v = C.int32_t(p.off), C.double(p.v)
	return 0
}

type hostEvent struct {
	typ, bus, off, ch, pitch int32
	vel                      float32
	fail                     bool
}

type events struct{ ev []hostEvent }

//export vsECount
func vsECount(id C.int64_t) C.int32_t { return C.int32_t(len(w.objs[id].(*events).ev)) }

//export vsEGet
func vsEGet(id C.int64_t, i C.int32_t, e *C.struct_Steinberg_Vst_Event) C.int32_t {
	l := w.objs[id].(*events)
	rt.Y(-94)
	if i < 0 || int(i) >= len(l.ev) {
		return 2
	}
	h := l.ev[i]
	C.vs_note(e, C.int32_t(h.typ), C.int32_t(h.bus), C.int32_t(h.off), C.int32_t(h.ch), C.int32_t(h.pitch), C.float(h.vel))
	if h.fail {
		return 1
	}
	return 0
}

// ---- IComponentHandler ----

type handler struct {
	log  []string
	fail bool
	get  func(id uint32) float64 // what a host reads back from inside performEdit
	seen []float64
}

//export vsHandler
func vsHandler(id C.int64_t, what C.int32_t, pid C.uint32_t, v C.double) C.int32_t {
	h := w.objs[id].(*handler)
	rt.Y(-95)
	switch what {
	case 0:
		h.log = append(h.log, fmt.Sprintf("begin %d", uint32(pid)))
	case 1:
		h.log = append(h.log, fmt.Sprintf("perform %d %x", uint32(pid), math.Float64bits(float64(v))))
		if h.get != nil {
			h.seen = append(h.seen, h.get(uint32(pid)))
		}
	case 2:
		h.log = append(h.log, fmt.Sprintf("end %d", uint32(pid)))
	default:
		h.log = append(h.log, "restart")
	}
	if h.fail {
		return 1
	}
	return 0
}

// ---- the plugin under test's user code: the part a plugin author writes ----

type chunk struct {
	in      [][]float32
	nin     int
	nout    int
	n       int
	sr      float64
	vals    []float64
	changes []process.ParameterChange
	events  []string
	tr      process.TransportInfo
	panics  bool
}

type proc struct {
	id       int
	reg      *param.Registry
	bus      *bus.Configuration
	ids      []uint32
	chunks   []chunk
	total    int64 // running number written to the outputs
	panicIn  int   // ProcessAudio calls until one panics; -1 never
	initErr  int   // Initialize calls that fail next
	actErr   int
	initPan  int
	actPan   int
	inits    []string
	actives  []bool
	latency  int32
	tail     int32
	released bool
	block    func() // called inside ProcessAudio
	gate     bool
	qpanic   string // name of the query method that panics
	inBlock  bool
	overlap  string
}

func (p *proc) Initialize(sr float64, mb int32) error {
	if p.inBlock {
		p.overlap += "Initialize "
	}
	rt.Y(-80)
	p.inits = append(p.inits, fmt.Sprintf("%g/%d", sr, mb))
	if p.initPan > 0 {
		p.initPan--
		panic("plugin: Initialize")
	}
	if p.initErr > 0 {
		p.initErr--
		return errPlugin
	}
	return nil
}

var errPlugin = fmt.Errorf("plugin error")

func (p *proc) ProcessAudio(ctx *process.Context) {
	p.inBlock = true
	defer func() { p.inBlock = false }()
	rt.Y(-81)
	c := chunk{nin: len(ctx.Input), nout: len(ctx.Output), n: ctx.NumSamples(), sr: ctx.SampleRate, tr: *ctx.Transport}
	for _, ch := range ctx.Input {
		c.in = append(c.in, append([]float32(nil), ch...))
	}
	for _, id := range p.ids {
		c.vals = append(c.vals, ctx.Param(id))
	}
	c.changes = append(c.changes, ctx.GetParameterChanges()...)
	for _, e := range ctx.GetAllInputEvents() {
		c.events = append(c.events, evString(e))
	}
	if p.panicIn == 0 {
		p.panicIn = -1
		c.panics = true
		p.chunks = append(p.chunks, c)
		var m map[string]int
		m["plugin: ProcessAudio"] = 1
	}
	if p.panicIn > 0 {
		p.panicIn--
	}
	base := p.total
	for ch := range ctx.Output {
		o := ctx.Output[ch]
		for i := range o {
			o[i] = outVal(base+int64(i), ch)
		}
		p.total = max(p.total, base+int64(len(o)))
	}
	rt.Y(-82)
	if c.sr != ctx.SampleRate {
		c.sr = math.NaN() // the rate changed while the plugin was processing
	}
	p.chunks = append(p.chunks, c)
}

func outVal(n int64, ch int) float32 { return float32(n%60000)*64 + float32(ch) + 0.5 }
func inVal(n int64, ch int) float32  { return -(float32(n%60000)*64 + float32(ch) + 0.25) }

func evString(e midi.Event) string {
	switch v := e.(type) {
	case midi.NoteOnEvent:
		return fmt.Sprintf("%d on c%d n%d v%d", v.SampleOffset(), v.Channel(), v.NoteNumber, v.Velocity)
	case midi.NoteOffEvent:
		return fmt.Sprintf("%d off c%d n%d v%d", v.SampleOffset(), v.Channel(), v.NoteNumber, v.Velocity)
	}
	return fmt.Sprintf("%d %T", e.SampleOffset(), e)
}

func (p *proc) q(name string) {
	if p.qpanic == name {
		p.qpanic = ""
		panic("plugin: " + name)
	}
}

func (p *proc) GetParameters() *param.Registry { return p.reg }
func (p *proc) GetBuses() *bus.Configuration   { p.q("buses"); return p.bus }
func (p *proc) SetActive(a bool) error {
	if p.inBlock {
		p.overlap += "SetActive "
	}
	rt.Y(-83)
	p.actives = append(p.actives, a)
	if p.actPan > 0 {
		p.actPan--
		panic("plugin: SetActive")
	}
	if p.actErr > 0 {
		p.actErr--
		return errPlugin
	}
	return nil
}
func (p *proc) GetLatencySamples() int32 { p.q("latency"); return p.latency }
func (p *proc) GetTailSamples() int32    { p.q("tail"); return p.tail }

// stateful is a plugin with a section of its own in the state.
type stateful struct {
	*proc
	custom  []byte
	got     []byte
	saveErr int // 0 none 1 error before writing 2 error after writing half 3 panic
	loadErr int // 0 none 1 error 2 panic
	loads   int
}

func (s *stateful) SaveCustomState(wr io.Writer) error {
	switch s.saveErr {
	case 1:
		return errPlugin
	case 2:
		wr.Write(s.custom[:len(s.custom)/2])
		return errPlugin
	case 3:
		panic("plugin: SaveCustomState")
	}
	_, err := wr.Write(s.custom)
	return err
}

func (s *stateful) LoadCustomState(rd io.Reader) error {
	s.loads++
	switch s.loadErr {
	case 1:
		return errPlugin
	case 2:
		panic("plugin: LoadCustomState")
	}
	b, err := io.ReadAll(rd)
	if err != nil {
		return err
	}
	s.got = b
	return nil
}

// plug is the registered plugin.
type plug struct {
	info    fwplugin.Info
	create  func() plugin.Processor
	infoPan bool
}

func (p *plug) GetInfo() fwplugin.Info {
	if p.infoPan {
		p.infoPan = false
		panic("plugin: GetInfo")
	}
	return p.info
}
func (p *plug) CreateProcessor() plugin.Processor { rt.Y(-84); return p.create() }

// ---- host call helpers ----

func iid(k int) ptr { return ptr(C.vs_iid(C.int32_t(k))) }

func (w *arena) uid(u [16]byte) ptr {
	p := w.alloc(16)
	copy(unsafe.Slice((*byte)(p), 16), u[:])
	return p
}

func factory() ptr                 { return ptr(C.vs_factory()) }
func addRef(o ptr) uint32          { return uint32(C.vs_addref(o)) }
func release(o ptr) uint32         { return uint32(C.vs_release(o)) }
func qi(o ptr, k int) (ptr, int32) { return qiInto(o, iid(k)) }

// The out pointer starts as garbage: a failing call has to clear it.
var garbage = ptr(C.malloc(8))

func qiInto(o ptr, id ptr) (ptr, int32) {
	out := (*ptr)(C.malloc(8))
	defer C.free(ptr(out))
	*out = garbage
	rc := int32(C.vs_qi(o, id, (*ptr)(out)))
	return *out, rc
}

func create(f, cid, id ptr) (ptr, int32) {
	out := (*ptr)(C.malloc(8))
	defer C.free(ptr(out))
	*out = garbage
	rc := int32(C.f_create(f, cid, id, out))
	return *out, rc
}

func tchars(p ptr, n int) []uint16 { return unsafe.Slice((*uint16)(p), n) }

// str16 decodes a zero-terminated string of at most n units; ok is false if it
// is not terminated or not valid UTF-16.
func str16(p ptr, n int) (string, bool) {
	u := tchars(p, n)
	for i, c := range u {
		if c == 0 {
			s := string(utf16.Decode(u[:i]))
			return s, len(utf16.Encode([]rune(s))) == i && !hasLone(u[:i])
		}
	}
	return "", false
}

func hasLone(u []uint16) bool {
	for i := 0; i < len(u); i++ {
		switch {
		case u[i] >= 0xD800 && u[i] < 0xDC00:
			if i+1 >= len(u) || u[i+1] < 0xDC00 || u[i+1] > 0xDFFF {
				return true
			}
			i++
		case u[i] >= 0xDC00 && u[i] <= 0xDFFF:
			return true
		}
	}
	return false
}

// cut16 is what of s fits into a buffer of n units.
func cut16(s string, n int) string {
	u := utf16.Encode([]rune(s))
	if len(u) <= n-1 {
		return string(utf16.Decode(u))
	}
	u = u[:n-1]
	if len(u) > 0 && u[len(u)-1] >= 0xD800 && u[len(u)-1] < 0xDC00 {
		u = u[:len(u)-1]
	}
	return string(utf16.Decode(u))
}

// instance is one plugin instance as the host sees it.
type instance struct {
	comp, aud, ctl ptr
	p              *proc
	st             *stateful
}

// open creates an instance through the factory.
func (w *world) open(pl *plug) (*instance, string) {
	plugin.Register(pl)
	u := pl.info.UID()
	f := factory()
	if f == nil {
		return nil, "no factory"
	}
	cid := w.uid(u)
	c, rc := create(f, cid, iid(iidComponent))
	release(f)
	if rc != 0 || c == nil {
		return nil, fmt.Sprintf("createInstance returned %d", rc)
	}
	in := &instance{comp: c}
	var r2 int32
	if in.aud, rc = qi(c, iidProcessor); rc != 0 {
		return nil, "no IAudioProcessor"
	}
	if in.ctl, r2 = qi(c, iidController); r2 != 0 {
		return nil, "no IEditController"
	}
	return in, ""
}

func (in *instance) close() {
	release(in.ctl)
	release(in.aud)
	release(in.comp)
}

// guard runs a host call; a Go panic that crosses the C boundary would kill
// the host's process.
func (w *world) guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(*rt.Abort); is {
				panic(e)
			}
			ok = false
			w.r.Fail("host-crash", "host-crash", "%s: a panic left the plugin and would end the host: %v\n%s", what, e, rt.Stack())
		}
	}()
	f()
	return true
}

// drained checks the C allocations at the end of a run.
func (w *world) drained(what string) {
	C.vs_alloc_check()
	if n := C.vs_alloc_errors(); n > 0 {
		w.r.Fail("memory", "memory", "%s: %d frees of memory not in use, or writes outside or after the life of a block", what, int(n))
		return
	}
	if n := C.vs_alloc_live(); n > 0 {
		w.r.Fail("leak", "leak", "%s: %d allocations of the bridge still in use", what, int(n))
	}
}
