package abi

// #include "host.h"
import "C"

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	fwplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/pkg/vst3"
)

// P27: state through the host's stream objects.

func init() {
	core.Register(&core.Check{
		ID: "P27", Quick: 33000, Thorough: 660000, RaceQuick: 600, RaceThoro: 12000,
		Rule:      "A host saves and restores two instances through IBStream objects: whole, byte-wise, random and 7-byte transfers, streams without seek/tell, streams that already hold data and start in the middle; faults: error at the n-th read, write or seek, a write that accepts nothing, a full stream, data that ends early, custom sections that fail or panic; then normal use goes on. Also the typed stream helpers. A tenth of the runs save, restore and automate from three threads. Non-trivial: a save or load met a fault or a fragmenting stream.",
		StateRule: "distinct (operation, transfer style, fault, position of the fault, outcome) tuples and interleavings",
		Real:      []string{"bridge/*.c", "pkg/plugin", "pkg/vst3.StreamWrapper", "pkg/framework/state", "pkg/framework/param"},
		Stub:      []string{"host streams", "thread scheduler", "plugin author's custom state", "VST3 header (stand-in)"},
		Assume:    []string{"a stream without seek and tell marks its end by a read of no bytes"},
		Gen:       genP27,
		Exec:      execP27,
		Must:      []string{"saved", "loaded", "save-fault", "load-fault", "cut", "typed", "typed-fault", "concurrent", "custom-error", "long", "large"},
	})
}

func genP27(g *core.R, i int) *core.Case {
	c := &core.Case{}
	np := g.Pick(0, 1, 2, 5, 20)
	custom := g.Pick(-1, 0, 1, 9, 300, 5000)
	large := g.Chance(0.015) && i%10 != 9
	if large {
		np = g.Pick(130, 300, 1000, 6000)
		custom = g.Pick(-1, 4096, 65535, 65536, 70000, 300000)
	}
	c.Set("np", int64(np))
	c.Set("custom", int64(custom))
	if i%10 == 9 && np > 0 {
		c.Set("conc", 1)
		mk := func(kinds ...string) []core.Op {
			var ops []core.Op
			for k := g.Range(1, 6); k > 0; k-- {
				ops = append(ops, core.Op{K: kinds[g.N(len(kinds))], I: []int64{int64(g.N(np)), int64(g.N(4)), int64(g.U64() >> 2)}, F: []core.X{core.X(g.F())}})
			}
			return ops
		}
		c.Threads = [][]core.Op{mk("save", "query"), mk("set", "set", "query"), mk("load", "save")}
		c.Scheds = append(c.Scheds, core.GenSched(g, 3, 3000, false))
		return c
	}
	var ops []core.Op
	style := func() []int64 {
		if large {
			return []int64{int64(g.Pick(0, 2, 2, 4)), int64(g.N(2)), int64(g.Pick(0, 13)), int64(g.U64() >> 2)}
		}
		// frag, seekNo, prefix, seed
		return []int64{int64(g.Pick(0, 0, 1, 2, 3)), int64(g.Pick(0, 0, 0, 1)), int64(g.Pick(0, 0, 0, 1, 13)), int64(g.U64() >> 2)}
	}
	place := func() int64 {
		if large && g.Chance(0.5) {
			return int64(g.N(12*np + max(custom, 0) + 20))
		}
		return int64(g.Pick(0, 1, 2, g.N(12), g.N(60), g.N(400)))
	}
	for k := g.Range(2, 14); k > 0; k-- {
		switch g.N(10) {
		case 0, 1:
			if np > 0 {
				ops = append(ops, core.Op{K: "set", I: []int64{int64(g.N(2)), int64(g.N(np))}, F: []core.X{core.X(g.PickF(g.F(), g.F(), 0, 1, 0.1, math.SmallestNonzeroFloat64))}})
			}
		case 2, 3, 4:
			// instance, slot, via, fault kind, fault position, custom fault, style...
			f := int64(0)
			if g.Chance(0.5) {
				f = int64(g.Range(1, 3))
			}
			cf := int64(0)
			if g.Chance(0.12) {
				cf = int64(g.Range(1, 3))
			}
			ops = append(ops, core.Op{K: "save", I: append([]int64{int64(g.N(2)), int64(g.N(3)), int64(g.N(2)), f, place(), cf}, style()...)})
		case 5, 6, 7:
			f := int64(0)
			if g.Chance(0.5) {
				f = int64(g.Range(1, 3))
			}
			cf := int64(0)
			if g.Chance(0.12) {
				cf = int64(g.Range(1, 2))
			}
			ops = append(ops, core.Op{K: "load", I: append([]int64{int64(g.N(2)), int64(g.N(3)), int64(g.N(3)), f, place(), cf}, style()...)})
		case 8:
			ops = append(ops, core.Op{K: "bad", I: []int64{int64(g.N(2)), int64(g.N(3)), int64(g.N(6)), int64(g.U64() >> 2), int64(g.N(3))}})
		default:
			s := ""
			for n := g.Pick(0, 1, 5, 40, 300); n > 0; n-- {
				s += string(rune(g.Pick('a', 0, 'é', 0x1f600)))
			}
			rep := int64(0)
			if large || g.Chance(0.04) {
				rep = int64(g.Pick(100, 1000, 40000))
				large = true // few calls
			}
			ops = append(ops, core.Op{K: "typed", I: append(append([]int64{int64(g.U64() >> 2), int64(g.Range(1, 8)), int64(g.N(5)), int64(g.N(20))}, style()...), rep), S: s})
		}
	}
	c.Threads = [][]core.Op{ops}
	return c
}

type stInst struct {
	*instance
	vals   []float64
	custom []byte
}

type saved struct {
	b      []byte
	vals   []float64
	custom []byte
}

type st27 struct {
	w      *world
	r      *core.Rec
	in     [2]*stInst
	ids    []uint32
	slots  [3]*saved
	hasC   bool
	evals  int64
	shapes []uint64
	probes map[string]int
	faults map[string]int
	nt     bool
}

func (t *st27) fail(class, f string, a ...any) { t.r.Fail(class, class, f, a...) }

func newSt27(c *core.Case, r *core.Rec) *st27 {
	t := &st27{w: newWorld(r), r: r, probes: map[string]int{}, faults: map[string]int{}}
	np, cl := int(c.Cfg["np"]), int(c.Cfg["custom"])
	t.hasC = cl >= 0
	for k := 0; k < np; k++ {
		t.ids = append(t.ids, uint32(3+k*k))
	}
	for k := range t.in {
		p := &proc{reg: mkReg(t.ids), ids: t.ids, panicIn: -1, bus: bus.NewStereoConfiguration()}
		var pr plugin.Processor = p
		x := &stInst{}
		var sf *stateful
		if t.hasC {
			x.custom = make([]byte, cl)
			for j := range x.custom {
				x.custom[j] = byte(j*7 + k*31)
			}
			sf = &stateful{proc: p, custom: x.custom}
			pr = sf
		}
		in, why := t.w.open(&plug{info: fwplugin.Info{ID: "vs.state", Name: "State"}, create: func() plugin.Processor { return pr }})
		if why != "" {
			r.Fail("create", "create", "%s", why)
			return nil
		}
		in.p, in.st = p, sf
		x.instance = in
		x.vals = t.read(x)
		t.in[k] = x
		if C.c_init(in.comp, nil) != 0 {
			r.Fail("create", "create", "initialize failed")
			return nil
		}
	}
	return t
}

func (t *st27) read(x *stInst) []float64 {
	var v []float64
	for _, id := range t.ids {
		v = append(v, float64(C.e_get(x.ctl, C.uint32_t(id))))
	}
	return v
}

func eqv(a, b []float64) bool {
	for k := range a {
		if math.Float64bits(a[k]) != math.Float64bits(b[k]) {
			return false
		}
	}
	return len(a) == len(b)
}

// stream of the given style around content that starts at its current position.
func (t *st27) stream(content []byte, st []int64) (*stream, ptr, int) {
	pre := int(st[2])
	b := append(bytes.Repeat([]byte{0xEE}, pre), content...)
	s := newStream(b)
	s.pos = int64(pre)
	s.frag = int(st[0])
	s.seekNo = st[1] != 0
	s.rnd = core.NewR(uint64(st[3]))
	return s, t.w.add(kStream, s), pre
}

func getState(x *stInst, via int64, o ptr) int32 {
	if via == 1 {
		return int32(C.e_getstate(x.ctl, o))
	}
	return int32(C.c_getstate(x.comp, o))
}

func setState(x *stInst, via int64, o ptr) int32 {
	switch via {
	case 1:
		return int32(C.e_setstate(x.ctl, o))
	case 2:
		return int32(C.e_setcompstate(x.ctl, o))
	}
	return int32(C.c_setstate(x.comp, o))
}

func (t *st27) same(x *stInst, what string) bool {
	if v := t.read(x); !eqv(v, x.vals) {
		t.fail("changed", "%s: the parameters changed from %v to %v", what, x.vals, v)
		return false
	}
	return true
}

func (t *st27) op(o core.Op) {
	t.evals++
	switch o.K {
	case "set":
		x := t.in[o.Int(0)]
		k := int(o.Int(1)) % len(t.ids)
		if C.e_set(x.ctl, C.uint32_t(t.ids[k]), C.double(o.Flt(0))) != 0 {
			t.fail("call-failed", "setParamNormalized failed")
		}
		x.vals[k] = clamp1(o.Flt(0))
	case "save":
		t.save(o)
	case "load":
		t.load(o)
	case "bad":
		t.bad(o)
	case "typed":
		t.typed(o)
	}
}

func (t *st27) save(o core.Op) {
	x := t.in[o.Int(0)]
	s, obj, pre := t.stream(nil, o.I[6:])
	s.seekNo = o.I[7] != 0
	switch pos := int(o.Int(4)); o.Int(3) {
	case 1:
		s.failWr = pos
	case 2:
		s.zeroWr = pos
	case 3:
		s.capAt = pre + pos
	}
	cf := 0
	if x.st != nil {
		cf = int(o.Int(5))
		x.st.saveErr = cf
	}
	var rc int32
	if !t.w.guard("getState", func() { rc = getState(x, o.Int(2), obj) }) {
		return
	}
	if x.st != nil {
		x.st.saveErr = 0
	}
	t.shapes = append(t.shapes, core.HashU(core.HashU(1, uint64(o.Int(3)*8+o.I[6])), core.HashU(uint64(o.Int(4)), uint64(uint32(rc))+uint64(cf)<<33)))
	if !t.same(x, "saving") {
		return
	}
	if cf != 0 {
		t.probes["custom-error"]++
		t.faults["custom-save-error"]++
		if rc == 0 {
			t.fail("error-hidden", "the plugin's own state failed to save (kind %d), but getState returned success", cf)
		}
		return
	}
	if s.failed {
		t.nt = true
		t.probes["save-fault"]++
		t.faults[s.what[:len(s.what)-1]]++
		if rc == 0 {
			t.fail("error-hidden", "the stream failed (%s), but getState returned success after writing %d bytes", s.what, len(s.b)-pre)
		}
		return
	}
	if rc != 0 {
		t.fail("call-failed", "getState returned %d on a stream without faults (transfer style %d)", rc, s.frag)
		return
	}
	t.nt = t.nt || s.frag > 0
	t.probes["saved"]++
	if len(s.b) > 70000 {
		t.probes["large"]++
	}
	t.slots[o.Int(1)] = &saved{b: append([]byte(nil), s.b[pre:]...), vals: append([]float64(nil), x.vals...), custom: x.custom}
	for _, c := range s.b[:pre] {
		if c != 0xEE {
			t.fail("overwrote", "getState changed data in front of the stream's position")
			return
		}
	}
}

// head is the length of a state without its custom section.
func (t *st27) head() int { return 6 + 4 + 4 + 12*len(t.ids) + 4 }

func (t *st27) load(o core.Op) {
	x := t.in[o.Int(0)]
	sv := t.slots[o.Int(1)]
	if sv == nil {
		return
	}
	s, obj, pre := t.stream(sv.b, o.I[6:])
	kind := o.Int(3)
	end := -1
	switch pos := int(o.Int(4)); kind {
	case 1:
		s.failRd = pos
	case 2:
		end = pos % (len(sv.b) + 1)
		s.endAt = pre + end
	case 3:
		s.seekIn = pos
	}
	cf := 0
	if x.st != nil {
		cf = int(o.Int(5))
		x.st.loadErr = cf
		x.st.got = nil
	}
	loads := 0
	if x.st != nil {
		loads = x.st.loads
	}
	var rc int32
	if !t.w.guard("setState", func() { rc = setState(x, o.Int(2), obj) }) {
		return
	}
	if x.st != nil {
		x.st.loadErr = 0
	}
	t.shapes = append(t.shapes, core.HashU(core.HashU(2, uint64(kind*8+o.I[6])), core.HashU(uint64(o.Int(4)), uint64(uint32(rc))+uint64(cf)<<33+uint64(o.I[7])<<40)))
	v := t.read(x)
	old, niu := eqv(v, x.vals), eqv(v, sv.vals)
	defer func() { x.vals = v }()
	if !old && !niu {
		t.fail("torn", "setState left parameters %v, neither those before %v nor those saved %v", v, x.vals, sv.vals)
		return
	}
	if cf != 0 && x.st.loads != loads {
		t.probes["custom-error"]++
		t.faults["custom-load-error"]++
		if rc == 0 {
			t.fail("error-hidden", "the plugin's own state failed to load (kind %d), but setState returned success", cf)
		}
		return
	}
	if s.failed && (rc != 0 || kind != 3) {
		// An early end of a stream that cannot seek looks like the end of the
		// data: what was there may be loaded if the parameters are complete.
		if kind == 2 && s.seekNo && end >= t.head() {
			if rc == 0 && !niu {
				t.fail("lost", "setState returned success but the parameters are %v instead of %v", v, sv.vals)
			}
			return
		}
		t.nt = true
		t.probes["load-fault"]++
		t.faults[s.what[:len(s.what)-1]]++
		if rc == 0 {
			t.fail("error-hidden", "the stream failed (%s at %d of %d), but setState returned success", s.what, o.Int(4), len(sv.b))
			return
		}
		if !old {
			t.fail("changed", "setState failed (%s), but the parameters changed from %v to %v", s.what, x.vals, v)
			return
		}
		if x.st != nil && x.st.loads != loads {
			t.fail("changed", "setState failed (%s), but the plugin's own state was loaded", s.what)
		}
		return
	}
	if kind == 2 && s.seekNo && end < len(sv.b) {
		return
	}
	if rc != 0 {
		t.fail("call-failed", "setState returned %d on a stream without faults (transfer style %d, seekable %v, %d of %d bytes)", rc, s.frag, !s.seekNo, len(sv.b), len(s.b))
		return
	}
	t.probes["loaded"]++
	t.nt = t.nt || s.frag > 0 || s.seekNo
	if !niu {
		t.fail("lost", "setState returned success but the parameters are %v instead of %v", v, sv.vals)
		return
	}
	if x.st != nil {
		if x.st.loads != loads+1 || !bytes.Equal(x.st.got, sv.custom) {
			t.fail("lost", "setState returned success but the plugin's own state was loaded %d times with %d of %d bytes", x.st.loads-loads, len(x.st.got), len(sv.custom))
			return
		}
	}
}

// bad loads something that is not a state of this plugin.
func (t *st27) bad(o core.Op) {
	x := t.in[o.Int(0)]
	var b []byte
	g := core.NewR(uint64(o.Int(3)))
	if sv := t.slots[o.Int(1)]; sv != nil {
		b = append(b, sv.b...)
	}
	switch o.Int(2) {
	case 0:
		b = nil
	case 1:
		if len(b) > 0 {
			b = b[:g.N(min(len(b), t.head()))]
		}
	case 2:
		if len(b) > 6 {
			b[g.N(6)] ^= byte(1 << g.N(8))
		}
	case 3:
		if len(b) > 10 {
			b[6+g.N(4)] |= 0x40
		}
	case 4:
		b = make([]byte, g.Range(1, 200))
		for k := range b {
			b[k] = byte(g.N(256))
		}
		b[0] = 'X'
	case 5:
		if len(b) > 14 {
			b[13] |= 0x80 // a negative count
		}
	}
	if o.Int(2) == 5 && len(b) <= 14 {
		b = nil
	}
	if o.Int(2) == 2 && len(b) <= 6 || o.Int(2) == 3 && len(b) <= 10 {
		b = nil
	}
	var obj ptr
	if o.Int(2) == 0 && g.Chance(0.5) {
		t.faults["null-stream"]++
	} else {
		_, obj, _ = t.stream(b, []int64{int64(g.N(4)), int64(g.N(2)), 0, int64(g.U64() >> 2)})
	}
	var rc int32
	loads := 0
	if x.st != nil {
		loads = x.st.loads
	}
	if !t.w.guard("setState", func() { rc = setState(x, o.Int(4), obj) }) {
		return
	}
	t.probes["cut"]++
	t.faults["damaged-state"]++
	if rc == 0 {
		t.fail("error-hidden", "setState accepted damaged data (kind %d, %d bytes)", o.Int(2), len(b))
		return
	}
	t.same(x, "loading damaged data")
	if x.st != nil && x.st.loads != loads {
		t.fail("changed", "setState refused damaged data but loaded the plugin's own state")
	}
}

func (t *st27) typed(o core.Op) {
	g := core.NewR(uint64(o.Int(0)))
	type item struct {
		k int
		i int32
		f float64
		s string
		b []byte
	}
	text, most := o.S, 30
	if rep := int(o.Int(8)); rep > 0 && len(text) > 0 {
		text = strings.Repeat(text, min(rep, 200000/len(text)+1))
		most = 100000
	}
	var items []item
	total := 0
	for n := int(o.Int(1)); n > 0; n-- {
		it := item{k: g.N(4), i: int32(g.U64()), f: math.Float64frombits(g.U64()), s: text[:g.N(len(text)+1)]}
		for k := g.N(most); k > 0; k-- {
			it.b = append(it.b, byte(g.N(256)))
		}
		items = append(items, it)
		total += []int{4, 8, 4 + len(it.s), len(it.b)}[it.k]
	}
	s, obj, pre := t.stream(nil, o.I[4:])
	pos := int(o.Int(3))
	switch o.Int(2) {
	case 1:
		s.failWr = pos
	case 2:
		s.capAt = pre + pos
	}
	w := vst3.NewStreamWrapper(obj)
	t.probes["typed"]++
	if total > 70000 {
		t.probes["long"]++
	}
	put := func(w *vst3.StreamWrapper, it item) error {
		switch it.k {
		case 0:
			return w.WriteInt32(it.i)
		case 1:
			return w.WriteFloat64(it.f)
		case 2:
			return w.WriteString(it.s)
		}
		at := s.pos
		n, err := w.Write(it.b)
		if int64(n) != s.pos-at || (err == nil && int(n) != len(it.b)) {
			t.fail("count", "Write reported %d bytes, the stream accepted %d of %d (error %v)", n, s.pos-at, len(it.b), err)
		}
		return err
	}
	for _, it := range items {
		err := put(w, it)
		if s.failed != (err != nil) {
			t.fail("error-hidden", "typed write of kind %d: stream failed: %v (%s), error %v", it.k, s.failed, s.what, err)
			return
		}
		if err != nil {
			t.probes["typed-fault"]++
			t.faults[s.what[:len(s.what)-1]]++
			return
		}
	}
	if len(s.b)-pre != total {
		t.fail("count", "typed writes of %d bytes put %d into the stream", total, len(s.b)-pre)
		return
	}
	s.pos = int64(pre)
	switch o.Int(2) {
	case 3:
		s.failRd = pos
	case 4:
		s.endAt = pre + pos
	}
	at := pre
	for _, it := range items {
		var err error
		ok := true
		switch it.k {
		case 0:
			var v int32
			v, err = w.ReadInt32()
			ok = v == it.i
			at += 4
		case 1:
			var v float64
			v, err = w.ReadFloat64()
			ok = math.Float64bits(v) == math.Float64bits(it.f)
			at += 8
		case 2:
			var v string
			v, err = w.ReadString()
			ok = v == it.s
			at += 4 + len(it.s)
		case 3:
			// a plain read may be short, but never beyond the data
			buf := make([]byte, len(it.b))
			got := 0
			for got < len(buf) {
				var n int32
				n, err = w.Read(buf[got:])
				if err != nil || n == 0 {
					break
				}
				got += int(n)
			}
			ok = got == len(buf) && bytes.Equal(buf, it.b)
			at += len(it.b)
			if err == nil && !ok && s.failed {
				return
			}
		}
		if s.failed {
			t.probes["typed-fault"]++
			t.faults[s.what[:len(s.what)-1]]++
			if err == nil && s.pos < int64(at) {
				t.fail("error-hidden", "typed read of kind %d: the stream failed (%s), no error", it.k, s.what)
			}
			return
		}
		if err != nil || !ok {
			t.fail("lost", "typed read of kind %d: error %v, value ok: %v", it.k, err, ok)
			return
		}
	}
	t.nt = t.nt || s.frag > 0
}

// ---- concurrent use ----

func (t *st27) conc(c *core.Case) {
	x := t.in[0]
	if t.hasC {
		x = t.in[0]
	}
	// Everything any parameter may be: the defaults, every set, and the values
	// of the states loaded (t.slots[0], saved in advance).
	legal := make([]map[uint64]bool, len(t.ids))
	for k := range legal {
		legal[k] = map[uint64]bool{math.Float64bits(x.vals[k]): true, math.Float64bits(t.slots[0].vals[k]): true}
	}
	for _, ops := range c.Threads {
		for _, o := range ops {
			if o.K == "set" {
				legal[int(o.Int(0))%len(t.ids)][math.Float64bits(clamp1(o.Flt(0)))] = true
			}
		}
	}
	type res struct {
		s  *stream
		rc int32
	}
	var saves [3][]res
	var fns []func()
	for k, ops := range c.Threads {
		var ss []*stream
		var oo []ptr
		for _, o := range ops {
			var b []byte
			if o.K == "load" {
				b = t.slots[0].b
			}
			s, obj, _ := t.stream(b, []int64{o.Int(1), 0, 0, o.Int(2)})
			ss, oo = append(ss, s), append(oo, obj)
		}
		fns = append(fns, func() {
			for j, o := range ops {
				if rt.Aborting() {
					return
				}
				rt.Y(-75)
				id := C.uint32_t(t.ids[int(o.Int(0))%len(t.ids)])
				switch o.K {
				case "set":
					if C.e_set(x.ctl, id, C.double(o.Flt(0))) != 0 {
						t.fail("call-failed", "setParamNormalized failed")
					}
				case "query":
					C.e_get(x.ctl, id)
				case "load":
					if setState(x, 0, oo[j]) != 0 {
						t.fail("call-failed", "setState failed")
					}
				case "save":
					saves[k] = append(saves[k], res{ss[j], getState(x, 0, oo[j])})
				}
			}
		})
	}
	t.probes["concurrent"]++
	t.r.Run(budget, fns...)
	if t.r.Failed() {
		return
	}
	for _, l := range saves {
		for _, sv := range l {
			t.evals++
			if sv.rc != 0 {
				t.fail("call-failed", "getState returned %d", sv.rc)
				return
			}
			// A second instance tells what was saved.
			y := t.in[1]
			obj := t.w.add(kStream, newStream(sv.s.b))
			if rc := setState(y, 0, obj); rc != 0 {
				t.fail("torn", "a state saved during other calls cannot be loaded (%d)", rc)
				return
			}
			for k, v := range t.read(y) {
				if !legal[k][math.Float64bits(v)] {
					t.fail("torn", "a state saved during other calls holds %v for parameter %d, which it never was", v, t.ids[k])
					return
				}
			}
			if y.st != nil && !bytes.Equal(y.st.got, x.custom) {
				t.fail("lost", "a state saved during other calls holds %d of %d bytes of the plugin's own state", len(y.st.got), len(x.custom))
				return
			}
		}
	}
}

func execP27(c *core.Case, r *core.Rec) {
	var t *st27
	conc := c.Cfg["conc"] != 0
	if f, st := rt.Solo(budget, func() {
		t = newSt27(c, r)
		if t != nil && conc {
			for k, id := range t.ids {
				C.e_set(t.in[1].ctl, C.uint32_t(id), C.double(float64(k)/64))
			}
			t.in[1].vals = t.read(t.in[1])
			t.save(core.Op{K: "save", I: []int64{1, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
		}
	}); f != "" {
		r.Fail("start-"+f, "start-failure", "%s\n%s", f, st)
		return
	}
	if t == nil || r.Failed() {
		return
	}
	if conc {
		if t.in[0].st != nil {
			t.in[0].st.custom = bytes.Clone(t.in[0].custom)
		}
		t.conc(c)
	} else {
		solo(r, func() {
			for _, o := range c.Threads[0] {
				if r.Failed() {
					return
				}
				t.op(o)
			}
		})
	}
	for _, k := range []string{"saved", "loaded", "save-fault", "load-fault", "cut", "typed", "typed-fault", "concurrent", "custom-error", "long", "large"} {
		if t.probes[k] > 0 {
			r.Probe(k)
		}
	}
	for _, k := range []string{"read-error", "write-error", "zero-write", "early-end", "stream-full", "seek-error", "custom-save-error", "custom-load-error", "damaged-state", "null-stream"} {
		if t.faults[k] > 0 {
			r.FaultN(k, t.faults[k])
		}
	}
	for _, h := range t.shapes {
		r.State(h)
		r.Observe(h)
	}
	r.NonTriv = t.nt || conc
	r.Evals += t.evals
	if r.Failed() {
		return
	}
	for _, x := range t.in {
		x.close()
	}
	t.w.drained("after releasing the instances")
	_ = fmt.Sprint
}
