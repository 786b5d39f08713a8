package frame

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
)

// P04/P05: saving and restoring plugin state.

type entry struct {
	id uint32
	v  float64
}

// encode is the independent reference encoder of the version-1 layout.
func encode(es []entry, custom []byte, hasCustom bool) []byte {
	b := []byte("VST3GO")
	b = binary.LittleEndian.AppendUint32(b, 1)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(es)))
	for _, e := range es {
		b = binary.LittleEndian.AppendUint32(b, e.id)
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(e.v))
	}
	if hasCustom {
		b = binary.LittleEndian.AppendUint32(b, 1)
		return append(b, custom...)
	}
	return binary.LittleEndian.AppendUint32(b, 0)
}

// decode is the reference decoder: ok is false if the stream must be refused.
func decode(b []byte) (es []entry, custom []byte, hasCustom bool, ok bool) {
	if len(b) < 14 || string(b[:6]) != "VST3GO" {
		return
	}
	if binary.LittleEndian.Uint32(b[6:]) > 1 {
		return
	}
	n := int32(binary.LittleEndian.Uint32(b[10:]))
	b = b[14:]
	if n < 0 || int64(len(b)) < int64(n)*12+4 {
		return
	}
	for i := int32(0); i < n; i++ {
		es = append(es, entry{binary.LittleEndian.Uint32(b), math.Float64frombits(binary.LittleEndian.Uint64(b[4:]))})
		b = b[12:]
	}
	if binary.LittleEndian.Uint32(b) != 0 {
		return es, b[4:], true, true
	}
	return es, nil, false, true
}

func blob(r *core.R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// customBytes: a length-prefixed blob, as a plugin would store it.
func customBytes(payload []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(payload))), payload...)
}

func readCustom(rd io.Reader) ([]byte, error) {
	var n uint32
	if err := binary.Read(rd, binary.LittleEndian, &n); err != nil {
		return nil, err
	}
	if n > 1<<20 {
		return nil, fmt.Errorf("custom section too large")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(rd, b)
	return b, err
}

func streamCfg(g *core.R, c *core.Case) {
	c.Set("frag", int64(g.N(3)))
	c.Set("zero", int64(g.N(2)))
	c.Set("witherr", int64(g.N(2)))
}

func mkReader(c *core.Case, r *core.Rec, b []byte, g *core.R) *core.Reader {
	return &core.Reader{B: b, FailAt: -1, Frag: int(c.Cfg["frag"]), Zero: c.Cfg["zero"] == 1, WithErr: c.Cfg["witherr"] == 1, R: g, Rec: r}
}

func specialValue(g *core.R) float64 {
	if g.Chance(0.2) {
		return g.PickF(0, 1, 0.5, math.Nextafter(1, 0), 5e-324, math.SmallestNonzeroFloat64*3, 1e-300)
	}
	return g.F()
}

func genIDs(g *core.R, n int) []int64 {
	var ids []int64
	seen := map[int64]bool{}
	for len(ids) < n {
		var id int64
		switch g.N(4) {
		case 0:
			id = int64(len(ids))
		case 1:
			id = int64(g.N(1000))
		case 2:
			id = int64(g.PickF(0xffffffff, 0x80000000, 0x7fffffff, 0xdeadbeef))
		default:
			id = int64(g.U64() & 0xffffffff)
		}
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

// expand replaces a "bulk" operation (first id, count, seed) by that many
// parameters; an id already present is left out.
func expand(ops []core.Op) []core.Op {
	bulk := false
	for _, o := range ops {
		bulk = bulk || o.K == "bulk"
	}
	if !bulk {
		return ops
	}
	var res []core.Op
	seen := map[int64]bool{}
	add := func(o core.Op) {
		if !seen[o.Int(0)] {
			seen[o.Int(0)] = true
			res = append(res, o)
		}
	}
	for _, o := range ops {
		if o.K != "bulk" {
			add(o)
			continue
		}
		step := o.Int(2)
		if step < 1 {
			step = 1
		}
		for k := int64(0); k < o.Int(1) && k < 20000; k++ {
			_, v := math.Modf(math.Abs(o.Flt(0)) + float64(k)*0.6180339887)
			add(core.Op{K: "param", I: []int64{(o.Int(0) + k*step) & 0xffffffff}, F: []core.X{core.X(v)}})
		}
	}
	return res
}

// genBulk adds a large block of parameters to both registries.
func genBulk(g *core.R, n int, ids []int64, src, dst []core.Op) ([]core.Op, []core.Op) {
	for {
		base := int64(g.U64() & 0xffffffff)
		step := int64(g.Pick(1, 1, 2, 1000))
		clear := true
		for k := 0; k < n && clear; k++ {
			for _, id := range ids {
				if (base+int64(k)*step)&0xffffffff == id {
					clear = false
				}
			}
		}
		if !clear {
			continue
		}
		ob := core.Op{K: "bulk", I: []int64{base, int64(n), step}, F: []core.X{core.X(g.F())}}
		src = append(src, ob)
		ob.F = []core.X{core.X(g.F())}
		at := g.N(len(dst) + 1)
		dst = append(dst[:at:at], append([]core.Op{ob}, dst[at:]...)...)
		return src, dst
	}
}

func init() {
	core.Register(&core.Check{
		NoEcho: true,
		ID:     "P04", Quick: 200000, Thorough: 4000000, RaceQuick: 1000, RaceThoro: 20000,
		Rule:      "Source registry of 0-60 parameters, optional custom section; 0-3 host threads automate parameters and one may register new ones while 1-2 saves are in progress under a seeded schedule; the saved streams are compared with an independent encoder and restored into a same/partly different registry through readers that fragment, return empty reads and deliver data together with EOF; streams written by the independent encoder are restored as well. Non-trivial: preemption inside a save, or a fragmented read.",
		StateRule: "distinct interleavings of the save phase: hash of the sequence of (site, task) context switches",
		Real:      []string{"pkg/framework/state.Manager", "pkg/framework/param.Registry", "pkg/framework/param.Parameter"},
		Stub:      []string{"host threads", "thread scheduler", "host stream (in-memory, seeded fragmentation)"},
		Assume:    []string{"readers and writers keep the io.Reader/io.Writer contract", "the plugin's own custom section is length-prefixed and read with io.ReadFull"},
		Must:      []string{"thousands-of-parameters", "large-custom-section"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Pick(0, 1, 2, 3, 5, 8, 20, 60)
			ids := genIDs(g, n+6)
			var src, dst, other []core.Op
			for k := 0; k < n; k++ {
				src = append(src, core.Op{K: "param", I: []int64{ids[k]}, F: []core.X{core.X(specialValue(g))}})
				if g.Chance(0.9) {
					dst = append(dst, core.Op{K: "param", I: []int64{ids[k]}, F: []core.X{core.X(specialValue(g))}})
				}
			}
			for k := 0; k < g.N(4); k++ {
				other = append(other, core.Op{K: "param", I: []int64{ids[n+k]}, F: []core.X{core.X(specialValue(g))}})
			}
			dst = append(dst, other...)
			if g.Chance(0.3) {
				for k := len(dst) - 1; k > 0; k-- {
					j := g.N(k + 1)
					dst[k], dst[j] = dst[j], dst[k]
				}
			}
			big := g.Pick(200, 700, 1500, 5000, 12000)
			length := 60 + n*25
			if i%400 == 150 {
				length += big * 25
				src, dst = genBulk(g, big, ids, src, dst)
			}
			c.Threads = [][]core.Op{src, dst}
			c.Set("custom", int64(g.N(2)))
			c.Set("customlen", int64(g.Pick(0, 1, 7, 100, 700)))
			if i%400 == 50 {
				c.Set("customlen", int64(g.Pick(5000, 70000, 300000)))
			}
			c.Set("saves", int64(g.Range(1, 2)))
			c.Set("late", int64(ids[n+4]))
			c.Set("hostile", int64(g.N(2)))
			streamCfg(g, c)
			autos := g.N(4)
			uniq := 0
			for t := 0; t < autos && n > 0; t++ {
				var ops []core.Op
				for k := g.Range(1, 6); k > 0; k-- {
					uniq++
					if g.Chance(0.08) {
						ops = append(ops, core.Op{K: "late", I: []int64{ids[n+4+g.N(2)]}, F: []core.X{core.X(g.F())}})
					} else {
						ops = append(ops, core.Op{K: "set", I: []int64{ids[g.N(n)]}, F: []core.X{core.X(float64(uniq)/4096 + 0.001)}})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, autos+2, length, true)}
			return c
		},
		Exec: execP04,
	})
}

func mkRegistry(ops []core.Op) (*param.Registry, []uint32) {
	reg := param.NewRegistry()
	var ids []uint32
	for k, o := range ops {
		p := param.New(uint32(o.Int(0)), fmt.Sprintf("p%d", k)).Build()
		p.SetValue(o.Flt(0))
		reg.Add(p)
		ids = append(ids, uint32(o.Int(0)))
	}
	return reg, ids
}

type setEv struct {
	v         float64
	call, ret int64
}

func execP04(c *core.Case, r *core.Rec) {
	g := core.NewR(c.Seed ^ 0xabcdef)
	srcOps, dstOps := expand(c.Threads[0]), expand(c.Threads[1])
	src, ids := mkRegistry(srcOps)
	if len(ids) >= 5000 {
		r.Probe("thousands-of-parameters")
	}
	m := state.NewManager(src)
	hasCustom := c.Cfg["custom"] == 1
	custom := customBytes(blob(g, int(c.Cfg["customlen"])))
	if len(custom) > 65536 {
		r.Probe("large-custom-section")
	}
	if hasCustom {
		m.SetCustomSaveFunc(func(w io.Writer) error {
			for at := 0; at < len(custom); {
				n := 1 + at%13 + at/64
				if at+n > len(custom) {
					n = len(custom) - at
				}
				if _, err := w.Write(custom[at : at+n]); err != nil {
					return err
				}
				at += n
			}
			return nil
		})
	}
	autos := c.Threads[2:]
	saves := int(c.Cfg["saves"])
	ws := make([]*core.Writer, saves)
	errs := make([]error, saves)
	call := make([]int64, saves)
	ret := make([]int64, saves)
	var fns []func()
	for k := 0; k < saves; k++ {
		k := k
		ws[k] = &core.Writer{FailAt: -1}
		fns = append(fns, func() {
			call[k] = rt.Seq()
			errs[k] = m.Save(ws[k])
			ret[k] = rt.Seq()
		})
	}
	sets := make([]map[uint32][]setEv, len(autos))
	type lateEv struct {
		id        uint32
		call, ret int64
	}
	lates := make([][]lateEv, len(autos))
	for t := range autos {
		t := t
		sets[t] = map[uint32][]setEv{}
		fns = append(fns, func() {
			for _, o := range autos[t] {
				id := uint32(o.Int(0))
				if o.K == "late" {
					p := param.New(id, "late").Build()
					p.SetValue(o.Flt(0))
					a := rt.Seq()
					src.Add(p)
					lates[t] = append(lates[t], lateEv{id, a, rt.Seq()})
					continue
				}
				p := src.Get(id)
				if p == nil {
					continue
				}
				a := rt.Seq()
				p.SetValue(o.Flt(0))
				sets[t][id] = append(sets[t][id], setEv{o.Flt(0), a, rt.Seq()})
			}
		})
	}
	r.Run(int64(400000+len(ids)*1000), fns...)
	if r.Failed() {
		return
	}
	init := map[uint32]float64{}
	for _, o := range srcOps {
		if _, dup := init[uint32(o.Int(0))]; !dup {
			init[uint32(o.Int(0))] = o.Flt(0)
		}
	}
	for k := 0; k < saves; k++ {
		r.Eval()
		if errs[k] != nil {
			r.Fail("save-error", "save-error", "save into a healthy stream failed: %v", errs[k])
			return
		}
		es, cu, hc, ok := decode(ws[k].B)
		if !ok || hc != hasCustom || (hc && !bytes.Equal(cu, custom)) {
			r.Fail("saved-stream-malformed", "saved-stream-malformed", "the saved stream (%d bytes) is not a well-formed version-1 state: parsed=%v custom=%v", len(ws[k].B), ok, hc)
			return
		}
		if !hc && len(ws[k].B) != 14+12*len(es)+4 {
			r.Fail("saved-stream-malformed", "saved-stream-malformed", "%d surplus bytes after the state", len(ws[k].B)-(14+12*len(es)+4))
			return
		}
		r.ObserveS(string(ws[k].B))
		got := map[uint32]float64{}
		for j, e := range es {
			if _, dup := got[e.id]; dup {
				r.Fail("saved-twice", "saved-twice", "parameter %d is stored twice", e.id)
				return
			}
			got[e.id] = e.v
			if j < len(ids) && e.id != ids[j] {
				r.Fail("saved-order", "saved-order", "entry %d is parameter %d, expected %d", j, e.id, ids[j])
				return
			}
		}
		for _, id := range ids {
			v, ok := got[id]
			if !ok {
				r.Fail("parameter-not-saved", "parameter-not-saved", "parameter %d is missing from the saved state", id)
				return
			}
			// The stored value is one the parameter held during the save.
			legal := false
			var all []setEv
			for t := range sets {
				all = append(all, sets[t][id]...)
			}
			lastBefore := int64(-1)
			for _, e := range all {
				if e.ret < call[k] && e.call > lastBefore {
					lastBefore = e.call
				}
			}
			if v == init[id] && lastBefore < 0 {
				legal = true
			}
			for _, e := range all {
				// e may be the current value somewhere in the window unless it
				// began after the save ended, or another write lies entirely
				// between it and the save.
				if e.v != v || e.call > ret[k] {
					continue
				}
				over := false
				for _, f := range all {
					if f.call > e.ret && f.ret < call[k] {
						over = true
					}
				}
				if !over {
					legal = true
				}
			}
			if !legal {
				r.Fail("saved-wrong-value", "saved-wrong-value", "parameter %d was saved as %v, a value it did not hold during the save (initially %v, writes %v, save [%d..%d])", id, v, init[id], all, call[k], ret[k])
				return
			}
		}
		for id := range got {
			if _, ok := init[id]; ok {
				continue
			}
			known := false
			for t := range lates {
				for _, e := range lates[t] {
					if e.id == id && e.call < ret[k] {
						known = true
					}
				}
			}
			if !known {
				r.Fail("saved-unknown", "saved-unknown", "parameter %d is stored but was not registered", id)
				return
			}
		}
		for t := range lates {
			for _, e := range lates[t] {
				if _, ok := got[e.id]; !ok && e.ret < call[k] {
					r.Fail("parameter-not-saved", "parameter-not-saved", "parameter %d, registered before the save, is missing", e.id)
					return
				}
			}
		}
	}
	// Restore what was saved, and what an independent writer stored.
	streams := [][]byte{ws[0].B}
	if c.Cfg["hostile"] == 1 {
		var es []entry
		for _, id := range ids {
			es = append(es, entry{id, specialValue(g)})
		}
		es = append(es, entry{0x12345, 0.25})
		streams = append(streams, encode(es, custom, hasCustom))
		r.Probe("independent-writer")
	}
	for si, b := range streams {
		r.Eval()
		dst, dids := mkRegistry(dstOps)
		before := map[uint32]float64{}
		for _, id := range dids {
			before[id] = dst.Get(id).GetValue()
		}
		m2 := state.NewManager(dst)
		var gotCustom []byte
		calls := 0
		withLoader := g.Chance(0.8)
		if withLoader {
			m2.SetCustomLoadFunc(func(rd io.Reader) error {
				calls++
				var err error
				gotCustom, err = readCustom(rd)
				return err
			})
		}
		rd := mkReader(c, r, b, g)
		if rd.Frag != 0 {
			r.NonTriv = true
		}
		var err error
		if f, st := rt.Solo(50_000_000, func() { err = m2.Load(rd) }); f != "" {
			r.Fail("load-"+f, "load-failure", "loading a well-formed state: %s\n%s", f, st)
			return
		}
		if err != nil {
			r.Fail("load-refused", "load-refused", "stream %d: loading a well-formed state failed: %v", si, err)
			return
		}
		es, _, hc, _ := decode(b)
		want := map[uint32]float64{}
		for id, v := range before {
			want[id] = v
		}
		for _, e := range es {
			if _, ok := want[e.id]; ok {
				want[e.id] = e.v
			}
		}
		for _, id := range dids {
			if v := dst.Get(id).GetValue(); v != want[id] {
				r.Fail("not-restored", "not-restored", "parameter %d is %v after loading, expected %v (before: %v)", id, v, want[id], before[id])
				return
			}
		}
		if int(dst.Count()) != len(before) {
			r.Fail("registry-changed", "registry-changed", "loading changed the number of parameters")
		}
		if hc && withLoader && (calls != 1 || !bytes.Equal(customBytes(gotCustom), custom)) {
			r.Fail("custom-not-restored", "custom-not-restored", "custom section: loader called %d times, got %d bytes of %d", calls, len(gotCustom), len(custom)-4)
			return
		}
		if !hc && calls != 0 {
			r.Fail("custom-spurious", "custom-spurious", "the custom loader ran although the state has no custom section")
			return
		}
	}
}
