package frame

import (
	"encoding/json"
	"sort"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/midi"
)

// P06: the MIDI event queue is linearizable against a stable time-ordered list.

type mEv struct {
	Tag int   // identity, carried in the event's payload
	Off int32 // sample offset
}

type qIn struct {
	kind string
	evs  []mEv
	a, b int32
}

type qOut struct {
	evs []mEv
	n   int
	ok  bool
}

// makeEvent builds an event of one of eleven kinds whose payload carries tag.
// Kinds without a payload carry the tag in the channel.
func makeEvent(tag int, off int32) midi.Event {
	b := midi.BaseEvent{EventChannel: uint8(tag & 15), Offset: off}
	hi := uint8(tag >> 4 & 15)
	switch tag % 11 {
	case 0:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: hi, Velocity: 100}
	case 1:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: hi, Velocity: 64}
	case 2:
		return midi.ControlChangeEvent{BaseEvent: b, Controller: 7, Value: hi}
	case 3:
		return midi.PitchBendEvent{BaseEvent: b, Value: int16(hi)}
	case 4:
		return midi.PolyPressureEvent{BaseEvent: b, NoteNumber: hi, Pressure: 3}
	case 5:
		return midi.ChannelPressureEvent{BaseEvent: b, Pressure: hi}
	case 6:
		return midi.ProgramChangeEvent{BaseEvent: b, Program: hi}
	case 7:
		b.EventChannel = uint8(tag)
		return midi.ClockEvent{BaseEvent: b}
	case 8:
		b.EventChannel = uint8(tag)
		return midi.StartEvent{BaseEvent: b}
	case 9:
		b.EventChannel = uint8(tag)
		return midi.StopEvent{BaseEvent: b}
	default:
		b.EventChannel = uint8(tag)
		return midi.ContinueEvent{BaseEvent: b}
	}
}

func readEvent(e midi.Event) mEv {
	if e == nil {
		return mEv{-1, 0}
	}
	ch := int(e.Channel())
	off := e.SampleOffset()
	kind, hi := -1, 0
	switch x := e.(type) {
	case midi.NoteOnEvent:
		kind, hi = 0, int(x.NoteNumber)
		if x.Velocity != 100 {
			kind = -1
		}
	case midi.NoteOffEvent:
		kind, hi = 1, int(x.NoteNumber)
		if x.Velocity != 64 {
			kind = -1
		}
	case midi.ControlChangeEvent:
		kind, hi = 2, int(x.Value)
		if x.Controller != 7 {
			kind = -1
		}
	case midi.PitchBendEvent:
		kind, hi = 3, int(x.Value)
	case midi.PolyPressureEvent:
		kind, hi = 4, int(x.NoteNumber)
		if x.Pressure != 3 {
			kind = -1
		}
	case midi.ChannelPressureEvent:
		kind, hi = 5, int(x.Pressure)
	case midi.ProgramChangeEvent:
		kind, hi = 6, int(x.Program)
	case midi.ClockEvent:
		kind, hi, ch = 7, ch>>4, ch&15
	case midi.StartEvent:
		kind, hi, ch = 8, ch>>4, ch&15
	case midi.StopEvent:
		kind, hi, ch = 9, ch>>4, ch&15
	case midi.ContinueEvent:
		kind, hi, ch = 10, ch>>4, ch&15
	}
	tag := hi<<4 | ch
	if kind < 0 || tag%11 != kind {
		return mEv{-2, off}
	}
	return mEv{tag, off}
}

func readEvents(es []midi.Event) []mEv {
	var o []mEv
	for _, e := range es {
		o = append(o, readEvent(e))
	}
	return o
}

func sortedEvs(l []mEv) []mEv {
	o := append([]mEv{}, l...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].Off < o[j].Off })
	return o
}

func inRange(l []mEv, a, b int32) []mEv {
	var o []mEv
	for _, e := range sortedEvs(l) {
		if e.Off >= a && e.Off < b {
			o = append(o, e)
		}
	}
	return o
}

func sameEvs(a, b []mEv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var queueModel = porcupine.Model{
	Init: func() any { return "[]" },
	Step: func(s, in, out any) (bool, any) {
		var l []mEv
		json.Unmarshal([]byte(s.(string)), &l)
		put := func() string { b, _ := json.Marshal(l); return string(b) }
		i := in.(qIn)
		o, _ := out.(qOut)
		switch i.kind {
		case "add", "addmany":
			l = append(l, i.evs...)
			return true, put()
		case "range", "process":
			return sameEvs(o.evs, inRange(l, i.a, i.b)), s
		case "all":
			return sameEvs(o.evs, sortedEvs(l)), s
		case "size":
			return o.n == len(l), s
		case "empty":
			return o.ok == (len(l) == 0), s
		case "clear":
			l = []mEv{}
			return true, put()
		case "remove":
			k := []mEv{}
			for _, e := range l {
				if e.Off > i.a {
					k = append(k, e)
				}
			}
			l = k
			return true, put()
		case "shift":
			for k := range l {
				l[k].Off += i.a
			}
			return true, put()
		}
		return false, s
	},
	Equal: func(a, b any) bool { return a == b },
}

type recProc struct{ evs []mEv }

func (p *recProc) ProcessEvent(e midi.Event) { p.evs = append(p.evs, readEvent(e)) }

func init() {
	core.Register(&core.Check{
		ID: "P06", Quick: 35000, Thorough: 700000, RaceQuick: 1500, RaceThoro: 40000,
		Rule:      "2-4 threads add events of all eleven kinds (singly and in batches, equal and negative offsets), query ranges, drain, shift and clear one queue or one input/output event buffer under a seeded schedule; each queue's history is checked for linearizability against a stable time-ordered list; now and then the queue then grows to several thousand events. Non-trivial: at least one preemption inside an operation.",
		StateRule: "distinct interleavings: hash of the sequence of (site, task) context switches",
		Real:      []string{"pkg/midi.EventQueue", "pkg/midi.EventBuffer", "pkg/midi events"}, Stub: []string{"host threads", "thread scheduler", "sync.RWMutex (simulated, writer preference)"},
		Assume: []string{"shifted offsets stay inside the 32-bit range"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(2, 4)
			tag := g.N(40)
			buffer := g.Chance(0.3)
			if buffer {
				c.Set("buffer", 1)
			}
			span := g.Pick(1, 4, 16, 512)
			if g.Chance(0.05) {
				// a long unsorted prefix makes the sort itself long
				var ops []core.Op
				o := core.Op{K: "addmany"}
				for k := 0; k < 24; k++ {
					tag++
					o.I = append(o.I, int64(tag), int64(g.N(span)))
				}
				c.Threads = append(c.Threads, append(ops, o))
			}
			for t := len(c.Threads); t < n; t++ {
				var ops []core.Op
				prod := g.Chance(0.5)
				for k := g.Range(2, 5); k > 0; k-- {
					x := g.N(16)
					if prod && g.Chance(0.6) {
						x = g.N(5)
					}
					q := int64(g.N(2))
					a := int64(g.Range(-1, span))
					b := a + int64(g.N(span+2))
					if g.Chance(0.05) {
						b = a - 1
					}
					switch {
					case x < 4:
						tag++
						ops = append(ops, core.Op{K: "add", I: []int64{int64(tag), int64(g.Range(-2, span)), q}})
					case x == 4:
						o := core.Op{K: "addmany"}
						for m := g.Range(0, 4); m > 0; m-- {
							tag++
							o.I = append(o.I, int64(tag), int64(g.N(span+1)))
						}
						ops = append(ops, o)
					case x < 8:
						ops = append(ops, core.Op{K: "range", I: []int64{a, b, q}})
					case x == 8:
						ops = append(ops, core.Op{K: "process", I: []int64{a, b, q}})
					case x < 11:
						ops = append(ops, core.Op{K: "all", I: []int64{0, 0, q}})
					case x == 11:
						ops = append(ops, core.Op{K: "size"})
					case x == 12:
						ops = append(ops, core.Op{K: "empty"})
					case x == 13:
						ops = append(ops, core.Op{K: "remove", I: []int64{a}})
					case x == 14:
						ops = append(ops, core.Op{K: "shift", I: []int64{int64(g.Pick(-64, -1, 1, 7, 512))}})
					default:
						ops = append(ops, core.Op{K: "clear", I: []int64{0, 0, q}})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			if g.Chance(0.003) {
				c.Set("bulk", int64(g.Pick(129, 257, 300, 600, 1100, 2500, 4100, 9000)))
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 160, true)}
			return c
		},
		Exec: execP06,
	})
}

func execP06(c *core.Case, r *core.Rec) {
	n := len(c.Threads)
	buffer := c.Cfg["buffer"] == 1
	q := midi.NewEventQueue()
	eb := midi.NewEventBuffer()
	hs := [2][]*core.Hist{}
	for t := 0; t < n; t++ {
		hs[0] = append(hs[0], &core.Hist{Task: t})
		hs[1] = append(hs[1], &core.Hist{Task: t})
	}
	fns := make([]func(), n)
	keep := make([][]snapEv, n)
	for t := 0; t < n; t++ {
		t := t
		fns[t] = func() {
			for _, o := range c.Threads[t] {
				if buffer {
					bufferOp(eb, hs[0][t], hs[1][t], o, &keep[t])
				} else {
					queueOp(q, hs[0][t], o, &keep[t])
				}
			}
		}
	}
	r.Run(100000, fns...)
	if r.Failed() {
		return
	}
	for t := range keep {
		for _, k := range keep[t] {
			if now := readEvents(k.es); !sameEvs(now, k.was) {
				r.Fail("snapshot-aliased", "snapshot-aliased", "a list handed out as %v later became %v", k.was, now)
				return
			}
		}
	}
	fin := &core.Hist{Task: n}
	fout := &core.Hist{Task: n}
	var all []mEv
	if buffer {
		all = readEvents(eb.GetInputEvents(-1<<30, 1<<30))
		fin.Ops = append(fin.Ops, core.HOp{Task: n, In: qIn{kind: "all"}, Out: qOut{evs: all}, Call: 1 << 40, Ret: 1<<40 + 1})
		fout.Ops = append(fout.Ops, core.HOp{Task: n, In: qIn{kind: "all"}, Out: qOut{evs: readEvents(eb.GetOutputEvents())}, Call: 1 << 40, Ret: 1<<40 + 1})
	} else {
		all = readEvents(q.GetAllEvents())
		fin.Ops = append(fin.Ops, core.HOp{Task: n, In: qIn{kind: "all"}, Out: qOut{evs: all}, Call: 1 << 40, Ret: 1<<40 + 1},
			core.HOp{Task: n, In: qIn{kind: "size"}, Out: qOut{n: q.Size()}, Call: 1<<40 + 2, Ret: 1<<40 + 3})
	}
	hs[0] = append(hs[0], fin)
	hs[1] = append(hs[1], fout)
	for _, e := range all {
		r.Observe(uint64(e.Tag)<<32 | uint64(uint32(e.Off)))
	}
	for k := range hs {
		if k == 1 && !buffer {
			continue
		}
		r.Eval()
		switch core.Linearizable(queueModel, hs[k], func(in any) bool {
			switch in.(qIn).kind {
			case "range", "process", "all", "size", "empty":
				return true
			}
			return false
		}) {
		case 0:
			r.Fail("not-linearizable", "not-linearizable", "no order of the operations explains the history: %s", descr(hs[k]))
		case -1:
			r.Probe("linearizability-undecided")
		}
	}
	if n := c.Cfg["bulk"]; n > 0 && !r.Failed() && !buffer {
		r.Probe("large-queue")
		bulkQueue(core.NewR(c.Seed), r, q, int(n))
	}
}

// bulkQueue goes on with a queue of many events, against the stable list.
func bulkQueue(g *core.R, r *core.Rec, q *midi.EventQueue, n int) {
	l := readEvents(q.GetAllEvents())
	span := g.Pick(1, 16, 512, 1<<20)
	tag := g.N(256)
	rounds := 2
	if n > 2500 {
		rounds = 1
		r.Probe("thousands-queued")
	}
	if n <= 1100 {
		rounds = 4
	}
	for ; rounds > 0; rounds-- {
		for m := 0; m < n; {
			if g.Chance(0.5) {
				tag = (tag + 1) & 255
				off := int32(g.N(span))
				q.Add(makeEvent(tag, off))
				l = append(l, mEv{tag, off})
				m++
				continue
			}
			var es []midi.Event
			for k := g.Pick(1, 3, 100); k > 0; k-- {
				tag = (tag + 1) & 255
				off := int32(g.N(span))
				es = append(es, makeEvent(tag, off))
				l = append(l, mEv{tag, off})
				m++
			}
			q.AddMultiple(es)
		}
		if q.Size() != len(l) {
			r.Fail("large-queue", "large-queue", "%d events queued, size %d", len(l), q.Size())
			return
		}
		a := int32(g.N(span))
		b := a + int32(g.N(span+1))
		if got := readEvents(q.GetEventsInRange(a, b)); !sameEvs(got, inRange(l, a, b)) {
			r.Fail("large-queue", "large-queue", "the range [%d,%d) of %d events differs (%d events)", a, b, len(l), len(got))
			return
		}
		if g.Chance(0.5) {
			d := int32(g.Pick(-7, 1, 512))
			q.OffsetEvents(d)
			for k := range l {
				l[k].Off += d
			}
		}
		if g.Chance(0.5) {
			q.RemoveProcessedEvents(a)
			keep := []mEv{}
			for _, e := range l {
				if e.Off > a {
					keep = append(keep, e)
				}
			}
			l = keep
		}
		if got := readEvents(q.GetAllEvents()); !sameEvs(got, sortedEvs(l)) {
			r.Fail("large-queue", "large-queue", "the list of %d events differs (%d events)", len(l), len(got))
			return
		}
		if g.Chance(0.2) {
			q.Clear()
			l = nil
		}
	}
}

// snapEv is a list the queue handed out; it belongs to the caller.
type snapEv struct {
	es  []midi.Event
	was []mEv
}

func hold(keep *[]snapEv, es []midi.Event) []mEv {
	was := readEvents(es)
	*keep = append(*keep, snapEv{es, was})
	return was
}

func pairs(o core.Op) ([]mEv, []midi.Event) {
	var m []mEv
	var e []midi.Event
	for k := 0; k+1 < len(o.I); k += 2 {
		m = append(m, mEv{int(o.I[k]) & 255, int32(o.I[k+1])})
		e = append(e, makeEvent(int(o.I[k])&255, int32(o.I[k+1])))
	}
	return m, e
}

func queueOp(q *midi.EventQueue, h *core.Hist, o core.Op, keep *[]snapEv) {
	a, b := int32(o.Int(0)), int32(o.Int(1))
	switch o.K {
	case "add":
		tag := int(o.Int(0)) & 255
		h.Do(qIn{kind: "add", evs: []mEv{{tag, b}}}, func() any { q.Add(makeEvent(tag, b)); return qOut{} })
	case "addmany":
		m, e := pairs(o)
		h.Do(qIn{kind: "addmany", evs: m}, func() any {
			q.AddMultiple(e)
			for k := range e {
				e[k] = nil // the caller's slice stays the caller's
			}
			return qOut{}
		})
	case "range":
		h.Do(qIn{kind: "range", a: a, b: b}, func() any { return qOut{evs: hold(keep, q.GetEventsInRange(a, b))} })
	case "process":
		h.Do(qIn{kind: "process", a: a, b: b}, func() any { p := &recProc{}; q.ProcessEvents(p, a, b); return qOut{evs: p.evs} })
	case "all":
		h.Do(qIn{kind: "all"}, func() any { return qOut{evs: hold(keep, q.GetAllEvents())} })
	case "size":
		h.Do(qIn{kind: "size"}, func() any { return qOut{n: q.Size()} })
	case "empty":
		h.Do(qIn{kind: "empty"}, func() any { return qOut{ok: q.IsEmpty()} })
	case "remove":
		h.Do(qIn{kind: "remove", a: a}, func() any { q.RemoveProcessedEvents(a); return qOut{} })
	case "shift":
		h.Do(qIn{kind: "shift", a: a}, func() any { q.OffsetEvents(a); return qOut{} })
	case "clear":
		h.Do(qIn{kind: "clear"}, func() any { q.Clear(); return qOut{} })
	}
}

func bufferOp(q *midi.EventBuffer, in, out *core.Hist, o core.Op, keep *[]snapEv) {
	a, b := int32(o.Int(0)), int32(o.Int(1))
	output := o.Int(2) == 1
	switch o.K {
	case "add":
		tag := int(o.Int(0)) & 255
		if output {
			out.Do(qIn{kind: "add", evs: []mEv{{tag, b}}}, func() any { q.AddOutputEvent(makeEvent(tag, b)); return qOut{} })
		} else {
			in.Do(qIn{kind: "add", evs: []mEv{{tag, b}}}, func() any { q.AddInputEvent(makeEvent(tag, b)); return qOut{} })
		}
	case "range", "process", "size", "empty":
		in.Do(qIn{kind: "range", a: a, b: b}, func() any { return qOut{evs: hold(keep, q.GetInputEvents(a, b))} })
	case "all":
		out.Do(qIn{kind: "all"}, func() any { return qOut{evs: hold(keep, q.GetOutputEvents())} })
	case "clear":
		if output {
			out.Do(qIn{kind: "clear"}, func() any { q.ClearOutput(); return qOut{} })
		} else {
			in.Do(qIn{kind: "clear"}, func() any { q.ClearInput(); return qOut{} })
		}
	case "remove":
		// both queues, one after the other
		in.Ops = append(in.Ops, core.HOp{Task: in.Task, In: qIn{kind: "clear"}, Call: rt.Seq()})
		out.Ops = append(out.Ops, core.HOp{Task: in.Task, In: qIn{kind: "clear"}, Call: in.Ops[len(in.Ops)-1].Call})
		q.ClearAll()
		s := rt.Seq()
		in.Ops[len(in.Ops)-1].Ret = s
		out.Ops[len(out.Ops)-1].Ret = s
	}
}
