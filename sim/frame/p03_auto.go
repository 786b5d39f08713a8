package frame

import (
	"encoding/json"
	"fmt"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// P03: automatic parameter IDs are unique and stay out of reserved ranges;
// names resolve to the registered parameter.

type aIn struct {
	kind string
	id   uint32
	name string
	tag  string
	n    uint32
}

type aOut struct {
	id  uint32
	ok  bool
	tag string
	n   int
}

type aRes struct{ Base, N uint32 }

// aState is the sequential model, serialised so that states compare.
type aState struct {
	IDs   []uint32
	Tags  []string
	Names map[string]uint32
	Res   []aRes
	Off   bool // automatic IDs switched off
}

func (s *aState) at(id uint32) int {
	for k := range s.IDs {
		if s.IDs[k] == id {
			return k
		}
	}
	return -1
}

func autoStep(st, in, out any) (bool, any) {
	var s aState
	json.Unmarshal([]byte(st.(string)), &s)
	if s.Names == nil {
		s.Names = map[string]uint32{}
	}
	ret := func(ok bool) (bool, any) {
		b, _ := json.Marshal(&s)
		return ok, string(b)
	}
	i := in.(aIn)
	o, _ := out.(aOut)
	done := out != nil
	switch i.kind {
	case "register": // name, requested id (0: automatic)
		if id, ok := s.Names[i.name]; ok {
			if done && (!o.ok || o.id != id) {
				return false, st
			}
			s.Tags[s.at(id)] = i.tag
			return ret(true)
		}
		if i.id != 0 || s.Off {
			if s.at(i.id) >= 0 {
				return !done || !o.ok, st
			}
			if done && (!o.ok || o.id != i.id) {
				return false, st
			}
			s.IDs, s.Tags = append(s.IDs, i.id), append(s.Tags, i.tag)
			s.Names[i.name] = i.id
			return ret(true)
		}
		if !done || !o.ok {
			return false, st
		}
		if s.at(o.id) >= 0 {
			return false, st
		}
		for _, x := range s.Res {
			if o.id >= x.Base && o.id < x.Base+x.N {
				return false, st
			}
		}
		s.IDs, s.Tags = append(s.IDs, o.id), append(s.Tags, i.tag)
		s.Names[i.name] = o.id
		return ret(true)
	case "registerid":
		if s.at(i.id) >= 0 {
			return !done || !o.ok, st
		}
		if done && !o.ok {
			return false, st
		}
		s.IDs, s.Tags = append(s.IDs, i.id), append(s.Tags, i.tag)
		s.Names[i.name] = i.id
		return ret(true)
	case "auto":
		s.Off = i.n == 0
		return ret(true)
	case "reserve":
		for _, x := range s.Res {
			if o.id < x.Base+x.N && x.Base < o.id+i.n {
				return false, st
			}
		}
		for _, id := range s.IDs {
			if id >= o.id && id < o.id+i.n {
				return false, st
			}
		}
		s.Res = append(s.Res, aRes{o.id, i.n})
		return ret(true)
	case "byname":
		id, ok := s.Names[i.name]
		w := ""
		if ok {
			w = s.Tags[s.at(id)]
		}
		return o.tag == w, st
	case "getid":
		id, ok := s.Names[i.name]
		return o.ok == ok && (!ok || o.id == id), st
	case "get":
		k := s.at(i.id)
		w := ""
		if k >= 0 {
			w = s.Tags[k]
		}
		return o.tag == w, st
	case "count":
		return o.n == len(s.IDs), st
	case "all":
		return o.tag == strings.Join(s.Tags, ","), st
	case "clear":
		s = aState{Names: map[string]uint32{}, Off: s.Off}
		return ret(true)
	}
	return false, st
}

var autoModel = porcupine.Model{
	Init:  func() any { return "{}" },
	Step:  autoStep,
	Equal: func(a, b any) bool { return a == b },
}

func init() {
	core.Register(&core.Check{
		ID: "P03", Quick: 96000, Thorough: 1920000, RaceQuick: 1000, RaceThoro: 30000,
		Rule:      "2-4 threads register parameters with automatic and explicit IDs (one by one, through builders, as ready-made sets), switch automatic IDs off and on, reserve ID ranges and resolve names under a seeded schedule; the history is checked for linearizability against a model in which an automatic ID may be any ID that is neither in use nor reserved. One run in forty is a long build-up by one thread: thousands of parameters, names that differ by case or blanks only, reservations of up to 10^6 IDs, explicit IDs up to 2^31, checked against maps. Non-trivial: at least one preemption inside an operation, or such a build-up.",
		StateRule: "distinct interleavings: hash of the sequence of (site, task) context switches",
		Real:      []string{"pkg/framework/param.AutoRegistry"}, Stub: []string{"host threads", "thread scheduler", "sync and sync/atomic shims"},
		Assume: []string{"explicit IDs are below 2^31, so the automatic counter does not wrap"},
		Must:   []string{"many-parameters", "large-reservation"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			if i%40 == 7 {
				genManyIDs(g, c)
				return c
			}
			n := g.Range(2, 4)
			names := g.Range(3, 8)
			clear := g.Chance(0.1)
			sets := !clear && g.Chance(0.2)
			build := g.Chance(0.2)
			auto := !sets && g.Chance(0.1)
			if sets && g.Chance(0.5) {
				n = 1
			}
			for t := 0; t < n; t++ {
				var ops []core.Op
				steps := g.Range(2, 5)
				if build {
					steps = g.Range(1, 3)
				}
				for k := steps; k > 0; k-- {
					name := fmt.Sprintf("n%d", g.N(names))
					if sets && g.Chance(0.35) {
						ops = append(ops, core.Op{K: g.PickS("standard", "compressor", "eq"), I: []int64{int64(g.N(2))}})
						continue
					}
					if build && g.Chance(0.5) {
						b := core.Op{K: "build"}
						for m := g.Range(1, 3); m > 0; m-- {
							// id, name, explicit: names of explicit IDs are their own
							b.I = append(b.I, int64(g.Pick(0, 0, 0, 1, 2, 5, 12)), int64(g.N(names)), int64(g.Pick(0, 0, 1)))
						}
						ops = append(ops, b)
						continue
					}
					if auto && g.Chance(0.2) {
						ops = append(ops, core.Op{K: "auto", I: []int64{int64(g.N(2))}})
						continue
					}
					switch x := g.N(16); {
					case x < 5:
						id := int64(0)
						if g.Chance(0.25) {
							id = int64(g.Range(1, 12))
						}
						ops = append(ops, core.Op{K: "register", S: name, I: []int64{id}})
					case x < 8:
						// RegisterWithID does not look names up: its names are its own
						xn := fmt.Sprintf("x%d.%d", t, k)
						if clear && g.Chance(0.7) {
							xn = "shared" // never looked up; all of them must be gone after Clear
						}
						ops = append(ops, core.Op{K: "registerid", S: xn, I: []int64{int64(g.Pick(0, 1, 2, 3, 5, 8, 12, 100))}})
					case x < 11:
						ops = append(ops, core.Op{K: "reserve", I: []int64{int64(g.Range(1, 4))}})
					case x == 11:
						ops = append(ops, core.Op{K: "byname", S: name})
					case x == 12:
						ops = append(ops, core.Op{K: "getid", S: name})
					case x == 13:
						ops = append(ops, core.Op{K: "get", I: []int64{int64(g.N(8))}})
					case x == 14:
						ops = append(ops, core.Op{K: g.PickS("count", "all")})
					default:
						if clear {
							ops = append(ops, core.Op{K: "clear"})
						} else {
							ops = append(ops, core.Op{K: "all"})
						}
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 150, true)}
			return c
		},
		Exec: func(c *core.Case, r *core.Rec) {
			if c.Cfg["many"] != 0 {
				execManyIDs(c, r)
				return
			}
			reg := param.NewAutoRegistry()
			n := len(c.Threads)
			var hs []*core.Hist
			for t := 0; t < n; t++ {
				hs = append(hs, &core.Hist{Task: t})
			}
			fns := make([]func(), n)
			for t := 0; t < n; t++ {
				t := t
				fns[t] = func() {
					for k, o := range c.Threads[t] {
						autoOp(reg, hs[t], fmt.Sprintf("t%d.%d", t, k), o)
					}
				}
			}
			r.Run(50000, fns...)
			if r.Failed() {
				return
			}
			all := reg.All()
			fin := &core.Hist{Task: n}
			fin.Ops = append(fin.Ops, core.HOp{Task: n, In: aIn{kind: "all"}, Out: aOut{tag: shortTags(all)}, Call: 1 << 40, Ret: 1<<40 + 1},
				core.HOp{Task: n, In: aIn{kind: "count"}, Out: aOut{n: int(reg.Count())}, Call: 1<<40 + 2, Ret: 1<<40 + 3})
			hs = append(hs, fin)
			r.ObserveS(shortTags(all))
			ids := map[uint32]bool{}
			for _, p := range all {
				if p == nil {
					r.Fail("lost-parameter", "lost-parameter", "the list has an empty slot")
					return
				}
				if ids[p.ID] {
					r.Fail("duplicate-id", "duplicate-id", "two registered parameters have ID %d", p.ID)
				}
				ids[p.ID] = true
				if q := reg.Get(p.ID); q != p {
					r.Fail("id-mismatch", "id-mismatch", "ID %d of a listed parameter resolves to another parameter", p.ID)
				}
			}
			if r.Failed() {
				return
			}
			r.Eval()
			// A ready-made set is several registrations whose moments the
			// harness does not see. With one thread they are in order; with more
			// the set is checked by what it promises.
			if n > 1 && setsIn(c) {
				r.Probe("ready-made-set-concurrent")
				for t := range c.Threads {
					for _, o := range hs[t].Ops {
						in, out := o.In.(aIn), o.Out.(aOut)
						if out.n != -1 {
							continue
						}
						id, ok := reg.GetID(in.name)
						p := reg.GetByName(in.name)
						if !out.ok || !ok || id != out.id || p == nil || p.Name != in.name || p.ID != id {
							r.Fail("set-incomplete", "set-incomplete", "%q of a ready-made set is not registered (ok %v, id %d then %d)", in.name, out.ok, out.id, id)
							return
						}
					}
				}
				for t := range c.Threads {
					for _, o := range hs[t].Ops {
						if in := o.In.(aIn); in.kind == "reserve" {
							lo := o.Out.(aOut).id
							for _, p := range all {
								if isSetName(p.Name) && p.ID >= lo && p.ID < lo+in.n {
									r.Fail("reserved-id", "reserved-id", "ID %d of %q lies in the reserved range [%d, %d)", p.ID, p.Name, lo, lo+in.n)
									return
								}
							}
						}
					}
				}
				return
			}
			switch core.Linearizable(autoModel, hs, func(in any) bool {
				switch in.(aIn).kind {
				case "register", "registerid", "reserve", "clear":
					return false
				}
				return true
			}) {
			case 0:
				r.Fail("not-linearizable", "not-linearizable", "no order of the operations explains the history: %s", descr(hs))
			case -1:
				r.Probe("linearizability-undecided")
			}
		},
	})
}

// The tag travels in ShortName, because Name is the lookup key.
func shortTag(p *param.Parameter) string {
	if p == nil {
		return ""
	}
	return p.ShortName
}

func shortTags(ps []*param.Parameter) string {
	var t []string
	for _, p := range ps {
		t = append(t, shortTag(p))
	}
	return strings.Join(t, ",")
}

func autoOp(reg *param.AutoRegistry, h *core.Hist, tag string, o core.Op) {
	switch o.K {
	case "register":
		p := param.New(uint32(o.Int(0)), o.S).ShortName(tag).Build()
		h.Do(aIn{kind: "register", id: uint32(o.Int(0)), name: o.S, tag: tag}, func() any {
			err := reg.Register(p)
			return aOut{ok: err == nil, id: p.ID}
		})
	case "registerid":
		p := param.New(0, o.S).ShortName(tag).Build()
		h.Do(aIn{kind: "registerid", id: uint32(o.Int(0)), name: o.S, tag: tag}, func() any {
			err := reg.RegisterWithID(uint32(o.Int(0)), p)
			return aOut{ok: err == nil}
		})
	case "reserve":
		n := uint32(o.Int(0))
		h.Do(aIn{kind: "reserve", n: n}, func() any { return aOut{id: reg.Reserve(n), ok: true} })
	case "byname":
		h.Do(aIn{kind: "byname", name: o.S}, func() any { return aOut{tag: shortTag(reg.GetByName(o.S))} })
	case "getid":
		h.Do(aIn{kind: "getid", name: o.S}, func() any { id, ok := reg.GetID(o.S); return aOut{id: id, ok: ok} })
	case "get":
		h.Do(aIn{kind: "get", id: uint32(o.Int(0))}, func() any { return aOut{tag: shortTag(reg.Get(uint32(o.Int(0))))} })
	case "count":
		h.Do(aIn{kind: "count"}, func() any { return aOut{n: int(reg.Count())} })
	case "all":
		h.Do(aIn{kind: "all"}, func() any { return aOut{tag: shortTags(reg.All())} })
	case "clear":
		h.Do(aIn{kind: "clear"}, func() any { reg.Clear(); return aOut{} })
	case "auto":
		h.Do(aIn{kind: "auto", n: uint32(o.Int(0))}, func() any { reg.EnableAutoID(o.Int(0) != 0); return aOut{} })
	case "build":
		// One registration per parameter, somewhere within the call; the error
		// says whether any was refused.
		// A builder that has met a refusal keeps it; the rest goes into a new one,
		// so that every outcome is seen.
		b := param.NewRegistryBuilder(reg)
		for k := 0; k+2 < len(o.I); k += 3 {
			id, tg := uint32(o.I[k]), fmt.Sprintf("%s.%d", tag, k/3)
			in := aIn{kind: "register", id: id, name: fmt.Sprintf("n%d", o.I[k+1]), tag: tg}
			if o.I[k+2] != 0 {
				in.kind, in.name = "registerid", "x"+tg
			}
			h.Do(in, func() any {
				var p *param.Parameter
				if in.kind == "registerid" {
					p = param.New(77, in.name).ShortName(tg).Build()
					b.AddWithID(id, p)
				} else {
					p = param.New(id, in.name).ShortName(tg).Build()
					b.Add(p)
				}
				ok := b.Build() == nil
				if !ok {
					b = param.NewRegistryBuilder(reg)
				}
				return aOut{ok: ok, id: p.ID}
			})
		}
	case "standard", "compressor", "eq":
		set := autoSets[o.K]
		var names []string
		for _, nm := range set {
			names = append(names, strings.ReplaceAll(nm, "#", fmt.Sprint(o.Int(0))))
		}
		var err error
		switch o.K {
		case "standard":
			err = reg.RegisterStandardControls()
		case "compressor":
			err = reg.RegisterCompressorControls()
		default:
			err = reg.RegisterEQBand(int(o.Int(0)))
		}
		for _, nm := range names {
			id, _ := reg.GetID(nm)
			h.Ops = append(h.Ops, core.HOp{Task: h.Task, In: aIn{kind: "register", name: nm, tag: shortTag(reg.GetByName(nm))}, Call: rt.Seq(), Ret: rt.Seq(), Out: aOut{ok: err == nil, id: id, n: -1}})
		}
	}
}

// autoSets are the parameters the ready-made sets promise.
var autoSets = map[string][]string{
	"standard":   {"Bypass", "Mix", "Input Gain", "Output Gain"},
	"compressor": {"Threshold", "Ratio", "Attack", "Release", "Knee", "Auto Gain"},
	"eq":         {"Band # Enable", "Band # Frequency", "Band # Gain", "Band # Q", "Band # Type"},
}

// isSetName: the name belongs to a ready-made set, whose IDs are automatic.
func isSetName(n string) bool { return !strings.HasPrefix(n, "n") && !strings.HasPrefix(n, "x") }

func setsIn(c *core.Case) bool {
	for _, th := range c.Threads {
		for _, o := range th {
			if _, ok := autoSets[o.K]; ok {
				return true
			}
		}
	}
	return false
}

// genManyIDs: a long life of one registry, one thread.
func genManyIDs(g *core.R, c *core.Case) {
	c.Set("many", 1)
	var ops []core.Op
	for k := g.Range(3, 25); k > 0; k-- {
		switch g.N(8) {
		case 0, 1, 2: // register a group: how many, the first name's number, name style
			ops = append(ops, core.Op{K: "group", I: []int64{int64(g.Pick(1, 3, 20, 100, 300, 700)), int64(g.Pick(0, 0, 50, g.N(2000))), int64(g.N(5))}})
		case 3:
			ops = append(ops, core.Op{K: "reserve", I: []int64{int64(g.Pick(0, 1, 16, 255, 256, 1000, 65536, 1000000))}})
		case 4, 5: // explicit IDs: how many, the first, the step
			ops = append(ops, core.Op{K: "explicit", I: []int64{int64(g.Pick(1, 1, 2, 10, 200)), int64(g.Pick(0, 1, 5, 255, 1000, 65535, 1<<20, 1<<30)) + int64(g.N(3)), int64(g.Pick(0, 1, 1, 3, 256)), int64(g.N(2))}})
		case 6:
			ops = append(ops, core.Op{K: "check"})
		default:
			if g.Chance(0.2) {
				ops = append(ops, core.Op{K: "clear"})
			} else {
				ops = append(ops, core.Op{K: "check"})
			}
		}
	}
	c.Threads = [][]core.Op{ops}
}

func manyName(style int64, k int) string {
	switch style {
	case 1:
		return strings.Repeat(" ", k%3) + fmt.Sprint("Gain ", k/3) // blanks count
	case 2:
		n := fmt.Sprint("cutoff", k/2)
		if k%2 == 1 {
			return strings.ToUpper(n) // case counts
		}
		return n
	case 3:
		return strings.Repeat("Oscillator ", 20) + fmt.Sprint(k) // different at the end only
	case 4:
		return strings.Repeat("\u00e9", k%50) + fmt.Sprint(k/50)
	}
	return fmt.Sprint("p", k)
}

func execManyIDs(c *core.Case, r *core.Rec) {
	reg := param.NewAutoRegistry()
	byID, byName := map[uint32]*param.Parameter{}, map[string]uint32{}
	var order []uint32
	var res []aRes
	fresh := 0 // names of explicit IDs are their own
	fail := func(class, f string, a ...any) { r.Fail(class, class, f, a...) }
	check := func() {
		r.Eval()
		if int(reg.Count()) != len(order) {
			fail("count", "the registry counts %d parameters, it has %d", reg.Count(), len(order))
			return
		}
		for k, p := range reg.All() {
			if p != byID[order[k]] || reg.GetByIndex(int32(k)) != p {
				fail("order", "parameter %d of %d is not the one registered there", k, len(order))
				return
			}
		}
		for k, id := range order {
			p := byID[id]
			if reg.Get(id) != p || p.ID != id {
				fail("id-mismatch", "ID %d does not resolve to its parameter", id)
				return
			}
			if k%7 != 0 && len(order) > 500 {
				continue
			}
			got, ok := reg.GetID(p.Name)
			if want := byName[p.Name]; !ok || got != want || reg.GetByName(p.Name) != byID[want] {
				fail("name", "%.40q resolves to ID %d (%v) instead of %d", p.Name, got, ok, want)
				return
			}
		}
	}
	var h uint64
	for _, o := range c.Threads[0] {
		if r.Failed() {
			return
		}
		h = core.HashU(h, core.HashS(o.K))
		for _, x := range o.I {
			h = core.HashU(h, uint64(x))
		}
		switch o.K {
		case "group":
			n := int(min(max(o.Int(0), 0), 2000))
			var ps []*param.Parameter
			var names []string
			for k := 0; k < n; k++ {
				names = append(names, manyName(o.Int(2), int(max(o.Int(1), 0))+k))
				ps = append(ps, param.New(0, names[k]).Build())
			}
			var err error
			if n%2 == 0 {
				err = reg.Register(ps...)
			} else {
				for _, p := range ps {
					if err == nil {
						err = reg.Register(p)
					}
				}
			}
			if err != nil {
				fail("refused", "registering %d parameters with automatic IDs failed: %v", n, err)
				return
			}
			for k, p := range ps {
				if p.Name != names[k] {
					fail("name", "%.40q was registered as %.40q", names[k], p.Name)
					return
				}
				if id, ok := byName[p.Name]; ok {
					if p.ID != id {
						fail("name", "%.40q has ID %d; registering the name again gives %d", p.Name, id, p.ID)
						return
					}
					byID[id] = p
					continue
				}
				if q := byID[p.ID]; q != nil {
					fail("duplicate-id", "the automatic ID %d of %.40q belongs to %.40q", p.ID, p.Name, q.Name)
					return
				}
				for _, x := range res {
					if p.ID >= x.Base && p.ID < x.Base+x.N {
						fail("reserved-id", "the automatic ID %d lies in the reserved range [%d, %d)", p.ID, x.Base, x.Base+x.N)
						return
					}
				}
				byID[p.ID], byName[p.Name] = p, p.ID
				order = append(order, p.ID)
			}
			if len(order) > 256 {
				r.Probe("many-parameters")
			}
		case "reserve":
			n := uint32(min(max(o.Int(0), 0), 1<<20))
			lo := reg.Reserve(n)
			for _, x := range res {
				if lo < x.Base+x.N && x.Base < lo+n {
					fail("reserved-id", "reserving %d IDs gives [%d, %d), which overlaps the reserved [%d, %d)", n, lo, lo+n, x.Base, x.Base+x.N)
					return
				}
			}
			for _, id := range order {
				if id >= lo && id < lo+n {
					fail("reserved-id", "reserving %d IDs gives [%d, %d), but %d is in use", n, lo, lo+n, id)
					return
				}
			}
			res = append(res, aRes{lo, n})
			if n > 1000 {
				r.Probe("large-reservation")
			}
		case "explicit":
			for k := int64(0); k < min(max(o.Int(0), 0), 500); k++ {
				id := uint32(min(max(o.Int(1), 0), 1<<30+2) + k*min(max(o.Int(2), 0), 1000))
				fresh++
				p := param.New(id, fmt.Sprint("x", fresh)).Build()
				var err error
				if id == 0 || o.Int(3) == 0 {
					err = reg.RegisterWithID(id, p)
				} else {
					err = reg.Register(p)
				}
				if taken := byID[id] != nil; taken != (err != nil) {
					fail("explicit", "registering the explicit ID %d, in use: %v, gives %v", id, taken, err)
					return
				}
				if err != nil {
					r.Fault("id-conflict")
					continue
				}
				byID[id], byName[p.Name] = p, id
				order = append(order, id)
			}
		case "clear":
			reg.Clear()
			byID, byName, order, res = map[uint32]*param.Parameter{}, map[string]uint32{}, nil, nil
			if reg.GetByName("x1") != nil || reg.GetByName("p0") != nil {
				fail("clear", "a name resolves after Clear")
				return
			}
		case "check":
			check()
		}
	}
	if !r.Failed() {
		check()
	}
	r.NonTriv = true
	r.State(h)
	r.Observe(h + uint64(len(order)))
}
