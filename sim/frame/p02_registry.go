package frame

import (
	"fmt"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// P02: the parameter registry is linearizable against an ordered map in which
// the first registration of an ID wins.

type rIn struct {
	kind string
	ids  []uint32 // add
	tag  []string
	arg  int64
}

// rState is the model: the ordered list of (id, tag).
type rState string // "id=tag;id=tag;"

func (s rState) list() (ids []uint32, tags []string) {
	for _, e := range strings.Split(string(s), ";") {
		if e == "" {
			continue
		}
		var id uint32
		k := strings.Index(e, "=")
		fmt.Sscan(e[:k], &id)
		ids = append(ids, id)
		tags = append(tags, e[k+1:])
	}
	return
}

func (s rState) find(id uint32) string {
	ids, tags := s.list()
	for k := range ids {
		if ids[k] == id {
			return tags[k]
		}
	}
	return ""
}

var registryModel = porcupine.Model{
	Init: func() any { return rState("") },
	Step: func(s, in, out any) (bool, any) {
		x := s.(rState)
		i := in.(rIn)
		ids, tags := x.list()
		switch i.kind {
		case "add":
			for k, id := range i.ids {
				if x.find(id) == "" {
					x += rState(fmt.Sprintf("%d=%s;", id, i.tag[k]))
				}
			}
			return true, x
		case "get":
			return out.(string) == x.find(uint32(i.arg)), x
		case "index":
			w := ""
			if i.arg >= 0 && int(i.arg) < len(tags) {
				w = tags[i.arg]
			}
			return out.(string) == w, x
		case "count":
			return out.(int32) == int32(len(ids)), x
		case "all":
			return out.(string) == strings.Join(tags, ","), x
		}
		return false, x
	},
	Equal: func(a, b any) bool { return a == b },
}

func tagOf(p *param.Parameter) string {
	if p == nil {
		return ""
	}
	return p.Name
}

func tagsOf(ps []*param.Parameter) string {
	var t []string
	for _, p := range ps {
		if p == nil {
			t = append(t, "<nil>")
		} else {
			t = append(t, p.Name)
		}
	}
	return strings.Join(t, ",")
}

func init() {
	core.Register(&core.Check{
		ID: "P02", Quick: 176000, Thorough: 3520000, RaceQuick: 1200, RaceThoro: 30000,
		Rule:      "2-5 threads register parameters (batches, colliding IDs) and look them up by ID, index, count and list under a seeded schedule; the recorded history is checked for linearizability against an ordered first-wins map; now and then the registry then grows to up to 70000 parameters. Non-trivial: at least one preemption inside an operation.",
		StateRule: "distinct interleavings: hash of the sequence of (site, task) context switches",
		Real:      []string{"pkg/framework/param.Registry"}, Stub: []string{"host threads", "thread scheduler", "sync.RWMutex (simulated, writer preference)"},
		Assume: []string{"threads interleave at statement and lock granularity; unsynchronised accesses are decided by the race build"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(2, 5)
			ids := g.Range(2, 7)
			for t := 0; t < n; t++ {
				var ops []core.Op
				addBias := g.N(4)
				for k := g.Range(2, 5); k > 0; k-- {
					switch x := g.N(8); {
					case x < 1+addBias:
						m := g.Pick(1, 1, 2, 3)
						o := core.Op{K: "add"}
						for ; m > 0; m-- {
							o.I = append(o.I, int64(g.N(ids)))
						}
						ops = append(ops, o)
					case x < 5:
						ops = append(ops, core.Op{K: "get", I: []int64{int64(g.N(ids))}})
					case x == 5:
						ops = append(ops, core.Op{K: "index", I: []int64{int64(g.Range(-1, ids))}})
					case x == 6:
						ops = append(ops, core.Op{K: "count"})
					default:
						ops = append(ops, core.Op{K: "all"})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			if g.Chance(0.004) {
				c.Set("bulk", int64(g.Pick(129, 257, 300, 1100, 5000, 33000, 70000)))
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 150, true)}
			return c
		},
		Exec: func(c *core.Case, r *core.Rec) {
			reg := param.NewRegistry()
			n := len(c.Threads)
			var hs []*core.Hist
			for t := 0; t < n; t++ {
				hs = append(hs, &core.Hist{Task: t})
			}
			fns := make([]func(), n)
			for t := 0; t < n; t++ {
				t := t
				fns[t] = func() {
					for k, o := range c.Threads[t] {
						registryOp(reg, hs[t], t, k, o)
					}
				}
			}
			r.Run(50000, fns...)
			if r.Failed() {
				return
			}
			fin := &core.Hist{Task: n}
			all := reg.All()
			fin.Ops = append(fin.Ops, core.HOp{Task: n, In: rIn{kind: "all"}, Out: tagsOf(all), Call: 1 << 40, Ret: 1<<40 + 1},
				core.HOp{Task: n, In: rIn{kind: "count"}, Out: reg.Count(), Call: 1<<40 + 2, Ret: 1<<40 + 3})
			for k := range all {
				fin.Ops = append(fin.Ops, core.HOp{Task: n, In: rIn{kind: "index", arg: int64(k)}, Out: tagOf(reg.GetByIndex(int32(k))), Call: 1<<40 + 4 + int64(2*k), Ret: 1<<40 + 5 + int64(2*k)})
			}
			hs = append(hs, fin)
			r.ObserveS(tagsOf(all))
			// The snapshot belongs to the caller.
			for k := range all {
				all[k] = nil
			}
			if s := tagsOf(reg.All()); strings.Contains(s, "<nil>") {
				r.Fail("snapshot-aliased", "snapshot-aliased", "writing to the returned list changed the registry: %s", s)
			}
			r.Eval()
			switch core.Linearizable(registryModel, hs, func(in any) bool { return in.(rIn).kind != "add" }) {
			case 0:
				r.Fail("not-linearizable", "not-linearizable", "no order of the registrations explains the history: %s", descr(hs))
			case -1:
				r.Probe("linearizability-undecided")
			}
			if n := c.Cfg["bulk"]; n > 0 && !r.Failed() {
				r.Probe("large-registry")
				bulkRegistry(core.NewR(c.Seed), r, reg, int(n))
			}
		},
	})
}

// bulkRegistry goes on with a registry of many parameters, against the ordered
// first-wins map.
func bulkRegistry(g *core.R, r *core.Rec, reg *param.Registry, n int) {
	var order []*param.Parameter
	byID := map[uint32]*param.Parameter{}
	for _, p := range reg.All() {
		order = append(order, p)
		byID[p.ID] = p
	}
	for len(order) < n {
		var batch []*param.Parameter
		for m := g.Pick(1, 5, 100, 1000); m > 0; m-- {
			id := uint32(g.N(2 * n))
			if g.Chance(0.1) {
				id = ^id
			}
			p := param.New(id, "bulk").Build()
			batch = append(batch, p)
			if byID[id] == nil {
				byID[id] = p
				order = append(order, p)
			}
		}
		reg.Add(batch...)
	}
	if got := reg.Count(); int(got) != len(order) {
		r.Fail("large-registry", "large-registry", "%d parameters registered, count %d", len(order), got)
		return
	}
	got := reg.All()
	for k, p := range order {
		if k >= len(got) || got[k] != p {
			r.Fail("large-registry", "large-registry", "the list of %d parameters differs at place %d", len(order), k)
			return
		}
		if g.Chance(0.05) || k == len(order)-1 || k&(k-1) == 0 {
			if reg.GetByIndex(int32(k)) != p || reg.Get(p.ID) != p {
				r.Fail("large-registry", "large-registry", "parameter %d of %d (ID %d) is not found by its index or ID", k, len(order), p.ID)
				return
			}
		}
	}
	if reg.GetByIndex(int32(len(order))) != nil || reg.GetByIndex(-1) != nil || reg.GetByIndex(-1<<31) != nil || reg.GetByIndex(1<<31-1) != nil {
		r.Fail("large-registry", "large-registry", "an index outside the list of %d gives a parameter", len(order))
	}
}

func registryOp(reg *param.Registry, h *core.Hist, t, k int, o core.Op) {
	switch o.K {
	case "add":
		in := rIn{kind: "add"}
		var ps []*param.Parameter
		for j, id := range o.I {
			tag := fmt.Sprintf("t%d.%d.%d", t, k, j)
			in.ids = append(in.ids, uint32(id))
			in.tag = append(in.tag, tag)
			ps = append(ps, param.New(uint32(id), tag).Build())
		}
		h.Do(in, func() any { reg.Add(ps...); return nil })
	case "get":
		h.Do(rIn{kind: "get", arg: o.Int(0)}, func() any { return tagOf(reg.Get(uint32(o.Int(0)))) })
	case "index":
		h.Do(rIn{kind: "index", arg: o.Int(0)}, func() any { return tagOf(reg.GetByIndex(int32(o.Int(0)))) })
	case "count":
		h.Do(rIn{kind: "count"}, func() any { return reg.Count() })
	case "all":
		h.Do(rIn{kind: "all"}, func() any { return tagsOf(reg.All()) })
	}
}
