package frame

import (
	"fmt"
	"math"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// P01: the parameter value is an atomic register, lock-free, always in [0,1].

type regIn struct {
	kind string // set, setplain, get, getplain
	p    int
	v    float64
}

func clamp01(v float64) (lo, hi float64) {
	if math.IsNaN(v) {
		return 0, 1 // any in-range value may stand for "not a number"
	}
	if v < 0 {
		return 0, 0
	}
	if v > 1 {
		return 1, 1
	}
	return v, v
}

// regModel: state is the value's [lo,hi] interval (a point except after a NaN
// write, where the specification only demands an in-range value).
func regModel(min, max, def float64) porcupine.Model {
	type st struct{ lo, hi float64 }
	return porcupine.Model{
		Init: func() any { return st{def - 1e-12, def + 1e-12} },
		Step: func(s, in, out any) (bool, any) {
			x := s.(st)
			i := in.(regIn)
			switch i.kind {
			case "set":
				lo, hi := clamp01(i.v)
				return true, st{lo, hi}
			case "setplain":
				v := 0.0
				if max > min {
					v = (i.v - min) / (max - min)
				}
				lo, hi := clamp01(v)
				return true, st{lo - 1e-12, hi + 1e-12}
			case "get":
				v := out.(float64)
				return v >= x.lo && v <= x.hi, x
			case "getplain":
				v := out.(float64)
				tol := 1e-12*(math.Abs(min)+math.Abs(max)) + 1e-300
				return v >= min+x.lo*(max-min)-tol && v <= min+x.hi*(max-min)+tol, x
			}
			return false, x
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P01", Quick: 316000, Thorough: 6320000, RaceQuick: 1500, RaceThoro: 40000,
		Rule:      "2-5 host threads write and read 1-2 parameters (unique values; NaN, infinities, out-of-range, plain-scale writes) under a seeded schedule with yield points at every statement and atomic operation; in a third of the runs one thread is suspended for ever inside an operation. Non-trivial: at least one preemption inside an operation.",
		StateRule: "distinct interleavings: hash of the sequence of (site, task) context switches",
		Real:      []string{"pkg/framework/param.Parameter"}, Stub: []string{"host threads", "thread scheduler", "sync/atomic yield shim"},
		Assume: []string{"threads interleave at statement and atomic-operation granularity; weaker memory orders are covered by the happens-before race detector in the race build"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(2, 5)
			np := g.Range(1, 2)
			c.Set("params", int64(np))
			for p := 0; p < np; p++ {
				a := g.PickF(0, -60, 20, -1, 0.001)
				b := a + g.PickF(1, 72, 19980, 2, 1e6)
				if g.Chance(0.1) {
					b = a + g.PickF(1e-6, 1e-3, 1e9, 4294967295, 1e12, 1e15, 1e30)
				}
				if g.Chance(0.03) {
					b = a // degenerate range
				}
				c.SetF(fmt.Sprintf("min%d", p), a)
				c.SetF(fmt.Sprintf("max%d", p), b)
				c.SetF(fmt.Sprintf("def%d", p), a+(b-a)*float64(g.N(11))/10)
			}
			uniq := g.Range(1, 900)
			base, unit := 0.0, 1.0/1024
			if g.Chance(0.3) {
				// values far closer together than any display could tell apart
				base, unit = g.PickF(0, 0.25, 0.5, 1.0/3), g.PickF(1e-5, 1e-7, 1e-9, 1e-12, 1e-15)
			}
			nan := g.Chance(0.25)
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(2, 7); k > 0; k-- {
					p := int64(g.N(np))
					uniq++
					u := base + float64(uniq)*unit
					switch g.N(8) {
					case 0, 1, 2:
						if g.Chance(0.15) {
							u = g.PickF(-0.5, 1.5, math.Inf(1), math.Inf(-1), -1e300, 5e-324, math.Copysign(0, -1), 1, 0)
						} else if nan && g.Chance(0.2) {
							u = math.NaN()
						}
						ops = append(ops, core.Op{K: "set", I: []int64{p}, F: []core.X{core.X(u)}})
					case 3:
						if g.Chance(0.1) {
							u = g.PickF(-3, 4, math.Inf(1), math.Inf(-1))
						}
						ops = append(ops, core.Op{K: "setplain", I: []int64{p}, F: []core.X{core.X(u)}})
					case 4, 5, 6:
						ops = append(ops, core.Op{K: "get", I: []int64{p}})
					default:
						ops = append(ops, core.Op{K: "getplain", I: []int64{p}})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			s := core.GenSched(g, n, 120, true)
			if g.Chance(0.33) {
				s.Stalls = append(s.Stalls, rt.Stall{Task: int32(g.N(n)), Step: int64(g.Range(1, 30)), For: -2})
			}
			c.Scheds = []rt.Schedule{s}
			return c
		},
		Exec: func(c *core.Case, r *core.Rec) {
			np := int(c.Cfg["params"])
			ps := make([]*param.Parameter, np)
			mins, maxs, defs := make([]float64, np), make([]float64, np), make([]float64, np)
			for p := range ps {
				mins[p], maxs[p] = float64(c.CfgF[fmt.Sprintf("min%d", p)]), float64(c.CfgF[fmt.Sprintf("max%d", p)])
				d := float64(c.CfgF[fmt.Sprintf("def%d", p)])
				ps[p] = param.New(uint32(p), fmt.Sprintf("p%d", p)).Range(mins[p], maxs[p]).Default(d).Build()
				if maxs[p] > mins[p] {
					defs[p] = (d - mins[p]) / (maxs[p] - mins[p])
				}
			}
			n := len(c.Threads)
			// hist[task][param]: separate registers are checked separately.
			hs := make([][]*core.Hist, np)
			for p := range hs {
				for t := 0; t < n; t++ {
					hs[p] = append(hs[p], &core.Hist{Task: t})
				}
			}
			seen := make([]float64, n)
			badRange := make([]string, n)
			fns := make([]func(), n)
			for t := 0; t < n; t++ {
				t := t
				fns[t] = func() {
					for _, o := range c.Threads[t] {
						p := int(o.Int(0)) % np
						q := ps[p]
						v := o.Flt(0)
						in := regIn{o.K, p, v}
						if o.K == "setplain" {
							in.v = mins[p] + v*(maxs[p]-mins[p])
						}
						out := hs[p][t].Do(in, func() any {
							switch o.K {
							case "set":
								q.SetValue(v)
							case "setplain":
								q.SetPlainValue(in.v)
							case "get":
								return q.GetValue()
							case "getplain":
								return q.GetPlainValue()
							}
							return nil
						})
						if f, ok := out.(float64); ok {
							seen[t] += f * float64(1+len(hs[p][t].Ops))
							if o.K == "get" && !(f >= 0 && f <= 1) {
								badRange[t] = fmt.Sprintf("read %v", f)
							}
						}
					}
				}
			}
			res := r.Run(20000, fns...)
			for t := 0; t < n; t++ {
				r.ObserveF(seen[t])
				if badRange[t] != "" {
					r.Fail("out-of-range", "out-of-range", "thread %d: %s, outside [0,1]", t, badRange[t])
				}
			}
			if res.DeadLeft {
				r.Fault("thread-suspended-for-ever")
			}
			for p := range ps {
				v := ps[p].GetValue()
				if !(v >= 0 && v <= 1) {
					r.Fail("out-of-range", "out-of-range", "parameter %d holds %v after the run", p, v)
				}
			}
			if r.Failed() {
				return
			}
			for p := range ps {
				r.Eval()
				// final read
				fin := &core.Hist{Task: n}
				fin.Ops = append(fin.Ops, core.HOp{Task: n, In: regIn{"get", p, 0}, Out: ps[p].GetValue(), Call: 1 << 40, Ret: 1<<40 + 1})
				switch core.Linearizable(regModel(mins[p], maxs[p], defs[p]), append(hs[p], fin), func(in any) bool {
					k := in.(regIn).kind
					return k == "get" || k == "getplain"
				}) {
				case 0:
					r.Fail("not-linearizable", "not-linearizable", "parameter %d: no order of the writes explains what the threads read: %s", p, descr(append(hs[p], fin)))
				case -1:
					r.Probe("linearizability-undecided")
				}
			}
		},
	})
}

func descr(hs []*core.Hist) string {
	s := ""
	for _, h := range hs {
		for _, o := range h.Ops {
			s += fmt.Sprintf("\n  thread %d [%d..%d] %v -> %v", h.Task, o.Call, o.Ret, o.In, o.Out)
		}
	}
	return s
}
