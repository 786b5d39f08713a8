package diag

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unsafe"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	dbg "github.com/justyntemme/vst3go/pkg/dsp/debug"
)

// P14: the debug buffer pool never hands one buffer to two holders and the
// allocation statistics are exact.

var trackNames = []string{"in", "out", "tmp"}

type trackSt struct {
	n, b   [3]int64 // per buffer since the last reset
	fn, fb int64    // in the current frame
	sized  [3]int64
}

var reportNum = regexp.MustCompile(`^(Total Allocations|Total Bytes|  Access Count|  Total Bytes): (\d+)$`)

func parseTrack(s string) (n, b [3]int64, tn, tb int64, err error) {
	cur := -1
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "Buffer: ") {
			cur = -1
			for k, nm := range trackNames {
				if l == "Buffer: "+nm {
					cur = k
				}
			}
			if cur < 0 {
				err = fmt.Errorf("unknown line %q", l)
			}
			continue
		}
		m := reportNum.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		v, e := strconv.ParseInt(m[2], 10, 64)
		if e != nil {
			err = e
		}
		switch {
		case m[1] == "Total Allocations":
			tn = v
		case m[1] == "Total Bytes":
			tb = v
		case cur < 0:
			err = fmt.Errorf("%q belongs to no buffer", l)
		case m[1] == "  Access Count":
			n[cur] += v
		default:
			b[cur] += v
		}
	}
	return
}

type trackRep struct {
	n, b   [3]int64
	tn, tb int64
}

func trackModel() porcupine.Model {
	return porcupine.Model{
		Init: func() any { return trackSt{} },
		Step: func(s, in, out any) (bool, any) {
			x := s.(trackSt)
			i := in.(core.Op)
			switch i.K {
			case "track":
				k, by := i.Int(0), i.Int(1)
				x.n[k]++
				x.b[k] += by
				x.fn++
				x.fb += by
				return true, x
			case "reset":
				return true, trackSt{}
			case "start":
				x.fn, x.fb = 0, 0
				return true, x
			case "end":
				o := out.([2]int64)
				return o[0] == x.fn && o[1] == x.fb, x
			case "report":
				o := out.(trackRep)
				var tn, tb int64
				for k := range x.n {
					tn, tb = tn+x.n[k], tb+x.b[k]
				}
				return o.n == x.n && o.b == x.b && o.tn == tn && o.tb == tb, x
			}
			return false, x
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P14", Quick: 231000, Thorough: 4620000, RaceQuick: 1200, RaceThoro: 30000,
		Rule:      "2-4 threads take buffers from and return them to one pool (sometimes a wrong one) while the simulated sync.Pool drops and hands out buffers in seeded order, and report buffer use to the allocation tracker while others start and end frames, read reports and reset. Exclusive ownership is checked at every step, pool counters exactly when quiet, tracker statistics for linearizability. Non-trivial: at least one preemption.",
		StateRule: "distinct interleavings (hash of context switches)",
		Real:      []string{"pkg/dsp/debug.BufferPool", "pkg/dsp/debug allocation tracker (build tag debug)"}, Stub: []string{"sync.Pool (seeded order, drops)", "thread scheduler"},
		Assume: []string{"tracking is switched on before and off after the threads run"},
		Must:   []string{"pool-reuse", "wrong-size", "frame-concurrent", "reset-concurrent"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(2, 4)
			c.Set("size", int64(g.Pick(1, 4, 64)))
			long := i%500 == 260 // many buffers out at once, long buffers
			if long {
				n = 2
				c.Set("size", int64(g.Pick(1, 512, 5000, 70000)))
			}
			what := g.N(3) // pool, tracker, both
			for t := 0; t < n; t++ {
				var ops []core.Op
				left := g.Range(2, 8)
				if long {
					left = g.Pick(40, 100, 200)
					what = 0
				}
				for k := left; k > 0; k-- {
					if long && g.Chance(0.4) {
						ops = append(ops, core.Op{K: "get"})
						continue
					}
					if what == 0 || what == 2 && g.Chance(0.5) {
						ops = append(ops, core.Op{K: g.PickS("get", "get", "get", "put", "put", "put", "putbad", "stats"), I: []int64{int64(g.N(1000))}})
						continue
					}
					switch g.N(8) {
					case 0, 1, 2, 3:
						ops = append(ops, core.Op{K: "track", I: []int64{int64(g.N(3)), int64(g.Pick(0, 1, 5, 64)), int64(g.N(2))}})
					case 4:
						ops = append(ops, core.Op{K: "start"})
					case 5:
						ops = append(ops, core.Op{K: "end"})
					case 6:
						ops = append(ops, core.Op{K: "report"})
					default:
						ops = append(ops, core.Op{K: g.PickS("reset", "bad", "verify"), I: []int64{int64(g.N(3))}})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 150, true)}
			return c
		},
		Exec: execP14,
	})
}

// Heap buffers: the address of a stack buffer may change.
var verifyA, verifyB = make([]float32, 4), make([]float32, 4)

func panics(f func()) (msg string, did bool) {
	defer func() {
		if p := recover(); p != nil {
			if a, ok := p.(*rt.Abort); ok {
				panic(a)
			}
			msg, did = fmt.Sprint(p), true
		}
	}()
	f()
	return
}

func execP14(c *core.Case, r *core.Rec) {
	size := int(c.Cfg["size"])
	dbg.ResetAllocationTracking()
	dbg.StartFrame()
	dbg.EnableAllocationTracking()
	defer dbg.DisableAllocationTracking()
	pool := dbg.NewBufferPool(size)
	n := len(c.Threads)
	hs := make([]*core.Hist, n)
	bad := make([][]string, n)
	held := make([][][]float32, n)
	marks := make([][]float32, n)
	ptrs := make([]map[*float32]bool, n)
	gets, puts, reuse := make([]int, n), make([]int, n), make([]int, n)
	fns := make([]func(), n)
	for t := range fns {
		t := t
		hs[t] = &core.Hist{Task: t}
		h := hs[t]
		ptrs[t] = map[*float32]bool{}
		say := func(f string, a ...any) { bad[t] = append(bad[t], fmt.Sprintf(f, a...)) }
		fns[t] = func() {
			mark := float32(t*1000 + 1)
			for _, o := range c.Threads[t] {
				switch o.K {
				case "get":
					b := pool.Get()
					if len(b) != size {
						say("the pool of %d-sample buffers returned %d samples", size, len(b))
						continue
					}
					gets[t]++
					if ptrs[t][&b[0]] {
						reuse[t]++
					}
					ptrs[t][&b[0]] = true
					mark++
					for k := range b {
						b[k] = mark
					}
					held[t], marks[t] = append(held[t], b), append(marks[t], mark)
				case "put":
					if len(held[t]) == 0 {
						continue
					}
					k := int(o.Int(0)) % len(held[t])
					b := held[t][k]
					for _, v := range b {
						if v != marks[t][k] {
							say("a buffer holding %v was overwritten with %v while thread %d had it", marks[t][k], v, t)
							break
						}
					}
					held[t] = append(held[t][:k:k], held[t][k+1:]...)
					marks[t] = append(marks[t][:k:k], marks[t][k+1:]...)
					puts[t]++
					pool.Put(b)
				case "putbad":
					if _, did := panics(func() { pool.Put(make([]float32, size+1)) }); !did {
						say("a buffer of the wrong size was accepted")
					}
				case "stats":
					if a, u := pool.Stats(); a < 0 || u < 0 {
						say("pool statistics %d allocated, %d in use", a, u)
					}
				case "track":
					k, ln := int(o.Int(0)), int(o.Int(1))
					by := int64(ln) * 4
					if o.Int(2) != 0 {
						by *= 2
					}
					h.Do(core.Op{K: "track", I: []int64{int64(k), by}}, func() any {
						if o.Int(2) != 0 {
							dbg.CheckAllocation64(make([]float64, ln, ln+1), trackNames[k])
						} else {
							dbg.CheckAllocation(make([]float32, ln, ln+1), trackNames[k])
						}
						return nil
					})
				case "bad":
					_, d1 := panics(func() { dbg.CheckAllocation(nil, trackNames[o.Int(0)]) })
					_, d2 := panics(func() { dbg.CheckAllocation([]float32{}, trackNames[o.Int(0)]) })
					_, d3 := panics(func() { dbg.CheckAllocation64(nil, trackNames[o.Int(0)]) })
					if !d1 || !d2 || !d3 {
						say("a nil or empty buffer passed the allocation check (%v %v %v)", d1, d2, d3)
					}
				case "verify":
					a, b := verifyA, verifyB
					p := dbg.VerifyBufferReuse(a, "x", 0)
					_, same := panics(func() { dbg.VerifyBufferReuse(a, "x", p) })
					_, other := panics(func() { dbg.VerifyBufferReuse(b, "x", p) })
					if p != uintptr(unsafe.Pointer(&a[0])) || same || !other {
						say("buffer reuse check: same buffer rejected %v, other buffer rejected %v", same, other)
					}
				case "reset":
					h.Do(core.Op{K: "reset"}, func() any { dbg.ResetAllocationTracking(); return nil })
				case "start":
					h.Do(core.Op{K: "start"}, func() any { dbg.StartFrame(); return nil })
				case "end":
					h.Do(core.Op{K: "end"}, func() any {
						a, b := dbg.EndFrame()
						return [2]int64{int64(a), int64(b)}
					})
				case "report":
					h.Do(core.Op{K: "report"}, func() any {
						var p trackRep
						var err error
						p.n, p.b, p.tn, p.tb, err = parseTrack(dbg.GetAllocationReport())
						if err != nil {
							say("report: %v", err)
						}
						return p
					})
				}
			}
		}
	}
	for t := range c.Threads {
		for _, o := range c.Threads[t] {
			if p := map[string]string{"putbad": "wrong-size", "reset": "reset-concurrent", "end": "frame-concurrent"}[o.K]; p != "" {
				r.Probe(p)
			}
		}
	}
	res := r.Run(20_000_000, fns...)
	for t := range reuse {
		if reuse[t] > 0 {
			r.Probe("pool-reuse")
		}
	}
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail("debug-buffers", "debug-buffers", "thread %d: %s", t, b)
		}
	}
	owner := map[*float32]int{}
	distinct := map[*float32]bool{}
	out, inUse := 0, 0
	for t := range held {
		inUse += gets[t] - puts[t]
		for p := range ptrs[t] {
			distinct[p] = true
		}
		for k, b := range held[t] {
			out++
			if w, dup := owner[&b[0]]; dup {
				r.Fail("buffer-shared", "buffer-shared", "threads %d and %d hold the same buffer", w, t)
			}
			owner[&b[0]] = t
			for _, v := range b {
				if v != marks[t][k] {
					r.Fail("buffer-shared", "buffer-shared", "the buffer thread %d holds was overwritten with %v", t, v)
					break
				}
			}
		}
	}
	if res.DeadLeft || res.Aborted != "" || r.Failed() {
		return
	}
	a, u := pool.Stats()
	if int(u) != inUse {
		r.Fail("pool-count", "pool-in-use", "%d buffers are out, the pool says %d", inUse, u)
	}
	if int(a) != len(distinct) {
		r.Fail("pool-count", "pool-allocated", "%d different buffers were handed out, the pool says it allocated %d", len(distinct), a)
	}
	r.Observe(uint64(a)<<32 | uint64(u))
	var fin core.Hist
	fin.Task = n
	var p trackRep
	p.n, p.b, p.tn, p.tb, _ = parseTrack(dbg.GetAllocationReport())
	fa, fb := dbg.EndFrame()
	fin.Ops = append(fin.Ops, core.HOp{Task: n, In: core.Op{K: "report"}, Out: p, Call: 1 << 40, Ret: 1<<40 + 1},
		core.HOp{Task: n, In: core.Op{K: "end"}, Out: [2]int64{int64(fa), int64(fb)}, Call: 1<<40 + 2, Ret: 1<<40 + 3})
	r.Eval()
	switch core.Linearizable(trackModel(), append(hs, &fin), func(in any) bool { k := in.(core.Op).K; return k == "report" || k == "end" }) {
	case 0:
		d := ""
		for _, h := range append(hs, &fin) {
			for _, o := range h.Ops {
				d += fmt.Sprintf("\n  thread %d [%d..%d] %v -> %v", h.Task, o.Call, o.Ret, o.In, o.Out)
			}
		}
		r.Fail("allocation-count", "allocation-count", "no order of the calls explains the allocation statistics:%s", d)
	case -1:
		r.Probe("linearizability-undecided")
	}
}
