package diag

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// P12: the profiler's statistics are exact, monotonic-clock based and
// consistent whoever reads them and whenever.

var profNames = []string{"ProcessAudio", "filter", "eq"}

type profRow struct {
	count                      int64
	total, avg, min, max, last time.Duration
	have                       int
}

var profLine = regexp.MustCompile(`^  (Count|Total|Average|Min|Max|Last): +(.*)$`)

var audioStats = regexp.MustCompile(`(?s)Sample Rate: +48000 Hz.*Buffer Size: +480 samples.*CPU Load: +(\S+)`)

func parseReport(s string) (map[string]profRow, error) {
	out := map[string]profRow{}
	if s == "No measurements recorded" {
		return out, nil
	}
	name := ""
	for _, l := range strings.Split(s, "\n") {
		if m := profLine.FindStringSubmatch(l); m != nil && name != "" {
			row := out[name]
			if m[1] == "Count" {
				n, err := strconv.ParseInt(m[2], 10, 64)
				if err != nil {
					return nil, err
				}
				row.count = n
			} else {
				d, err := time.ParseDuration(m[2])
				if err != nil {
					return nil, err
				}
				switch m[1] {
				case "Total":
					row.total = d
				case "Average":
					row.avg = d
				case "Min":
					row.min = d
				case "Max":
					row.max = d
				case "Last":
					row.last = d
				}
			}
			row.have++
			out[name] = row
			continue
		}
		for _, n := range profNames {
			if l == n+":" {
				name = n
				if _, dup := out[n]; dup {
					return nil, fmt.Errorf("section %q appears twice", n)
				}
				out[n] = profRow{}
			}
		}
	}
	for n, row := range out {
		if row.have != 6 {
			return nil, fmt.Errorf("section %q is incomplete", n)
		}
	}
	return out, nil
}

func checkRow(name string, w profRow) string {
	c := time.Duration(w.count)
	switch {
	case w.count < 1:
		return fmt.Sprintf("%s: count %d in a report", name, w.count)
	case w.min < 0:
		return fmt.Sprintf("%s: negative time %v", name, w.min)
	case w.min > w.max || w.last < w.min || w.last > w.max || w.avg < w.min || w.avg > w.max:
		return fmt.Sprintf("%s: min %v, average %v, last %v, max %v do not fit together", name, w.min, w.avg, w.last, w.max)
	case w.avg != w.total/c:
		return fmt.Sprintf("%s: average %v is not total %v / count %d", name, w.avg, w.total, w.count)
	case w.total < w.min*c || w.total > w.max*c:
		return fmt.Sprintf("%s: total %v of %d sections between %v and %v", name, w.total, w.count, w.min, w.max)
	case w.count == 1 && (w.min != w.max || w.min != w.total || w.last != w.min):
		return fmt.Sprintf("%s: one section, but total %v min %v max %v last %v", name, w.total, w.min, w.max, w.last)
	}
	return ""
}

// profCounts is the sequential model: how many sections of each name were
// recorded since the last reset.
type profSt [3]int64

func profModel() porcupine.Model {
	return porcupine.Model{
		Init: func() any { return profSt{} },
		Step: func(s, in, out any) (bool, any) {
			x := s.(profSt)
			i := in.(core.Op)
			switch i.K {
			case "rec":
				x[i.Int(0)]++
				return true, x
			case "reset":
				return true, profSt{}
			case "report":
				return out.(profSt) == x, x
			case "get":
				return out.(bool) == (x[i.Int(0)] > 0), x
			}
			return false, x
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

type snap struct {
	m   *debug.Measurement
	avg time.Duration
	pct []time.Duration
}

var pcts = []float64{0, 10, 50, 90, 95, 99, 100}

func takeSnap(m *debug.Measurement) snap {
	s := snap{m: m, avg: m.Average()}
	for _, p := range pcts {
		s.pct = append(s.pct, m.Percentile(p))
	}
	return s
}

func init() {
	core.Register(&core.Check{
		ID: "P12", Quick: 231000, Thorough: 4620000, RaceQuick: 1200, RaceThoro: 30000,
		Rule:      "1-4 threads time sections (also nested, panicking, with simulated work) on one profiler (an own one or the package's default) while others read measurements and reports, reset it and, in single-thread runs, switch it off and on; the simulated monotonic clock advances and the wall clock jumps by up to days either way. Counts are checked for linearizability, times against the clock readings around each section, every report for inner consistency, every snapshot for immutability, percentiles against the recorded times. Non-trivial: at least one preemption.",
		StateRule: "distinct interleavings (hash of context switches)",
		Real:      []string{"pkg/framework/debug.Profiler", "pkg/framework/debug.Measurement", "pkg/framework/debug.AudioProcessProfiler", "pkg/framework/debug.DefaultProfiler and its functions"}, Stub: []string{"clock", "profiled code", "thread scheduler"},
		Assume: []string{"profiling is not switched on or off by another thread while sections start (then either outcome is allowed)"},
		Must:   []string{"reset-concurrent", "wall-jump", "window-wrapped", "panicking-section", "disabled", "default-profiler", "hundred-names", "thousand-sections"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			if i%600 == 250 {
				genBulk12(g, c)
				return c
			}
			n := g.Pick(1, 1, 2, 2, 3, 4)
			c.Set("max", int64(g.Pick(1, 2, 3, 7, 100, 1000, 0)))
			c.Set("audio", int64(g.N(4)))
			resets := g.Chance(0.4)
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(2, 7); k > 0; k-- {
					nm := int64(g.Pick(0, 0, 0, 1, 1, 2))
					d := int64(g.Pick(0, 1, 999, 1000, 52345, 3000000)) * int64(g.Range(1, 9))
					switch g.N(10) {
					case 0, 1, 2:
						ops = append(ops, core.Op{K: "sec", I: []int64{nm, d}})
					case 3:
						ops = append(ops, core.Op{K: g.PickS("time", "timepanic", "nest"), I: []int64{nm, d, int64(g.N(3))}})
					case 4:
						ops = append(ops, core.Op{K: "get", I: []int64{nm}})
					case 5:
						ops = append(ops, core.Op{K: "all"})
					case 6:
						ops = append(ops, core.Op{K: "report", I: []int64{int64(g.N(2))}})
					case 7:
						ops = append(ops, core.Op{K: "jump", I: []int64{int64(g.Pick(-86400, -1, 1, 3600, 86400*365)) * 1e9}})
					case 8:
						if resets {
							ops = append(ops, core.Op{K: "reset"})
						} else if n == 1 {
							ops = append(ops, core.Op{K: "enable", I: []int64{int64(g.N(2))}})
						}
					default:
						ops = append(ops, core.Op{K: "load"})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			s := core.GenSched(g, n, 200, true)
			c.Scheds = []rt.Schedule{s}
			return c
		},
		Exec: execP12,
	})
}

type section struct {
	name       int
	inner, out time.Duration // bounds on the time the profiler may have seen
}

func execP12(c *core.Case, r *core.Rec) {
	if c.Cfg["bulk"] == 1 {
		execBulk12(c, r)
		return
	}
	max := int(c.Cfg["max"])
	var p *debug.Profiler
	var ap *debug.AudioProcessProfiler
	if c.Cfg["audio"] == 0 {
		ap = debug.NewAudioProcessProfiler(48000, 480)
		p, max = ap.Profiler, 1000
	} else if c.Cfg["audio"] == 3 {
		// The package's shared profiler, by the package's functions.
		r.Probe("default-profiler")
		p, max = debug.DefaultProfiler, 1000
		debug.ResetProfiling()
		debug.EnableProfiling()
	} else {
		p = debug.NewProfiler(max)
	}
	if max < 1 {
		max = 1
	}
	start, timeFn, report, reset, enable := p.Start, p.Time, p.Report, p.Reset, p.SetEnabled
	if p == debug.DefaultProfiler {
		start, timeFn, report, reset = debug.Start, debug.Time, debug.ProfilingReport, debug.ResetProfiling
		enable = func(on bool) {
			if on {
				debug.EnableProfiling()
			} else {
				debug.DisableProfiling()
			}
		}
	}
	n := len(c.Threads)
	hs := make([]*core.Hist, n)
	secs := make([][]section, n)
	snaps := make([][]snap, n)
	bad := make([][]string, n)
	resets := false
	fns := make([]func(), n)
	for t := range fns {
		t := t
		hs[t] = &core.Hist{Task: t}
		h := hs[t]
		say := func(f string, a ...any) { bad[t] = append(bad[t], fmt.Sprintf(f, a...)) }
		for _, o := range c.Threads[t] {
			if o.K == "reset" {
				resets = true
			}
		}
		enabled := true
		fns[t] = func() {
			// timed runs a section; the clock readings around and inside it bound
			// what the profiler may have measured.
			timed := func(nm int, via string, d int64, inner func()) {
				on := enabled
				a0 := rt.Mono()
				var a1, b0 int64
				finish := func() {}
				switch via {
				case "sec":
					stop := start(profNames[nm])
					a1 = rt.Mono()
					rt.Advance(d)
					inner()
					finish = stop
				}
				rec := func() {
					if via == "sec" {
						b0 = rt.Mono()
						finish()
						return
					}
					func() {
						defer func() { recover() }()
						timeFn(profNames[nm], func() {
							a1 = rt.Mono()
							rt.Advance(d)
							inner()
							b0 = rt.Mono()
							if via == "timepanic" {
								panic("section failed")
							}
						})
					}()
				}
				if !on {
					rec()
					return
				}
				h.Do(core.Op{K: "rec", I: []int64{int64(nm)}}, func() any { rec(); return nil })
				secs[t] = append(secs[t], section{nm, time.Duration(b0 - a1), time.Duration(rt.Mono() - a0)})
			}
			for _, o := range c.Threads[t] {
				nm := int(o.Int(0)) % len(profNames)
				if nm < 0 {
					nm = 0
				}
				switch o.K {
				case "sec", "time":
					timed(nm, o.K, o.Int(1), func() {})
				case "timepanic":
					timed(nm, o.K, o.Int(1), func() {})
				case "nest":
					timed(nm, "sec", o.Int(1), func() { timed(int(o.Int(2))%3, "sec", o.Int(1), func() {}) })
				case "get":
					h.Do(core.Op{K: "get", I: []int64{int64(nm)}}, func() any {
						m, ok := p.GetMeasurement(profNames[nm])
						if ok != (m != nil) {
							say("GetMeasurement returned %v, %v", m, ok)
						}
						if ok {
							snaps[t] = append(snaps[t], takeSnap(m))
						}
						return ok
					})
				case "all":
					all := p.GetAllMeasurements()
					for _, nme := range profNames {
						if m := all[nme]; m != nil {
							snaps[t] = append(snaps[t], takeSnap(m))
						}
					}
				case "report":
					h.Do(core.Op{K: "report"}, func() any {
						text := report()
						if ap != nil && o.Int(0) != 0 {
							text = ap.AudioReport()
						}
						rows, err := parseReport(text)
						if err != nil {
							say("report cannot be read: %v\n%s", err, text)
						}
						var st profSt
						for k, nme := range profNames {
							if w, ok := rows[nme]; ok {
								st[k] = w.count
								if s := checkRow(nme, w); s != "" {
									say("report: %s", s)
								}
							}
						}
						return st
					})
				case "reset":
					h.Do(core.Op{K: "reset"}, func() any { reset(); return nil })
				case "enable":
					if n == 1 {
						enabled = o.Int(0) != 0
						enable(enabled)
						if p.IsEnabled() != enabled {
							say("IsEnabled is %v after SetEnabled(%v)", !enabled, enabled)
						}
					}
				case "jump":
					rt.JumpWall(o.Int(0))
				case "load":
					if ap != nil {
						ap.UpdateCPULoad()
						if l := ap.GetCPULoad(); !(l >= 0 && l < 1e15) {
							say("CPU load %v%%", l)
						}
					}
				}
			}
		}
	}
	for t := range c.Threads {
		for _, o := range c.Threads[t] {
			switch {
			case o.K == "timepanic":
				r.Probe("panicking-section")
			case o.K == "reset" && n > 1:
				r.Probe("reset-concurrent")
			case o.K == "enable" && n == 1 && o.Int(0) == 0:
				r.Probe("disabled")
			case o.K == "jump":
				r.Fault("wall-clock-jump")
				r.Probe("wall-jump")
			}
		}
	}
	res := r.Run(200000, fns...)
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail("inconsistent-statistics", "inconsistent-statistics", "thread %d: %s", t, b)
		}
	}
	for t := range snaps {
		for _, s := range snaps[t] {
			again := takeSnap(s.m)
			if fmt.Sprint(again.avg, again.pct) != fmt.Sprint(s.avg, s.pct) {
				r.Fail("snapshot-changed", "snapshot-changed", "a measurement returned to thread %d changed afterwards: average %v percentiles %v, later %v %v", t, s.avg, s.pct, again.avg, again.pct)
			}
			for k := 1; k < len(s.pct); k++ {
				if s.pct[k] < s.pct[k-1] {
					r.Fail("percentile", "percentile-order", "percentile %v is %v, percentile %v is %v", pcts[k-1], s.pct[k-1], pcts[k], s.pct[k])
				}
			}
			r.Observe(uint64(s.avg))
		}
	}
	if res.DeadLeft || res.Aborted != "" || r.Failed() {
		return
	}
	switch core.Linearizable(profModel(), hs, func(in any) bool { k := in.(core.Op).K; return k == "report" || k == "get" }) {
	case 0:
		d := ""
		for _, h := range hs {
			for _, o := range h.Ops {
				d += fmt.Sprintf("\n  thread %d [%d..%d] %v -> %v", h.Task, o.Call, o.Ret, o.In, o.Out)
			}
		}
		r.Fail("lost-or-extra-section", "count", "no order of the sections and resets explains the counts reported:%s", d)
	case -1:
		r.Probe("linearizability-undecided")
	}
	// What is left when all threads are done.
	rows, err := parseReport(report())
	if err != nil {
		r.Fail("inconsistent-statistics", "report", "%v", err)
		return
	}
	if resets {
		return
	}
	for k, nme := range profNames {
		r.Eval()
		var want profRow
		var lo, hi []time.Duration
		var sumLo, sumHi time.Duration
		for t := range secs {
			for _, s := range secs[t] {
				if s.name == k {
					want.count++
					lo, hi = append(lo, s.inner), append(hi, s.out)
					sumLo, sumHi = sumLo+s.inner, sumHi+s.out
				}
			}
		}
		row, ok := rows[nme]
		m, ok2 := p.GetMeasurement(nme)
		if ok != (want.count > 0) || ok2 != ok || row.count != want.count {
			r.Fail("lost-or-extra-section", "count", "%s: %d sections ran, the report says %d (measurement: %v)", nme, want.count, row.count, ok2)
			continue
		}
		if !ok {
			continue
		}
		if s := checkRow(nme, row); s != "" {
			r.Fail("inconsistent-statistics", "report", "%s", s)
		}
		if row.total < sumLo || row.total > sumHi {
			r.Fail("wrong-time", "wrong-time", "%s: total %v, but the sections took between %v and %v", nme, row.total, sumLo, sumHi)
		}
		if row.max < maxD(lo) || row.max > maxD(hi) || row.min < minD(lo) || row.min > minD(hi) {
			r.Fail("wrong-time", "wrong-time", "%s: min %v max %v, but the shortest section took %v-%v and the longest %v-%v", nme, row.min, row.max, minD(lo), minD(hi), maxD(lo), maxD(hi))
		}
		if m.Average() != row.avg {
			r.Fail("inconsistent-statistics", "average", "%s: Average() %v, report %v", nme, m.Average(), row.avg)
		}
		p0, p100 := m.Percentile(0), m.Percentile(100)
		if want.count <= int64(max) {
			if p0 != row.min || p100 != row.max {
				r.Fail("percentile", "percentile-ends", "%s: percentiles 0 and 100 are %v and %v, min and max are %v and %v", nme, p0, p100, row.min, row.max)
			}
		} else {
			r.Probe("window-wrapped")
			if p0 < row.min || p100 > row.max {
				r.Fail("percentile", "percentile-ends", "%s: percentiles 0 and 100 are %v and %v outside min %v and max %v", nme, p0, p100, row.min, row.max)
			}
			if max == 1 && (p0 != row.last || p100 != row.last) {
				r.Fail("percentile", "percentile-window", "%s: the only recent section took %v, percentiles say %v and %v", nme, row.last, p0, p100)
			}
		}
	}
	if ap != nil {
		ap.UpdateCPULoad()
		if m, ok := ap.GetMeasurement("ProcessAudio"); ok {
			want := float64(m.Average()) / float64(10*time.Millisecond) * 100
			if got := ap.GetCPULoad(); got > want+1e-6 || got < want-0.0101 {
				r.Fail("cpu-load", "cpu-load", "CPU load %v%%, average processing takes %v%% of the buffer", got, want)
			}
			text := ap.AudioReport()
			if w := fmt.Sprintf("%.2f%%", ap.GetCPULoad()); !strings.HasPrefix(text, "Performance Report") || !audioStats.MatchString(text) || audioStats.FindStringSubmatch(text)[1] != w {
				r.Fail("cpu-load", "audio-report", "the audio report does not give the statistics, 48000 Hz, 480 samples and a load of %s:\n%s", w, text)
			}
		}
	}
	// Reset leaves nothing behind.
	reset()
	if s := report(); s != "No measurements recorded" {
		r.Fail("lost-or-extra-section", "reset", "report after Reset: %s", s)
	}
}

func maxD(x []time.Duration) (m time.Duration) {
	for _, v := range x {
		if v > m {
			m = v
		}
	}
	return
}

func minD(x []time.Duration) time.Duration {
	m := x[0]
	for _, v := range x {
		if v < m {
			m = v
		}
	}
	return m
}
