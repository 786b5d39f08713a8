package diag

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// P38: the buffer diagnostics report exactly the defects a buffer has,
// whatever other threads diagnose at the same time.

// damaged makes the buffer of an op: a signal and the faults injected into it.
func damaged(o core.Op) []float32 {
	g := core.NewR(uint64(o.Int(0)))
	n := int(o.Int(1))
	if n < 0 || n > 200000 {
		n = 0
	}
	b := make([]float32, n)
	amp := g.PickF(0, 0.00005, 0.00011, 0.3, 0.8, 0.98)
	f, ph := g.FR(0.05, 2), g.FR(0, 6)
	for i := range b {
		b[i] = float32(amp * math.Sin(ph+f*float64(i)))
	}
	if n == 0 {
		return b
	}
	faults := o.Int(2)
	if faults&1 != 0 { // not a number
		for k := g.Range(1, 3); k > 0; k-- {
			b[g.N(n)] = float32(math.NaN())
		}
	}
	if faults&2 != 0 { // overload
		v := float32(g.PickF(1, -1, 0.99, 1.5, -3))
		at := g.N(n)
		for k := at; k < n && k < at+3; k++ {
			b[k] = v
		}
	}
	if faults&4 != 0 { // offset
		d := float32(g.PickF(0.005, 0.02, -0.02, 0.2))
		for k := range b {
			b[k] += d
		}
	}
	if faults&8 != 0 { // drop-out
		at := g.N(n)
		for k := at; k < n && k < at+5; k++ {
			b[k] = 0
		}
	}
	if faults&16 != 0 {
		b[g.N(n)] = float32(math.Inf(g.Pick(1, -1)))
	}
	if faults&64 != 0 { // one defect all the way
		from, to := g.N(n/8+1), n-g.N(n/8+1)
		v := float32(g.PickF(1, -1, 1.5, math.NaN()))
		alt := g.Chance(0.5) // a square wave at the highest frequency
		for k := from; k < to; k++ {
			b[k] = v
			if alt && k&1 == 1 {
				b[k] = -v
			}
		}
	}
	if faults&32 != 0 { // denormal
		b[g.N(n)] = math.Float32frombits(uint32(g.Range(1, 1000)))
	}
	return b
}

func nan32(v float32) bool { return v != v }
func inf32(v float32) bool { return math.IsInf(float64(v), 0) }

// truth is what there is to report about a buffer.
type truth struct {
	nans, clips, cross int
	lead               bool // starts with NaN: the first crossing is open
	peak               float32
	rms, dc            float64
}

func truthOf(b []float32) (t truth) {
	var sq, sum float64
	last, first := float32(0), true
	for i, v := range b {
		if nan32(v) {
			t.nans++
			t.lead = t.lead || i == 0
			continue
		}
		a := float32(math.Abs(float64(v)))
		if a > t.peak {
			t.peak = a
		}
		if a >= 0.99 {
			t.clips++
		}
		sq += float64(v) * float64(v)
		sum += float64(v)
		if !first && (last < 0) != (v < 0) {
			t.cross++
		}
		last, first = v, false
	}
	if len(b) > 0 {
		t.rms, t.dc = math.Sqrt(sq/float64(len(b))), sum/float64(len(b))
	}
	return
}

func near38(got, want float64) bool {
	if math.IsNaN(want) || math.IsInf(want, 0) {
		return math.IsNaN(got) && math.IsNaN(want) || got == want
	}
	return math.Abs(got-want) <= 2e-6*math.Abs(want)+1e-9
}

// checkResult compares an analysis with the truth.
func checkResult(res debug.AnalysisResult, b []float32) string {
	t := truthOf(b)
	if len(b) == 0 {
		if res != (debug.AnalysisResult{}) {
			return fmt.Sprintf("the empty buffer gives %+v", res)
		}
		return ""
	}
	switch {
	case res.NaNCount != t.nans || res.HasNaN != (t.nans > 0):
		return fmt.Sprintf("%d NaN (%v) reported, there are %d", res.NaNCount, res.HasNaN, t.nans)
	case res.ClippedSamples != t.clips || res.Clipping != (t.clips > 0):
		return fmt.Sprintf("%d clipped samples (%v) reported, there are %d", res.ClippedSamples, res.Clipping, t.clips)
	case res.Peak != t.peak:
		return fmt.Sprintf("peak %g reported, it is %g", res.Peak, t.peak)
	case !near38(float64(res.RMS), t.rms):
		return fmt.Sprintf("RMS %g reported, it is %g", res.RMS, t.rms)
	case !near38(float64(res.DC), t.dc):
		return fmt.Sprintf("offset %g reported, it is %g", res.DC, t.dc)
	case math.Abs(t.rms-0.0001) > 1e-8 && res.Silent != (t.rms < 0.0001):
		return fmt.Sprintf("silent %v reported at RMS %g", res.Silent, t.rms)
	case res.ZeroCrossings != t.cross && !(t.lead && res.ZeroCrossings == t.cross+1):
		return fmt.Sprintf("%d zero crossings reported, there are %d", res.ZeroCrossings, t.cross)
	}
	return ""
}

// issuesOf is what a sanity check has to say: kind and count.
func issuesOf(b []float32, name string) (out []string, open bool) {
	t := truthOf(b)
	if t.nans > 0 {
		out = append(out, fmt.Sprintf("%s: Contains %d NaN values", name, t.nans))
	}
	if t.clips > 0 {
		out = append(out, fmt.Sprintf("%s: Clipping detected (%d samples)", name, t.clips))
	}
	if math.Abs(t.dc) > 0.01 {
		out = append(out, fmt.Sprintf("%s: DC offset detected (%.3f)", name, float32(t.dc)))
	}
	if t.peak > 1 {
		out = append(out, fmt.Sprintf("%s: Peak exceeds 1.0 (%.3f)", name, t.peak))
	}
	d := math.Abs(t.dc)
	x := d * 1000
	return out, math.Abs(d-0.01) < 1e-7 || math.Abs(x-math.Floor(x)-0.5) < 1e-3
}

func compareOf(a, b []float32, tol float32, got string) string {
	if len(a) != len(b) {
		var x, y int
		if n, _ := fmt.Sscanf(got, "Buffer length mismatch: %d vs %d", &x, &y); n != 2 || x != len(a) || y != len(b) {
			return fmt.Sprintf("buffers of %d and %d samples: %q", len(a), len(b), got)
		}
		return ""
	}
	count, max, at := 0, 0.0, map[int]bool{}
	sum := 0.0
	for i := range a {
		x, y := a[i], b[i]
		if x == y {
			continue
		}
		d := math.Abs(float64(x - y))
		if math.IsNaN(d) {
			d = math.Inf(1)
		}
		if d > float64(tol) {
			count++
			sum += d
			if d > max {
				max, at = d, map[int]bool{}
			}
			if d == max {
				at[i] = true
			}
		}
	}
	if count == 0 {
		if got != "Buffers are identical within tolerance" {
			return fmt.Sprintf("buffers within the tolerance: %q", got)
		}
		return ""
	}
	l := strings.Split(got, "\n")
	var k, n, idx int
	var pc, mx, avg float64
	if len(l) != 5 {
		return fmt.Sprintf("%d samples differ: %q", count, got)
	}
	if m, _ := fmt.Sscanf(strings.TrimSpace(l[1]), "Samples different: %d / %d (%f%%)", &k, &n, &pc); m != 3 || k != count || n != len(a) || math.Abs(pc-100*float64(count)/float64(n)) > 0.051 {
		return fmt.Sprintf("%d of %d samples differ: %q", count, len(a), l[1])
	}
	if m, _ := fmt.Sscanf(strings.TrimSpace(l[2]), "Max difference: %f at sample %d", &mx, &idx); m != 2 || !at[idx] || !(mx == max || math.Abs(mx-max) < 1e-6*max+1e-6) {
		return fmt.Sprintf("the largest difference is %g: %q", max, l[2])
	}
	if m, _ := fmt.Sscanf(strings.TrimSpace(l[3]), "Average difference: %f", &avg); m != 1 || !(avg == sum/float64(count) || math.Abs(avg-sum/float64(count)) < 1e-6*avg+1e-6) {
		return fmt.Sprintf("the average difference is %g: %q", sum/float64(count), l[3])
	}
	return ""
}

func dumpOf(b []float32, max int, got string) string {
	if len(b) == 0 {
		if got != "Empty buffer" {
			return fmt.Sprintf("empty buffer: %q", got)
		}
		return ""
	}
	n := max
	if n <= 0 || n > len(b) {
		n = len(b)
	}
	l := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	want := 3 + n
	if n < len(b) {
		want++
	}
	if len(l) != want {
		return fmt.Sprintf("dump of %d samples of %d has %d lines", n, len(b), len(l))
	}
	for i := 0; i < n; i++ {
		p := strings.SplitN(l[3+i], " | ", 4)
		var idx int
		var bits uint32
		if len(p) < 4 {
			return fmt.Sprintf("line %d is %q", i, l[3+i])
		}
		if _, err := fmt.Sscanf(strings.TrimSpace(p[0]), "%d", &idx); err != nil || idx != i {
			return fmt.Sprintf("line %d is %q", i, l[3+i])
		}
		if _, err := fmt.Sscanf(p[2], "0x%X", &bits); err != nil || bits != math.Float32bits(b[i]) {
			return fmt.Sprintf("sample %d (%08X) is dumped as %q", i, math.Float32bits(b[i]), l[3+i])
		}
		if v := b[i]; v > -1 && v < 1 {
			var s float64
			if _, err := fmt.Sscanf(p[1], "%f", &s); err != nil || math.Abs(s-float64(v)) > 6e-7 {
				return fmt.Sprintf("sample %d (%g) is dumped as %q", i, v, l[3+i])
			}
			bar := strings.Index(p[3], "|")
			if q := (float64(v) + 1) * 10; bar != int(q) && math.Abs(q-math.Round(q)) > 1e-5 && int(q) < 20 {
				return fmt.Sprintf("the bar of sample %d (%g) stands at %d", i, v, bar)
			}
		}
	}
	if n < len(b) {
		var k int
		if _, err := fmt.Sscanf(l[len(l)-1], "... %d more samples ...", &k); err != nil || k != len(b)-n {
			return fmt.Sprintf("%d samples left out: %q", len(b)-n, l[len(l)-1])
		}
	}
	return ""
}

func printOf(b []float32, width int, got string) string {
	t := truthOf(b)
	switch {
	case len(b) == 0:
		if got != "Empty buffer" {
			return fmt.Sprintf("empty buffer: %q", got)
		}
		return ""
	case t.peak == 0:
		if !strings.HasPrefix(got, "Silent buffer") {
			return fmt.Sprintf("silent buffer: %q", got)
		}
		return ""
	case t.nans > 0 || inf32(t.peak) || t.peak < 1e-30:
		return "" // no shape to show
	}
	if width <= 0 {
		width = 80
	}
	per := len(b) / width
	if per < 1 {
		per = 1
	}
	l := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	cols := (len(b) + per - 1) / per
	if cols > width {
		cols = width
	}
	if len(l) != 1+cols {
		return fmt.Sprintf("%d samples at width %d give %d columns", len(b), width, len(l)-1)
	}
	for i := 0; i < cols; i++ {
		s, k := 0.0, 0
		for j := i * per; j < (i+1)*per && j < len(b); j++ {
			s += float64(b[j])
			k++
		}
		h := s / float64(k) / float64(t.peak) * 20
		if math.Abs(h-math.Round(h)) < 1e-3+2e-6*float64(per) {
			continue
		}
		row := []rune(l[1+i])
		if len(row) != 41 {
			return fmt.Sprintf("column %d has %d characters", i, len(row))
		}
		for y := -20; y <= 20; y++ {
			c := row[20-y]
			want := ' '
			switch {
			case y == 0:
				want = '-'
			case y > 0 && y <= int(h) || y < 0 && y >= int(h):
				want = '█'
			}
			if c != want {
				return fmt.Sprintf("column %d (height %.2f) is drawn as %q", i, h, l[1+i])
			}
		}
	}
	return ""
}

func init() {
	core.Register(&core.Check{
		ID: "P38", Quick: 200000, Thorough: 4000000, RaceQuick: 800, RaceThoro: 20000,
		Rule:      "1-3 threads diagnose their own buffers with the shared analyser: signals into which NaN, infinities, overloads, offsets, drop-outs and denormals are injected at seeded places, empty buffers, buffer pairs of which one was damaged. Every analysis, sanity list, comparison, dump and picture is compared with a count over the buffer; what reaches the log is compared line by line as a multiset. Non-trivial: a damaged buffer was diagnosed.",
		StateRule: "distinct interleavings (hash of context switches)",
		Real:      []string{"pkg/framework/debug (audio.go, logger.go)"}, Stub: []string{"log output", "thread scheduler"},
		Assume: []string{"RMS and offset are taken over the buffer length with NaN as zero"},
		Must:   []string{"nan", "inf", "clip", "offset", "silent", "clean", "compare-nan", "compare-same", "logged", "filtered", "empty", "two-threads", "long"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(1, 3)
			c.Set("level", int64(g.Pick(0, 1, 1, 1, 2, 3, 5)))
			size := func(n int64) int64 { return n }
			if i%1000 == 50 { // a capture of seconds
				n = g.Range(1, 2)
				size = func(int64) int64 { return int64(g.Pick(500, 4096, 10000, 48000, 70000, 150000)) }
			}
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(1, 5); k > 0; k-- {
					faults := int64(0)
					if g.Chance(0.8) {
						faults = 1 << g.N(7)
						if g.Chance(0.4) {
							faults |= 1 << g.N(7)
						}
					}
					ops = append(ops, core.Op{K: g.PickS("analyze", "analyze", "default", "check", "check", "warn", "stats", "compare", "compare", "dump", "print"),
						I: []int64{int64(g.U64() >> 1), size(int64(g.Pick(0, 1, 2, 7, 24, 24, 40))), faults, int64(g.Pick(-1, 0, 1, 3, 10, 60)), int64(g.N(6))}})
				}
				for k := range ops { // a dump of it all is for short buffers
					if (ops[k].K == "dump" || ops[k].K == "print") && ops[k].I[1] > 10000 {
						if ops[k].I[3] <= 0 && ops[k].K == "dump" {
							ops[k].I[3] = 60
						}
					} else if ops[k].K == "compare" && ops[k].I[1] > 40 && g.Chance(0.6) {
						ops[k].I[2], ops[k].I[3] = 0, 60
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 150, true)}
			return c
		},
		Exec: execP38,
	})
}

func execP38(c *core.Case, r *core.Rec) {
	out := &sink{}
	debug.SetOutput(out)
	debug.SetPrefix("")
	debug.SetFlags(debug.FlagLevel)
	debug.SetEnabled(true)
	level := debug.LogLevel(c.Cfg["level"])
	debug.SetLevel(level)
	n := len(c.Threads)
	own := debug.NewAudioAnalyzer()
	bad := make([][]string, n)
	want := make([][]string, n)
	open := make([]bool, n)
	fns := make([]func(), n)
	for t := range fns {
		t := t
		expect := func(l debug.LogLevel, s string) {
			if l >= level {
				want[t] = append(want[t], "["+l.String()+"] "+s+"\n")
			}
		}
		fns[t] = func() {
			for k, o := range c.Threads[t] {
				b := damaged(o)
				was := append([]float32(nil), b...)
				name := fmt.Sprintf("t%d.%d", t, k)
				say := func(s string) {
					if s != "" {
						bad[t] = append(bad[t], o.K+" of "+name+": "+s)
					}
				}
				switch o.K {
				case "analyze":
					say(checkResult(own.Analyze(b), b))
				case "default":
					say(checkResult(debug.AnalyzeBuffer(b), b))
				case "check":
					got := debug.CheckBuffer(b, name)
					is, amb := issuesOf(b, name)
					if !amb && (len(got) != len(is) || strings.Join(got, "|") != strings.Join(is, "|")) {
						say(fmt.Sprintf("the issues reported are %q, there are %q", got, is))
					}
				case "warn":
					debug.CheckAudioBuffer(b, name)
					is, amb := issuesOf(b, name)
					open[t] = open[t] || amb
					for _, s := range is {
						expect(debug.LogLevelWarn, s)
					}
				case "stats":
					debug.LogBufferStats(b, name)
					tr := truthOf(b)
					for _, x := range []float64{tr.rms * 1e3, float64(tr.peak) * 1e3, tr.dc * 1e6} {
						if f := x - math.Floor(x); math.Abs(f-0.5) < 0.1 || tr.dc != 0 && math.Abs(tr.dc) < 1e-6 || math.Abs(tr.rms-0.0001) < 1e-8 {
							open[t] = true
						}
					}
					expect(debug.LogLevelInfo, fmt.Sprintf("Audio buffer '%s' stats:", name))
					expect(debug.LogLevelInfo, fmt.Sprintf("  Samples: %d", len(b)))
					expect(debug.LogLevelInfo, fmt.Sprintf("  Peak: %.3f", tr.peak))
					expect(debug.LogLevelInfo, fmt.Sprintf("  RMS: %.3f", float32(tr.rms)))
					expect(debug.LogLevelInfo, fmt.Sprintf("  DC: %.6f", float32(tr.dc)))
					if tr.clips > 0 {
						expect(debug.LogLevelWarn, fmt.Sprintf("  Clipping: %d samples", tr.clips))
					}
					if len(b) > 0 && tr.rms < 0.0001 {
						expect(debug.LogLevelInfo, "  Status: Silent")
					}
					if tr.nans > 0 {
						expect(debug.LogLevelError, fmt.Sprintf("  NaN values: %d", tr.nans))
					}
				case "compare":
					x := append([]float32(nil), b...)
					tol := float32([]float64{0, 1e-6, 0.01, 0.5, 0, 1e-3}[o.Int(4)%6])
					g := core.NewR(uint64(o.Int(0)) + 9)
					all := len(x) > 200 && o.Int(3) == 60 // everything differs, the end most of all
					for d := int(o.Int(3)); d > 0 && len(x) > 0 && !all; d-- {
						at := g.N(len(x))
						if nan32(b[at]) {
							continue
						}
						x[at] += float32(g.PickF(0, 1e-7, 0.004, -0.02, 0.3, -2, 1e30, math.NaN(), math.Inf(1)))
					}
					if o.Int(3) < 0 && len(x) > 1 {
						x = x[:len(x)-1]
					}
					if all { // everything differs, the end most of all
						for i := range x {
							x[i] += 0.6 + 0.3*float32(i)/float32(len(x))
						}
					}
					nans := false
					for i := range b {
						nans = nans || nan32(b[i])
					}
					if nans && len(x) == len(b) {
						for i := range b { // NaN on both sides is left open
							if nan32(b[i]) {
								x[i] = 0.25
							}
						}
					}
					say(compareOf(b, x, tol, debug.CompareBuffers(b, x, tol)))
					say(compareOf(x, b, tol, debug.CompareBuffers(x, b, tol)))
				case "dump":
					say(dumpOf(b, int(o.Int(3)), debug.DumpBuffer(b, int(o.Int(3)))))
				case "print":
					say(printOf(b, int(o.Int(3)), debug.PrintBuffer(b, int(o.Int(3)))))
				}
				for i := range b {
					if math.Float32bits(b[i]) != math.Float32bits(was[i]) {
						say(fmt.Sprintf("sample %d of the buffer was changed", i))
						break
					}
				}
			}
		}
	}
	total := 0
	for t := range c.Threads {
		for _, o := range c.Threads[t] {
			b := damaged(o)
			total += len(b)
			tr := truthOf(b)
			r.Eval()
			for k, f := range []string{"nan", "overload", "offset", "drop-out", "infinity", "denormal"} {
				if o.Int(2)>>uint(k)&1 != 0 && len(b) > 0 {
					r.Fault(f)
					r.NonTriv = true
				}
			}
			p := func(yes bool, name string) {
				if yes {
					r.Probe(name)
				}
			}
			p(tr.nans > 0, "nan")
			p(inf32(tr.peak), "inf")
			p(tr.clips > 0, "clip")
			p(math.Abs(tr.dc) > 0.01, "offset")
			p(len(b) > 0 && tr.rms < 0.0001, "silent")
			p(tr.clips == 0 && tr.nans == 0 && math.Abs(tr.dc) < 0.01 && tr.rms > 0.0001, "clean")
			p(len(b) == 0, "empty")
			p(o.K == "compare" && tr.nans > 0, "compare-nan")
			p(o.K == "compare" && o.Int(3) == 0, "compare-same")
			p(n > 1, "two-threads")
			p(len(b) > 65536, "long")
		}
	}
	res := r.Run(int64(400000+total*100), fns...)
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail("diagnosis", strings.SplitN(b, " ", 2)[0], "thread %d: %s", t, b)
		}
	}
	if res.DeadLeft || res.Aborted != "" || r.Failed() {
		return
	}
	var w, got []string
	for t := range want {
		if open[t] {
			return // a rounded figure lies on the edge
		}
		w = append(w, want[t]...)
	}
	for _, l := range out.lines {
		got = append(got, l.text)
		r.ObserveS(l.text)
	}
	sort.Strings(w)
	sort.Strings(got)
	if len(got) > 0 {
		r.Probe("logged")
	} else if level > 1 {
		r.Probe("filtered")
	}
	for i := 0; i < len(w) || i < len(got); i++ {
		a, b := "nothing", "nothing"
		if i < len(w) {
			a = w[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			r.Fail("log", "log", "at level %s the log has %q where the buffers call for %q", level, b, a)
			return
		}
	}
	for _, b := range out.bad {
		r.Fail("interleaved-writes", "interleaved-writes", "%s", b)
	}
}
