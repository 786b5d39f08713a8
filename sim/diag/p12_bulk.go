package diag

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// The long session of P12: one thread times many sections of many names, some
// lasting hours, over windows of any length; every figure is compared with a
// plain list of what was timed.

func genBulk12(g *core.R, c *core.Case) {
	c.Set("bulk", 1)
	c.Set("max", int64(g.Pick(1, 2, 50, 999, 1000, 1001, 3000, 10000)))
	c.Set("audio", 1)
	names := int64(g.Pick(1, 2, 20, 63, 64, 65, 130, 300, 700))
	var ops []core.Op
	for k := g.Range(1, 4); k > 0; k-- {
		ops = append(ops, core.Op{K: "many", I: []int64{
			int64(g.U64() >> 1), names, int64(g.Pick(1, 100, 1500, 4000, 9000)),
			int64(g.Pick(1, 1000, 1000000, 3600e9)), int64(g.N(4))}})
		if g.Chance(0.15) {
			ops = append(ops, core.Op{K: g.PickS("reset", "off", "on", "jump"), I: []int64{int64(g.Pick(-86400, 3600)) * 1e9}})
		}
	}
	c.Threads = [][]core.Op{ops}
}

type bulkRow struct{ lo, hi []time.Duration }

func execBulk12(c *core.Case, r *core.Rec) {
	max := int(c.Cfg["max"])
	p := debug.NewProfiler(max)
	if max < 1 {
		max = 1
	}
	on := true
	rows := map[string]*bulkRow{}
	var order []string
	h := uint64(max)
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(1)*31+o.Int(2)*7+o.Int(3)))
		switch o.K {
		case "reset":
			p.Reset()
			rows, order = map[string]*bulkRow{}, nil
		case "off", "on":
			on = o.K == "on"
			p.SetEnabled(on)
		case "jump":
			rt.JumpWall(o.Int(0))
			r.Fault("wall-clock-jump")
		case "many":
			g := core.NewR(uint64(o.Int(0)))
			names, n, unit := int(o.Int(1)), int(o.Int(2)), o.Int(3)
			if names < 1 || names > 2000 || n < 0 || n > 20000 || unit < 1 || unit > 3600e9 {
				continue
			}
			for k := 0; k < n; k++ {
				who := g.N(names)
				if o.Int(4) == 0 {
					who = k % names // every name in turn
				}
				name := fmt.Sprintf("voice %d/%d", who, names)
				d := int64(float64(unit) * g.F())
				if o.Int(4) == 1 {
					d = unit / 1000 * int64(k) / 10 // ever longer
				} else if o.Int(4) == 2 {
					d = unit / 1000 * int64(n-k) / 10 // ever shorter
				}
				a0 := rt.Mono()
				stop := p.Start(name)
				a1 := rt.Mono()
				rt.Advance(d)
				b0 := rt.Mono()
				stop()
				b1 := rt.Mono()
				if !on {
					continue
				}
				row := rows[name]
				if row == nil {
					row = &bulkRow{}
					rows[name] = row
					order = append(order, name)
				}
				row.lo = append(row.lo, time.Duration(b0-a1))
				row.hi = append(row.hi, time.Duration(b1-a0))
				if len(row.lo) > 1000 {
					r.Probe("thousand-sections")
				}
			}
			r.SimNs += float64(n) * float64(unit)
		}
		r.Eval()
		if len(order) > 128 {
			r.Probe("hundred-names")
		}
		if s := bulkCheck(p, rows, order, max); s != "" {
			r.Fail("bulk", "bulk", "after %s: %s", o.K, s)
			return
		}
	}
	r.NonTriv = len(order) > 0
	r.State(h)
}

func bulkCheck(p *debug.Profiler, rows map[string]*bulkRow, order []string, max int) string {
	all := p.GetAllMeasurements()
	if len(all) != len(order) {
		return fmt.Sprintf("%d measurements for %d names", len(all), len(order))
	}
	// The report, section by section.
	rep := map[string][]string{}
	name := ""
	for _, l := range strings.Split(p.Report(), "\n") {
		if m := profLine.FindStringSubmatch(l); m != nil {
			rep[name] = append(rep[name], m[1], m[2])
		} else if strings.HasSuffix(l, ":") {
			name = strings.TrimSuffix(l, ":")
		}
	}
	for _, name := range order {
		row := rows[name]
		n := len(row.lo)
		var sumLo, sumHi time.Duration
		for k := range row.lo {
			sumLo, sumHi = sumLo+row.lo[k], sumHi+row.hi[k]
		}
		m, ok := p.GetMeasurement(name)
		if !ok || all[name] == nil {
			return fmt.Sprintf("%q, timed %d times, has no measurement", name, n)
		}
		if a := m.Average(); a < sumLo/time.Duration(n) || a > sumHi/time.Duration(n) {
			return fmt.Sprintf("%q took %v to %v on average of %d sections, shown as %v", name, sumLo/time.Duration(n), sumHi/time.Duration(n), n, a)
		}
		f := rep[name]
		if len(f) != 12 || f[1] != fmt.Sprint(n) {
			return fmt.Sprintf("%q, timed %d times, is reported as %v", name, n, f)
		}
		var w profRow
		for k, dst := range []*time.Duration{&w.total, &w.avg, &w.min, &w.max, &w.last} {
			d, err := time.ParseDuration(f[3+2*k])
			if err != nil {
				return fmt.Sprintf("%q is reported as %v", name, f)
			}
			*dst = d
		}
		in := func(d, lo, hi time.Duration) bool { return d >= lo && d <= hi }
		if !in(w.total, sumLo, sumHi) || w.avg != w.total/time.Duration(n) || !in(w.last, row.lo[n-1], row.hi[n-1]) ||
			!in(w.min, minD(row.lo), minD(row.hi)) || !in(w.max, maxD(row.lo), maxD(row.hi)) {
			return fmt.Sprintf("%q is reported as %v; total %v, shortest %v, longest %v, last %v", name, f, sumLo, minD(row.lo), maxD(row.hi), row.lo[n-1])
		}
		// Percentiles: order statistics of the recent sections.
		from := n - max
		if from < 0 {
			from = 0
		}
		lo, hi := append([]time.Duration{}, row.lo[from:]...), append([]time.Duration{}, row.hi[from:]...)
		sort.Slice(lo, func(a, b int) bool { return lo[a] < lo[b] })
		sort.Slice(hi, func(a, b int) bool { return hi[a] < hi[b] })
		for _, q := range pcts {
			x := float64(len(lo)-1) * q / 100
			a, b := int(math.Floor(x)), int(math.Ceil(x))
			if d := m.Percentile(q); !in(d, lo[a], hi[b]) {
				return fmt.Sprintf("percentile %v of the last %d of %d sections of %q is %v, expected %v to %v", q, len(lo), n, name, d, lo[a], hi[b])
			}
		}
	}
	return ""
}
