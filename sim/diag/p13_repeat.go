package diag

import (
	"fmt"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// The same message again and again is as many messages.

func genRepeatLog(g *core.R, c *core.Case) *core.Case {
	c.Set("repeat", 1)
	var ops []core.Op
	for k := g.Range(2, 6); k > 0; k-- {
		ops = append(ops, core.Op{K: "rep", I: []int64{int64(g.N(4)), int64(g.N(4)), int64(g.Pick(1, 2, 3, 9, 17, 40, 120, 1100)), int64(g.Pick(0, 0, 1, 1000, 3600*1000)) * 1e6}})
	}
	c.Threads = [][]core.Op{ops}
	c.Scheds = []rt.Schedule{core.GenSched(g, 1, 10, true)}
	return c
}

func execRepeatLog(c *core.Case, r *core.Rec) {
	s := &sink{}
	if f := c.Cfg["fault"]; f > 0 {
		s.fault, s.rate = core.NewR(c.Seed), float64(f)/100
	}
	flags := int(c.Cfg["flags"]) & (debug.FlagLevel | debug.FlagPrefix)
	level := debug.LogLevel(c.Cfg["level"])
	l := debug.New(s, "P", flags)
	if c.Cfg["global"] != 0 {
		l = debug.Default()
		debug.SetOutput(s)
		debug.SetPrefix("P")
		debug.SetFlags(flags)
		debug.SetEnabled(true)
	}
	l.SetLevel(level)
	texts := []string{"same", "", "same", "other\n"}
	bad := ""
	total := 0
	r.Run(5_000_000, func() {
		for _, o := range c.Threads[0] {
			lv := debug.LogLevel(uint(o.Int(0)) % 4)
			text := texts[uint(o.Int(1))%4]
			times := int(min(max(o.Int(2), 0), 2000))
			before := len(s.lines)
			for range times {
				func() {
					defer func() {
						if p := recover(); p != nil {
							if a, ok := p.(*rt.Abort); ok {
								panic(a)
							}
						}
					}()
					switch lv {
					case 0:
						l.Debug("%s", text)
					case 1:
						l.Info("%s", text)
					case 2:
						l.Warn("%s", text)
					default:
						l.Error("%s", text)
					}
				}()
				rt.JumpWall(min(max(o.Int(3), 0), 3600e9))
			}
			want := times
			if lv < level {
				want = 0
			}
			line := render(logCfg{flags: flags, prefix: "P"}, logIn{level: lv, msg: text})
			for _, w := range s.lines[before:] {
				if w.text != line && bad == "" {
					bad = fmt.Sprintf("logging %q wrote %q", line, w.text)
				}
			}
			if n := len(s.lines) - before; n != want && bad == "" {
				bad = fmt.Sprintf("logging %q %d times at level %v of %v wrote %d lines", text, times, lv, level, n)
			}
			total += times
		}
	})
	r.Eval()
	r.NonTriv = total > 100
	if total > 100 {
		r.Probe("repeated-message")
	}
	if s.nFault > 0 {
		r.FaultN("log-output-failure", s.nFault)
	}
	r.State(core.HashU(uint64(total), uint64(len(s.lines))))
	r.Observe(uint64(len(s.lines)))
	if bad != "" {
		r.Fail("repeated-message", "repeated-message", "%s", bad)
	}
}
