package diag

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"vstrt/rt"
	"vstsim/core"

	"github.com/anishathalye/porcupine"
	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// P13: every enabled message reaches the output exactly once, as one whole
// line rendered with one configuration, whatever other threads, the output
// and the arguments do.

type sink struct {
	id     int
	lines  []wline
	inside bool
	bad    []string
	fault  *core.R
	rate   float64
	nFault int
}

type wline struct {
	text string
	seq  int64
}

func (s *sink) Write(p []byte) (int, error) {
	if s.inside {
		s.bad = append(s.bad, fmt.Sprintf("two writes at once, the second is %q", p))
	}
	s.inside = true
	defer func() { s.inside = false }()
	s.lines = append(s.lines, wline{string(p), rt.Seq()})
	rt.Y(-60) // the output is slow
	rt.Y(-61)
	if s.fault != nil && s.fault.Chance(s.rate) {
		s.nFault++
		switch s.fault.N(3) {
		case 0:
			return 0, errors.New("output failed")
		case 1:
			return len(p) / 2, errors.New("short write")
		default:
			panic("output panics")
		}
	}
	return len(p), nil
}

type logCfg struct {
	level   debug.LogLevel
	enabled bool
	flags   int
	prefix  string
	out     int
}

type logIn struct {
	kind  string
	n     int64
	s     string
	level debug.LogLevel
	msg   string
	file  string
	line  int
}

type logOut struct {
	sink int // -1: nothing written
	text string
}

func render(c logCfg, i logIn) string {
	s := ""
	if c.flags&debug.FlagTime != 0 {
		s += "<time> "
	}
	if c.flags&debug.FlagLevel != 0 {
		s += "[" + [...]string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}[i.level] + "] "
	}
	if c.flags&debug.FlagPrefix != 0 && c.prefix != "" {
		s += "[" + c.prefix + "] "
	}
	switch {
	case c.flags&debug.FlagShortFile != 0:
		s += fmt.Sprintf("%s:%d: ", filepath.Base(i.file), i.line)
	case c.flags&debug.FlagLongFile != 0:
		s += fmt.Sprintf("%s:%d: ", i.file, i.line)
	}
	s += i.msg
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	return s
}

const stamp = "2006-01-02 15:04:05.000"

// stripTime replaces a leading timestamp and returns it.
func stripTime(s string) (string, time.Time, bool) {
	if len(s) > len(stamp) && s[len(stamp)] == ' ' {
		if t, err := time.Parse(stamp, s[:len(stamp)]); err == nil {
			return "<time> " + s[len(stamp)+1:], t, true
		}
	}
	return s, time.Time{}, false
}

func logModel(first logCfg) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return first },
		Step: func(s, in, out any) (bool, any) {
			x := s.(logCfg)
			i := in.(logIn)
			switch i.kind {
			case "level":
				x.level = debug.LogLevel(i.n)
			case "enabled":
				x.enabled = i.n != 0
			case "isenabled":
				return out.(bool) == x.enabled, x
			case "flags":
				x.flags = int(i.n)
			case "prefix":
				x.prefix = i.s
			case "output":
				x.out = int(i.n)
			case "notlogged":
				return out.(logOut).sink < 0, x
			case "log":
				o := out.(logOut)
				if !x.enabled || i.level < x.level {
					return o.sink < 0, x
				}
				return o.sink == x.out && o.text == render(x, i), x
			}
			return true, x
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

type nester struct {
	f func()
	s string
}

func (n nester) String() string { n.f(); return n.s }

func init() {
	core.Register(&core.Check{
		NoEcho: true,
		ID:     "P13", Quick: 100000, Thorough: 2000000, RaceQuick: 1000, RaceThoro: 25000,
		Rule:      "1-4 threads log uniquely numbered messages through one logger (an own one or the package's default), at all levels, some with arguments that themselves log, while configuration changes arrive; the simulated output is slow, fails, writes short or panics. The recorded lines are checked against the configurations in force (linearizability), for exactly-once delivery, per-thread order and write exclusion; timestamps against the simulated wall clock. One run in ten logs to a scratch file by several loggers, which crash and are opened again, beside paths that cannot be logged to; one in forty logs the same messages again and again. Non-trivial: at least one preemption.",
		StateRule: "distinct interleavings (hash of context switches)",
		Real:      []string{"pkg/framework/debug.Logger"}, Stub: []string{"log output (faulty writer, scratch files)", "wall clock", "thread scheduler"},
		Assume: []string{"a message counts as delivered when it was handed to the output in one Write call; what a failing output loses is the output's"},
		Must:   []string{"writer-panic-or-error", "argument-that-logs", "config-concurrent", "fatal", "default-logger", "condition-false", "file-reopened", "path-unusable", "repeated-message"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Pick(1, 2, 2, 3, 4)
			c.Set("global", int64(g.N(2)))
			c.Set("flags", int64(g.N(32)))
			c.Set("level", int64(g.Pick(0, 0, 1, 2, 5)))
			c.Set("fault", int64(g.Pick(0, 0, 15, 40)))
			if g.Chance(0.1) {
				return genFileLog(g, c)
			}
			if i%40 == 7 {
				return genRepeatLog(g, c)
			}
			cfg := g.Chance(0.5)
			id := 0
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(1, 6); k > 0; k-- {
					if cfg && g.Chance(0.4) {
						switch g.N(6) {
						case 0:
							ops = append(ops, core.Op{K: "level", I: []int64{int64(g.N(6))}})
						case 1:
							ops = append(ops, core.Op{K: "enabled", I: []int64{int64(g.N(2))}})
						case 2:
							ops = append(ops, core.Op{K: "flags", I: []int64{int64(g.N(32))}})
						case 3:
							ops = append(ops, core.Op{K: "prefix", S: g.PickS("", "A", "Reverb")})
						case 4:
							ops = append(ops, core.Op{K: "output", I: []int64{int64(g.N(2))}})
						default:
							ops = append(ops, core.Op{K: "isenabled"})
						}
						continue
					}
					id++
					op := core.Op{K: "log", I: []int64{int64(g.Pick(0, 1, 1, 2, 3, 4)), int64(id), int64(g.Pick(0, 0, 0, 1, 2, 3, 4, 5, 6)), 0}}
					if c.Cfg["global"] != 0 && g.Chance(0.3) {
						op.I[0], op.I[3] = int64(g.Pick(0, 2, 3)), int64(g.Range(1, 2))
					}
					ops = append(ops, op)
				}
				if g.Chance(0.2) {
					ops = append(ops, core.Op{K: "jump", I: []int64{int64(g.Pick(-3600, 1, 86400)) * 1e9}})
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 150, true)}
			return c
		},
		Exec: execP13,
	})
}

func execP13(c *core.Case, r *core.Rec) {
	if c.Cfg["file"] != 0 {
		execFileLog(c, r)
		return
	}
	if c.Cfg["repeat"] != 0 {
		execRepeatLog(c, r)
		return
	}
	sinks := []*sink{{id: 0}, {id: 1}}
	if f := c.Cfg["fault"]; f > 0 {
		for k, s := range sinks {
			s.fault, s.rate = core.NewR(c.Seed+uint64(k)), float64(f)/100
		}
	}
	first := logCfg{level: debug.LogLevel(c.Cfg["level"]), enabled: true, flags: int(c.Cfg["flags"]), prefix: "P", out: 0}
	var l *debug.Logger
	global := c.Cfg["global"] != 0
	if global {
		l = debug.Default()
		debug.SetOutput(sinks[0])
		debug.SetPrefix("P")
		debug.SetFlags(first.flags)
		debug.SetEnabled(true)
		r.Probe("default-logger")
	} else {
		l = debug.New(sinks[0], "P", first.flags)
	}
	l.SetLevel(first.level)
	n := len(c.Threads)
	hs := make([]*core.Hist, n)
	bad := make([][]string, n)
	type sent struct {
		h      *core.Hist
		k      int
		w0, w1 int64
	}
	calls := make([]map[int64]sent, n)
	order := make([][]int64, n)
	fns := make([]func(), n)
	jumps := false
	for t := range fns {
		t := t
		hs[t] = &core.Hist{Task: t}
		h := hs[t]
		calls[t] = map[int64]sent{}
		say := func(f string, a ...any) { bad[t] = append(bad[t], fmt.Sprintf(f, a...)) }
		var logOne func(level debug.LogLevel, id, kind, cond int64, nested bool)
		logOne = func(level debug.LogLevel, id, kind, cond int64, nested bool) {
			text := fmt.Sprintf("m%d.", id)
			format, args := "%s", []any{any(text)}
			msg := text
			switch kind {
			case 1:
				format, msg = "%s\n", text+"\n"
			case 2:
				times := int64(0)
				args = []any{nester{func() { times++; logOne(debug.LogLevelError, id+100000*times, 0, 0, true) }, text}}
			case 3:
				format, args, msg = "a %d%% %s\nb", []any{int(id), text}, fmt.Sprintf("a %d%% %s\nb", id, text)
			case 4:
				long := strings.Repeat("long ", []int{20, 60, 300, 1000, 15000}[id%5])
				format, args, msg = "%s%s", []any{text, long}, text+long
			case 5:
				format, args, msg = "\n%s\n\n", []any{text}, "\n"+text+"\n\n"
			case 6: // a format alone, with nothing to fill in
				format, args, msg = "100%% "+text+"%%", nil, "100% "+text+"%"
			}
			_, file, line, _ := runtime.Caller(0)
			w0 := rt.Wall()
			in := logIn{kind: "log", level: level, msg: msg, file: file}
			kk := len(h.Ops)
			if !nested {
				order[t] = append(order[t], id)
			}
			h.Do(in, func() any {
				var what any
				func() {
					defer func() { what = recover() }()
					_, _, line, _ = runtime.Caller(0)
					if cond != 0 {
					} else if global {
						switch level {
						case 0:
							debug.Debug(format, args...) // line+4
						case 1:
							debug.Info(format, args...) // line+6
						case 2:
							debug.Warn(format, args...) // line+8
						case 3:
							debug.Error(format, args...) // line+10
						default:
							debug.Fatal(format, args...) // line+12
						}
					} else {
						switch level {
						case 0:
							l.Debug(format, args...) // line+17
						case 1:
							l.Info(format, args...) // line+19
						case 2:
							l.Warn(format, args...) // line+21
						case 3:
							l.Error(format, args...) // line+23
						default:
							l.Fatal(format, args...) // line+25
						}
					}
					if cond != 0 { // line+28
						switch level {
						case 0:
							debug.DebugIf(cond == 1, format, args...) // line+31
						case 2:
							debug.WarnIf(cond == 1, format, args...) // line+33
						default:
							debug.ErrorIf(cond == 1, format, args...) // line+35
						}
					}
				}()
				if a, ok := what.(*rt.Abort); ok {
					panic(a)
				}
				switch {
				case level == debug.LogLevelFatal && what != any(msg) && what != any("output panics"):
					say("Fatal(%q) ended with %v", msg, what)
				case level != debug.LogLevelFatal && what != nil && what != any("output panics"):
					say("logging %q panicked: %v", msg, what)
				}
				return nil
			})
			off := []int{4, 6, 8, 10, 12}[level]
			if !global {
				off += 13
			}
			off++
			if cond != 0 {
				off = map[debug.LogLevel]int{0: 32, 2: 34}[level]
				if off == 0 {
					off = 36
				}
			}
			if cond == 2 {
				in.kind = "notlogged"
			}
			in.line = line + off
			h.Ops[kk].In = in
			calls[t][id] = sent{h, kk, w0, rt.Wall()}
		}
		fns[t] = func() {
			for _, o := range c.Threads[t] {
				in := logIn{kind: o.K, n: o.Int(0), s: o.S}
				if o.K == "log" && o.Int(3) != 0 && (!global || o.Int(0) == 1 || o.Int(0) > 3) {
					continue
				}
				switch o.K {
				case "log":
					logOne(debug.LogLevel(o.Int(0)), o.Int(1), o.Int(2), o.Int(3), false)
				case "level":
					h.Do(in, func() any {
						if global {
							debug.SetLevel(debug.LogLevel(in.n))
						} else {
							l.SetLevel(debug.LogLevel(in.n))
						}
						return nil
					})
				case "enabled":
					h.Do(in, func() any {
						if global {
							debug.SetEnabled(in.n != 0)
						} else {
							l.SetEnabled(in.n != 0)
						}
						return nil
					})
				case "flags":
					h.Do(in, func() any { l.SetFlags(int(in.n)); return nil })
				case "prefix":
					h.Do(in, func() any { l.SetPrefix(in.s); return nil })
				case "output":
					h.Do(in, func() any { l.SetOutput(sinks[in.n&1]); return nil })
				case "isenabled":
					h.Do(in, func() any { return l.IsEnabled() })
				case "jump":
					rt.JumpWall(o.Int(0))
				}
			}
		}
	}
	for t := range c.Threads {
		for _, o := range c.Threads[t] {
			switch {
			case o.K == "jump":
				jumps = true
				r.Fault("wall-clock-jump")
			case o.K == "log" && o.Int(3) == 2:
				r.Probe("condition-false")
			case o.K == "log" && o.Int(2) == 2:
				r.Probe("argument-that-logs")
				r.Fault("re-entrant-argument")
			case o.K == "log" && o.Int(0) == 4:
				r.Probe("fatal")
			case o.K != "log" && o.K != "isenabled" && n > 1:
				r.Probe("config-concurrent")
			}
		}
	}
	res := r.Run(200000, fns...)
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail("log-call", "log-call", "thread %d: %s", t, b)
		}
	}
	for _, s := range sinks {
		if s.nFault > 0 {
			r.Probe("writer-panic-or-error")
			r.FaultN("log-output-failure", s.nFault)
		}
		for _, b := range s.bad {
			r.Fail("interleaved-writes", "interleaved-writes", "%s", b)
		}
	}
	if res.DeadLeft || res.Aborted != "" || r.Failed() {
		return
	}
	// Attribute the lines to the calls.
	at := make([]map[int64]int64, n)
	for t := range at {
		at[t] = map[int64]int64{}
		for id, s := range calls[t] {
			_ = id
			s.h.Ops[s.k].Out = logOut{sink: -1}
		}
	}
	for _, s := range sinks {
		for _, w := range s.lines {
			r.ObserveS(w.text)
			var id int64 = -1
			if k := strings.Index(w.text, "m"); k >= 0 {
				// the message number follows the last 'm' that starts a number
				for q := k; q < len(w.text); q++ {
					if w.text[q] == 'm' {
						var v int64
						var dot byte
						if m, _ := fmt.Sscanf(w.text[q:], "m%d%c", &v, &dot); m == 2 && dot == '.' {
							id = v
						}
					}
				}
			}
			found := false
			for t := range calls {
				cl, ok := calls[t][id]
				if !ok {
					continue
				}
				found = true
				op := &cl.h.Ops[cl.k]
				if op.Out.(logOut).sink >= 0 {
					r.Fail("message-twice", "message-twice", "message %d was written twice: %q", id, w.text)
				}
				if w.seq < op.Call || w.seq > op.Ret {
					r.Fail("late-write", "late-write", "message %d was written outside its call", id)
				}
				text, tm, has := stripTime(w.text)
				if has && !jumps {
					ms := tm.UnixMilli()
					if ms < cl.w0/1e6 || ms > cl.w1/1e6 {
						r.Fail("timestamp", "timestamp", "message %d is stamped %v; it was logged between %v and %v", id, tm, time.Unix(0, cl.w0).UTC(), time.Unix(0, cl.w1).UTC())
					}
				}
				op.Out = logOut{s.id, text}
				at[t][id] = w.seq
			}
			if !found {
				r.Fail("stray-output", "stray-output", "a write that is no message of any thread: %q", w.text)
			}
		}
	}
	for t := range order {
		last, lastID := int64(-1), int64(0)
		for _, id := range order[t] {
			if w, ok := at[t][id]; ok {
				if w < last {
					r.Fail("message-order", "message-order", "thread %d: message %d was written before message %d", t, id, lastID)
				}
				last, lastID = w, id
			}
		}
	}
	if r.Failed() {
		return
	}
	r.Eval()
	switch core.Linearizable(logModel(first), hs, func(in any) bool { return in.(logIn).kind == "isenabled" }) {
	case 0:
		d := ""
		for _, h := range hs {
			for _, o := range h.Ops {
				d += fmt.Sprintf("\n  thread %d [%d..%d] %+v -> %+v", h.Task, o.Call, o.Ret, o.In, o.Out)
			}
		}
		r.Fail("wrong-line", "wrong-line", "no order of the calls explains the lines written:%s", d)
	case -1:
		r.Probe("linearizability-undecided")
	}
}
