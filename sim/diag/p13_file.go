package diag

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
)

// The file part of P13: what was logged before a crash stays in the file, what
// is logged after a restart follows it, and lines stay whole.

var logPaths = []string{"log.txt", "sub/log.txt", "sub/deeper/still/log.txt"}

var fileRuns int

func genFileLog(g *core.R, c *core.Case) *core.Case {
	c.Set("file", 1)
	n := g.Range(1, 3)
	id := 0
	for t := 0; t < n; t++ {
		var ops []core.Op
		for k := g.Range(3, 9); k > 0; k-- {
			switch x := g.N(8); {
			case x < 2:
				ops = append(ops, core.Op{K: "open", I: []int64{int64(g.N(len(logPaths)))}})
			case x == 2:
				ops = append(ops, core.Op{K: "unusable", I: []int64{int64(g.N(3))}})
			default:
				id++
				ops = append(ops, core.Op{K: "write", I: []int64{int64(id), int64(g.N(4))}})
			}
		}
		c.Threads = append(c.Threads, ops)
	}
	c.Scheds = []rt.Schedule{core.GenSched(g, n, 60, true)}
	return c
}

func execFileLog(c *core.Case, r *core.Rec) {
	dir, err := os.MkdirTemp("", "vstlog")
	if err != nil {
		r.Fail("harness", "harness", "%v", err)
		return
	}
	defer os.RemoveAll(dir)
	// Loggers never close their files; the collector does.
	if fileRuns++; fileRuns%40 == 0 {
		runtime.GC()
	}
	old := []string{"old line 1\n", "old line 2\n"}
	if c.Cfg["level"] == 0 {
		old = nil
	} else if err := os.WriteFile(filepath.Join(dir, logPaths[0]), []byte(strings.Join(old, "")), 0o644); err != nil {
		r.Fail("harness", "harness", "%v", err)
		return
	}
	os.WriteFile(filepath.Join(dir, "afile"), nil, 0o644)
	os.MkdirAll(filepath.Join(dir, "adir"), 0o755)
	n := len(c.Threads)
	bad := make([][]string, n)
	order := make([][3][]string, n)
	fns := make([]func(), n)
	for t := range fns {
		t := t
		fns[t] = func() {
			var l *debug.Logger
			at := -1
			for _, o := range c.Threads[t] {
				switch o.K {
				case "open": // the one before is dropped, as in a crash
					k := int(o.Int(0)) % len(logPaths)
					nl, err := debug.NewFileLogger(filepath.Join(dir, logPaths[k]), fmt.Sprint("T", t), debug.FlagLevel|debug.FlagPrefix)
					if err != nil || nl == nil {
						bad[t] = append(bad[t], fmt.Sprintf("no logger for %s: %v", logPaths[k], err))
						return
					}
					nl.SetLevel(debug.LogLevelDebug)
					l, at = nl, k
				case "unusable":
					p := filepath.Join(dir, []string{"adir", "afile/log.txt", "afile/sub/log.txt"}[int(o.Int(0))%3])
					if nl, err := debug.NewFileLogger(p, "", 0); err == nil || nl != nil {
						bad[t] = append(bad[t], fmt.Sprintf("a logger (%v) with error %v for an unusable path", nl != nil, err))
					}
				case "write":
					if l == nil {
						break
					}
					id := o.Int(0)
					lv := debug.LogLevel(o.Int(1)) & 3
					text := fmt.Sprintf("[%s] [T%d] m%d.\n", lv.String(), t, id)
					switch lv {
					case 0:
						l.Debug("m%d.", id)
					case 1:
						l.Info("m%d.", id)
					case 2:
						l.Warn("m%d.", id)
					default:
						l.Error("m%d.", id)
					}
					order[t][at] = append(order[t][at], text)
				}
				rt.Y(-62)
			}
		}
	}
	for t := range c.Threads {
		opened := map[int64]bool{}
		for _, o := range c.Threads[t] {
			switch {
			case o.K == "unusable":
				r.Probe("path-unusable")
				r.Fault("path-unusable")
			case o.K == "open" && opened[o.Int(0)]:
				r.Probe("file-reopened")
				r.Fault("crash-and-reopen")
			case o.K == "open":
				opened[o.Int(0)] = true
			}
		}
	}
	res := r.Run(100000, fns...)
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail("log-file", "log-file", "thread %d: %s", t, b)
		}
	}
	if res.DeadLeft || res.Aborted != "" || r.Failed() {
		return
	}
	r.Eval()
	for k, p := range logPaths {
		b, _ := os.ReadFile(filepath.Join(dir, p))
		lines := strings.SplitAfter(string(b), "\n")
		if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		r.ObserveS(string(b))
		next := make([]int, n)
		if k == 0 {
			for _, o := range old {
				if len(lines) == 0 || lines[0] != o {
					r.Fail("log-file", "log-overwritten", "%s held %q before, now starts with %q", p, old, lines)
					return
				}
				lines = lines[1:]
			}
		}
	line:
		for _, l := range lines {
			for t := range order {
				if q := next[t]; q < len(order[t][k]) && order[t][k][q] == l {
					next[t]++
					continue line
				}
			}
			r.Fail("log-file", "log-line", "%s: %q is not the next line of any thread; the file is %q", p, l, string(b))
			return
		}
		for t := range order {
			if next[t] != len(order[t][k]) {
				r.Fail("log-file", "log-lost", "%s: thread %d logged %q, which is not in the file %q", p, t, order[t][k][next[t]], string(b))
				return
			}
		}
	}
}
