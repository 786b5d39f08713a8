package core

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"vstrt/rt"
)

// Known findings: a committed file; entries name the failing history by key.
type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func loadKnown(path string) (map[string]bool, map[string]string) {
	set, what := map[string]bool{}, map[string]string{}
	if path == "" {
		return set, what
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("known findings: %v", err)
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fatal("known findings: %v", err)
	}
	for _, f := range k.Findings {
		set[f.Property+"|"+f.Key] = true
		what[f.Property+"|"+f.Key] = f.What
	}
	return set, what
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "error: "+f+"\n", a...)
	os.Exit(2)
}

func runSeed(base uint64, id string, index int) uint64 {
	return mix(mix(base+0x51ed270b) ^ HashS(id) ^ (uint64(index)+1)*0x9e3779b97f4a7c15)
}

// cross takes a number of p over into o: the first in which their integers
// differ or, if these agree, any of the others.
func cross(o *Op, p Op, g *R) {
	if p.K != o.K || p.S != o.S || len(p.I) != len(o.I) || len(p.F) != len(o.F) {
		return
	}
	for k := range o.I {
		if o.I[k] != p.I[k] {
			if k > 0 {
				o.I[k] = p.I[k]
			}
			return
		}
	}
	if len(o.F) > 0 {
		k := g.N(len(o.F))
		o.F[k] = p.F[k]
	}
}

// genCase builds the case of run number index.
func genCase(ck *Check, base uint64, index int) *Case {
	seed := runSeed(base, ck.ID, index)
	g := NewR(seed)
	rt.BeginRun(seed)
	c := ck.Gen(g, index)
	c.Property = ck.ID
	c.Index = index
	c.Seed = seed
	if !ck.NoEcho {
		echo(c, NewR(seed^0xec40ec40ec40ec40))
	}
	return c
}

// echo repeats calls in a fifth of the cases: a copy of an operation comes in
// later on its thread, exactly or with one number of another operation of its
// kind that has the same target. Code that remembers the last call is wrong at such a history.
func echo(c *Case, g *R) {
	if !g.Chance(0.2) {
		return
	}
	for n := g.Range(1, 4); n > 0 && len(c.Threads) > 0; n-- {
		t := g.N(len(c.Threads))
		ops := c.Threads[t]
		if len(ops) == 0 || len(ops) > 2000 {
			continue
		}
		at := g.N(len(ops))
		o := ops[at]
		o.I, o.F = append([]int64(nil), o.I...), append([]X(nil), o.F...)
		if g.Chance(0.5) {
			cross(&o, ops[g.N(len(ops))], g)
		}
		to := at + 1
		if g.Chance(0.5) {
			to = g.Range(at+1, len(ops))
		}
		ops = append(ops, Op{})
		copy(ops[to+1:], ops[to:])
		ops[to] = o
		c.Threads[t] = ops
	}
}

// execCase runs one case from a clean state.
func execCase(ck *Check, c *Case, known map[string]bool) *Rec {
	r := NewRec(c, known)
	rt.BeginRun(c.Seed)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if a, ok := p.(*rt.Abort); ok {
					r.Fail("no-progress", "no-progress", "%s", a.Why)
					return
				}
				r.Fail("panic", "panic", "%v\n%s", p, rt.Stack())
			}
		}()
		ck.Exec(c, r)
	}()
	rt.SetSolo(1 << 62)
	return r
}

type workerOut struct {
	Runs    int              `json:"runs"`
	Evals   int64            `json:"evals"`
	NonTriv int              `json:"nontriv"`
	SimNs   float64          `json:"sim_ns"`
	Yields  int64            `json:"yields"`
	Faults  map[string]int64 `json:"faults"`
	Probes  map[string]int64 `json:"probes"`
	Comps   map[string]int64 `json:"comps"`
	Known   map[string]int   `json:"known"`
	States  []uint64         `json:"states"`
	Cases   []uint64         `json:"cases"`
	Digests map[int]uint64   `json:"digests"`
	Samples []*Case          `json:"samples"`
	Viol    *Violation       `json:"viol"`
	VCase   *Case            `json:"vcase"`
	Seconds float64          `json:"seconds"`
	Capped  bool             `json:"capped"`
}

const stateCap = 40000

func worker(ck *Check, base uint64, from, to, stride int, maxSec float64, known map[string]bool, progress string) *workerOut {
	out := &workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Comps: map[string]int64{}, Known: map[string]int{}, Digests: map[int]uint64{}}
	states := map[uint64]struct{}{}
	cases := map[uint64]struct{}{}
	t0 := time.Now()
	for i := from; i < to; i += stride {
		if maxSec > 0 && time.Since(t0).Seconds() > maxSec {
			out.Capped = true
			break
		}
		if progress != "" {
			os.WriteFile(progress, []byte(fmt.Sprint(i)), 0o644)
		}
		c := genCase(ck, base, i)
		r := execCase(ck, c, known)
		out.Runs++
		out.Evals += r.Evals
		out.SimNs += r.SimNs
		out.Yields += r.Yields
		for k, v := range r.Faults {
			out.Faults[k] += v
		}
		for k, v := range r.Probes {
			out.Probes[k] += v
		}
		for k, v := range r.Comps {
			out.Comps[k] += v
		}
		for k, v := range r.Known {
			out.Known[k] += v
		}
		if r.NonTriv {
			out.NonTriv++
			if len(cases) < stateCap {
				cases[r.Hash] = struct{}{}
			}
		}
		for s := range r.States {
			if len(states) < stateCap {
				states[s] = struct{}{}
			}
		}
		if out.Runs <= 4 {
			out.Digests[i] = r.Hash
		}
		if out.Runs == 1 {
			out.Samples = append(out.Samples, c)
		}
		if len(r.Viol) > 0 {
			v := r.Viol[0]
			out.Viol, out.VCase = &v, c
			break
		}
	}
	out.Seconds = time.Since(t0).Seconds()
	for s := range states {
		out.States = append(out.States, s)
	}
	for s := range cases {
		out.Cases = append(out.Cases, s)
	}
	return out
}

// ReplayFile is what a violation is reported as.
type ReplayFile struct {
	Property  string    `json:"property"`
	Variant   string    `json:"variant"`
	BaseSeed  uint64    `json:"base_seed"`
	Index     int       `json:"run_index"`
	Violation Violation `json:"violation"`
	Ops       int       `json:"ops"`
	OpsBefore int       `json:"ops_before_minimisation"`
	Trace     []string  `json:"trace,omitempty"`
	Case      *Case     `json:"case"`
	Report    string    `json:"report,omitempty"`
	Prefix    []int     `json:"prefix_runs,omitempty"` // runs to execute first in the same process
}

func has(r *Rec, class string) *Violation {
	for i := range r.Viol {
		if r.Viol[i].Class == class {
			return &r.Viol[i]
		}
	}
	return nil
}

// minimise shrinks a failing case while it keeps failing in the same way.
func minimise(ck *Check, c *Case, class string, known map[string]bool, maxSec float64) (*Case, *Violation) {
	t0 := time.Now()
	over := func() bool { return time.Since(t0).Seconds() > maxSec }
	best := c.Clone()
	r := execCase(ck, best.Clone(), known)
	bv := has(r, class)
	if bv == nil {
		return nil, nil
	}
	alt := NewR(c.Seed ^ 0x777)
	try := func(d *Case) bool {
		n := 1
		multi := len(d.Scheds) > 0
		if multi {
			n = 8
		}
		for k := 0; k < n; k++ {
			e := d.Clone()
			if k > 0 {
				for i := range e.Scheds {
					s := GenSched(alt, len(e.Threads)+1, 400, false)
					s.TickNs = e.Scheds[i].TickNs
					s.Stalls = e.Scheds[i].Stalls
					e.Scheds[i] = s
				}
			}
			rr := execCase(ck, e.Clone(), known)
			if v := has(rr, class); v != nil {
				best, bv = e, v
				return true
			}
		}
		return false
	}
	// 1. operations
	for changed := true; changed && !over(); {
		changed = false
		for t := range best.Threads {
			for size := len(best.Threads[t]); size >= 1; size = size / 2 {
				for at := 0; at+size <= len(best.Threads[t]) && !over(); {
					d := best.Clone()
					d.Threads[t] = append(append([]Op{}, d.Threads[t][:at]...), d.Threads[t][at+size:]...)
					if try(d) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
	}
	// 2. stalls
	for p := range best.Scheds {
		for k := 0; k < len(best.Scheds[p].Stalls); {
			d := best.Clone()
			d.Scheds[p].Stalls = append(d.Scheds[p].Stalls[:k], d.Scheds[p].Stalls[k+1:]...)
			if over() || !try(d) {
				k++
			}
		}
	}
	// 3. operands
	for t := range best.Threads {
		for o := range best.Threads[t] {
			for k := range best.Threads[t][o].I {
				for best.Threads[t][o].I[k] != 0 && !over() {
					d := best.Clone()
					d.Threads[t][o].I[k] = 0
					if try(d) {
						break
					}
					d = best.Clone()
					d.Threads[t][o].I[k] /= 2
					if !try(d) {
						break
					}
				}
			}
			for k := range best.Threads[t][o].F {
				for _, v := range []X{0, 1} {
					if best.Threads[t][o].F[k] != v && !over() {
						d := best.Clone()
						d.Threads[t][o].F[k] = v
						if try(d) {
							break
						}
					}
				}
			}
		}
	}
	// 4. explicit schedule, then fewer switches
	if len(best.Scheds) > 0 {
		rr := execCase(ck, best.Clone(), known)
		if has(rr, class) != nil && !rr.Trunc && len(rr.Phases) > 0 {
			d := best.Clone()
			d.Scheds = nil
			for p, ph := range rr.Phases {
				s := rt.Schedule{Strategy: rt.StratExplicit, Switches: ph}
				if p < len(best.Scheds) {
					s.TickNs = best.Scheds[p].TickNs
					s.Stalls = best.Scheds[p].Stalls
				}
				d.Scheds = append(d.Scheds, s)
			}
			r2 := execCase(ck, d.Clone(), known)
			if v := has(r2, class); v != nil {
				best, bv = d, v
				for p := range best.Scheds {
					for size := len(best.Scheds[p].Switches); size >= 1; size /= 2 {
						for at := 0; at+size <= len(best.Scheds[p].Switches) && !over(); {
							e := best.Clone()
							sw := e.Scheds[p].Switches
							e.Scheds[p].Switches = append(append([]rt.Switch{}, sw[:at]...), sw[at+size:]...)
							r3 := execCase(ck, e.Clone(), known)
							if v := has(r3, class); v != nil {
								best, bv = e, v
							} else {
								at += size
							}
						}
					}
				}
			}
		}
	}
	return best, bv
}

func readReplay(path string) *ReplayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("replay: %v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("replay: %v", err)
	}
	return &rf
}

func writeReplay(path string, rf *ReplayFile) {
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		fatal("replay: %v", err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("replay: %v", err)
	}
}

// Main is the entry point of every simulator binary.
func Main() {
	debug.SetGCPercent(400)
	mode := "list"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	id := fs.String("check", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	stride := fs.Int("stride", 1, "")
	maxSec := fs.Float64("maxsec", 0, "")
	known := fs.String("known", "", "")
	raceBin := fs.String("racebin", "", "")
	replays := fs.String("replays", "", "")
	evidence := fs.String("evidence", "", "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	file := fs.String("file", "", "")
	progress := fs.String("progress", "", "")
	sitesF := fs.String("sites", "", "")
	scale := fs.Float64("scale", 1, "")
	if len(os.Args) > 2 {
		fs.Parse(os.Args[2:])
	}
	knownSet, what := loadKnown(*known)
	get := func(id string) *Check {
		ck := checks[id]
		if ck == nil {
			fatal("unknown check %q", id)
		}
		return ck
	}
	switch mode {
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "worker":
		runtime.GOMAXPROCS(2)
		out := worker(get(*id), *seed, *from, *to, *stride, *maxSec, knownSet, *progress)
		json.NewEncoder(os.Stdout).Encode(out)
	case "digest":
		ck := get(*id)
		for i := *from; i < *to; i += *stride {
			c := genCase(ck, *seed, i)
			r := execCase(ck, c, knownSet)
			fmt.Printf("%d %016x %d %d\n", i, r.Hash, r.Yields, len(r.Viol))
		}
	case "show":
		ck := get(*id)
		c := genCase(ck, *seed, *from)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		r := execCase(ck, c, knownSet)
		fmt.Println(r.Viol, r.Faults, r.Probes, r.Notes)
	case "minimise":
		rf := readReplay(*file)
		ck := get(rf.Property)
		for _, i := range rf.Prefix {
			execCase(ck, genCase(ck, rf.BaseSeed, i), knownSet)
		}
		rf.OpsBefore = rf.Case.Ops()
		m, v := minimise(ck, rf.Case, rf.Violation.Class, knownSet, *maxSec)
		if m != nil {
			rf.Case, rf.Violation = m, *v
		}
		rf.Ops = rf.Case.Ops()
		rf.Trace = traceOf(rf.Case, *sitesF)
		writeReplay(*file, rf)
	case "exec":
		// Executes a replay file's case in this process, whatever comes of it.
		rf := readReplay(*file)
		ck := get(rf.Property)
		for _, i := range rf.Prefix {
			execCase(ck, genCase(ck, rf.BaseSeed, i), knownSet)
		}
		execCase(ck, rf.Case.Clone(), knownSet)
	case "replay":
		rf := readReplay(*file)
		ck := get(rf.Property)
		if rf.Violation.Class == "crash" || rf.Violation.Class == "hang" {
			d := &drv{ck: ck}
			bin, _ := os.Executable()
			_, se, err := d.spawn(bin, hangAfter, "exec", "-file", *file, "-known", *known)
			if died(se, err) {
				fmt.Printf("REPRODUCED property=%s class=%s: %v\n%s\n", rf.Property, rf.Violation.Class, err, firstReport(se))
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
		for _, i := range rf.Prefix {
			execCase(ck, genCase(ck, rf.BaseSeed, i), knownSet)
		}
		r := execCase(ck, rf.Case.Clone(), knownSet)
		if v := has(r, rf.Violation.Class); v != nil {
			fmt.Printf("REPRODUCED property=%s class=%s key=%s digest=%016x\n%s\n", rf.Property, v.Class, v.Key, r.Hash, v.Msg)
			os.Exit(1)
		}
		fmt.Printf("not reproduced: %v\n", r.Viol)
	case "run":
		d := &drv{ck: get(*id), tier: *tier, seed: *seed, known: *known, what: what, raceBin: *raceBin, replays: *replays,
			evidence: *evidence, workers: *workers, maxSec: *maxSec, sites: *sitesF, scale: *scale}
		os.Exit(d.run())
	default:
		fatal("unknown mode %q", mode)
	}
}

func traceOf(c *Case, sitesF string) []string {
	var out []string
	for t, ops := range c.Threads {
		for _, o := range ops {
			out = append(out, fmt.Sprintf("thread %d: %s %v %v %s", t, o.K, o.I, o.F, o.S))
		}
	}
	for p, s := range c.Scheds {
		if s.Strategy == rt.StratExplicit {
			for _, w := range s.Switches {
				out = append(out, fmt.Sprintf("phase %d: at yield point %d run task %d", p, w.Step, w.To))
			}
		}
	}
	return out
}

type drv struct {
	ck       *Check
	tier     string
	seed     uint64
	known    string
	what     map[string]string
	raceBin  string
	replays  string
	evidence string
	workers  int
	maxSec   float64
	sites    string
	scale    float64
}

type wres struct {
	out    *workerOut
	err    error
	stderr string
	at     string
	race   bool
	first  int
}

const raceOffset = 10_000_000

func (d *drv) env() []string {
	// invalidptr=0: the plugin wrapper passes small integers as pointers.
	return append(os.Environ(), "GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=4", "GOTRACEBACK=single", "GODEBUG=invalidptr=0")
}

type tail struct {
	head []byte
	buf  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.head) < 12000 {
		t.head = append(t.head, p...)
	} else {
		t.buf = append(t.buf, p...)
		if len(t.buf) > 40000 {
			t.buf = append([]byte{}, t.buf[len(t.buf)-20000:]...)
		}
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.head) + string(t.buf) }

// hangAfter is how long one run may take: runs take milliseconds.
const hangAfter = 75 * time.Second

func (d *drv) spawn(bin string, timeout time.Duration, args ...string) ([]byte, string, error) {
	return d.spawnP(bin, timeout, "", args...)
}

// spawnP also ends the process when its progress file stops changing.
func (d *drv) spawnP(bin string, timeout time.Duration, progress string, args ...string) ([]byte, string, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = d.env()
	var so bytes.Buffer
	se := &tail{}
	cmd.Stdout, cmd.Stderr = &so, se
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	end := time.After(timeout)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var last string
	at := time.Now()
	for {
		select {
		case err := <-done:
			return so.Bytes(), se.String(), err
		case <-end:
			cmd.Process.Kill()
			<-done
			return so.Bytes(), se.String(), fmt.Errorf("watchdog: worker killed after %v", timeout)
		case <-tick.C:
			if progress == "" {
				continue
			}
			b, _ := os.ReadFile(progress)
			if string(b) != last {
				last, at = string(b), time.Now()
			} else if time.Since(at) > hangAfter {
				cmd.Process.Kill()
				<-done
				return so.Bytes(), se.String(), errHang
			}
		}
	}
}

var errHang = fmt.Errorf("watchdog: no progress within one run for %v", hangAfter)

// died tells whether a child ended because the code under test killed it.
func died(se string, err error) bool {
	if err == nil {
		return false
	}
	if err == errHang || strings.HasPrefix(err.Error(), "watchdog") {
		return true
	}
	if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 2 && strings.HasPrefix(se, "error: ") {
		return false // the simulator's own complaint
	}
	for _, m := range []string{"fatal error", "SIGSEGV", "SIGABRT", "SIGBUS", "SIGFPE", "SIGILL", "double free", "free():", "malloc():", "corrupted", "panic:", "signal: "} {
		if strings.Contains(se, m) || strings.Contains(err.Error(), m) {
			return !strings.Contains(err.Error(), "signal: killed")
		}
	}
	return false
}

func (d *drv) batch(race bool, n int) []wres {
	bin, _ := os.Executable()
	off := 0
	w := d.workers
	if race {
		bin = d.raceBin
		off = raceOffset
	}
	if w > n {
		w = n
	}
	res := make([]wres, w)
	var wg sync.WaitGroup
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			prog := filepath.Join(tmp, fmt.Sprintf("p%d", k))
			args := []string{"worker", "-check", d.ck.ID, "-seed", fmt.Sprint(d.seed), "-from", fmt.Sprint(off + k), "-to", fmt.Sprint(off + n),
				"-stride", fmt.Sprint(w), "-maxsec", fmt.Sprint(d.maxSec), "-known", d.known, "-progress", prog}
			o, se, err := d.spawnP(bin, time.Duration(d.maxSec*3+120)*time.Second, prog, args...)
			r := wres{stderr: se, err: err, race: race, first: off + k}
			if b, e := os.ReadFile(prog); e == nil {
				r.at = string(b)
			}
			if err == nil {
				r.out = &workerOut{}
				if e := json.Unmarshal(o, r.out); e != nil {
					r.err = fmt.Errorf("worker output: %v", e)
					r.out = nil
				}
			}
			res[k] = r
		}(k)
	}
	wg.Wait()
	return res
}

func firstReport(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		if j := strings.Index(s, "=================="); j > 0 {
			s = s[:j]
		}
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (d *drv) run() int {
	t0 := time.Now()
	n, rn := d.ck.Quick, d.ck.RaceQuick
	if d.tier == "thorough" {
		n, rn = d.ck.Thorough, d.ck.RaceThoro
	}
	n = int(float64(n) * d.scale)
	rn = int(float64(rn) * d.scale)
	if d.raceBin == "" {
		rn = 0
	}
	all := d.batch(false, n)
	viol := func(rs []wres) *wres {
		var b *wres
		for i := range rs {
			if rs[i].out != nil && rs[i].out.Viol != nil && (b == nil || rs[i].out.VCase.Index < b.out.VCase.Index) {
				b = &rs[i]
			}
		}
		return b
	}
	bad := viol(all)
	if bad == nil && rn > 0 {
		rr := d.batch(true, rn)
		bad = viol(rr)
		all = append(all, rr...)
	}
	agg := &workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Comps: map[string]int64{}, Known: map[string]int{}}
	states, cases := map[uint64]struct{}{}, map[uint64]struct{}{}
	digests := map[int]uint64{}
	raceRuns := 0
	for _, r := range all {
		if r.err != nil {
			fmt.Fprintf(os.Stderr, "worker failed (race build: %v) in run %s: %v\n%s\n", r.race, r.at, r.err, r.stderr)
			if bad == nil {
				// A crash that ends the process is a behaviour of the code
				// under test only if it repeats; see crashed().
				if rf := d.crashed(r); rf != "" {
					fmt.Printf("VIOLATION property=%s replay=%s\n", d.ck.ID, rf)
					d.write(agg, states, cases, t0, n, raceRuns, 1, 0)
					return 1
				}
				return 2
			}
			continue
		}
		o := r.out
		if r.race {
			raceRuns += o.Runs
		}
		agg.Runs += o.Runs
		agg.Evals += o.Evals
		agg.NonTriv += o.NonTriv
		agg.SimNs += o.SimNs
		agg.Yields += o.Yields
		agg.Capped = agg.Capped || o.Capped
		agg.Seconds += o.Seconds
		for k, v := range o.Faults {
			agg.Faults[k] += v
		}
		for k, v := range o.Probes {
			agg.Probes[k] += v
		}
		for k, v := range o.Comps {
			agg.Comps[k] += v
		}
		for k, v := range o.Known {
			agg.Known[k] += v
		}
		for _, s := range o.States {
			states[s] = struct{}{}
		}
		for _, s := range o.Cases {
			cases[s] = struct{}{}
		}
		if !r.race {
			for k, v := range o.Digests {
				digests[k] = v
			}
		}
		if len(agg.Samples) < 2 {
			agg.Samples = append(agg.Samples, o.Samples...)
		}
	}
	var keys []string
	for k := range agg.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; met %d times)\n", d.ck.ID, d.what[d.ck.ID+"|"+k], k, agg.Known[k])
	}
	if bad != nil {
		code := d.report(bad)
		d.write(agg, states, cases, t0, n, raceRuns, 1, 0)
		return code
	}
	// Determinism: the same runs in another process, in another order of
	// distribution, must behave identically.
	cmp := 0
	bin, _ := os.Executable()
	lim := 32
	if lim > n {
		lim = n
	}
	o, se, err := d.spawn(bin, 300*time.Second, "digest", "-check", d.ck.ID, "-seed", fmt.Sprint(d.seed), "-from", "0", "-to", fmt.Sprint(lim), "-known", d.known)
	if err != nil {
		fmt.Fprintf(os.Stderr, "determinism check: %v\n%s\n", err, se)
		return 2
	}
	for _, line := range strings.Split(string(o), "\n") {
		var i, y, v int
		var h uint64
		if k, _ := fmt.Sscanf(line, "%d %x %d %d", &i, &h, &y, &v); k == 4 {
			if w, ok := digests[i]; ok {
				cmp++
				if w != h {
					fmt.Fprintf(os.Stderr, "error: run %d is not repeatable: digest %x in one process, %x in another\n", i, w, h)
					return 2
				}
			}
		}
	}
	d.write(agg, states, cases, t0, n, raceRuns, 0, cmp)
	fmt.Printf("ok property=%s runs=%d (race build: %d) evaluations=%d distinct=%d wall=%.1fs\n", d.ck.ID, agg.Runs, raceRuns, agg.Evals, len(states), time.Since(t0).Seconds())
	return 0
}

// crashed handles a worker process that died or stopped making progress: if
// the run it was in does the same to a fresh process, that is the violation.
func (d *drv) crashed(r wres) string {
	if !died(r.stderr, r.err) || (strings.HasPrefix(r.err.Error(), "watchdog") && r.err != errHang) {
		return ""
	}
	var idx int
	if _, err := fmt.Sscan(r.at, &idx); err != nil {
		return ""
	}
	bin, _ := os.Executable()
	variant := "plain"
	if r.race {
		bin, variant = d.raceBin, "race"
	}
	class, msg := "crash", "the process dies"
	if r.err == errHang {
		class, msg = "hang", "the run never ends"
	}
	rf := &ReplayFile{Property: d.ck.ID, Variant: variant, BaseSeed: d.seed, Index: idx, Case: genCase(d.ck, d.seed, idx),
		Violation: Violation{class, class, msg}, Report: firstReport(r.stderr)}
	path := filepath.Join(d.replays, fmt.Sprintf("%s-%d-%d-%s.json", d.ck.ID, d.seed, idx, class))
	rf.Ops, rf.OpsBefore = rf.Case.Ops(), rf.Case.Ops()
	dies := func(x *ReplayFile) bool {
		writeReplay(path, x)
		_, se, err := d.spawn(bin, hangAfter, "exec", "-file", path, "-known", d.known)
		return died(se, err)
	}
	for k := 0; k < 2; k++ {
		if !dies(rf) {
			if k > 0 {
				return ""
			}
			// It may need what earlier runs of the process left behind.
			for i := r.first; i < idx; i += d.workers {
				rf.Prefix = append(rf.Prefix, i)
			}
		}
	}
	if class == "crash" {
		t0 := time.Now()
		best := rf
		for t := range rf.Case.Threads {
			for size := len(best.Case.Threads[t]); size >= 1; size /= 2 {
				for at := 0; at+size <= len(best.Case.Threads[t]) && time.Since(t0) < 60*time.Second; {
					x := *best
					x.Case = best.Case.Clone()
					x.Case.Threads[t] = append(append([]Op{}, x.Case.Threads[t][:at]...), x.Case.Threads[t][at+size:]...)
					x.Ops = x.Case.Ops()
					if dies(&x) {
						best = &x
					} else {
						at += size
					}
				}
			}
		}
		rf = best
		rf.Trace = traceOf(rf.Case, d.sites)
	}
	writeReplay(path, rf)
	return path
}

func (d *drv) report(bad *wres) int {
	bin, _ := os.Executable()
	variant := "plain"
	if bad.race {
		bin, variant = d.raceBin, "race"
	}
	c := bad.out.VCase
	path := filepath.Join(d.replays, fmt.Sprintf("%s-%d-%d.json", d.ck.ID, d.seed, c.Index))
	rf := &ReplayFile{Property: d.ck.ID, Variant: variant, BaseSeed: d.seed, Index: c.Index, Violation: *bad.out.Viol, Case: c,
		Ops: c.Ops(), OpsBefore: c.Ops(), Report: firstReport(bad.stderr)}
	writeReplay(path, rf)
	orig := rf
	_, se, err := d.spawn(bin, 120*time.Second, "minimise", "-file", path, "-maxsec", "25", "-known", d.known, "-sites", d.sites)
	if err != nil {
		fmt.Fprintf(os.Stderr, "minimisation: %v\n%s\n", err, se)
		writeReplay(path, orig)
	}
	ok := func() bool {
		o, _, err := d.spawn(bin, 120*time.Second, "replay", "-file", path, "-known", d.known)
		if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 1 && strings.Contains(string(o), "REPRODUCED") {
			fmt.Print(string(o))
			return true
		}
		return false
	}
	good := ok()
	if !good {
		// Not minimised.
		writeReplay(path, orig)
		good = ok()
	}
	if !good {
		// The failure depends on what earlier runs of the process left behind.
		stride := d.workers
		n := d.ck.Quick
		_ = n
		for i := bad.out.Samples[0].Index; i < c.Index; i += stride {
			orig.Prefix = append(orig.Prefix, i)
		}
		writeReplay(path, orig)
		good = ok()
	}
	if !good {
		fmt.Fprintf(os.Stderr, "error: run %d failed (%s: %s) but does not fail again in a fresh process; replay file %s\n", c.Index, orig.Violation.Class, orig.Violation.Msg, path)
		return 2
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.ck.ID, path)
	return 1
}

func (d *drv) write(agg *workerOut, states, cases map[uint64]struct{}, t0 time.Time, n, raceRuns, viol, cmp int) {
	wall := time.Since(t0).Seconds()
	var samples []any
	for _, c := range agg.Samples {
		e := c.Clone()
		for t := range e.Threads {
			if len(e.Threads[t]) > 24 {
				e.Threads[t] = e.Threads[t][:24]
			}
		}
		samples = append(samples, e)
	}
	if samples == nil {
		samples = []any{}
	}
	var missed []string
	for _, p := range d.ck.Must {
		if agg.Probes[p] == 0 {
			missed = append(missed, p)
		}
	}
	cov := map[string]any{
		"evaluations":             agg.Runs,
		"distinct_nontrivial":     len(cases),
		"rule":                    d.ck.Rule,
		"samples":                 samples,
		"oracle_checks":           agg.Evals,
		"race_build_runs":         raceRuns,
		"simulated_runs_per_hour": float64(agg.Runs) / wall * 3600,
		"seeds_per_hour":          float64(agg.Runs) / wall * 3600,
		"simulated_seconds":       agg.SimNs / 1e9,
		"yield_points":            agg.Yields,
		"faults_injected":         agg.Faults,
		"probes":                  agg.Probes,
		"probes_never_hit":        missed,
		"distinct_states":         len(states),
		"distinct_states_measure": d.ck.StateRule,
		"components_exercised":    agg.Comps,
		"components_real":         d.ck.Real,
		"components_stub":         d.ck.Stub,
		"known_findings_met":      agg.Known,
		"repeatability_compared":  cmp,
		"planned_runs":            n,
		"stopped_by_time_cap":     agg.Capped,
	}
	ev := map[string]any{"property": d.ck.ID, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov,
		"assumptions": d.ck.Assume, "wall_s": wall, "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	os.MkdirAll(d.evidence, 0o755)
	if err := os.WriteFile(filepath.Join(d.evidence, d.ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}
