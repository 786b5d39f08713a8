package core

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"vstrt/rt"
)

// X is a float64 that survives JSON (NaN and infinities included).
type X float64

func (x X) MarshalJSON() ([]byte, error) {
	f := float64(x)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return json.Marshal(strconv.FormatFloat(f, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(f, 'g', -1, 64)), nil
}

func (x *X) UnmarshalJSON(b []byte) error {
	s := string(b)
	if len(s) > 0 && s[0] == '"' {
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	*x = X(f)
	return err
}

// Op is one operation of the simulated world (a host call, a fault, ...).
// Executing any sub-sequence of a case's operations must be meaningful.
type Op struct {
	K string  `json:"k"`
	I []int64 `json:"i,omitempty"`
	F []X     `json:"f,omitempty"`
	S string  `json:"s,omitempty"`
}

func (o Op) Int(k int) int64 {
	if k < len(o.I) {
		return o.I[k]
	}
	return 0
}

func (o Op) Flt(k int) float64 {
	if k < len(o.F) {
		return float64(o.F[k])
	}
	return 0
}

// Case is one simulated execution, completely determined.
type Case struct {
	Property string            `json:"property"`
	Index    int               `json:"index"`
	Seed     uint64            `json:"seed"`
	Cfg      map[string]int64  `json:"cfg,omitempty"`
	CfgF     map[string]X      `json:"cfgf,omitempty"`
	CfgS     map[string]string `json:"cfgs,omitempty"`
	Threads  [][]Op            `json:"threads"`
	Scheds   []rt.Schedule     `json:"scheds,omitempty"`
}

func (c *Case) Clone() *Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}

func (c *Case) Set(k string, v int64) {
	if c.Cfg == nil {
		c.Cfg = map[string]int64{}
	}
	c.Cfg[k] = v
}

func (c *Case) SetF(k string, v float64) {
	if c.CfgF == nil {
		c.CfgF = map[string]X{}
	}
	c.CfgF[k] = X(v)
}

func (c *Case) SetS(k, v string) {
	if c.CfgS == nil {
		c.CfgS = map[string]string{}
	}
	c.CfgS[k] = v
}

// Ops counts the operations.
func (c *Case) Ops() int {
	n := 0
	for _, t := range c.Threads {
		n += len(t)
	}
	return n
}

// GenSched draws a schedule. n is the number of tasks, horizon an estimate of
// the number of yield points.
func GenSched(r *R, n int, horizon int, stalls bool) rt.Schedule {
	s := rt.Schedule{Seed: r.U64(), TickNs: int64(r.Pick(0, 1, 100, 1000, 50000))}
	switch k := r.N(20); {
	case k < 6:
		s.Strategy = rt.StratRandom
		s.P = int64(r.Pick(512, 512, 256, 100, 50, 20, 10))
	case k < 11:
		s.Strategy = rt.StratPCT
		s.Depth = int64(r.Range(1, 6))
		s.Horizon = int64(horizon)
	case k < 17:
		s.Strategy = rt.StratSites
		s.Depth = int64(r.Pick(2, 4, 8, 16, 32))
		s.P = int64(r.Pick(1023, 800, 512, 256))
	default:
		s.Strategy = rt.StratRR
		s.Depth = int64(r.Pick(1, 2, 5, 10, 30, 100))
	}
	if stalls && r.Chance(0.4) {
		for k := r.Range(1, 2); k > 0; k-- {
			s.Stalls = append(s.Stalls, rt.Stall{Task: int32(r.N(n)), Step: int64(r.Range(1, 1+horizon/n)), For: int64(r.Pick(-1, 50, 500))})
		}
	}
	return s
}

// Violation is one broken check.
type Violation struct {
	Class string `json:"class"`
	Key   string `json:"key"` // identifies the specific failing input, site or history shape
	Msg   string `json:"msg"`
}

// Rec records what one run did.
type Rec struct {
	Case     *Case
	Viol     []Violation
	Known    map[string]int
	Faults   map[string]int64
	Probes   map[string]int64
	States   map[uint64]struct{}
	Comps    map[string]int64
	Evals    int64
	SimNs    float64
	Yields   int64
	Phases   [][]rt.Switch
	Hash     uint64 // digest of everything observed; must repeat exactly
	Trunc    bool
	Notes    []string
	NonTriv  bool
	knownSet map[string]bool
	phase    int
}

func NewRec(c *Case, known map[string]bool) *Rec {
	return &Rec{Case: c, Known: map[string]int{}, Faults: map[string]int64{}, Probes: map[string]int64{},
		States: map[uint64]struct{}{}, Comps: map[string]int64{}, knownSet: known, Hash: 0x1234567}
}

// Fail records a violation; a listed known finding is only counted.
func (r *Rec) Fail(class, key, format string, a ...any) {
	if r.knownSet[r.Case.Property+"|"+key] {
		r.Known[key]++
		return
	}
	if len(r.Viol) < 8 {
		r.Viol = append(r.Viol, Violation{class, key, fmt.Sprintf(format, a...)})
	}
}

func (r *Rec) Failed() bool { return len(r.Viol) > 0 }

func (r *Rec) Fault(k string)         { r.Faults[k]++ }
func (r *Rec) FaultN(k string, n int) { r.Faults[k] += int64(n) }
func (r *Rec) Probe(k string)         { r.Probes[k]++ }
func (r *Rec) State(h uint64)         { r.States[h] = struct{}{} }
func (r *Rec) Comp(k string)          { r.Comps[k]++ }
func (r *Rec) Eval()                  { r.Evals++ }
func (r *Rec) Observe(v uint64)       { r.Hash = HashU(r.Hash, v) }
func (r *Rec) ObserveF(v float64)     { r.Observe(math.Float64bits(v)) }
func (r *Rec) ObserveS(v string)      { r.Observe(HashS(v)) }

// Run executes tasks under the case's next schedule.
func (r *Rec) Run(budget int64, fns ...func()) rt.Result {
	var s rt.Schedule
	if r.phase < len(r.Case.Scheds) {
		s = r.Case.Scheds[r.phase]
	} else {
		s = rt.Schedule{Strategy: rt.StratRandom, P: 512, Seed: r.Case.Seed + uint64(r.phase)}
	}
	r.phase++
	before := rt.RaceErrors()
	m0 := rt.Mono()
	res := rt.Run(s, budget, fns...)
	r.SimNs += float64(rt.Mono() - m0)
	r.Phases = append(r.Phases, res.Switches)
	r.Trunc = r.Trunc || res.Truncated
	r.Yields += res.Yields
	r.Observe(res.Hash)
	r.Observe(uint64(res.Yields))
	r.State(res.Hash)
	if len(res.Switches) > len(fns) {
		r.NonTriv = true
	}
	for i, n := range res.Stalled {
		if n > 0 {
			_ = i
			r.FaultN("thread-stall", n)
		}
	}
	r.FaultN("lock-wait", int(res.Blocked))
	r.FaultN("preemption", len(res.Switches))
	if d := rt.RaceErrors() - before; d > 0 {
		r.Fail("data-race", "data-race", "the race detector reported %d unsynchronised conflicting accesses (report on stderr)", d)
	}
	for _, p := range res.Panics {
		r.Fail("panic", "panic", "%s", p)
	}
	if res.Aborted != "" {
		r.Fail("no-progress", "no-progress", "%s", res.Aborted)
	}
	return res
}

// Check is one property's decision procedure.
type Check struct {
	ID         string
	Quick      int // simulated runs in the quick tier
	Thorough   int
	RaceQuick  int // runs in the build with the happens-before race detector
	RaceThoro  int
	Gen        func(g *R, i int) *Case
	Exec       func(c *Case, r *Rec)
	Rule       string // evidence: how cases are made, what is non-trivial
	StateRule  string // evidence: what "distinct" counts
	Real, Stub []string
	Assume     []string
	NoEcho     bool     // operations must not be repeated
	Must       []string // probes that have to be hit at least once in the tier
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

// Survey runs n cases of a check and reports, per processor or other label,
// how many violate and the first message (a development aid).
func Survey(id string, base uint64, n int, label func(c *Case) string) {
	ck := checks[id]
	count, bad, msg := map[string]int{}, map[string]int{}, map[string]string{}
	var order []string
	for i := 0; i < n; i++ {
		c := genCase(ck, base, i)
		l := label(c)
		if count[l] == 0 {
			order = append(order, l)
		}
		count[l]++
		r := execCase(ck, c, map[string]bool{})
		if len(r.Viol) > 0 {
			if bad[l] == 0 {
				msg[l] = fmt.Sprintf("run %d: %s: %s", i, r.Viol[0].Class, r.Viol[0].Msg)
			}
			bad[l]++
		}
	}
	for _, l := range order {
		if bad[l] > 0 {
			fmt.Printf("%-32s %d/%d %s\n", l, bad[l], count[l], msg[l])
		}
	}
}
