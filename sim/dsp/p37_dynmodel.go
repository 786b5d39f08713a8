package dsp

import (
	"fmt"
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
)

// P37: the gain of a dynamics processor, and the level a detector shows,
// move at every sample as attack, release, hold and curve say.

var p37Kinds = []string{"Compressor", "Limiter", "Expander", "Gate", "Detector"}

// Controls: name, low, high; log scale if low > 0.
var p37Controls = map[string][]struct {
	k      string
	lo, hi float64
}{
	"Compressor": {{"threshold", -94, 0}, {"ratio", 0.5, 20}, {"attack", 0.00005, 20}, {"release", 0.0005, 60}, {"knee", -3, 40}, {"makeup", -6, 12}, {"lookahead", 0.00001, 0.02}},
	"Limiter":    {{"threshold", -94, 3}, {"release", 0.0005, 60}, {"lookahead", 0.00001, 0.02}, {"truepeak", 0, 2}},
	"Expander":   {{"threshold", -94, -3}, {"ratio", 0.5, 10}, {"attack", 0.0001, 20}, {"attack", -1, 0}, {"release", 0.0005, 60}, {"release", -1, 0}, {"knee", -3, 40}, {"range", -80, 5}},
	"Gate":       {{"threshold", -94, -3}, {"hysteresis", -2, 50}, {"attack", 0.0001, 20}, {"attack", -1, 0}, {"release", 0.0005, 60}, {"release", -1, 0}, {"hold", 0.00001, 0.02}, {"range", -90, 5}, {"filter", 10, 20000}, {"filter", -1, 0}},
	"Detector":   {{"attack", 0.00005, 20}, {"release", 0.00005, 60}, {"times", 0.0001, 0.1}, {"hold", 0.00001, 0.02}, {"type", 0, 3}, {"mode", 0, 3}, {"window", 0.05, 10}},
}

func init() {
	core.Register(&core.Check{
		ID: "P37", Quick: 128000, Thorough: 2560000,
		Rule:      "A host drives a compressor, limiter, expander, gate or level detector (all modes and types) with seeded signals whose level jumps, mono, by buffer, as linked stereo and with a side-chain, and moves every control at any sample, in and out of its range. A reference model of detector, static curve, state machine and smoothing runs alongside in double precision; output, meter, state and detector level are compared at every sample. A run ends where rounding could decide a switch. Non-trivial: the gain moved while a control changed.",
		StateRule: "distinct (processor, operation sequence)",
		Real:      []string{"pkg/dsp/dynamics", "pkg/dsp/envelope (detector.go)"},
		Stub:      []string{"host (calls, automation, input signal)"},
		Assume:    []string{"single precision: 2e-5 of the sample", "the stereo and side-chain calls of compressor and limiter do not delay (documented in the code)"},
		Must:      append([]string{"mono", "buffer", "stereo", "sidechain", "lookahead", "reset", "soft-knee", "hard-knee", "held", "jumped", "seconds-long", "rms", "analog", "gain-moved"}, p37Kinds...),
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := p37Kinds[i%len(p37Kinds)]
			_ = g.U64()
			c.SetS("kind", kind)
			c.SetF("sr", g.PickF(8000, 22050, 44100, 48000, 96000, 192000))
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			var ops []core.Op
			ctl := p37Controls[kind]
			set := func() {
				x := ctl[g.N(len(ctl))]
				v := g.FR(x.lo, x.hi)
				if x.k == "ratio" && g.Chance(0.1) {
					v = g.LogR(20, 1e6)
				} else if x.lo > 0 && x.hi/x.lo > 10 {
					v = g.LogR(x.lo, x.hi)
				}
				ops = append(ops, core.Op{K: x.k, F: []core.X{core.X(v)}, I: []int64{int64(g.N(2))}})
			}
			if kind == "Detector" {
				ops = append(ops, core.Op{K: "type", F: []core.X{core.X(g.N(3))}}, core.Op{K: "mode", F: []core.X{core.X(g.N(3))}})
			}
			for k := g.N(5); k > 0; k-- {
				set()
			}
			for k := g.Range(3, 14); k > 0; k-- {
				switch g.N(12) {
				case 0:
					ops = append(ops, core.Op{K: "reset"})
				case 1, 2, 3:
					set()
				case 4, 5, 6:
					ops = append(ops, core.Op{K: "level", F: []core.X{core.X(g.PickF(0, -6, -80, g.FR(-60, 3), g.FR(-30, 0), g.FR(-30, 0), g.FR(-100, 40)))}})
				default:
					ops = append(ops, core.Op{K: "run", I: []int64{int64(g.Pick(1, 3, 50, 200, 500, 1000)), int64(g.N(4))}})
				}
			}
			if g.Chance(0.006) {
				genLong37(g, c, kind, &ops)
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP37,
	})
}

// genLong37: seconds of hold, look-back and release.
func genLong37(g *core.R, c *core.Case, kind string, ops *[]core.Op) {
	sr := g.PickF(8000, 44100, 48000)
	c.SetF("sr", sr)
	c.Set("long", 1)
	l := *ops
	for k := g.Range(1, 3); k > 0; k-- {
		hold := g.LogR(0.02, 4)
		if kind == "Gate" || kind == "Detector" {
			if kind == "Detector" {
				l = append(l, core.Op{K: "mode", F: []core.X{core.X(g.Pick(0, 2, 2))}})
			}
			l = append(l, core.Op{K: "hold", F: []core.X{core.X(hold)}})
		}
		l = append(l, core.Op{K: "level", F: []core.X{core.X(g.FR(-12, 6))}}, core.Op{K: "run", I: []int64{int64(g.Pick(500, 2000, 9000)), int64(g.N(4))}})
		l = append(l, core.Op{K: "level", F: []core.X{core.X(g.FR(-100, -40))}})
		for n := hold * sr * 1.3; n > 0; n -= 30000 {
			l = append(l, core.Op{K: "run", I: []int64{int64(math.Min(n, 30000)), int64(g.N(4))}})
		}
	}
	*ops = l
}

// det37 is the model of a level detector.
type det37 struct {
	sr, att, rel, hold, ac, rc float64
	typ, mode                  int
	env                        float64
	cnt                        int
	win                        []float64
	at, wlen                   int
	fuzzy, jumped, held        bool
}

func newDet37(sr float64, mode int) *det37 {
	d := &det37{sr: sr, att: 0.001, rel: 0.1, hold: 0.01, mode: mode, wlen: int(sr * 0.003)}
	d.win = make([]float64, d.wlen)
	d.coef()
	return d
}

func (d *det37) coef() {
	k := 1.0
	if d.typ == 1 {
		k = 2.2
	}
	d.ac, d.rc = 1-math.Exp(-k/(d.att*d.sr)), 1-math.Exp(-k/(d.rel*d.sr))
}

func (d *det37) next(x float64) float64 {
	l := math.Abs(x)
	if d.mode == 1 {
		d.win[d.at] = x * x
		d.at = (d.at + 1) % d.wlen
		s := 0.0
		for _, v := range d.win {
			s += v
		}
		l = math.Sqrt(s / float64(d.wlen))
	}
	if d.mode == 2 && l > 0 && math.Abs(l-d.env) < 1e-6*l {
		d.fuzzy = true
	}
	if l > d.env {
		d.env += (l - d.env) * d.ac
		if d.mode != 1 && d.typ != 2 {
			if math.Abs(l-2*d.env) < 1e-6*l || math.Abs(d.ac-0.5) < 1e-9 {
				d.fuzzy = true
			}
			if d.ac > 0.5 || l > 2*d.env {
				d.env = l
				d.jumped = true
			}
		}
		d.cnt = int(d.hold * d.sr)
	} else if d.mode == 2 && d.cnt > 0 {
		d.cnt--
		d.held = true
	} else {
		d.env += (l - d.env) * d.rc
	}
	return d.env
}

func (d *det37) reset() {
	d.env, d.cnt, d.at = 0, 0, 0
	for i := range d.win {
		d.win[i] = 0
	}
}

// lvl37 is a level in dB; what a float32 cannot hold is silence, shown as -96.
func lvl37(e float64) float64 {
	if float32(e) <= 0 {
		return -96
	}
	return 20 * math.Log10(float64(float32(e)))
}

// model37 is the model of a dynamics processor.
type model37 struct {
	kind                               string
	sr                                 float64
	r                                  *core.Rec
	d, pd                              *det37
	thr, ratio, att, rel, knee, makeup float64
	hyst, rng, hp, hpx, hpy            float64
	hard, tp                           bool
	line                               []float64
	at                                 int
	last, gain, target, meter          float64
	state, holdN, cnt                  int
	open, fuzzy, moved                 bool
}

func newModel37(kind string, sr float64, r *core.Rec) *model37 {
	m := &model37{kind: kind, sr: sr, r: r, d: newDet37(sr, 0), gain: 1}
	switch kind {
	case "Compressor":
		m.thr, m.ratio, m.att, m.rel, m.knee = -20, 4, 0.005, 0.05, 2
		m.d.typ = 1
		m.d.att, m.d.rel = m.att, m.rel
		m.d.coef()
	case "Limiter":
		m.thr, m.rel, m.tp = -0.3, 0.05, true
		m.d.att, m.d.rel = 0.0001, 0.05
		m.d.coef()
		m.pd = newDet37(sr, 0)
		m.pd.att, m.pd.rel = 0.0001, 0.001
		m.pd.coef()
		m.look(0.005)
	case "Expander":
		m.thr, m.ratio, m.att, m.rel, m.knee, m.rng = -40, 2, 0.001, 0.1, 2, -40
		m.d.typ = 1
		m.d.att, m.d.rel = m.att, m.rel
		m.d.coef()
	case "Gate":
		m.thr, m.hyst, m.att, m.rel, m.rng = -40, 5, 0.001, 0.1, -80
		m.holdN = int(0.010 * sr)
		m.gain = dbLin(m.rng)
		m.target, m.meter = m.gain, m.rng
	}
	return m
}

func (m *model37) look(s float64) bool {
	v := clamp(s, 0, 0.01) * m.sr
	if f := v - math.Floor(v); v > 0 && s < 0.01 && (f < 1e-6 || f > 1-1e-6) && s != 0.005 {
		return false
	}
	if int(v) != len(m.line) {
		m.line, m.at = make([]float64, int(v)), 0
	}
	return true
}

func (m *model37) delay(x float64) float64 {
	if len(m.line) == 0 {
		return x
	}
	m.r.Probe("lookahead")
	y := m.line[m.at]
	m.line[m.at] = x
	m.at = (m.at + 1) % len(m.line)
	return y
}

// curve is the reduction in dB (positive) for a level.
func (m *model37) curve(db float64) float64 {
	lo, hi := m.thr-m.knee/2, m.thr+m.knee/2
	if m.kind == "Expander" {
		full := (db - m.thr) * (m.ratio - 1)
		switch {
		case db > hi || m.knee <= 0 && db >= hi:
			return 0
		case db < lo:
			return math.Min(-m.rng, -full)
		}
		m.r.Probe("soft-knee")
		p := (hi - db) / m.knee
		return clamp(-p*p*full, 0, -m.rng)
	}
	k := 1 - 1/m.ratio
	switch {
	case db < lo:
		return 0
	case db > hi:
		if m.hard && m.knee > 0 && db-hi < 1e-5 {
			m.fuzzy = true
		}
		return (db - m.thr) * k
	}
	if m.hard || m.knee <= 0 {
		m.r.Probe("hard-knee")
		if m.knee > 0 && hi-db < 1e-5 {
			m.fuzzy = true
		}
		return 0
	}
	m.r.Probe("soft-knee")
	p := (db - lo) / m.knee
	return p * p * math.Max(0, db-m.thr) * k
}

func (m *model37) smooth(t float64) {
	if m.gain == t {
		return
	}
	m.moved = true
	time := m.rel
	if (m.kind == "Expander") == (t < m.gain) {
		time = m.att
	}
	if time <= 0 {
		m.gain = t
		return
	}
	m.gain = t + (m.gain-t)*math.Exp(-1/(time*m.sr))
}

// step gives the gain for what the detector is fed, and what it is applied to.
func (m *model37) gate(x float64) {
	if m.hp > 0 {
		a := math.Exp(-2 * math.Pi * m.hp / m.sr)
		y := (1+a)/2*(x-m.hpx) + a*m.hpy
		m.hpx, m.hpy = x, y
		x = y
	}
	l := lvl37(math.Abs(x))
	low := m.thr - m.hyst
	near := 1e-5
	if m.hp > 0 {
		near = 1e-3 // single-precision filter
		if math.Abs(x) < 1e-5 && l > low-60 {
			m.fuzzy = true
		}
	}
	if math.Abs(l-m.thr) < near || math.Abs(l-low) < near {
		m.fuzzy = true
	}
	shut := func() { m.state, m.target = 4, dbLin37(m.rng) }
	switch m.state {
	case 0:
		if l > m.thr {
			m.state, m.target = 1, 1
		}
	case 1:
		if m.gain >= 0.99 {
			m.state, m.open = 2, true
		} else if l < low {
			shut()
		}
	case 2:
		if l < low {
			m.state, m.cnt = 3, m.holdN
		}
	case 3:
		if l > low {
			m.state = 2
		} else if m.cnt > 0 {
			m.cnt--
			m.r.Probe("held")
		} else {
			shut()
			m.open = false
		}
	case 4:
		if l > m.thr {
			m.state, m.target = 1, 1
		} else if m.gain <= m.target*1.01 {
			m.state = 0
		}
	}
	m.smooth(m.target)
	if m.state == 1 && math.Abs(m.gain-0.99) < 1e-9 || m.state == 4 && math.Abs(m.gain/m.target-1.01) < 1e-9 {
		m.fuzzy = true
	}
	if m.state == 1 && m.gain >= 0.99 {
		m.state, m.open = 2, true
	} else if m.state == 4 && m.gain <= m.target*1.01 {
		m.state = 0
	}
	m.meter = 20 * math.Log10(m.gain)
}

func dbLin37(db float64) float64 { return math.Pow(10, db/20) }

// frame runs one frame through the model: mode 2 is stereo, 3 side-chain.
func (m *model37) frame(a, b float64, mode int64) (float64, float64) {
	pk := a
	if mode == 2 {
		pk = math.Max(math.Abs(a), math.Abs(b))
	}
	if mode == 3 {
		pk = b
	}
	was := m.gain
	switch m.kind {
	case "Compressor":
		if mode < 2 {
			a = m.delay(a)
		}
		m.meter = m.curve(lvl37(m.d.next(pk)))
		m.gain = dbLin37(m.makeup - m.meter)
	case "Limiter":
		mid := func(x float64) float64 {
			p := math.Max(math.Abs(m.last), math.Abs(x))
			m.last = x
			return p
		}
		if mode == 2 {
			if m.tp {
				pk = math.Max(mid(a), math.Abs(b))
			}
		} else {
			if m.tp {
				pk = mid(a)
			}
			a = m.delay(a)
			if m.tp && len(m.line) > 0 {
				pk = math.Max(math.Abs(pk), m.pd.next(a))
				m.fuzzy = m.fuzzy || m.pd.fuzzy
			}
		}
		e := math.Max(m.d.next(pk), math.Abs(a))
		if mode == 2 {
			e = math.Max(e, math.Abs(b))
		}
		m.meter = math.Max(0, lvl37(e)-m.thr)
		m.gain = dbLin37(-m.meter)
	case "Expander":
		m.smooth(dbLin37(-m.curve(lvl37(m.d.next(pk)))))
		m.meter = math.Min(0, 20*math.Log10(m.gain))
	case "Gate":
		m.gate(pk)
	case "Detector":
		e := m.d.next(map[bool]float64{true: b, false: a}[mode == 3])
		m.gain = e
		m.fuzzy = m.fuzzy || m.d.fuzzy
		return e, e
	}
	if m.gain != was {
		m.moved = true
	}
	m.fuzzy = m.fuzzy || m.d.fuzzy
	return a * m.gain, b * m.gain
}

func (m *model37) reset() {
	m.d.reset()
	if m.pd != nil {
		m.pd.reset()
	}
	m.last, m.at, m.gain, m.meter = 0, 0, 1, 0
	for i := range m.line {
		m.line[i] = 0
	}
	if m.kind == "Gate" {
		m.state, m.cnt, m.open, m.hpx, m.hpy = 0, 0, false, 0, 0
		m.gain = dbLin37(m.rng)
		m.target, m.meter = m.gain, m.rng
	}
}

type unit37 struct {
	comp *dynamics.Compressor
	lim  *dynamics.Limiter
	exp  *dynamics.Expander
	gate *dynamics.Gate
	det  *envelope.Detector
}

func execP37(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	r.Comp(kind)
	r.Probe(kind)
	if sr < 8000 {
		return
	}
	var u unit37
	switch kind {
	case "Compressor":
		u.comp = dynamics.NewCompressor(sr)
	case "Limiter":
		u.lim = dynamics.NewLimiter(sr)
	case "Expander":
		u.exp = dynamics.NewExpander(sr)
	case "Gate":
		u.gate = dynamics.NewGate(sr)
	case "Detector":
		u.det = envelope.NewDetector(sr, envelope.ModePeak)
	default:
		return
	}
	m := newModel37(kind, sr, r)
	in, in2 := newSig(int(c.Cfg["sig"]), uint64(c.Cfg["sigseed"]), 1), newSig(int(c.Cfg["sig"]+3)%sigKinds, uint64(c.Cfg["sigseed"])+5, 1)
	level := 0.5
	n := 0
	h := core.HashS(kind)
	changed, last := false, ""
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)))
		switch o.K {
		case "level":
			level = dbLin(clamp(o.Flt(0), -100, 6))
			r.Fault("level-jump")
			continue
		case "reset":
			r.Probe("reset")
			r.Fault("reset")
			switch kind {
			case "Compressor":
				u.comp.Reset()
			case "Limiter":
				u.lim.Reset()
			case "Expander":
				u.exp.Reset()
			case "Gate":
				u.gate.Reset()
			default:
				u.det.Reset()
			}
			m.reset()
			continue
		case "run":
		default:
			r.Fault("automation")
			changed = changed || n > 0
			last = fmt.Sprintf("%s %g", o.K, o.Flt(0))
			if !p37Set(&u, m, o) {
				continue
			}
			continue
		}
		cnt, mode := int(o.Int(0)), o.Int(1)
		if cnt < 0 || cnt > 4000 && (c.Cfg["long"] == 0 || cnt > 30000) {
			continue
		}
		if cnt > 4000 {
			r.Probe("seconds-long")
		}
		switch {
		case mode == 3 && kind != "Compressor" && kind != "Detector":
			mode = 1
		case mode == 2 && kind == "Detector":
			mode = 3
		}
		r.Probe([]string{"mono", "buffer", "stereo", "sidechain"}[mode])
		x, y := make([]float32, cnt), make([]float32, cnt)
		ox, oy := make([]float32, cnt), make([]float32, cnt)
		for i := range x {
			x[i], y[i] = float32(level*in.next()), float32(level*in2.next())
		}
		meters := make([]float64, cnt)
		opens := make([]bool, cnt)
		note := func(i int) {
			switch {
			case u.comp != nil:
				meters[i] = u.comp.GetGainReduction()
			case u.lim != nil:
				meters[i] = u.lim.GetGainReduction()
			case u.exp != nil:
				meters[i] = u.exp.GetGainReduction()
			case u.gate != nil:
				meters[i] = u.gate.GetGainReduction()
				opens[i] = u.gate.IsOpen()
			}
		}
		switch {
		case mode == 0:
			for i, v := range x {
				switch {
				case u.comp != nil:
					ox[i] = u.comp.Process(v)
				case u.lim != nil:
					ox[i] = u.lim.Process(v)
				case u.exp != nil:
					ox[i] = u.exp.Process(v)
				case u.gate != nil:
					ox[i] = u.gate.Process(v)
				default:
					ox[i] = u.det.Detect(v)
				}
				note(i)
			}
		case mode == 1:
			switch {
			case u.comp != nil:
				u.comp.ProcessBuffer(x, ox)
			case u.lim != nil:
				u.lim.ProcessBuffer(x, ox)
			case u.exp != nil:
				u.exp.ProcessBuffer(x, ox)
			case u.gate != nil:
				u.gate.ProcessBuffer(x, ox)
			default:
				u.det.Process(x, ox)
			}
		case mode == 2:
			switch {
			case u.comp != nil:
				u.comp.ProcessStereo(x, y, ox, oy)
			case u.lim != nil:
				u.lim.ProcessStereo(x, y, ox, oy)
			case u.exp != nil:
				u.exp.ProcessStereo(x, y, ox, oy)
			default:
				u.gate.ProcessStereo(x, y, ox, oy)
			}
		default:
			if u.comp != nil {
				u.comp.ProcessSidechain(x, y, ox)
			} else {
				u.det.ProcessSidechain(x, y, ox)
			}
		}
		if cnt > 0 {
			note(cnt - 1)
		}
		for i := 0; i < cnt; i++ {
			n++
			r.Eval()
			r.ObserveF(float64(ox[i]))
			wx, wy := m.frame(float64(x[i]), float64(y[i]), mode)
			if m.fuzzy {
				r.State(h)
				return
			}
			if mode != 2 {
				wy = 0
			}
			tol := func(w float64) float64 { return 2e-5*math.Abs(w) + 1e-8 }
			if kind == "Gate" && m.hp > 0 || kind == "Detector" {
				tol = func(w float64) float64 { return 2e-5*math.Abs(w) + 1e-6 }
			}
			if !(math.Abs(float64(ox[i])-wx) <= tol(wx)) || !(math.Abs(float64(oy[i])-wy) <= tol(wy)) {
				r.Fail("model", kind, "%s at %g Hz, sample %d (last control %s): %.8g, %.8g for %.8g, %.8g where its settings call for %.8g, %.8g (gain %.6g, state %d)", kind, sr, n, last, ox[i], oy[i], x[i], y[i], wx, wy, m.gain, m.state)
				return
			}
			if kind != "Detector" && (mode == 0 || i == cnt-1) {
				d := math.Abs(meters[i] - m.meter)
				slack := 1e-3
				if kind == "Gate" && m.meter > -0.11 {
					slack = 0.11
				}
				if !(d <= slack) {
					r.Fail("meter", kind, "%s at %g Hz, sample %d (last control %s): the meter shows %.6g dB instead of %.6g", kind, sr, n, last, meters[i], m.meter)
					return
				}
				if kind == "Gate" && opens[i] != m.open {
					r.Fail("open", kind, "Gate at %g Hz, sample %d (last control %s): open %v instead of %v", sr, n, last, opens[i], m.open)
					return
				}
			}
		}
		if kind == "Gate" && cnt > 0 {
			if s := u.gate.GetState(); s != []string{"closed", "attack", "open", "hold", "release"}[m.state] {
				r.Fail("state", kind, "Gate at %g Hz, sample %d: state %s instead of %d", sr, n, s, m.state)
				return
			}
		}
		if kind == "Detector" && cnt > 0 {
			if e := float64(u.det.GetEnvelope()); !(math.Abs(e-m.d.env) <= 2e-5*e+1e-6) {
				r.Fail("getter", kind, "GetEnvelope gives %g instead of %g", e, m.d.env)
				return
			}
			if db := float64(u.det.GetEnvelopeDB()); m.d.env > 1e-3 && !(math.Abs(db-lvl37(m.d.env)) <= 1e-2) || m.d.env == 0 && !(db <= -96) { // a running sum may leave a residue
				r.Fail("getter", kind, "GetEnvelopeDB gives %g instead of %g", db, lvl37(m.d.env))
				return
			}
		}
		if m.moved {
			r.Probe("gain-moved")
			r.NonTriv = r.NonTriv || changed
		}
		if m.d.jumped {
			r.Probe("jumped")
		}
		if m.d.held {
			r.Probe("held")
		}
	}
	if m.d.mode == 1 {
		r.Probe("rms")
	}
	if m.d.typ == 2 {
		r.Probe("analog")
	}
	r.SimNs += float64(n) / sr * 1e9
	r.State(h)
}

// p37Set applies a control to the unit and the model.
func p37Set(u *unit37, m *model37, o core.Op) bool {
	v := o.Flt(0)
	whole := func(x float64) bool { f := x - math.Floor(x); return f < 1e-6 || f > 1-1e-6 }
	switch o.K {
	case "threshold":
		m.thr = v
		switch {
		case u.comp != nil:
			u.comp.SetThreshold(v)
		case u.lim != nil:
			u.lim.SetThreshold(v)
			m.thr = math.Min(0, v)
		case u.exp != nil:
			u.exp.SetThreshold(v)
		default:
			u.gate.SetThreshold(v)
		}
	case "ratio":
		m.ratio = math.Max(1, v)
		if u.comp != nil {
			u.comp.SetRatio(v)
		} else {
			u.exp.SetRatio(v)
		}
	case "attack":
		switch {
		case u.comp != nil:
			u.comp.SetAttack(v)
			m.d.att = math.Max(0.0001, v)
		case u.exp != nil:
			u.exp.SetAttack(v)
			m.att = math.Max(0, v)
			m.d.att = math.Max(0.0001, v)
		case u.gate != nil:
			u.gate.SetAttack(v)
			m.att = math.Max(0, v)
		default:
			u.det.SetAttack(v)
			m.d.att = math.Max(0.0001, v)
		}
		m.d.coef()
	case "release":
		switch {
		case u.comp != nil:
			u.comp.SetRelease(v)
			m.d.rel = math.Max(0.001, v)
		case u.lim != nil:
			u.lim.SetRelease(v)
			m.d.rel = math.Max(0.001, v)
		case u.exp != nil:
			u.exp.SetRelease(v)
			m.rel = math.Max(0, v)
			m.d.rel = math.Max(0.0001, v)
		case u.gate != nil:
			u.gate.SetRelease(v)
			m.rel = math.Max(0, v)
		default:
			u.det.SetRelease(v)
			m.d.rel = math.Max(0.0001, v)
		}
		m.d.coef()
	case "times":
		u.det.SetTimeConstants(v, 3*v)
		m.d.att, m.d.rel = math.Max(0.0001, v), math.Max(0.0001, 3*v)
		m.d.coef()
	case "knee":
		m.knee = math.Max(0, v)
		if u.comp != nil {
			m.hard = o.Int(0) == 0
			u.comp.SetKnee(map[bool]dynamics.KneeType{true: dynamics.KneeHard, false: dynamics.KneeSoft}[m.hard], v)
		} else {
			u.exp.SetKnee(v)
		}
	case "makeup":
		u.comp.SetMakeupGain(v)
		m.makeup = v
	case "lookahead":
		if o.Int(0) == 0 && v < 0.0005 {
			v = 0
		}
		if !m.look(v) {
			return false
		}
		if u.comp != nil {
			u.comp.SetLookahead(v)
		} else {
			u.lim.SetLookahead(v)
		}
	case "truepeak":
		m.tp = v > 1
		u.lim.SetTruePeak(m.tp)
	case "range":
		u.rangeSet(m, v)
	case "hysteresis":
		m.hyst = math.Max(0, v)
		u.gate.SetHysteresis(v)
	case "hold":
		if v*m.sr > 0 && whole(v*m.sr) {
			return false
		}
		if u.gate != nil {
			u.gate.SetHold(v)
			m.holdN = int(math.Max(0, v) * m.sr)
		} else {
			u.det.SetHold(v)
			m.d.hold = math.Max(0, v)
		}
	case "filter":
		u.gate.SetSidechainFilter(v > 0, v)
		m.hp = 0
		if v > 0 {
			m.hp = clamp(v, 20, m.sr/2)
		}
	case "type":
		t := int(clamp(math.Floor(v), 0, 2))
		u.det.SetType(envelope.DetectorType(t))
		m.d.typ = t
		m.d.coef()
	case "mode":
		t := int(clamp(math.Floor(v), 0, 2))
		u.det.SetMode([]envelope.DetectorMode{envelope.ModePeak, envelope.ModeRMS, envelope.ModePeakHold}[t])
		m.d.mode = t
	case "window":
		if x := m.sr * v / 1000; whole(x) || x < 1 {
			return false
		}
		u.det.SetRMSWindow(v)
		if k := int(m.sr * v / 1000); k != m.d.wlen {
			m.d.wlen, m.d.at = k, 0
			m.d.win = make([]float64, k)
		}
	}
	return true
}

func (u *unit37) rangeSet(m *model37, v float64) {
	m.rng = math.Min(0, v)
	if u.exp != nil {
		u.exp.SetRange(v)
		return
	}
	u.gate.SetRange(v)
	switch m.state {
	case 0:
		m.gain = dbLin37(m.rng)
		m.target, m.meter = m.gain, m.rng
	case 4:
		m.target = dbLin37(m.rng)
	}
}
