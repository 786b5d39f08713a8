package abi

// #include "host.h"
import "C"

import (
	"fmt"
	"io"
	"math"
	"os"
	"strings"
	"unicode/utf16"
	"unsafe"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fwplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
)

// P29: the edit controller tells the truth about the plugin's parameters.

func init() {
	core.Register(&core.Check{
		ID: "P29", Quick: 21000, Thorough: 420000, RaceQuick: 1200, RaceThoro: 24000,
		Rule:      "A host's generic editor works on a plugin of 0-10 random parameters of 22 kinds: it reads the list and every description, sets, reads, displays and types values (also unknown IDs and indices, NaN, infinities, overlong and malformed text), converts between normalized and plain values, steps through choices, sends automation in blocks and moves the state to a second instance; faults: formatters and parsers of the plugin panic. Half of the runs use 2-3 host threads, each with parameters of its own, one of them the audio thread. Non-trivial: several threads, a fault or typed text.",
		StateRule: "distinct (operation, parameter kind, outcome) tuples and interleavings",
		Real:      []string{"bridge/*.c", "pkg/plugin (IEditController)", "pkg/framework/param (builders, formatters, parsers, registry)", "pkg/framework/state"},
		Stub:      []string{"host", "thread scheduler", "plugin author's ProcessAudio (recorder)", "VST3 header (stand-in)"},
		Assume:    []string{"the host's string buffers hold 128 characters", "choice values are evenly spaced"},
		Gen:       genP29,
		Exec:      execP29,
		Must:      []string{"info", "set", "shown", "typed", "typed-bad", "round-trip", "choice", "unknown-id", "block", "formatter-panic", "state", "concurrent", "cut", "handler"},
	})
}

// kind29 is one way a plugin author declares a parameter. tol is the display's
// resolution in plain units; negative: the display does not tell the value.
type kind29 struct {
	name     string
	mk       func(id uint32, n string, lo, hi, df float64) *param.Builder
	lo, hi   float64 // fixed range; lo==hi: from the case
	df       float64
	steps    int32
	tol      func(v float64) float64
	readOnly bool
}

func flat(t float64) func(float64) float64 { return func(float64) float64 { return t } }

var filterNames = []string{"Lowpass", "Highpass", "Bandpass", "Notch", "Allpass", "Peaking EQ", "Low Shelf", "High Shelf"}

var kinds29 = []kind29{
	{name: "plain", mk: func(id uint32, n string, lo, hi, df float64) *param.Builder {
		return param.New(id, n).Range(lo, hi).Default(df)
	}, tol: flat(0.005)},
	{name: "steps", mk: func(id uint32, n string, lo, hi, df float64) *param.Builder {
		return param.New(id, n).Range(lo, hi).Default(df).Steps(int32(hi - lo))
	}, tol: flat(0.5)},
	{name: "toggle", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Toggle().Formatter(param.OnOffFormatter, param.OnOffParser)
	}, lo: 0, hi: 1, steps: 1, tol: flat(0.5)},
	{name: "gain", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.GainParameter(id, n) }, lo: -80, hi: 12, tol: flat(0.05)},
	{name: "mix", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.MixParameter(id, n) }, lo: 0, hi: 100, df: 100, tol: flat(0.5)},
	{name: "frequency", mk: func(id uint32, n string, _, _, df float64) *param.Builder {
		return param.FrequencyParameter(id, n, 20, 20000, 440)
	}, lo: 20, hi: 20000, df: 440, tol: func(v float64) float64 {
		if v >= 1000 {
			return 5
		}
		return 0.05
	}},
	{name: "time", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.TimeParameter(id, n, 0, 5000, 250)
	}, lo: 0, hi: 5000, df: 250, tol: func(v float64) float64 {
		if v >= 1000 {
			return 5
		}
		return 0.05
	}},
	{name: "ratio", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.RatioParameter(id, n, 1, 100, 4)
	}, lo: 1, hi: 100, df: 4, tol: flat(0.05)},
	{name: "q", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.QParameter(id, n, 0.1, 10, 0.7)
	}, lo: 0.1, hi: 10, df: 0.7, tol: flat(0.005)},
	{name: "pan", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.PanParameter(id, n) }, lo: -100, hi: 100, tol: flat(0.5)},
	{name: "phase", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.PhaseParameter(id, n) }, lo: 0, hi: 360, tol: flat(0.05)},
	{name: "feedback", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.FeedbackParameter(id, n) }, lo: 0, hi: 100, tol: flat(0.5)},
	{name: "resonance", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.ResonanceParameter(id, n) }, lo: 0, hi: 1, df: 0.707, tol: flat(0.0005)},
	{name: "drive", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.DriveParameter(id, n) }, lo: 0, hi: 100, tol: flat(0.5)},
	{name: "meter", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.OutputLevelMeter(id, n) }, lo: -60, hi: 0, df: -60, tol: flat(-1), readOnly: true},
	{name: "threshold", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.ThresholdParameter(id, n, -60, 0, -20)
	}, lo: -60, hi: 0, df: -20, tol: flat(0.05)},
	{name: "attack", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.AttackParameter(id, n, 500) }, lo: 0.1, hi: 500, df: 10, tol: flat(0.05)},
	{name: "release", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.ReleaseParameter(id, n, 900) }, lo: 1, hi: 900, df: 100, tol: flat(0.05)},
	{name: "rate", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.RateParameter(id, n, 0.01, 20, 1)
	}, lo: 0.01, hi: 20, df: 1, tol: func(v float64) float64 {
		if v < 1 {
			return 0.0005
		}
		return 0.005
	}},
	{name: "depth", mk: func(id uint32, n string, _, _, _ float64) *param.Builder { return param.DepthParameter(id, n) }, lo: 0, hi: 100, df: 50, tol: flat(0.5)},
	{name: "note", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(0, 127).Default(60).Steps(127).Formatter(param.NoteFormatter, param.NoteParser)
	}, lo: 0, hi: 127, df: 60, steps: 127, tol: flat(1)},
	{name: "filter", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(0, 7).Default(2).Steps(7).Formatter(param.FilterTypeFormatter, param.FilterTypeParser)
	}, lo: 0, hi: 7, df: 2, steps: 7, tol: flat(1)},
	{name: "percent", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(0, 200).Default(100).Unit("%").Formatter(param.PercentFormatter, param.PercentParser)
	}, lo: 0, hi: 200, df: 100, tol: flat(0.5)},
	{name: "pan1", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(-1, 1).Default(0).Formatter(param.PanFormatter, param.PanParser)
	}, lo: -1, hi: 1, tol: flat(0.01)},
	{name: "ms", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(0.001, 3000).Default(5).Unit("ms").Formatter(param.TimeFormatter, param.TimeParser)
	}, lo: 0.001, hi: 3000, df: 5, tol: func(v float64) float64 {
		if v >= 999.94 {
			return 5
		}
		return 0.05
	}},
	{name: "ratio1", mk: func(id uint32, n string, _, _, _ float64) *param.Builder {
		return param.New(id, n).Range(1, 20).Default(2).Formatter(param.RatioFormatter, param.RatioParser)
	}, lo: 1, hi: 20, df: 2, tol: flat(0.05)},
	{name: "choice"},
	{name: "odd"}, // a formatter written by the plugin author: long text, panics
}

const (
	kChoice = -2
	kOdd    = -1
)

func kindIdx(k int) int {
	if k < 0 {
		return len(kinds29) + k
	}
	return k
}

func genP29(g *core.R, i int) *core.Case {
	c := &core.Case{}
	conc := i%2 == 1
	np := g.Pick(0, 1, 2, 3, 5, 8, 10)
	if conc {
		np = max(np, 3)
	}
	c.Set("np", int64(np))
	for k := 0; k < np; k++ {
		n := ""
		if g.Chance(0.2) {
			for m := g.Pick(0, 60, 126, 127, 128, 129, 200); m > 0; m-- {
				n += string(rune(g.Pick('a', 'b', ' ', 'é', 0x4e2d, 0x1f600)))
			}
		} else {
			n = fmt.Sprint("P", k)
		}
		kk := g.N(len(kinds29))
		if g.Chance(0.15) {
			kk = kindIdx(kChoice)
		} else if g.Chance(0.1) {
			kk = kindIdx(kOdd)
		}
		c.Set(fmt.Sprint("k", k), int64(kk))
		c.Set(fmt.Sprint("id", k), int64(uint32(g.Pick(k, k+100, k*1000+7, 0xFFFFFF00+k, 0x7FFFFFF0+k))))
		c.SetS(fmt.Sprint("n", k), n)
		lo := g.PickF(0, 0, -1, 20, -100, -0.5, 1e6, -24)
		hi := lo + g.PickF(1, 1, 2, 10, 100, 127, 0, -3)
		df := lo + (hi-lo)*g.PickF(0, 0.5, 1, 0.25)
		if kinds29[kk].name == "steps" {
			hi = lo + float64(g.Pick(1, 2, 10, 100, 127))
			df = lo + 1
		}
		c.SetF(fmt.Sprint("lo", k), lo)
		c.SetF(fmt.Sprint("hi", k), hi)
		c.SetF(fmt.Sprint("df", k), df)
		c.Set(fmt.Sprint("opt", k), int64(g.Pick(1, 2, 3, 5, 7, 9, 9, 12)))
		c.Set(fmt.Sprint("os", k), int64(g.N(6)))
		c.Set(fmt.Sprint("base", k), int64(g.Pick(0, 0, 1, -2, 10)))
		c.Set(fmt.Sprint("flags", k), int64(g.N(4)))
		if g.Chance(0.3) {
			c.SetS(fmt.Sprint("u", k), strings.Repeat(g.PickS("Hz", "é", "x", "\U0001f600"), g.Pick(1, 1, 64, 127, 128)))
		}
	}
	texts := []string{"", " ", "0", "1", "0.5", "-3.5", "1e400", "NaN", "inf", "-∞ dB", "12 dB", "1.5 kHz", "500Hz", "50 %", "50%", "  7 ", "abc", "C", "C4", "A#-1", "30% L", "on", "OFF", "maybe", "2 s", "3us", "4:1", "∞:1", "Q: 2", "90°", "low pass", "LPF", strings.Repeat("9", 300), "\U0001f600", "1,5"}
	mk := func(n int) []core.Op {
		var ops []core.Op
		for ; n > 0; n-- {
			p := int64(g.N(max(np, 1)))
			if g.Chance(0.05) {
				p = int64(-1 - g.N(3)) // unknown
			}
			v := g.F()
			switch {
			case g.Chance(0.1):
				v = g.PickF(0, 1, 0.5)
			case g.Chance(0.07):
				v = g.PickF(-0.5, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300)
			}
			switch g.N(12) {
			case 0:
				ops = append(ops, core.Op{K: "info", I: []int64{int64(g.Pick(-1, 0, 0, 1, 2, 5, 1<<30, -(1 << 31)))}})
			case 1, 2:
				ops = append(ops, core.Op{K: "set", I: []int64{p}, F: []core.X{core.X(v)}})
			case 3, 4:
				f := int64(0)
				if g.Chance(0.1) {
					f = 1
				}
				ops = append(ops, core.Op{K: "show", I: []int64{p, f}, F: []core.X{core.X(v)}})
			case 5, 6:
				f := int64(0)
				if g.Chance(0.1) {
					f = 1
				}
				ops = append(ops, core.Op{K: "type", I: []int64{p, f}, S: g.PickS(texts...)})
			case 7:
				ops = append(ops, core.Op{K: "conv", I: []int64{p}, F: []core.X{core.X(v), core.X(g.PickF(g.F(), 0, 1, 5, -30, 1000, math.NaN(), math.Inf(1)))}})
			case 8:
				ops = append(ops, core.Op{K: "steps", I: []int64{p}})
			case 9, 10:
				ops = append(ops, core.Op{K: "block", I: []int64{p, int64(g.N(max(np, 1)))}, F: []core.X{core.X(v), core.X(g.F())}})
			default:
				if conc {
					ops = append(ops, core.Op{K: "get", I: []int64{p}})
				} else {
					ops = append(ops, core.Op{K: g.PickS("state", "handler", "get")})
				}
			}
		}
		return ops
	}
	if conc {
		for t := g.Range(2, 3); t > 0; t-- {
			c.Threads = append(c.Threads, mk(g.Range(3, 12)))
		}
		c.Scheds = append(c.Scheds, core.GenSched(g, len(c.Threads), 3000, false))
	} else {
		c.Threads = append(c.Threads, mk(g.Range(4, 30)))
	}
	return c
}

type par29 struct {
	id         uint32
	kind       int
	k          kind29
	p          *param.Parameter
	lo, hi, df float64
	name, unit string
	flags      uint32
	steps      int32
	opts       []param.ChoiceOption
	val        float64 // what the host knows it to be
}

func (p *par29) plain(v float64) float64 { return p.lo + v*(p.hi-p.lo) }

type st29 struct {
	w    *world
	r    *core.Rec
	conc bool
	ps   []*par29
	x, y *instance
	pan  int // the next formatter or parser call panics
	hd   *handler
	hobj ptr
	log  int
	tally
}

func (t *st29) fail(class, f string, a ...any) { t.r.Fail(class, class, f, a...) }

// optName is the name of a choice's j-th option.
func optName(style int64, j, n int) string {
	const long = "Low Shelf Filter (wide)"
	switch style {
	case 1: // each option's name begins with the one before
		return long[:3+j]
	case 2: // each option's name is the beginning of the one before
		return long[:3+n-1-j]
	case 3: // as long as the host's buffer allows, different at the end only
		return strings.Repeat("Preset ", 17) + fmt.Sprintf("%03d", j)
	case 4:
		return strings.Repeat("éΩ中\U0001f600", 20) + string(rune('a'+j))
	case 5: // numbers
		return fmt.Sprint(j * 9 / 2)
	}
	return fmt.Sprintf("Option %c", 'A'+j)
}

// build declares the parameters in a registry; only the first instance's are
// kept in the model.
func (t *st29) build(c *core.Case) (*param.Registry, []*par29) {
	reg := param.NewRegistry()
	var out []*par29
	for k := 0; k < int(c.Cfg["np"]); k++ {
		ks := fmt.Sprint(k)
		m := &par29{id: uint32(c.Cfg["id"+ks]), kind: int(c.Cfg["k"+ks]), name: c.CfgS["n"+ks], flags: param.CanAutomate}
		m.k = kinds29[m.kind]
		m.lo, m.hi, m.df = float64(c.CfgF["lo"+ks]), float64(c.CfgF["hi"+ks]), float64(c.CfgF["df"+ks])
		var b *param.Builder
		switch m.k.name {
		case "choice":
			n := int(c.Cfg["opt"+ks])
			base := float64(c.Cfg["base"+ks])
			for j := 0; j < n; j++ {
				m.opts = append(m.opts, param.ChoiceOption{Value: base + float64(j), Name: optName(c.Cfg["os"+ks], j, n), Aliases: []string{fmt.Sprint("o", j), fmt.Sprint("Alt ", j)}})
			}
			b = param.Choice(m.id, m.name, m.opts)
			m.lo, m.hi, m.df, m.steps = base, base+float64(n-1), base, int32(n-1)
			m.k.tol = flat(1)
		case "odd":
			b = param.New(m.id, m.name).Range(0, 1).Default(0.5).Formatter(func(v float64) string {
				t.boom()
				n := int(v * 200)
				if n > 100 {
					return strings.Repeat("\U0001f600", n-100) + fmt.Sprint(v)
				}
				return strings.Repeat("é", n) + fmt.Sprint(v)
			}, func(s string) (float64, error) {
				t.boom()
				var v float64
				if _, err := fmt.Sscan(s, &v); err != nil {
					return math.NaN(), err
				}
				return v, nil
			})
			m.lo, m.hi, m.df = 0, 1, 0.5
			m.k.tol = flat(-1)
		default:
			b = m.k.mk(m.id, m.name, m.lo, m.hi, m.df)
			m.steps = m.k.steps
			if m.k.name == "steps" {
				m.steps = int32(m.hi - m.lo)
			}
			if m.k.lo != m.k.hi {
				m.lo, m.hi, m.df = m.k.lo, m.k.hi, m.k.df
			}
			if m.k.name == "meter" {
				m.flags = param.IsReadOnly
			}
		}
		m.unit = map[string]string{"gain": "dB", "mix": "%", "frequency": "Hz", "time": "ms", "phase": "°", "feedback": "%", "drive": "%", "meter": "dB", "threshold": "dB", "attack": "ms", "release": "ms", "rate": "Hz", "depth": "%", "percent": "%", "ms": "ms"}[m.k.name]
		if u, ok := c.CfgS["u"+ks]; ok {
			b = b.Unit(u)
			m.unit = u
		}
		switch c.Cfg["flags"+ks] {
		case 1:
			b = b.ReadOnly()
			m.flags = m.flags&^param.CanAutomate | param.IsReadOnly
		case 2:
			b = b.Hidden()
			m.flags |= param.IsHidden
		case 3:
			b = b.Bypass()
			m.flags |= param.IsBypass
		}
		m.p = b.Build()
		m.p.UnitID = int32(k)
		if reg.Get(m.id) != nil {
			continue
		}
		if m.hi > m.lo {
			m.val = clamp1((m.df - m.lo) / (m.hi - m.lo))
		}
		reg.Add(m.p)
		out = append(out, m)
	}
	return reg, out
}

func (t *st29) boom() {
	if t.pan > 0 {
		t.pan--
		panic("plugin: formatter")
	}
}

type host29 struct {
	tally
	t    *st29
	me   int
	n    int
	buf  ptr // display buffer
	in   ptr // typed text
	info ptr
	val  *C.double
	data *C.struct_Steinberg_Vst_ProcessData
	ch   *changes
	cobj ptr
}

func (t *st29) host(me, n int) *host29 {
	h := &host29{tally: newTally(), t: t, me: me, n: n}
	h.buf = t.w.alloc(2*128 + 64)
	h.in = t.w.alloc(2 * 512)
	h.info = t.w.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{})) + 64)
	h.val = (*C.double)(t.w.alloc(8))
	h.data = (*C.struct_Steinberg_Vst_ProcessData)(t.w.alloc(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	h.cobj, h.ch = t.w.newChanges(2)
	return h
}

// pick maps an operation's parameter to one of the thread's own.
func (h *host29) pick(i int64) *par29 {
	ps := h.t.ps
	if i < 0 || len(ps) <= h.me {
		return nil
	}
	own := (len(ps) - h.me + h.n - 1) / h.n
	return ps[h.me+h.n*(int(i)%own)]
}

// unknown is an ID the plugin does not have.
func (h *host29) unknown(i int64) C.uint32_t {
	for id := uint32(5_000_000 - i); ; id++ {
		found := false
		for _, p := range h.t.ps {
			found = found || p.id == id
		}
		if !found {
			return C.uint32_t(id)
		}
	}
}

func (h *host29) guardBuf() {
	b := unsafe.Slice((*byte)(h.buf), 2*128+64)
	for k := range b {
		b[k] = 0x5A
	}
}

func (h *host29) op(o core.Op) {
	t := h.t
	rt.Y(-77)
	h.evals++
	var p *par29
	id := C.uint32_t(0)
	if len(o.I) > 0 && o.K != "info" {
		if p = h.pick(o.Int(0)); p != nil {
			id = C.uint32_t(p.id)
		} else {
			id = h.unknown(o.Int(0))
			h.probes["unknown-id"]++
		}
	}
	switch o.K {
	case "info":
		h.infoOp(int32(o.Int(0)))
	case "set":
		var rc C.int32_t
		if !t.w.guard("setParamNormalized", func() { rc = C.e_set(t.x.ctl, id, C.double(o.Flt(0))) }) {
			return
		}
		if p == nil {
			if rc == 0 {
				t.fail("unknown", "setParamNormalized of an unknown parameter succeeded")
			}
			return
		}
		h.probes["set"]++
		if rc != 0 {
			t.fail("call-failed", "setParamNormalized(%s, %v) returned %d", p.k.name, o.Flt(0), rc)
			return
		}
		p.val = clamp1(o.Flt(0))
	case "get":
	case "show":
		h.show(p, id, o.Flt(0), o.Int(1) != 0)
	case "type":
		h.typed(p, id, o.S, o.Int(1) != 0)
	case "conv":
		h.conv(p, id, o.Flt(0), o.Flt(1))
	case "steps":
		if p != nil {
			h.steps(p)
		}
	case "block":
		if h.me == h.n-1 { // the audio thread
			h.block(p, h.pick(o.Int(1)), id, o.Flt(0), o.Flt(1))
		}
	case "state":
		h.state()
	case "handler":
		h.probes["handler"]++
		obj := t.hobj
		if t.log++; t.log%3 == 2 {
			obj = nil
		}
		if C.e_handler(t.x.ctl, obj) != 0 {
			t.fail("call-failed", "setComponentHandler failed")
		}
	}
	if t.r.Failed() {
		return
	}
	// The host, the plugin and the model agree on every parameter of this thread.
	for k := h.me; k < len(t.ps); k += h.n {
		p := t.ps[k]
		if v := float64(C.e_get(t.x.ctl, C.uint32_t(p.id))); v != p.val {
			t.fail("value", "after %s the host reads %v from parameter %d (%s) instead of %v", o.K, v, p.id, p.k.name, p.val)
			return
		}
		if v := p.p.GetPlainValue(); !near(v, p.plain(p.val), p.lo, p.hi) {
			t.fail("value", "after %s the plugin reads %v from parameter %d (%s) instead of %v", o.K, v, p.id, p.k.name, p.plain(p.val))
			return
		}
	}
}

func near(a, b, lo, hi float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(lo)+math.Abs(hi))
}

func (h *host29) infoOp(i int32) {
	t := h.t
	h.probes["info"]++
	if n := int32(C.e_count(t.x.ctl)); int(n) != len(t.ps) {
		t.fail("list", "getParameterCount returned %d, the plugin has %d", n, len(t.ps))
		return
	}
	size := int(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{}))
	raw := unsafe.Slice((*byte)(h.info), size+64)
	for k := range raw {
		raw[k] = 0x5A
	}
	var rc C.int32_t
	if !t.w.guard("getParameterInfo", func() { rc = C.e_info(t.x.ctl, C.int32_t(i), h.info) }) {
		return
	}
	for _, b := range raw[size:] {
		if b != 0x5A {
			t.fail("list", "getParameterInfo(%d) wrote beyond the structure", i)
			return
		}
	}
	if i < 0 || int(i) >= len(t.ps) {
		if rc == 0 {
			t.fail("list", "getParameterInfo(%d) of %d parameters succeeded", i, len(t.ps))
		}
		return
	}
	in := (*C.struct_Steinberg_Vst_ParameterInfo)(h.info)
	p := t.ps[i]
	title, ok := str16(ptr(&in.title[0]), 128)
	short, ok2 := str16(ptr(&in.shortTitle[0]), 128)
	unit, ok3 := str16(ptr(&in.units[0]), 128)
	if len(p.name) > 127 {
		h.probes["cut"]++
	}
	if rc != 0 || uint32(in.id) != p.id || !ok || title != cut16(p.name, 128) || !ok2 || short != cut16(p.name, 128) || !ok3 || unit != cut16(p.unit, 128) {
		t.fail("list", "getParameterInfo(%d) (%s): result %d, ID %d (of %d), title %q (%v, of %q), short title %q, unit %q (of %q)", i, p.k.name, rc, uint32(in.id), p.id, title, ok, p.name, short, unit, p.unit)
		return
	}
	df := 0.0
	if p.hi > p.lo {
		df = (p.df - p.lo) / (p.hi - p.lo)
	}
	if int32(in.stepCount) != p.steps || uint32(in.flags) != p.flags || int32(in.unitId) != p.p.UnitID || math.Abs(float64(in.defaultNormalizedValue)-df) > 1e-9 {
		t.fail("list", "getParameterInfo(%d) (%s): %d steps (of %d), flags %x (of %x), unit %d, default %v (of %v)", i, p.k.name, int(in.stepCount), p.steps, uint32(in.flags), p.flags, int32(in.unitId), float64(in.defaultNormalizedValue), df)
	}
}

// str asks for the text of a value; ok is false if the call failed.
func (h *host29) str(id C.uint32_t, v float64) (s string, ok bool) {
	t := h.t
	h.guardBuf()
	var rc C.int32_t
	if !t.w.guard("getParamStringByValue", func() { rc = C.e_str(t.x.ctl, id, C.double(v), h.buf) }) {
		return "", false
	}
	if rc != 0 {
		return "", false
	}
	for _, b := range unsafe.Slice((*byte)(h.buf), 2*128+64)[2*128:] {
		if b != 0x5A {
			t.fail("display", "getParamStringByValue wrote beyond 128 characters")
			return "", false
		}
	}
	s, ok = str16(h.buf, 128)
	if !ok {
		t.fail("display", "getParamStringByValue(%v) left a text that is not terminated or not valid: %q", v, s)
	}
	return s, ok
}

// parse types a text in; ok is false if the call failed.
func (h *host29) parse(id C.uint32_t, s string) (v float64, ok bool) {
	t := h.t
	u := utf16.Encode([]rune(s))
	buf := tchars(h.in, 512)
	copy(buf[:511], u)
	buf[min(len(u), 511)] = 0
	*h.val = -77
	var rc C.int32_t
	if !t.w.guard("getParamValueByString", func() { rc = C.e_val(t.x.ctl, id, h.in, h.val) }) {
		return 0, false
	}
	if rc != 0 {
		return 0, false
	}
	v = float64(*h.val)
	if !(v >= 0 && v <= 1) {
		t.fail("typed", "typing %q gives the normalized value %v", s, v)
		return 0, false
	}
	return v, true
}

func (h *host29) show(p *par29, id C.uint32_t, v float64, fault bool) {
	t := h.t
	if p == nil {
		if _, ok := h.str(id, v); ok {
			t.fail("unknown", "getParamStringByValue of an unknown parameter succeeded")
		}
		return
	}
	fault = fault && p.k.name == "odd" && !t.conc
	if fault {
		t.pan = 1
		_, ok := h.str(id, v)
		h.probes["formatter-panic"]++
		h.faults["formatter-panic"]++
		h.nt = true
		if ok {
			t.fail("display", "getParamStringByValue succeeded although the plugin's formatter panicked")
		}
		t.pan = 0
		return
	}
	if p.k.name == "odd" || p.k.name == "note" {
		v = clamp1(v) // a formatter for values of the range
	}
	s, ok := h.str(id, v)
	if t.r.Failed() {
		return
	}
	h.probes["shown"]++
	if want := cut16(p.p.FormatValue(v), 128); !ok || s != want {
		t.fail("display", "%s shows %v as %q (%v), the plugin's text is %q", p.k.name, v, s, ok, want)
		return
	}
	h.shape(2, uint64(p.kind), uint64(len(s)))
	if v < 0 || v > 1 || v != v || p.hi <= p.lo {
		return
	}
	tol := p.k.tol(p.plain(v))
	if tol < 0 || math.Abs(p.hi) > 1e5 {
		return
	}
	// What is shown can be typed in again.
	w, ok := h.parse(id, s)
	if t.r.Failed() {
		return
	}
	h.probes["round-trip"]++
	if !ok {
		t.fail("round-trip", "%s shows %v as %q but does not accept this text", p.k.name, p.plain(v), s)
		return
	}
	if d := math.Abs(p.plain(w) - p.plain(v)); d > tol*1.001+1e-9*(1+math.Abs(p.hi)) {
		t.fail("round-trip", "%s shows %v as %q, typed in again this is %v (the display's resolution is %v)", p.k.name, p.plain(v), s, p.plain(w), tol)
	}
}

func (h *host29) typed(p *par29, id C.uint32_t, s string, fault bool) {
	t := h.t
	if p == nil {
		if _, ok := h.parse(id, s); ok {
			t.fail("unknown", "getParamValueByString of an unknown parameter succeeded")
		}
		return
	}
	if fault && p.k.name == "odd" && !t.conc {
		t.pan = 1
		_, ok := h.parse(id, s)
		h.probes["formatter-panic"]++
		h.faults["parser-panic"]++
		h.nt = true
		t.pan = 0
		if ok {
			t.fail("typed", "getParamValueByString succeeded although the plugin's parser panicked")
		}
		return
	}
	v, ok := h.parse(id, s)
	if t.r.Failed() {
		return
	}
	h.nt = true
	want, err := p.p.ParseValue(s)
	h.shape(3, uint64(p.kind), core.HashS(s)*2+uint64(b2i(ok)))
	if err != nil {
		h.probes["typed-bad"]++
	} else {
		h.probes["typed"]++
	}
	if ok != (err == nil) || (ok && v != want) {
		t.fail("typed", "%s: typing %q gives %v (accepted: %v), the plugin parses it as %v (%v)", p.k.name, s, v, ok, want, err)
	}
}

func (h *host29) conv(p *par29, id C.uint32_t, v, plain float64) {
	t := h.t
	var a, b float64
	if !t.w.guard("normalizedParamToPlain", func() { a = float64(C.e_toplain(t.x.ctl, id, C.double(v))) }) {
		return
	}
	if !t.w.guard("plainParamToNormalized", func() { b = float64(C.e_tonorm(t.x.ctl, id, C.double(plain))) }) {
		return
	}
	if p == nil {
		return
	}
	if !(b >= 0 && b <= 1) {
		t.fail("conversion", "%s: plain %v becomes normalized %v", p.k.name, plain, b)
		return
	}
	if p.hi > p.lo && plain >= p.lo && plain <= p.hi {
		if !near(p.plain(b), plain, p.lo, p.hi) {
			t.fail("conversion", "%s: plain %v becomes normalized %v, which is plain %v", p.k.name, plain, b, p.plain(b))
			return
		}
	}
	if p.hi > p.lo && plain > p.hi && b != 1 || p.hi > p.lo && plain < p.lo && b != 0 {
		t.fail("conversion", "%s: plain %v, outside the range, becomes normalized %v", p.k.name, plain, b)
		return
	}
	if v >= 0 && v <= 1 {
		if !near(a, p.plain(v), p.lo, p.hi) {
			t.fail("conversion", "%s: normalized %v becomes plain %v instead of %v", p.k.name, v, a, p.plain(v))
			return
		}
		if back := float64(C.e_tonorm(t.x.ctl, id, C.double(a))); p.hi > p.lo && math.Abs(back-v) > 1e-9 {
			if math.Abs(p.lo) < 1e5 {
				t.fail("conversion", "%s: normalized %v becomes plain %v, which becomes normalized %v", p.k.name, v, a, back)
			}
		}
	}
}

// steps walks through the positions of a choice the way a host's menu does.
func (h *host29) steps(p *par29) {
	t := h.t
	id := C.uint32_t(p.id)
	names := make([]string, len(p.opts))
	for k, o := range p.opts {
		names[k] = o.Name
	}
	if p.k.name == "filter" {
		names = filterNames
	}
	if len(names) < 2 {
		return
	}
	h.probes["choice"]++
	n := len(names) - 1
	for k, name := range names {
		v := float64(k) / float64(n)
		if s, ok := h.str(id, v); !ok || s != name {
			if !t.r.Failed() {
				t.fail("choice", "position %d of %d shows %q instead of %q", k, n, s, name)
			}
			return
		}
		l := []string{name, strings.ToUpper(name), strings.ToLower(name)}
		if p.opts != nil {
			l = append(l, p.opts[k].Aliases...)
		}
		for _, s := range l {
			if w, ok := h.parse(id, s); !ok || w != v {
				if !t.r.Failed() {
					t.fail("choice", "typing %q gives %v (accepted: %v) instead of position %d of %d", s, w, ok, k, n)
				}
				return
			}
		}
	}
}

func (h *host29) block(p, q *par29, id C.uint32_t, v, v2 float64) {
	t := h.t
	h.probes["block"]++
	d := h.data
	*d = C.struct_Steinberg_Vst_ProcessData{}
	h.ch.qs[0].id = uint32(id)
	h.ch.qs[0].pts = append(h.ch.qs[0].pts[:0], point{v: v})
	h.ch.count = 1
	if q != nil && q != p {
		h.ch.qs[1].id = q.id
		h.ch.qs[1].pts = append(h.ch.qs[1].pts[:0], point{v: 1 - v2}, point{v: v2})
		h.ch.count = 2
		q.val = clamp1(v2)
	}
	if p != nil {
		p.val = clamp1(v)
	}
	d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(h.cobj)
	var rc C.int32_t
	if !t.w.guard("process", func() { rc = C.a_process(t.x.aud, ptr(d)) }) {
		return
	}
	if rc != 0 {
		t.fail("call-failed", "process returned %d", rc)
	}
}

func (h *host29) state() {
	t := h.t
	h.probes["state"]++
	s := newStream(nil)
	obj := t.w.add(kStream, s)
	if rc := C.e_getstate(t.x.ctl, obj); rc != 0 {
		t.fail("call-failed", "getState returned %d", rc)
		return
	}
	obj2 := t.w.add(kStream, newStream(s.b))
	if rc := C.e_setcompstate(t.y.ctl, obj2); rc != 0 {
		t.fail("call-failed", "setComponentState returned %d", rc)
		return
	}
	for _, p := range t.ps {
		if v := float64(C.e_get(t.y.ctl, C.uint32_t(p.id))); v != p.val {
			t.fail("value", "an editor that receives the component's state shows %v for parameter %d (%s) instead of %v", v, p.id, p.k.name, p.val)
			return
		}
	}
}

func execP29(c *core.Case, r *core.Rec) {
	t := &st29{w: newWorld(r), r: r, conc: len(c.Threads) > 1, tally: newTally()}
	// Nothing may be written to the host's standard output.
	saved := os.Stdout
	rd, wr, err := os.Pipe()
	if err == nil {
		os.Stdout = wr
		defer func() {
			os.Stdout = saved
			wr.Close()
			b, _ := io.ReadAll(rd)
			rd.Close()
			if len(b) > 0 && !r.Failed() {
				r.Fail("output", "output", "the plugin wrapper writes to standard output: %.80q", b)
			}
		}()
	}
	var hs []*host29
	if f, st := rt.Solo(budget, func() {
		pl := &plug{info: fwplugin.Info{ID: "vs.controller", Name: "Controller"}}
		pl.create = func() plugin.Processor {
			reg, ps := t.build(c)
			if t.ps == nil {
				t.ps = ps
			}
			p := &proc{reg: reg, panicIn: -1, bus: bus.NewStereoConfiguration()}
			return p
		}
		var why string
		if t.x, why = t.w.open(pl); why != "" {
			t.fail("start", "%s", why)
			return
		}
		if t.y, why = t.w.open(pl); why != "" {
			t.fail("start", "%s", why)
			return
		}
		t.hd = &handler{}
		t.hobj = t.w.add(kHandler, t.hd)
		C.e_init(t.x.ctl)
		C.a_setup(t.x.aud, 0, 0, 64, 48000)
		C.c_active(t.x.comp, 1)
		C.a_setproc(t.x.aud, 1)
		for k := range c.Threads {
			hs = append(hs, t.host(k, len(c.Threads)))
		}
	}); f != "" {
		r.Fail("start-"+f, "start-failure", "%s\n%s", f, st)
		return
	}
	if r.Failed() {
		return
	}
	if t.conc {
		t.probes["concurrent"]++
		var fns []func()
		for k, ops := range c.Threads {
			h := hs[k]
			fns = append(fns, func() {
				for _, o := range ops {
					if rt.Aborting() || r.Failed() {
						return
					}
					h.op(o)
				}
			})
		}
		r.Run(budget, fns...)
	} else {
		solo(r, func() {
			for _, o := range c.Threads[0] {
				if r.Failed() {
					return
				}
				hs[0].op(o)
			}
		})
	}
	if !r.Failed() && len(t.hd.log) > 0 {
		t.fail("echo", "values set by the host are sent back to it: %v", t.hd.log[0])
	}
	if !r.Failed() {
		solo(r, func() {
			t.x.close()
			t.y.close()
		})
	}
	for _, h := range hs {
		t.merge(&h.tally, "info", "set", "shown", "typed", "typed-bad", "round-trip", "choice", "unknown-id", "block", "formatter-panic", "parser-panic", "state", "concurrent", "cut", "handler")
	}
	for _, k := range []string{"info", "set", "shown", "typed", "typed-bad", "round-trip", "choice", "unknown-id", "block", "formatter-panic", "state", "concurrent", "cut", "handler"} {
		if t.probes[k] > 0 {
			r.Probe(k)
		}
	}
	for _, k := range []string{"formatter-panic", "parser-panic"} {
		if t.faults[k] > 0 {
			r.FaultN(k, t.faults[k])
		}
	}
	for _, h := range t.shapes {
		r.State(h)
		r.Observe(h)
	}
	r.NonTriv = t.nt || t.conc
	r.Evals += t.evals
	if !r.Failed() {
		t.w.drained("after releasing the instances")
	}
}
