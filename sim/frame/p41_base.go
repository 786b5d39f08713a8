package frame

import (
	"crypto/md5"
	"errors"
	"fmt"
	"sort"
	"strings"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
)

// P41: a plugin made from the base classes is told everything the host does,
// once and in order, keeps its identity, and shares nothing with another one.

var fixedUIDs = map[string][16]byte{
	"com.vst3go.examples.gain":   {0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88},
	"com.vst3go.examples.filter": {0x87, 0x65, 0x43, 0x21, 0xFE, 0xDC, 0xBA, 0x98, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22, 0x11},
	"com.vst3go.examples.delay":  {0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF, 0x00, 0x11, 0x99, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22},
}

// wantUID is the identity saved projects refer to: it may never change.
func wantUID(id string) [16]byte {
	if u, ok := fixedUIDs[id]; ok {
		return u
	}
	h := md5.Sum([]byte(id))
	h[6] = h[6]&0x0f | 0x40
	h[8] = h[8]&0x3f | 0x80
	return h
}

var baseIDs = []string{"com.vst3go.examples.gain", "com.vst3go.examples.filter", "com.vst3go.examples.delay", "com.vst3go.examples.Gain", "com.vst3go.examples.gain ", "a", "b", "com.acme.reverb", "com.acme.reverb2", "ünïcode.ß", ""}

type baseInst struct {
	p      *plugin.BaseProcessor
	s      *plugin.SimpleProcessor
	buses  *bus.Configuration
	sr     float64
	log    []string // what the callbacks were told
	want   []string
	tag    [3]int  // which installation of each callback is in force
	on     [3]bool // initialize, set active, reset callbacks installed
	err    error   // what the callbacks answer
	params []uint32
	has    bool // a process function exists
}

func init() {
	core.Register(&core.Check{
		ID: "P41", Quick: 240000, Thorough: 4800000,
		Rule:      "A host drives 1-3 plugins made from the base classes through initialisation, activation, deactivation, re-initialisation at other rates and processing in any order, while the plugin installs, replaces and removes callbacks, some of which fail, and adds parameters; meanwhile identities are asked for IDs that are equal, nearly equal, empty or reserved, with any other descriptive data. A call log is the model of the life cycle, the published derivation that of the identity. Non-trivial: a callback failed or was replaced, or an activation repeated.",
		StateRule: "distinct (operation, instance, callbacks) sequences",
		Real:      []string{"pkg/framework/plugin.BaseProcessor", "pkg/framework/plugin.SimpleProcessor", "pkg/framework/plugin.Base", "pkg/framework/plugin.Info"},
		Stub:      []string{"host", "plugin author's callbacks (recorders)"},
		Assume:    []string{"the host calls a plugin's life cycle from one thread at a time, as VST3 demands"},
		Must:      []string{"callback-error", "callback-replaced", "reset", "activate-twice", "default-buses", "no-process-function", "fixed-identity", "derived-identity", "empty-id"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Range(1, 3)
			c.Set("n", int64(n))
			c.Set("nilbus", int64(g.N(8)))
			c.Set("nofn", int64(g.N(8)))
			var ops []core.Op
			for k := g.Range(4, 25); k > 0; k-- {
				s := int64(g.N(n))
				switch g.N(10) {
				case 0, 1:
					ops = append(ops, core.Op{K: "cb", I: []int64{s, int64(g.N(3)), int64(g.Pick(0, 1, 1, 1))}})
				case 2:
					ops = append(ops, core.Op{K: "init", I: []int64{s, int64(g.Pick(1, 64, 512, 8192))}, F: []core.X{core.X(g.PickF(44100, 48000, 96000, 192000))}})
				case 3, 4:
					ops = append(ops, core.Op{K: "active", I: []int64{s, int64(g.N(2))}})
				case 5:
					ops = append(ops, core.Op{K: "err", I: []int64{s, int64(g.N(2))}})
				case 6:
					ops = append(ops, core.Op{K: "process", I: []int64{s}})
				case 7:
					ops = append(ops, core.Op{K: "param", I: []int64{s, int64(g.N(6))}})
				default:
					a, b := g.N(len(baseIDs)), g.N(len(baseIDs))
					op := core.Op{K: "uid", S: baseIDs[a], I: []int64{int64(b), int64(g.N(8))}}
					if g.Chance(0.3) {
						op.S = fmt.Sprintf("com.v%d.p%d", g.N(50), g.N(1000))
					}
					if g.Chance(0.1) {
						// A long ID that differs from others only late.
						op.S = strings.Repeat("com.longvendor.", 40)[:g.Pick(15, 30, 31, 62, 63, 126, 127, 128, 254, 510)] + fmt.Sprint(g.N(4), ".", g.N(4))
						if g.Chance(0.2) {
							op.S += strings.Repeat("x", g.Pick(100, 3000, 70000))
						}
					}
					ops = append(ops, op)
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP41,
	})
}

func execP41(c *core.Case, r *core.Rec) {
	n := int(c.Cfg["n"])
	if n < 1 {
		n = 1
	}
	h := uint64(n)
	ctxOf := process.NewContext(16, param.NewRegistry())
	mk := func(k int) *baseInst {
		x := &baseInst{}
		if c.Cfg["nilbus"]>>k&1 == 0 {
			x.buses = bus.NewMonoConfiguration()
		} else {
			r.Probe("default-buses")
		}
		x.has = c.Cfg["nofn"]>>k&1 == 0
		fn := func(ctx *process.Context) {
			x.log = append(x.log, fmt.Sprint("process ", ctx == ctxOf))
		}
		if !x.has {
			fn = nil
			r.Probe("no-process-function")
		}
		x.s = plugin.NewSimpleProcessor(x.buses, fn)
		x.p = x.s.BaseProcessor
		return x
	}
	var insts []*baseInst
	for k := 0; k < n; k++ {
		insts = append(insts, mk(k))
	}
	seen := map[[16]byte]string{}
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+core.HashS(o.S)+uint64(o.Int(0)*64+o.Int(1)))
		r.Eval()
		x := insts[int(o.Int(0))%n]
		if o.K == "uid" {
			x = insts[0]
		}
		switch o.K {
		case "cb":
			which := int(o.Int(1)) % 3
			on := o.Int(2) != 0
			if on && x.on[which] {
				r.Probe("callback-replaced")
				r.NonTriv = true
			}
			x.on[which] = on
			tag := len(x.log) // replaced callbacks must not be called: the tag tells them apart
			switch which {
			case 0:
				if !on {
					x.p.OnInitialize(nil)
					break
				}
				x.p.OnInitialize(func(sr float64, m int32) error {
					x.log = append(x.log, fmt.Sprint("init ", tag, sr, m, x.p.SampleRate() == sr))
					return x.err
				})
			case 1:
				if !on {
					x.p.OnSetActive(nil)
					break
				}
				x.p.OnSetActive(func(a bool) error {
					x.log = append(x.log, fmt.Sprint("active ", tag, a))
					return x.err
				})
			case 2:
				if !on {
					x.p.OnReset(nil)
					break
				}
				x.p.OnReset(func() { x.log = append(x.log, fmt.Sprint("reset ", tag)) })
			}
			x.tag[which] = tag
		case "err":
			x.err = nil
			if o.Int(1) != 0 {
				x.err = errors.New("the plugin refuses")
			}
		case "init":
			sr, m := o.Flt(0), int32(o.Int(1))
			var want error
			if x.on[0] {
				want = x.err
				x.want = append(x.want, fmt.Sprint("init ", x.tag[0], sr, m, true))
			}
			x.sr = sr
			if got := x.p.Initialize(sr, m); got != want {
				r.Fail("result", "result", "Initialize answered %v, the plugin %v", got, want)
				return
			}
			if want != nil {
				r.Probe("callback-error")
				r.Fault("callback-error")
				r.NonTriv = true
			}
		case "active":
			a := o.Int(1) != 0
			var want error
			if !a && x.on[2] {
				x.want = append(x.want, fmt.Sprint("reset ", x.tag[2]))
				r.Probe("reset")
			}
			if x.on[1] {
				want = x.err
				x.want = append(x.want, fmt.Sprint("active ", x.tag[1], a))
			}
			if len(x.want) > 1 && x.want[len(x.want)-1] == x.want[len(x.want)-2] {
				r.Probe("activate-twice")
				r.NonTriv = true
			}
			if got := x.p.SetActive(a); got != want {
				r.Fail("result", "result", "SetActive(%v) answered %v, the plugin %v", a, got, want)
				return
			}
			if want != nil {
				r.Probe("callback-error")
				r.Fault("callback-error")
				r.NonTriv = true
			}
		case "process":
			if x.has {
				x.want = append(x.want, "process true")
			}
			x.s.ProcessAudio(ctxOf)
		case "param":
			id := uint32(o.Int(1))
			dup := false
			for _, p := range x.params {
				dup = dup || p == id
			}
			if !dup {
				x.p.Parameters().Add(param.New(id, fmt.Sprint("P", id)).Build())
				x.params = append(x.params, id)
			}
		case "uid":
			uidOp(o, r, seen)
		}
		if r.Failed() {
			return
		}
		for k, y := range insts {
			if fmt.Sprint(y.log) != fmt.Sprint(y.want) {
				r.Fail("callbacks", "callbacks", "after %s on plugin %d: plugin %d was told %v, the host did %v", o.K, int(o.Int(0))%n, k, y.log, y.want)
				return
			}
			if s := y.check(); s != "" {
				r.Fail("shared-state", "shared-state", "after %s on plugin %d: plugin %d %s", o.K, int(o.Int(0))%n, k, s)
				return
			}
		}
	}
	for _, x := range insts {
		r.ObserveS(fmt.Sprint(x.log))
	}
	r.State(h)
}

func (x *baseInst) check() string {
	if x.p.GetParameters() != x.p.Parameters() || x.p.GetParameters() == nil {
		return "has two parameter registries"
	}
	ids := append([]uint32{}, x.params...)
	var got []uint32
	for _, p := range x.p.Parameters().All() {
		got = append(got, p.ID)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if fmt.Sprint(ids) != fmt.Sprint(got) {
		return fmt.Sprintf("has the parameters %v, it added %v", got, ids)
	}
	if x.p.SampleRate() != x.sr {
		return fmt.Sprintf("runs at %v, initialised at %v", x.p.SampleRate(), x.sr)
	}
	if x.p.GetLatencySamples() != 0 || x.p.GetTailSamples() != 0 {
		return "has a latency or tail by default"
	}
	b := x.p.GetBuses()
	ch := int32(1)
	if x.buses == nil {
		ch = 2
	} else if b != x.buses {
		return "has other buses than it asked for"
	}
	for d := 0; d < 2; d++ {
		if i := b.GetBusInfo(bus.MediaTypeAudio, bus.Direction(d), 0); b.GetBusCount(bus.MediaTypeAudio, bus.Direction(d)) != 1 || i == nil || i.ChannelCount != ch {
			return fmt.Sprintf("has unexpected buses: %+v", i)
		}
	}
	return ""
}

func uidOp(o core.Op, r *core.Rec, seen map[[16]byte]string) {
	k := int(o.Int(1))
	info := plugin.Info{ID: o.S, Name: fmt.Sprint("N", k), Version: fmt.Sprintf("1.%d", k), Vendor: fmt.Sprint("V", k&1), Category: []string{"Fx", "Instrument"}[k&1]}
	was := info
	u := info.UID()
	if info != was {
		r.Fail("identity", "identity-changes-info", "asking for the identity changed %+v to %+v", was, info)
		return
	}
	if w := wantUID(o.S); u != w {
		r.Fail("identity", "identity", "plugin %q has the identity %x, saved projects know it as %x", o.S, u, w)
		return
	}
	if _, ok := fixedUIDs[o.S]; ok {
		r.Probe("fixed-identity")
	} else {
		r.Probe("derived-identity")
	}
	if other, ok := seen[u]; ok && other != o.S {
		r.Fail("identity", "identity-shared", "plugins %q and %q share the identity %x", other, o.S, u)
		return
	}
	seen[u] = o.S
	err := info.ValidateUID()
	if o.S == "" {
		r.Probe("empty-id")
		r.Fault("empty-id")
	}
	if (err == nil) != (o.S != "") {
		r.Fail("identity", "validate", "ValidateUID of %q: %v", o.S, err)
		return
	}
	// Base keeps its own copy of the data it was made from.
	b := plugin.NewBase(&info)
	info.ID, info.Name = "changed", "changed"
	if b.Info != was || b.Parameters() == nil || b.Parameters().Count() != 0 || b.Parameters() != b.Parameters() || b.Parameters() == plugin.NewBase(&was).Parameters() {
		r.Fail("shared-state", "base", "the base made from %+v is %+v with %d parameters", was, b.Info, b.Parameters().Count())
	}
}
