package frame

import (
	"fmt"
	"math"

	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
)

// P33: buses are found, counted, activated and routed exactly.

type mBus struct {
	media, dir, typ, ch int32
	name                string
	active              bool
}

func (m mBus) same(i *bus.Info) bool {
	return i != nil && int32(i.MediaType) == m.media && int32(i.Direction) == m.dir && int32(i.BusType) == m.typ && i.ChannelCount == m.ch && i.Name == m.name && i.IsActive == m.active
}

var busAdds = []string{"in", "out", "auxin", "auxout", "evin", "evout", "stin", "stout", "moin", "moout", "side", "qin", "qout", "5in", "5out", "7in", "7out"}

var busTemplates = []string{"stereo", "mono", "effectstereo", "effectmono", "sidechain", "m2s", "s2m", "dual", "midside", "panner", "5.1", "7.1", "mixer", "analyzer", "generator", "midi", "vocoder", "multi", "crossover", "splitter"}

func audioBus(dir, ch int32, name string, aux bool) mBus {
	b := mBus{0, dir, 0, ch, name, true}
	if aux {
		b.typ, b.active = 1, false
	}
	return b
}

func eventBus(dir int32, name string) mBus { return mBus{1, dir, 0, 1, name, true} }

func init() {
	core.Register(&core.Check{
		ID: "P33", Quick: 320000, Thorough: 6400000,
		Rule:      "A plugin builds a bus configuration (a template, or any sequence of builder calls, valid or not) and a host asks for counts and bus data, activates and deactivates buses that exist or do not, adds event buses, edits what it was given; blocks are routed through a multi-bus context over those buses, with missing channels, differing channel counts and block lengths. A list of buses is the model. Non-trivial: a bus changed its state and was asked for afterwards.",
		StateRule: "distinct (bus list, operation sequence)",
		Real:      []string{"pkg/framework/bus", "pkg/framework/process/multibus.go"},
		Stub:      []string{"host (queries, activation, block buffers)"},
		Assume:    []string{"a builder is not used any more after Build", "bus buffers given to the context carry their bus information", "auxiliary buses start inactive"},
		Must:      []string{"template", "builder", "invalid", "unknown-bus", "activate", "deactivate", "route", "pass", "clear", "sidechain", "copy-edited", "live-edit", "many-buses", "uneven-lengths", "same-name", "other-instance"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			var build, ops []core.Op
			top := 4
			if g.Chance(0.4) {
				c.SetS("template", busTemplates[g.N(len(busTemplates))])
				c.Set("n", int64(g.Range(1, 6)))
				if g.Chance(0.1) {
					c.Set("n", int64(g.Range(1, 32)))
					top = int(c.Cfg["n"]) + 1
				}
			} else {
				calls, bad := g.Range(0, 8), int64(1)
				if g.Chance(0.4) {
					c.Set("names", int64(g.Range(1, 3)))
				}
				if g.Chance(0.08) {
					calls, bad = g.Range(9, 40), 0 // a large desk, mostly valid
					top = calls / 2
				}
				for k := calls; k > 0; k-- {
					if bad == 0 && !g.Chance(0.03) {
						build = append(build, core.Op{K: busAdds[g.N(len(busAdds))], I: []int64{int64(g.Range(1, 32))}})
						continue
					}
					if g.Chance(0.12) {
						build = append(build, core.Op{K: "act", I: []int64{int64(g.N(2)), int64(g.N(2)), int64(g.Range(-1, 3)), int64(g.N(2))}})
						continue
					}
					build = append(build, core.Op{K: busAdds[g.N(len(busAdds))], I: []int64{int64(g.Pick(1, 2, 2, 6, 8, 32, 33, 0, -1, g.Range(1, 32)))}})
				}
				if g.Chance(0.7) {
					build = append(build, core.Op{K: "stout"})
				}
			}
			for k := g.Range(4, 20); k > 0; k-- {
				ops = append(ops, core.Op{K: g.PickS("info", "info", "counts", "active", "active", "set", "set", "set", "addev", "route", "route", "side", "edit", "live"),
					I: []int64{int64(g.N(2)), int64(g.N(2)), int64(g.Range(-1, top)), int64(g.N(2)), int64(g.N(1 << 20))}})
			}
			if top > 4 {
				for k := g.N(2 * top); k > 0; k-- {
					ops = append(ops, core.Op{K: g.PickS("info", "info", "set", "counts"), I: []int64{0, int64(g.N(2)), int64(g.N(top + 1)), int64(g.N(2)), 0}})
				}
			}
			c.Threads = [][]core.Op{build, ops}
			return c
		},
		Exec: execP33,
	})
	core.Register(&core.Check{
		ID: "P34", Quick: 308000, Thorough: 6160000,
		Rule:      "A simulated sequencer plays a timeline block by block: pre-roll before zero, tempo and meter changes at bar lines, loops, jumps, missing or invalid fields. The plugin asks for bars and beats, beat phase, beat detection and samples per beat, and musical time computed from the timeline must agree. Non-trivial: the position was negative or the meter changed.",
		StateRule: "distinct (meter, tempo, position, validity) sequences",
		Real:      []string{"pkg/framework/process.TransportInfo"},
		Stub:      []string{"host sequencer (timeline, tempo and meter map, validity flags)"},
		Assume:    []string{"bars count from the position zero in the current meter", "tempo counts quarter notes"},
		Must:      []string{"pre-roll", "loop", "meter", "missing", "on-beat", "off-beat", "invalid-meter", "other-bar", "cycle"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			c.SetF("sr", g.PickF(8000, 44100, 48000, 96000))
			c.SetF("pos", g.PickF(0, 0, -4, -0.5, 1000, g.FR(-20, 20), g.FR(-1000, 100000)))
			wild := g.Chance(0.1)
			if wild {
				c.SetF("sr", g.PickF(8000, 22050, 192000, 384000, 768000, 44100.5))
				c.SetF("pos", g.PickF(1e6, 5e6, 131072, -131073, -1e5, g.FR(-1e6, 1e7)))
			}
			var ops []core.Op
			for k := g.Range(3, 30); k > 0; k-- {
				if wild && g.Chance(0.4) {
					switch g.N(3) {
					case 0:
						ops = append(ops, core.Op{K: "tempo", F: []core.X{core.X(g.PickF(480, 481, 600, 960, 999, 1000, 2000, 5000, 1, 5, 10, 0.5, g.LogR(0.1, 10000)))}})
					case 1:
						ops = append(ops, core.Op{K: "meter", I: []int64{int64(g.Pick(13, 15, 16, 17, 21, 24, 32, 33, 64, 99, 127, 200)), int64(g.Pick(4, 8, 1, 2, 16, 32, 64, 128))}})
					default:
						ops = append(ops, core.Op{K: "jump", F: []core.X{core.X(g.PickF(1e6, 65536, 65537.5, -65536, -100000.25, 1e7, 5e9, -3e10, 1e12, g.FR(-1e6, 1e6), g.FR(-1e11, 1e11)))}})
					}
					continue
				}
				switch g.N(8) {
				case 0:
					ops = append(ops, core.Op{K: "meter", I: []int64{int64(g.Pick(4, 3, 6, 7, 12, 1, 5, 0, -3)), int64(g.Pick(4, 8, 2, 16, 1, 0, -4))}})
				case 1:
					ops = append(ops, core.Op{K: "tempo", F: []core.X{core.X(g.PickF(120, 60, 90.5, 300, 0, -10, g.FR(20, 300)))}})
				case 2:
					ops = append(ops, core.Op{K: "jump", F: []core.X{core.X(g.PickF(0, 1, -1, -0.25, g.FR(-50, 50), math.Floor(g.FR(-50, 500))))}})
				case 3:
					ops = append(ops, core.Op{K: "flags", I: []int64{int64(g.N(32))}, F: []core.X{core.X(g.PickF(0, 1.5, -2.25, 4, g.FR(-20, 20)))}})
				default:
					ops = append(ops, core.Op{K: "play", I: []int64{int64(g.Pick(1, 64, 512, 4096)), int64(g.Range(1, 20)), int64(g.Pick(0, 0, 0, 1, -1, 2, -7)), int64(g.N(8))}, F: []core.X{core.X(g.PickF(0.01, 0.1, 0, 0.25, g.F()*0.5, 0.5, g.F()))}})
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP34,
	})
}

// busTemplate makes a template and what it promises.
func busTemplate(name string, n int) (*bus.Configuration, []mBus) {
	in := func(ch int32, nm string) mBus { return audioBus(0, ch, nm, false) }
	out := func(ch int32, nm string) mBus { return audioBus(1, ch, nm, false) }
	switch name {
	case "stereo":
		return bus.NewStereoConfiguration(), []mBus{in(2, "Stereo In"), out(2, "Stereo Out")}
	case "mono":
		return bus.NewMonoConfiguration(), []mBus{in(1, "Mono In"), out(1, "Mono Out")}
	case "effectstereo":
		return bus.NewEffectStereo(), []mBus{in(2, "Stereo In"), out(2, "Stereo Out")}
	case "effectmono":
		return bus.NewEffectMono(), []mBus{in(1, "Mono In"), out(1, "Mono Out")}
	case "sidechain":
		return bus.NewEffectStereoSidechain(), []mBus{in(2, "Stereo In"), out(2, "Stereo Out"), audioBus(0, 2, "Sidechain In", true)}
	case "m2s":
		return bus.NewMonoToStereo(), []mBus{in(1, "Mono In"), out(2, "Stereo Out")}
	case "s2m":
		return bus.NewStereoToMono(), []mBus{in(2, "Stereo In"), out(1, "Mono Out")}
	case "dual":
		return bus.NewDualMono(), []mBus{in(1, "Left In"), in(1, "Right In"), out(1, "Left Out"), out(1, "Right Out")}
	case "midside":
		return bus.NewMidSideProcessor(), []mBus{in(2, "Stereo In"), out(2, "Stereo Out"), audioBus(1, 1, "Mid", true), audioBus(1, 1, "Side", true)}
	case "panner":
		return bus.NewSurroundPanner(), []mBus{in(2, "Stereo In"), out(6, "5.1 Out")}
	case "5.1":
		return bus.NewSurround5_1Effect(), []mBus{in(6, "5.1 In"), out(6, "5.1 Out")}
	case "7.1":
		return bus.NewSurround7_1Effect(), []mBus{in(8, "7.1 In"), out(8, "7.1 Out")}
	case "mixer":
		m := []mBus{in(2, "Channel In"), out(2, "Main Out")}
		for k := 1; k <= n; k++ {
			m = append(m, audioBus(1, 2, fmt.Sprintf("Send %d", k), true))
		}
		return bus.NewMixerChannel(n), m
	case "analyzer":
		return bus.NewAnalyzer(), []mBus{in(2, "Analysis In"), out(2, "Thru Out")}
	case "generator":
		return bus.NewGenerator(), []mBus{out(2, "Stereo Out"), eventBus(0, "MIDI In")}
	case "midi":
		return bus.NewMIDIEffect(), []mBus{eventBus(0, "MIDI In"), eventBus(1, "MIDI Out")}
	case "vocoder":
		return bus.NewVocoder(), []mBus{in(1, "Voice In"), out(1, "Vocoded Out"), audioBus(0, 2, "Carrier In", true)}
	case "multi":
		return bus.NewMultiChannelEffect(int32(n)), []mBus{in(int32(n), "Multi In"), out(int32(n), "Multi Out")}
	case "crossover":
		m := []mBus{in(2, "Stereo In")}
		for k := 1; k <= n; k++ {
			m = append(m, audioBus(1, 2, fmt.Sprintf("Band %d", k), true))
		}
		return bus.NewCrossover(n), append(m, out(2, "Main Out"))
	}
	m := []mBus{in(2, "Input")}
	for k := 1; k <= n; k++ {
		m = append(m, out(2, fmt.Sprintf("Output %d", k)))
	}
	return bus.NewSplitter(n), m
}

func findBus(m []mBus, media, dir, idx int32) *mBus {
	k := int32(0)
	for i := range m {
		if m[i].media == media && m[i].dir == dir {
			if k == idx {
				return &m[i]
			}
			k++
		}
	}
	return nil
}

func execP33(c *core.Case, r *core.Rec) {
	var cfg *bus.Configuration
	var m []mBus
	h := core.HashS(c.CfgS["template"]) + uint64(c.Cfg["n"])
	if t := c.CfgS["template"]; t != "" {
		n := int(min(max(c.Cfg["n"], 1), 32))
		if n > 8 {
			r.Probe("many-buses")
		}
		r.Probe("template")
		cfg, m = busTemplate(t, n)
		// other instances of the plugin: one from before, one from afterwards
		other, _ := busTemplate(t, n)
		defer func() {
			if r.Failed() {
				return
			}
			fresh, list := busTemplate(t, n)
			r.Probe("other-instance")
			for k, x := range []*bus.Configuration{other, fresh} {
				for _, w := range list {
					i := int32(0)
					for _, v := range list {
						if v == w {
							break
						}
						if v.media == w.media && v.dir == w.dir {
							i++
						}
					}
					if got := x.GetBusInfo(bus.MediaType(w.media), bus.Direction(w.dir), i); !w.same(got) {
						r.Fail("shared", "template", "template %s: after another configuration was used, configuration %d has %+v instead of %+v", t, k, got, w)
						return
					}
				}
				if a := x.GetBusCount(bus.MediaTypeAudio, bus.DirectionInput) + x.GetBusCount(bus.MediaTypeAudio, bus.DirectionOutput) + x.GetBusCount(bus.MediaTypeEvent, bus.DirectionInput) + x.GetBusCount(bus.MediaTypeEvent, bus.DirectionOutput); a != int32(len(list)) {
					r.Fail("shared", "template", "template %s: after another configuration was used, configuration %d has %d buses instead of %d", t, k, a, len(list))
					return
				}
			}
		}()
	} else {
		r.Probe("builder")
		b := bus.NewBuilder()
		bad := false
		for k, o := range c.Threads[0] {
			n := int32(o.Int(0))
			nm := fmt.Sprintf("bus %d", k)
			if c.Cfg["names"] > 0 { // names need not differ
				nm = fmt.Sprintf("bus %d", int64(k)%c.Cfg["names"])
				r.Probe("same-name")
			}
			h = core.HashU(h, core.HashS(o.K)+uint64(n))
			var ret *bus.Builder
			switch o.K {
			case "in":
				ret, m = b.WithAudioInput(nm, n), append(m, audioBus(0, n, nm, false))
			case "out":
				ret, m = b.WithAudioOutput(nm, n), append(m, audioBus(1, n, nm, false))
			case "auxin":
				ret, m = b.WithAuxInput(nm, n), append(m, audioBus(0, n, nm, true))
			case "auxout":
				ret, m = b.WithAuxOutput(nm, n), append(m, audioBus(1, n, nm, true))
			case "evin":
				ret, m = b.WithEventInput(nm), append(m, eventBus(0, nm))
			case "evout":
				ret, m = b.WithEventOutput(nm), append(m, eventBus(1, nm))
			case "stin":
				ret, m = b.WithStereoInput(nm), append(m, audioBus(0, 2, nm, false))
			case "stout":
				ret, m = b.WithStereoOutput(nm), append(m, audioBus(1, 2, nm, false))
			case "moin":
				ret, m = b.WithMonoInput(nm), append(m, audioBus(0, 1, nm, false))
			case "moout":
				ret, m = b.WithMonoOutput(nm), append(m, audioBus(1, 1, nm, false))
			case "side":
				ret, m = b.WithSidechain(nm), append(m, audioBus(0, 2, nm, true))
			case "qin":
				ret, m = b.WithQuadInput(nm), append(m, audioBus(0, 4, nm, false))
			case "qout":
				ret, m = b.WithQuadOutput(nm), append(m, audioBus(1, 4, nm, false))
			case "5in":
				ret, m = b.With5_1Input(nm), append(m, audioBus(0, 6, nm, false))
			case "5out":
				ret, m = b.With5_1Output(nm), append(m, audioBus(1, 6, nm, false))
			case "7in":
				ret, m = b.With7_1Input(nm), append(m, audioBus(0, 8, nm, false))
			case "7out":
				ret, m = b.With7_1Output(nm), append(m, audioBus(1, 8, nm, false))
			case "act":
				ret = b.SetBusActive(bus.MediaType(o.Int(0)), bus.Direction(o.Int(1)), int32(o.Int(2)), o.Int(3) == 1)
				if x := findBus(m, int32(o.Int(0)), int32(o.Int(1)), int32(o.Int(2))); x != nil {
					x.active = o.Int(3) == 1
				} else {
					bad = true
				}
			}
			if ret != b {
				r.Fail("builder", o.K, "%s returns another builder", o.K)
				return
			}
		}
		main := false
		for _, x := range m {
			main = main || x.dir == 1 && x.typ == 0
			bad = bad || x.ch <= 0 || x.ch > 32
		}
		bad = bad || !main
		got, err := b.Build()
		r.Eval()
		if (err != nil) != bad || (got == nil) != bad {
			r.Fail("validation", "Build", "%d buses, invalid: %v, Build returned %v and %v", len(m), bad, got != nil, err)
			return
		}
		if verr := b.Validate(); (verr != nil) != bad {
			r.Fail("validation", "Validate", "%d buses, invalid: %v, Validate returned %v", len(m), bad, verr)
			return
		}
		if bad {
			r.Probe("invalid")
			r.Fault("invalid-configuration")
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("validation", "MustBuild", "MustBuild returned an invalid configuration")
					}
				}()
				b.MustBuild()
			}()
			return
		}
		cfg = got
	}
	changed := false
	for n, o := range c.Threads[1] {
		media, dir, idx, flag := int32(o.Int(0)), int32(o.Int(1)), int32(o.Int(2)), o.Int(3) == 1
		h = core.HashU(h, core.HashS(o.K)+uint64(media*100+dir*10+idx))
		bm, bd := bus.MediaType(media), bus.Direction(dir)
		what := fmt.Sprintf("step %d (%s media %d, direction %d, index %d)", n, o.K, media, dir, idx)
		r.Eval()
		want := findBus(m, media, dir, idx)
		switch o.K {
		case "info":
			got := cfg.GetBusInfo(bm, bd, idx)
			if want == nil && got != nil || want != nil && !want.same(got) {
				r.Fail("bus", "GetBusInfo", "%s: %+v instead of %+v", what, got, want)
				return
			}
			r.NonTriv = r.NonTriv || changed
		case "counts":
			cnt, ai, ao := int32(0), int32(0), int32(0)
			for _, x := range m {
				if x.media == media && x.dir == dir {
					cnt++
				}
				if x.media == 0 && x.active && x.dir == 0 {
					ai += x.ch
				}
				if x.media == 0 && x.active && x.dir == 1 {
					ao += x.ch
				}
			}
			if a, b, d := cfg.GetBusCount(bm, bd), cfg.GetActiveInputChannelCount(), cfg.GetActiveOutputChannelCount(); a != cnt || b != ai || d != ao {
				r.Fail("count", "counts", "%s: %d buses, %d and %d active channels instead of %d, %d and %d", what, a, b, d, cnt, ai, ao)
				return
			}
			r.NonTriv = r.NonTriv || changed
		case "active", "edit":
			got := cfg.GetActiveBuses(bm, bd)
			var w []mBus
			for _, x := range m {
				if x.media == media && x.dir == dir && x.active {
					w = append(w, x)
				}
			}
			ok := len(got) == len(w)
			for k := range w {
				ok = ok && w[k].same(&got[k])
			}
			if !ok {
				r.Fail("active", "GetActiveBuses", "%s: %+v instead of %+v", what, got, w)
				return
			}
			if o.K == "edit" {
				// The list is the caller's.
				r.Probe("copy-edited")
				for k := range got {
					got[k].IsActive = false
					got[k].ChannelCount = 99
				}
			}
			r.NonTriv = r.NonTriv || changed
		case "set":
			err := cfg.SetBusActive(bm, bd, idx, flag)
			if (err == nil) != (want != nil) {
				r.Fail("activation", "SetBusActive", "%s returned %v", what, err)
				return
			}
			if want == nil {
				r.Probe("unknown-bus")
				r.Fault("unknown-bus")
				continue
			}
			if flag {
				r.Probe("activate")
			} else {
				r.Probe("deactivate")
			}
			changed = changed || want.active != flag
			want.active = flag
		case "live":
			// What GetBusInfo gives is the bus itself.
			if got := cfg.GetBusInfo(bm, bd, idx); got != nil && want != nil {
				r.Probe("live-edit")
				got.IsActive = flag
				want.active = flag
			}
		case "addev":
			nm := fmt.Sprintf("events %d", n)
			cfg.AddEventBus(bd, nm)
			m = append(m, eventBus(dir, nm))
		case "side":
			var w *mBus
			for k := range m {
				if m[k].media == 0 && m[k].dir == 0 && m[k].typ == 1 {
					w = &m[k]
					break
				}
			}
			got := cfg.GetSidechainBus()
			if cfg.HasSidechain() != (w != nil) || (got != nil) != (w != nil) || w != nil && !w.same(got) {
				r.Fail("sidechain", "GetSidechainBus", "%s: %+v instead of %+v", what, got, w)
				return
			}
			if w != nil {
				r.Probe("sidechain")
			}
		case "route":
			if !p33Route(r, cfg, m, core.NewR(uint64(o.Int(4))), what) {
				return
			}
		}
	}
	r.State(h)
}

// p33Route routes one block over the audio buses.
func p33Route(r *core.Rec, cfg *bus.Configuration, m []mBus, g *core.R, what string) bool {
	r.Probe("route")
	ctx := process.NewMultiBusContext(process.NewContext(64, param.NewRegistry()), cfg)
	var ins, outs []process.BusBuffers
	var mi, mo []mBus
	n := g.Range(0, 8)
	stamp := float32(1)
	cnt := [2]int32{}
	for _, x := range m {
		if x.media != 0 {
			continue
		}
		info := cfg.GetBusInfo(bus.MediaTypeAudio, bus.Direction(x.dir), cnt[x.dir])
		cnt[x.dir]++
		if info == nil {
			r.Fail("bus", "GetBusInfo", "%s: bus %s has disappeared", what, x.name)
			return false
		}
		b := process.BusBuffers{BusInfo: info}
		nch := int(x.ch)
		if g.Chance(0.2) {
			nch = g.N(nch + 1) // the host connected fewer channels
			r.Fault("missing-channels")
		}
		uneven := g.Chance(0.15) // the host's buffers are not all of one length
		if uneven {
			r.Probe("uneven-lengths")
			r.Fault("uneven-lengths")
		}
		for ch := 0; ch < nch; ch++ {
			v := make([]float32, n)
			if uneven {
				v = make([]float32, g.N(n+3))
			}
			for i := range v {
				v[i] = stamp
				stamp++
			}
			b.Channels = append(b.Channels, v)
		}
		if x.dir == 0 {
			ins, mi = append(ins, b), append(mi, x)
		} else {
			outs, mo = append(outs, b), append(mo, x)
		}
	}
	ctx.InputBuses, ctx.OutputBuses = ins, outs
	same := func(a, b [][]float32) bool {
		if len(a) != len(b) {
			return false
		}
		for k := range a {
			if len(a[k]) != len(b[k]) || len(a[k]) > 0 && &a[k][0] != &b[k][0] {
				return false
			}
		}
		return true
	}
	first := func(l []mBus, b []process.BusBuffers, typ int32) [][]float32 {
		for k := range l {
			if l[k].typ == typ {
				return b[k].Channels
			}
		}
		return nil
	}
	fail := func(k string) bool {
		r.Fail("routing", k, "%s: %s is wrong for %d input and %d output buses", what, k, len(mi), len(mo))
		return false
	}
	mainIn, side, mainOut := first(mi, ins, 0), first(mi, ins, 1), first(mo, outs, 0)
	if !same(ctx.GetMainInput(), mainIn) {
		return fail("GetMainInput")
	}
	if !same(ctx.GetMainOutput(), mainOut) {
		return fail("GetMainOutput")
	}
	if !same(ctx.GetSidechainInput(), side) {
		return fail("GetSidechainInput")
	}
	if ctx.NumInputBuses() != len(ins) || ctx.NumOutputBuses() != len(outs) {
		return fail("the number of buses")
	}
	for k := -1; k <= len(ins); k++ {
		ok := k >= 0 && k < len(ins)
		if got := ctx.GetInputBus(k); ok && !same(got, ins[k].Channels) || !ok && got != nil {
			return fail("GetInputBus")
		}
		if got := ctx.GetInputBusInfo(k); ok && got != ins[k].BusInfo || !ok && got != nil {
			return fail("GetInputBusInfo")
		}
	}
	for k := -1; k <= len(outs); k++ {
		ok := k >= 0 && k < len(outs)
		if got := ctx.GetOutputBus(k); ok && !same(got, outs[k].Channels) || !ok && got != nil {
			return fail("GetOutputBus")
		}
		if got := ctx.GetOutputBusInfo(k); ok && got != outs[k].BusInfo || !ok && got != nil {
			return fail("GetOutputBusInfo")
		}
	}
	walk := func(l []mBus, b []process.BusBuffers, f func(func(int, [][]float32, *bus.Info))) bool {
		var w, got []int
		for k := range l {
			if l[k].active {
				w = append(w, k)
			}
		}
		ok := true
		f(func(k int, ch [][]float32, info *bus.Info) {
			got = append(got, k)
			ok = ok && k >= 0 && k < len(b) && same(ch, b[k].Channels) && info == b[k].BusInfo
		})
		return ok && fmt.Sprint(w) == fmt.Sprint(got)
	}
	if !walk(mi, ins, ctx.ProcessInputBuses) {
		return fail("ProcessInputBuses")
	}
	if !walk(mo, outs, ctx.ProcessOutputBuses) {
		return fail("ProcessOutputBuses")
	}
	calls := 0
	ctx.ProcessMainBuses(func(a, b [][]float32) {
		calls++
		if !same(a, mainIn) || !same(b, mainOut) {
			calls += 10
		}
	})
	ctx.ProcessWithSidechain(func(a, s, b [][]float32) {
		calls += 100
		if !same(a, mainIn) || !same(s, side) || !same(b, mainOut) {
			calls += 1000
		}
	})
	w := 0
	if mainIn != nil && mainOut != nil {
		w = 101
	}
	if calls != w {
		return fail("ProcessMainBuses or ProcessWithSidechain")
	}
	// Now what the two routing commands write, and nothing else.
	snap := func(b []process.BusBuffers) [][][]float32 {
		var s [][][]float32
		for _, x := range b {
			var t [][]float32
			for _, ch := range x.Channels {
				t = append(t, append([]float32(nil), ch...))
			}
			s = append(s, t)
		}
		return s
	}
	si, so := snap(ins), snap(outs)
	clear := g.Chance(0.5)
	if clear {
		r.Probe("clear")
		ctx.ClearAllOutputs()
	} else {
		r.Probe("pass")
		ctx.PassThroughAll()
	}
	for k := range outs {
		for ch := range outs[k].Channels {
			for i, v := range outs[k].Channels[ch] {
				want := so[k][ch][i]
				if clear {
					want = 0
				} else if k < len(si) && ch < len(si[k]) && i < len(si[k][ch]) {
					want = si[k][ch][i]
				}
				if v != want {
					return fail("what PassThroughAll or ClearAllOutputs writes")
				}
			}
		}
	}
	for k := range ins {
		for ch := range ins[k].Channels {
			for i, v := range ins[k].Channels[ch] {
				if v != si[k][ch][i] {
					return fail("an input after routing")
				}
			}
		}
	}
	return true
}

func execP34(c *core.Case, r *core.Rec) {
	sr := float64(c.CfgF["sr"])
	if sr <= 0 {
		return
	}
	pos := float64(c.CfgF["pos"])
	num, den, tempo := 4, 4, 120.0
	flags, cyc := int64(15), 0.0
	h := math.Float64bits(pos)
	n := 0
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)*17+o.Int(1)))
		switch o.K {
		case "meter":
			num, den = int(o.Int(0)), int(o.Int(1))
			r.Probe("meter")
			r.Fault("meter-change")
			r.NonTriv = true
		case "tempo":
			tempo = o.Flt(0)
			r.Fault("tempo-change")
		case "jump":
			pos = o.Flt(0)
			r.Probe("loop")
			r.Fault("jump")
		case "flags":
			flags = o.Int(0)
			cyc = o.Flt(0)
			if flags&15 != 15 {
				r.Probe("missing")
				r.Fault("missing-fields")
			}
		case "play":
			thr := o.Flt(0)
			for k := int64(0); k < o.Int(1); k++ {
				n++
				r.Eval()
				t := &process.TransportInfo{ProjectTimeMusic: pos, TimeSigNumerator: int32(num), TimeSigDenominator: int32(den), Tempo: tempo,
					HasMusicalTime: flags&1 != 0, HasTimeSignature: flags&2 != 0, HasTempo: flags&4 != 0, HasBarPosition: flags&8 != 0}
				meter := num > 0 && den > 0
				if !meter {
					r.Probe("invalid-meter")
				}
				bar := 4.0
				if meter {
					bar = 4 * float64(num) / float64(den)
				}
				t.BarPositionMusic = math.Floor(pos/bar) * bar
				if shift := o.Int(2); shift != 0 { // the host names another bar line, also one ahead
					t.BarPositionMusic += float64(shift) * bar
					r.Probe("other-bar")
				}
				if flags&16 != 0 {
					t.HasCycle, t.CycleStartMusic, t.CycleEndMusic = true, cyc, cyc+7.3
					r.Probe("cycle")
				}
				t.IsPlaying, t.IsRecording, t.IsCycling = o.Int(3)&1 != 0, o.Int(3)&2 != 0, o.Int(3)&4 != 0
				if pos < 0 {
					r.Probe("pre-roll")
					r.NonTriv = true
				}
				if !p34Ask(r, t, meter, bar, sr, thr) {
					return
				}
				if tempo > 0 {
					pos += float64(o.Int(0)) / sr * tempo / 60
				}
			}
			r.SimNs += float64(o.Int(0)*o.Int(1)) / sr * 1e9
		}
	}
	r.State(h)
}

func p34Ask(r *core.Rec, t *process.TransportInfo, meter bool, bar, sr, thr float64) bool {
	what := fmt.Sprintf("%d/%d at %g quarters (bar line %g), tempo %g, valid time %v meter %v tempo %v bar %v", t.TimeSigNumerator, t.TimeSigDenominator, t.ProjectTimeMusic, t.BarPositionMusic, t.Tempo, t.HasMusicalTime, t.HasTimeSignature, t.HasTempo, t.HasBarPosition)
	pos := t.ProjectTimeMusic
	eps := 1e-9 + 1e-12*(math.Abs(pos)+math.Abs(t.BarPositionMusic))
	bars, beats := t.GetBarsBeats()
	if !t.HasMusicalTime || !t.HasTimeSignature || !meter {
		if bars != 0 || beats != 0 {
			r.Fail("bars", "missing", "%s: bar %d, beat %g", what, bars, beats)
			return false
		}
	} else {
		unit := 4 / float64(t.TimeSigDenominator)
		if back := float64(bars)*bar + beats*unit; !(math.Abs(back-pos) <= eps) {
			r.Fail("bars", "sum", "%s: bar %d and beat %g are at %g", what, bars, beats, back)
			return false
		}
		if !(beats >= -eps && beats <= float64(t.TimeSigNumerator)+eps) {
			r.Fail("bars", "beat", "%s: bar %d, beat %g", what, bars, beats)
			return false
		}
	}
	beat := t.GetBeatPosition()
	unit := 1.0
	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
		unit = 4 / float64(t.TimeSigDenominator)
	}
	if !t.HasMusicalTime || !t.HasBarPosition {
		if beat != 0 {
			r.Fail("phase", "missing", "%s: beat phase %g", what, beat)
			return false
		}
	} else {
		x := (pos - t.BarPositionMusic) / unit
		want := x - math.Floor(x)
		d := math.Abs(beat - want)
		d = math.Min(d, 1-d)
		if !(beat >= 0 && beat <= 1 && d <= eps/unit) {
			r.Fail("phase", "beat", "%s: beat phase %g instead of %g", what, beat, want)
			return false
		}
		near := math.Min(want, 1-want)
		if math.Abs(near-thr) > 2*eps/unit {
			got := t.IsOnBeat(thr)
			if got != (near < thr) {
				r.Fail("on-beat", "IsOnBeat", "%s: IsOnBeat(%g) is %v at phase %g", what, thr, got, want)
				return false
			}
			if got {
				r.Probe("on-beat")
			} else {
				r.Probe("off-beat")
			}
		}
	}
	spb, want := t.GetSamplesPerBeat(sr), 0.0
	if t.HasTempo && t.Tempo > 0 {
		want = sr * 60 / t.Tempo
	}
	if !(math.Abs(spb-want) <= 1e-9*want) {
		r.Fail("samples", "GetSamplesPerBeat", "%s: %g samples per beat instead of %g", what, spb, want)
		return false
	}
	return true
}
