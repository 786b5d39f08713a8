package frame

import (
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/voice"
	"github.com/justyntemme/vst3go/pkg/midi"
)

// P10: voice allocation. The voices are simulated: they fall silent at seeded
// moments (held or released), and record every call the allocator makes.

type simVoice struct {
	id       int
	active   bool
	released bool
	note     uint8
	vel      uint8
	amp      float64
	age      int64
	die      int64 // age at which a held voice falls silent, 0 = never
	tail     int64 // samples a released voice rings
	relAge   int64
	calls    []string
	trig     int
	stop     int
	rel      int
	slope    float64
	g        *core.R
	mortal   float64
}

func (v *simVoice) IsActive() bool        { return v.active }
func (v *simVoice) GetNote() uint8        { return v.note }
func (v *simVoice) GetVelocity() uint8    { return v.vel }
func (v *simVoice) GetAmplitude() float64 { return v.amp }
func (v *simVoice) GetAge() int64         { return v.age }
func (v *simVoice) Process([]float32)     {}
func (v *simVoice) TriggerNote(n, vel uint8) {
	v.active, v.released, v.note, v.vel = true, false, n, vel
	v.age, v.relAge = 0, 0
	v.amp = float64(vel)/127 + float64(v.g.N(64))/1024
	v.slope = 1 - float64(v.g.N(50))/1000
	v.die = 0
	if v.g.Chance(v.mortal) {
		v.die = int64(v.g.Range(1, 3)) * 64
	}
	v.tail = int64(v.g.Pick(0, 0, 64, 128, 640))
	v.trig++
}
func (v *simVoice) ReleaseNote() {
	v.rel++
	if v.active && !v.released {
		v.released, v.relAge = true, v.age
		if v.tail == 0 {
			v.active = false
		}
	}
}
func (v *simVoice) Stop() {
	v.stop++
	v.active, v.released = false, false
}

// run advances the voice by n samples; true if it fell silent while held.
func (v *simVoice) run(n int64) bool {
	if !v.active {
		return false
	}
	v.age += n
	v.amp *= v.slope
	if v.released && v.age-v.relAge >= v.tail {
		v.active = false
	} else if !v.released && v.die > 0 && v.age >= v.die {
		v.active = false
		return true
	}
	return false
}

func (v *simVoice) held() bool { return v.active && !v.released }

type voiceView struct {
	active, held bool
	note         int // logical note
	age          int64
	amp          float64
	pitch        uint8
}

func init() {
	core.Register(&core.Check{
		ID: "P10", Quick: 333000, Thorough: 6660000,
		Rule:      "A session of key presses and releases (notes 0-127, few distinct), sustain pedal moves, mode, steal-mode and voice-limit changes, resets and audio blocks drives the allocator of 1-8 (now and then up to 130, with all 128 notes) simulated voices, blocks from 16 samples to years long; voices ring on after release and fall silent at seeded moments, also while their key is held. Every call the allocator makes on a voice is judged against the keys and pedal at that moment; at the end all keys and the pedal go up and nothing may hang. Non-trivial: a steal, a voice that fell silent while held, or a pedal release with keys down.",
		StateRule: "distinct hashes of (mode, keys down, pedal, voice states) met",
		Real:      []string{"pkg/framework/voice.Allocator", "pkg/midi events"}, Stub: []string{"voices", "keyboard and pedal", "sample clock"},
		Assume: []string{"one thread drives the allocator", "at least one voice"},
		Must:   []string{"steal", "died-held", "pedal-up-with-keys-down", "restruck-sustained", "limit-lowered", "refused", "legato-transition", "unison"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			nv := g.Pick(1, 2, 2, 3, 4, 8)
			notes := g.Range(2, 6)
			steps := g.Range(4, 30)
			if g.Chance(0.02) {
				nv, notes, steps = g.Pick(16, 33, 130), 128, g.Range(50, 400)
			}
			c.Set("voices", int64(nv))
			c.Set("mode", int64(g.Pick(0, 0, 0, 1, 2, 3)))
			c.Set("steal", int64(g.N(5)))
			c.SetF("mortal", g.PickF(0, 0.2, 0.6))
			base := g.Pick(0, 60, 127-notes)
			if notes == 128 {
				base = 0
			}
			var ops []core.Op
			for k := steps; k > 0; k-- {
				n := int64(base + g.N(notes))
				switch x := g.N(40); {
				case x < 14:
					ops = append(ops, core.Op{K: "on", I: []int64{n, int64(g.Range(1, 127)), int64(g.N(2))}})
				case x < 24:
					ops = append(ops, core.Op{K: "off", I: []int64{n, int64(g.N(3))}})
				case x < 30:
					ops = append(ops, core.Op{K: "pedal", I: []int64{int64(g.Pick(0, 0, 63, 64, 127, 127)), int64(g.N(2))}})
				case x < 36:
					ops = append(ops, core.Op{K: "run", I: []int64{int64(g.PickF(16, 64, 64, 200, 1000, 1000, 1e9, 3e9, 1e13))}})
				case x == 36:
					ops = append(ops, core.Op{K: "limit", I: []int64{int64(g.N(nv + 2))}})
				case x == 37:
					ops = append(ops, core.Op{K: "steal", I: []int64{int64(g.N(5))}})
				case x == 38 && g.Chance(0.3):
					ops = append(ops, core.Op{K: "mode", I: []int64{int64(g.N(4))}})
				case x == 39 && g.Chance(0.2):
					ops = append(ops, core.Op{K: "reset"})
				default:
					ops = append(ops, core.Op{K: "other", I: []int64{n, int64(g.N(3))}})
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP10,
	})
}

func execP10(c *core.Case, r *core.Rec) {
	g := core.NewR(c.Seed)
	nv := int(c.Cfg["voices"])
	if nv < 1 {
		nv = 1
	}
	sv := make([]*simVoice, nv)
	vs := make([]voice.Voice, nv)
	for k := range sv {
		sv[k] = &simVoice{id: k, g: g, mortal: float64(c.CfgF["mortal"])}
		vs[k] = sv[k]
	}
	a := voice.NewAllocator(vs)
	mode, steal, limit := 0, 0, nv
	logical := make([]int, nv)
	keys := map[int]bool{}
	pedal := false
	anyKeyMono := -1 // the note a mono or legato voice is logically held for
	fail := func(class, f string, args ...any) { r.Fail(class, class, f, args...) }
	view := func() []voiceView {
		o := make([]voiceView, nv)
		for k, v := range sv {
			o[k] = voiceView{v.active, v.held(), logical[k], v.age, v.amp, v.note}
			v.trig, v.stop, v.rel = 0, 0, 0
		}
		return o
	}
	allSilent := func(what string) bool {
		for k, v := range sv {
			if v.active {
				fail("not-silenced", "%s left voice %d sounding", what, k)
				return false
			}
		}
		return true
	}
	reset := func() {
		keys, pedal, anyKeyMono = map[int]bool{}, false, -1
	}
	// untouched: no held voice other than the listed ones may have been released, stopped or triggered.
	untouched := func(what string, before []voiceView, except map[int]bool) bool {
		for k, v := range sv {
			if except[k] {
				continue
			}
			if v.trig > 0 {
				fail("stray-trigger", "%s triggered voice %d (note %d)", what, k, before[k].note)
				return false
			}
			if before[k].held && (v.rel > 0 || v.stop > 0) {
				fail("note-cut", "%s silenced voice %d, held for note %d", what, k, before[k].note)
				return false
			}
			if before[k].active && v.stop > 0 {
				fail("tail-cut", "%s stopped voice %d ringing for note %d", what, k, before[k].note)
				return false
			}
		}
		return true
	}
	noteOn := func(n int, vel int, viaEvent bool) bool {
		before := view()
		wasSustained := pedal && !keys[n]
		if viaEvent {
			a.ProcessEvent(midi.NoteOnEvent{NoteNumber: uint8(n), Velocity: uint8(vel)})
		} else {
			a.NoteOn(uint8(n), uint8(vel))
		}
		keys[n] = true
		switch mode {
		case 0:
			own, free, active := []int{}, 0, 0
			for k := 0; k < limit; k++ {
				if before[k].held && before[k].note == n {
					own = append(own, k)
				}
				if !before[k].active {
					free++
				} else {
					active++
				}
			}
			var trig []int
			for k, v := range sv {
				if v.trig > 0 {
					trig = append(trig, k)
					if k >= limit {
						fail("over-limit", "note %d plays on voice %d beyond the limit of %d", n, k, limit)
						return false
					}
					if !v.active || v.note != uint8(n) || v.vel != uint8(vel) {
						fail("wrong-note", "voice %d was triggered but plays note %d velocity %d (active %v) instead of %d/%d", k, v.note, v.vel, v.active, n, vel)
						return false
					}
				}
			}
			if len(own) > 0 {
				if wasSustained {
					r.Probe("restruck-sustained")
				}
				for _, k := range own {
					if sv[k].trig == 0 {
						fail("not-retriggered", "note %d is held by voice %d, which was not retriggered", n, k)
						return false
					}
				}
				if len(trig) != len(own) {
					fail("stray-trigger", "note %d was held by voices %v, triggered %v", n, own, trig)
					return false
				}
			} else if len(trig) == 0 {
				if free > 0 || steal != 4 {
					fail("note-lost", "note %d was not played with %d of %d voices free (steal mode %d)", n, free, limit, steal)
					return false
				}
				r.Probe("refused")
				return untouched("a refused note", before, nil)
			} else if len(trig) > 1 {
				fail("doubled", "note %d was given voices %v", n, trig)
				return false
			} else if k := trig[0]; before[k].active {
				ownTail := before[k].pitch == uint8(n) && !before[k].held
				if !ownTail {
					if free > 0 {
						fail("needless-steal", "note %d stole voice %d (note %d) with %d voices free", n, k, before[k].note, free)
						return false
					}
					if steal == 4 {
						fail("stolen", "note %d stole voice %d although stealing is off", n, k)
						return false
					}
					r.Probe("steal")
					r.Fault("voice-stolen")
					r.NonTriv = true
					for j := 0; j < limit; j++ {
						if before[j].active && better(steal, before[j], before[k]) {
							fail("wrong-victim", "steal mode %d took voice %d %+v rather than voice %d %+v", steal, k, before[k], j, before[j])
							return false
						}
					}
				}
			}
			ex := map[int]bool{}
			for _, k := range trig {
				logical[k] = n
				ex[k] = true
			}
			if !untouched("a note-on", before, ex) {
				return false
			}
		case 1, 2:
			trans := mode == 2 && before[0].held && anyKeyMono >= 0
			if trans {
				r.Probe("legato-transition")
				if sv[0].trig > 0 || sv[0].stop > 0 || sv[0].rel > 0 {
					fail("legato-retrigger", "an overlapping legato note %d retriggered the voice playing %d", n, logical[0])
					return false
				}
				if n != int(before[0].pitch) && sv[0].note != uint8(n) {
					r.Fail("legato-pitch", "legato-pitch: the voice is not told about an overlapping note", "legato note %d is never passed to the voice, which goes on playing %d", n, sv[0].note)
				}
			} else if sv[0].trig == 0 || !sv[0].active || sv[0].note != uint8(n) || sv[0].vel != uint8(vel) {
				fail("note-lost", "note %d was not played in mono mode %d", n, mode)
				return false
			}
			logical[0] = n
			anyKeyMono = n
			for k := 1; k < nv; k++ {
				if sv[k].active {
					fail("not-mono", "voice %d sounds in mono mode", k)
					return false
				}
			}
		default:
			r.Probe("unison")
			for k := 0; k < nv; k++ {
				if k < limit && (!sv[k].active || sv[k].note != uint8(n) || sv[k].vel != uint8(vel) || sv[k].trig == 0) {
					fail("note-lost", "unison note %d is not played by voice %d", n, k)
					return false
				}
				if k >= limit && sv[k].trig > 0 {
					fail("over-limit", "unison note %d plays on voice %d beyond the limit of %d", n, k, limit)
					return false
				}
				if k < limit {
					logical[k] = n
				}
			}
		}
		return true
	}
	// released judges the voices after keys[] or the pedal changed.
	released := func(what string, before []voiceView, only int) bool {
		for k, v := range sv {
			must := before[k].held && !pedal && !keys[before[k].note]
			if must && v.held() {
				fail("note-hangs", "%s left voice %d sounding for note %d, whose key is up", what, k, before[k].note)
				return false
			}
			if before[k].held && !must && (v.rel > 0 || v.stop > 0) {
				fail("note-cut", "%s silenced voice %d, held for note %d", what, k, before[k].note)
				return false
			}
			if before[k].active && v.stop > 0 {
				fail("tail-cut", "%s stopped voice %d without a release", what, k)
				return false
			}
			if v.trig > 0 {
				fail("stray-trigger", "%s triggered voice %d", what, k)
				return false
			}
			if must && (mode == 1 || mode == 2) && k == 0 {
				anyKeyMono = -1
			}
		}
		return true
	}
	samples := int64(0)
	check := func() bool {
		n := 0
		for _, v := range sv {
			if v.active {
				n++
			}
		}
		if n > limit {
			fail("over-limit", "%d voices sound with a limit of %d", n, limit)
			return false
		}
		if got := a.GetActiveVoiceCount(); got != n {
			fail("active-count", "the active voice count is %d, %d voices sound", got, n)
			return false
		}
		h := core.HashU(uint64(mode), uint64(limit))
		for k, v := range sv {
			x := uint64(k)
			if v.active {
				x |= 16
			}
			if v.held() {
				x |= 32 | uint64(logical[k])<<8
			}
			if keys[logical[k]] {
				x |= 64
			}
			h = core.HashU(h, x)
		}
		if pedal {
			h++
		}
		r.State(h)
		r.Observe(h)
		return true
	}
	a.SetMode(voice.AllocationMode(c.Cfg["mode"]))
	mode = int(c.Cfg["mode"])
	a.SetStealingMode(voice.StealingMode(c.Cfg["steal"]))
	steal = int(c.Cfg["steal"])
	r.Eval()
	doOff := func(n int, how int64) bool {
		before := view()
		keys[n] = false
		switch how {
		case 0:
			a.NoteOff(uint8(n), 64)
		case 1:
			a.ProcessEvent(midi.NoteOffEvent{NoteNumber: uint8(n), Velocity: 3})
		default:
			a.ProcessEvent(midi.NoteOnEvent{NoteNumber: uint8(n), Velocity: 0})
		}
		return released("a note-off", before, n)
	}
	doPedal := func(v int, direct bool) bool {
		before := view()
		was := pedal
		pedal = v >= 64
		if was && !pedal {
			for k := range sv {
				if before[k].held && keys[before[k].note] {
					r.Probe("pedal-up-with-keys-down")
					r.NonTriv = true
				}
			}
		}
		if direct {
			a.SetSustainPedal(pedal)
		} else {
			a.ProcessEvent(midi.ControlChangeEvent{Controller: midi.CCSustain, Value: uint8(v)})
		}
		return released("the pedal", before, -1)
	}
	for _, o := range c.Threads[0] {
		switch o.K {
		case "on":
			vel := int(o.Int(1))
			if vel < 1 {
				vel = 1
			}
			if !noteOn(int(o.Int(0)), vel, o.Int(2) == 1) {
				return
			}
		case "off":
			if !doOff(int(o.Int(0)), o.Int(1)) {
				return
			}
		case "pedal":
			if !doPedal(int(o.Int(0)), o.Int(1) == 1) {
				return
			}
		case "run":
			samples += o.Int(0)
			for _, v := range sv {
				if v.run(o.Int(0)) {
					r.Probe("died-held")
					r.Fault("voice-fell-silent")
					r.NonTriv = true
				}
			}
		case "limit":
			before := view()
			limit0 := limit
			limit = int(o.Int(0))
			a.SetMaxVoices(limit)
			limit = max(1, min(limit, nv))
			ex := map[int]bool{}
			for k := limit; k < nv; k++ {
				ex[k] = true
				if before[k].active && k < limit0 {
					r.Probe("limit-lowered")
				}
			}
			if !untouched("a voice-limit change", before, ex) {
				return
			}
		case "steal":
			before := view()
			steal = int(o.Int(0)) % 5
			a.SetStealingMode(voice.StealingMode(steal))
			if !untouched("a steal-mode change", before, nil) {
				return
			}
		case "mode":
			mode = int(o.Int(0)) % 4
			a.SetMode(voice.AllocationMode(mode))
			reset()
			if !allSilent("a mode change") {
				return
			}
		case "reset":
			a.Reset()
			reset()
			if !allSilent("Reset") {
				return
			}
		case "other":
			before := view()
			switch o.Int(1) {
			case 0:
				a.ProcessEvent(midi.ControlChangeEvent{Controller: 1, Value: 0})
			case 1:
				a.ProcessEvent(midi.PolyPressureEvent{NoteNumber: uint8(o.Int(0)), Pressure: 0})
			default:
				a.ProcessEvent(midi.PitchBendEvent{Value: 0})
			}
			if !untouched("an unrelated event", before, nil) {
				return
			}
		}
		if !check() {
			return
		}
	}
	// Everything up: nothing may hang.
	for n := 0; n < 128; n++ {
		if keys[n] && !doOff(n, int64(n%3)) {
			return
		}
	}
	if !doPedal(0, true) {
		return
	}
	for _, v := range sv {
		if v.held() {
			fail("note-hangs", "all keys and the pedal are up but voice %d still holds note %d", v.id, logical[v.id])
			return
		}
	}
	r.SimNs += float64(samples) / 48000 * 1e9
}

// better: x must be stolen before y.
func better(steal int, x, y voiceView) bool {
	switch steal {
	case 0:
		return x.age > y.age
	case 1:
		return x.amp < y.amp
	case 2:
		return x.pitch > y.pitch
	case 3:
		return x.pitch < y.pitch
	}
	return false
}
