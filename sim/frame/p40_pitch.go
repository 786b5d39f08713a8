package frame

import (
	"fmt"
	"math"
	"strings"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/midi"
)

// P40: notes, pitches, names and event descriptions agree with each other.

var pitchNames = []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}

func init() {
	core.Register(&core.Check{
		ID: "P40", Quick: 320000, Thorough: 6400000,
		Rule:      "1-3 threads (instrument, tuner, monitor) turn notes into frequencies and names, detected frequencies (detuned by up to just under half a semitone, far outside the MIDI range, zero, negative, NaN, infinite) into notes, and events of every kind into type and text, at tunings that change between calls, under a seeded schedule. Each answer is compared with equal temperament computed in double precision. Non-trivial: the tuning changed or a detected frequency was off pitch.",
		StateRule: "distinct (operation, note, rounded detune, tuning) sequences",
		Real:      []string{"pkg/midi events, NoteToFrequency, FrequencyToNote, NoteNumberToName"}, Stub: []string{"instrument, tuner and monitor threads", "thread scheduler"},
		Assume: []string{"a frequency exactly half-way between two notes may go to either", "what a NaN frequency is called is left open, within the MIDI range"},
		Must:   []string{"tuned", "detuned", "out-of-range", "invalid-frequency", "round-trip", "event"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Pick(1, 1, 2, 3)
			for t := 0; t < n; t++ {
				var ops []core.Op
				for k := g.Range(3, 12); k > 0; k-- {
					note := int64(g.N(128))
					if g.Chance(0.1) {
						note = int64(g.Pick(0, 127, 69, 60, 68, 70, 81, 57))
					}
					switch g.N(8) {
					case 0:
						ops = append(ops, core.Op{K: "tune", F: []core.X{core.X(g.PickF(440, 0, 432, 442, 415, 466.16, 440+g.FR(-0.2, 0.2), g.FR(400, 480), 392, 220, 880, 256, 1, g.LogR(1, 2000)))}})
					case 1:
						ops = append(ops, core.Op{K: "freq", I: []int64{note}})
					case 2, 3:
						ops = append(ops, core.Op{K: "trip", I: []int64{note}})
					case 4:
						ops = append(ops, core.Op{K: "detect", I: []int64{int64(g.Range(-60, 190))}, F: []core.X{core.X(g.FR(-0.499, 0.499))}})
					case 5:
						if g.Chance(0.3) {
							ops = append(ops, core.Op{K: "bad", F: []core.X{core.X(g.PickF(0, -1, -440, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64))}})
						} else {
							ops = append(ops, core.Op{K: "name", I: []int64{note, int64(g.N(4)), int64(g.N(6))}})
						}
					default:
						ops = append(ops, core.Op{K: "event", I: []int64{int64(g.N(11)), int64(g.Pick(g.N(16), g.N(16), g.N(256))), note, int64(g.N(128)), int64(g.Range(-8192, 8191)), int64(g.Range(-3, 5000))}})
					}
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, n, 120, true)}
			return c
		},
		Exec: execP40,
	})
}

// spellNote writes a note in one of its spellings: plain, lowered from the
// letter above or raised from the letter below, in some case and with blanks.
func spellNote(note, how, style int) string {
	const letters = "C D EF G A B" // the white keys
	pc := note % 12
	w := ""
	switch up, dn := (pc+1)%12, (pc+11)%12; {
	case how == 1 && letters[up] != ' ': // flat of the key above
		w = fmt.Sprintf("%cb%d", letters[up], (note+1)/12-1)
	case how == 2 && letters[dn] != ' ': // sharp of the key below
		w = fmt.Sprintf("%c#%d", letters[dn], (note+11)/12-2)
	default:
		w = fmt.Sprintf("%s%d", pitchNames[pc], note/12-1)
	}
	switch style {
	case 1:
		w = strings.ToLower(w)
	case 2:
		w = strings.ToUpper(w)
	case 3:
		w = "  " + w + " "
	}
	return w
}

func execP40(c *core.Case, r *core.Rec) {
	n := len(c.Threads)
	type finding struct{ class, msg string }
	bad := make([][]finding, n)
	obs := make([][]float64, n)
	fns := make([]func(), n)
	for t := range fns {
		t := t
		say := func(class, f string, a ...any) { bad[t] = append(bad[t], finding{class, fmt.Sprintf(f, a...)}) }
		fns[t] = func() {
			tuning := 440.0
			ref := func(x float64) float64 { // frequency of a possibly fractional note
				a := tuning
				if a == 0 {
					a = 440
				}
				return a * math.Exp2((x-69)/12)
			}
			nearest := func(x float64) uint8 {
				return uint8(math.Max(0, math.Min(127, math.Round(x))))
			}
			for _, o := range c.Threads[t] {
				switch o.K {
				case "tune":
					tuning = o.Flt(0)
					if tuning < 0 || (tuning > 0 && tuning < 1) {
						tuning = 440
					}
				case "freq":
					note := uint8(o.Int(0) & 127)
					f := midi.NoteToFrequency(note, tuning)
					obs[t] = append(obs[t], f)
					if w := ref(float64(note)); !(math.Abs(f-w) <= w*6e-6) {
						say("pitch", "note %d at A4=%v sounds at %v Hz, equal temperament has %v (%.2f cents off)", note, tuning, f, w, 1200*math.Log2(f/w))
					}
				case "trip":
					note := uint8(o.Int(0) & 127)
					f := midi.NoteToFrequency(note, tuning)
					if b := midi.FrequencyToNote(f, tuning); b != note {
						say("round-trip", "note %d at A4=%v sounds at %v Hz, which is called note %d", note, tuning, f, b)
					}
				case "detect":
					d := math.Max(-0.499, math.Min(0.499, o.Flt(0)))
					x := float64(o.Int(0)) + d
					b := midi.FrequencyToNote(ref(x), tuning)
					obs[t] = append(obs[t], float64(b))
					if b != nearest(x) {
						say("nearest-note", "%v Hz at A4=%v is %.3f semitones, which is called note %d", ref(x), tuning, x, b)
					}
				case "bad":
					f := o.Flt(0)
					b := midi.FrequencyToNote(f, tuning)
					if b > 127 || (f <= 0 && b != 0) || (f > 1e300 && b != 127) {
						say("invalid-frequency", "%v Hz is called note %d", f, b)
					}
				case "name":
					note := uint8(o.Int(0) & 127)
					if s, w := midi.NoteNumberToName(note), fmt.Sprintf("%s%d", pitchNames[note%12], int(note)/12-1); s != w {
						say("name", "note %d is called %q, not %q", note, s, w)
					}
					if s, w := param.NoteFormatter(float64(note)), midi.NoteNumberToName(note); s != w {
						say("name", "a note parameter shows note %d as %q, the event as %q", note, s, w)
					}
					w := spellNote(int(note), int(o.Int(1)), int(o.Int(2)))
					if got, err := param.NoteParser(w); err != nil || got != float64(note) {
						say("name", "%q is read as note %v (error %v), not %d", w, got, err, note)
					}
				case "event":
					if s := checkEvent(o); s != "" {
						say("event", "%s", s)
					}
				}
			}
		}
	}
	h := uint64(1)
	for t := range c.Threads {
		for _, o := range c.Threads[t] {
			r.Eval()
			h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0))<<8+uint64(int64(math.Max(-1e9, math.Min(1e9, o.Flt(0)*16)))))
			switch o.K {
			case "tune":
				r.Probe("tuned")
				r.Fault("retuning")
				r.NonTriv = true
			case "detect":
				r.Probe("detuned")
				r.Fault("off-pitch")
				r.NonTriv = true
				if o.Int(0) < 0 || o.Int(0) > 127 {
					r.Probe("out-of-range")
					r.Fault("out-of-range-pitch")
				}
			case "bad":
				r.Probe("invalid-frequency")
				r.Fault("invalid-frequency")
			case "trip":
				r.Probe("round-trip")
			case "event":
				r.Probe("event")
			}
		}
	}
	r.Run(100000, fns...)
	for t := range bad {
		for _, b := range bad[t] {
			r.Fail(b.class, b.class, "%s", b.msg)
		}
		for _, v := range obs[t] {
			r.ObserveF(v)
		}
	}
	r.State(h)
}

// checkEvent makes an event and compares what it says about itself.
func checkEvent(o core.Op) string {
	ch, a, b := uint8(o.Int(1)), uint8(o.Int(2)&127), uint8(o.Int(3)&127)
	v := int16(o.Int(4))
	off := int32(o.Int(5))
	base := midi.BaseEvent{EventChannel: ch, Offset: off}
	var e midi.Event
	var typ midi.EventType
	var text string
	switch k := o.Int(0); k {
	case 0:
		e, typ, text = midi.NoteOnEvent{BaseEvent: base, NoteNumber: a, Velocity: b}, midi.EventTypeNoteOn, fmt.Sprintf("NoteOn{ch:%d, note:%d, vel:%d, offset:%d}", ch, a, b, off)
	case 1:
		e, typ, text = midi.NoteOffEvent{BaseEvent: base, NoteNumber: a, Velocity: b}, midi.EventTypeNoteOff, fmt.Sprintf("NoteOff{ch:%d, note:%d, vel:%d, offset:%d}", ch, a, b, off)
	case 2:
		e, typ, text = midi.ControlChangeEvent{BaseEvent: base, Controller: a, Value: b}, midi.EventTypeControlChange, fmt.Sprintf("CC{ch:%d, ctrl:%d, val:%d, offset:%d}", ch, a, b, off)
	case 3:
		p := midi.PitchBendEvent{BaseEvent: base, Value: v}
		e, typ, text = p, midi.EventTypePitchBend, fmt.Sprintf("PitchBend{ch:%d, val:%d, offset:%d}", ch, v, off)
		if x := p.NormalizedValue(); x != float64(v)/8192 {
			return fmt.Sprintf("pitch bend %d is %v of full scale", v, x)
		}
	case 4:
		e, typ, text = midi.PolyPressureEvent{BaseEvent: base, NoteNumber: a, Pressure: b}, midi.EventTypePolyPressure, fmt.Sprintf("PolyPressure{ch:%d, note:%d, pressure:%d, offset:%d}", ch, a, b, off)
	case 5:
		e, typ, text = midi.ChannelPressureEvent{BaseEvent: base, Pressure: b}, midi.EventTypeChannelPressure, fmt.Sprintf("ChannelPressure{ch:%d, pressure:%d, offset:%d}", ch, b, off)
	case 6:
		e, typ, text = midi.ProgramChangeEvent{BaseEvent: base, Program: b}, midi.EventTypeProgramChange, fmt.Sprintf("ProgramChange{ch:%d, prog:%d, offset:%d}", ch, b, off)
	case 7:
		e, typ, text = midi.ClockEvent{BaseEvent: base}, midi.EventTypeClock, fmt.Sprintf("Clock{offset:%d}", off)
	case 8:
		e, typ, text = midi.StartEvent{BaseEvent: base}, midi.EventTypeStart, fmt.Sprintf("Start{offset:%d}", off)
	case 9:
		e, typ, text = midi.StopEvent{BaseEvent: base}, midi.EventTypeStop, fmt.Sprintf("Stop{offset:%d}", off)
	default:
		e, typ, text = midi.ContinueEvent{BaseEvent: base}, midi.EventTypeContinue, fmt.Sprintf("Continue{offset:%d}", off)
	}
	if e.Type() != typ || e.Channel() != ch || e.SampleOffset() != off || e.String() != text {
		return fmt.Sprintf("%s says of itself: type %d channel %d offset %d %s", text, e.Type(), e.Channel(), e.SampleOffset(), e.String())
	}
	return ""
}
