package dsp

import (
	"math"

	srand "vstrt/srand"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
)

// P23: reverbs are the networks they are documented to be, under automation,
// and their tails die away.

var p23Kinds = []string{"Freeverb", "Schroeder", "FDN"}

type p23Ctl struct{ room, damp, wet, dry, width, freeze, diff, mod float64 }

func init() {
	core.Register(&core.Check{
		ID: "P23", Quick: 10000, Thorough: 200000,
		Rule:      "A host runs a Freeverb, Schroeder or feedback-delay-network reverb (mono and stereo, 2 to 16 lines) and moves every control and preset, in and out of range, at any sample, with resets. Freeverb, Schroeder and the 4- and 8-line networks are compared, sample by sample, with a model of the network in double precision. All of them: with the wet level at zero the dry signal passes at the dry level and nothing else; after the input ends the tail falls below -60 dB of its peak within the time the feedback allows and never grows again; a control moved and moved back leaves no trace; more room or decay never makes a shorter tail. Non-trivial: the tail was audible after a control change.",
		StateRule: "distinct (reverb, rate, lines, operation sequence)",
		Real:      []string{"pkg/dsp/reverb"},
		Stub:      []string{"host (calls, automation, input signal)", "math/rand (seeded stand-in)"},
		Assume:    []string{"the FDN applies its decay in the matrix and in the loop, and its stereo form mixes wet and dry a second time", "frozen Freeverb keeps feedback 0.98"},
		Must:      []string{"Freeverb", "Schroeder", "FDN", "frozen", "preset", "dry-only", "tail", "excursion", "longer", "modulated", "householder", "reset", "damping-0", "damping-1", "quiet"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			kind := p23Kinds[i%3]
			_ = g.U64()
			c.SetS("kind", kind)
			c.SetF("sr", g.PickF(8000, 8000, 8000, 11025, 22050, 44100))
			c.Set("lines", int64(g.Pick(4, 8, 4, 8, 2, 3, 5, 12, 16)))
			c.Set("stereo", int64(g.N(2)))
			c.Set("sig", int64(g.N(sigKinds)))
			c.Set("sigseed", int64(g.U64()>>1))
			scen := g.PickS("session", "session", "session", "session", "tail", "excursion", "longer", "dry")
			c.SetS("scenario", scen)
			if (scen == "session" || scen == "excursion" || scen == "dry") && g.Chance(0.15) {
				c.SetF("amp", g.PickF(1e-3, 1e-5, 1e-8)) // hardly anything to hear
			}
			long := scen == "session" && g.Chance(0.04)
			if long {
				c.SetF("sr", g.PickF(96000, 192000))
			}
			var ops []core.Op
			ctl := func() {
				nm := g.PickS("room", "damp", "wet", "dry", "width", "freeze", "diff", "mod")
				ops = append(ops, core.Op{K: nm, F: []core.X{core.X(g.PickF(0, 0.5, 1, g.F(), g.F(), -1, 2))}})
			}
			total := g.Pick(500, 2000, 5000)
			if long {
				total = 24000
			}
			for k := g.Range(1, 6); k > 0; k-- {
				ctl()
			}
			for total > 0 {
				n := g.Pick(1, 50, 300, 700, 1500)
				if long {
					n = g.Pick(1, 300, 5000)
				}
				total -= n
				ops = append(ops, core.Op{K: "run", I: []int64{int64(n), int64(g.Pick(0, 0, 1))}})
				for k := g.N(3); k > 0; k-- {
					ctl()
				}
				if g.Chance(0.1) {
					ops = append(ops, core.Op{K: "preset", I: []int64{int64(g.N(4))}})
				}
				if g.Chance(0.05) {
					ops = append(ops, core.Op{K: "reset"})
				}
			}
			c.Threads = [][]core.Op{ops}
			return c
		},
		Exec: execP23,
	})
}

// p23Unit is a reverb as the host sees it.
type p23Unit struct {
	fv *reverb.Freeverb
	sc *reverb.Schroeder
	fd *reverb.FDN
}

func p23Make(kind string, sr float64, lines int) *p23Unit {
	u := &p23Unit{}
	switch kind {
	case "Freeverb":
		u.fv = reverb.NewFreeverb(sr)
	case "Schroeder":
		u.sc = reverb.NewSchroeder(sr)
	default:
		u.fd = reverb.NewFDN(lines, sr)
	}
	return u
}

func (u *p23Unit) set(k string, v float64) {
	switch {
	case u.fv != nil:
		switch k {
		case "room":
			u.fv.SetRoomSize(v)
		case "damp":
			u.fv.SetDamping(v)
		case "wet":
			u.fv.SetWetLevel(v)
		case "dry":
			u.fv.SetDryLevel(v)
		case "width":
			u.fv.SetWidth(v)
		case "freeze":
			u.fv.SetMode(v)
		}
	case u.sc != nil:
		switch k {
		case "room":
			u.sc.SetRoomSize(v)
		case "damp":
			u.sc.SetDamping(v)
		case "wet":
			u.sc.SetWetLevel(v)
		case "dry":
			u.sc.SetDryLevel(v)
		case "width":
			u.sc.SetWidth(v)
		}
	default:
		switch k {
		case "room":
			u.fd.SetDecay(v)
		case "damp":
			u.fd.SetDamping(v)
		case "wet":
			u.fd.SetWetLevel(v)
		case "dry":
			u.fd.SetDryLevel(v)
		case "diff":
			u.fd.SetDiffusion(v)
		case "mod":
			u.fd.SetModulation(v)
		}
	}
}

func (u *p23Unit) preset(k int) {
	switch {
	case u.fv != nil:
		[]func(){u.fv.SetPresetSmallRoom, u.fv.SetPresetMediumHall, u.fv.SetPresetLargeHall, u.fv.SetPresetCathedral}[k]()
	case u.fd != nil:
		[]func(){u.fd.SetPresetSmallRoom, u.fd.SetPresetMediumHall, u.fd.SetPresetLargeHall, u.fd.SetPresetCathedral}[k]()
	}
}

func (u *p23Unit) reset() {
	switch {
	case u.fv != nil:
		u.fv.Reset()
	case u.sc != nil:
		u.sc.Reset()
	default:
		u.fd.Reset()
	}
}

func (u *p23Unit) run(l, r float32, stereo bool) (float32, float32) {
	if !stereo {
		switch {
		case u.fv != nil:
			return u.fv.Process(l), 0
		case u.sc != nil:
			return u.sc.Process(l), 0
		}
		return u.fd.Process(l), 0
	}
	switch {
	case u.fv != nil:
		return u.fv.ProcessStereo(l, r)
	case u.sc != nil:
		return u.sc.ProcessStereo(l, r)
	}
	return u.fd.ProcessStereo(l, r)
}

func p23Defaults(kind string) p23Ctl {
	switch kind {
	case "Freeverb":
		return p23Ctl{room: 0.5, damp: 0.5, wet: 1.0 / 3, dry: 0, width: 1}
	case "Schroeder":
		return p23Ctl{room: 0.5, damp: 0.5, wet: 0.3, dry: 0.7, width: 1}
	}
	return p23Ctl{room: 0.5, damp: 0.5, wet: 0.3, dry: 0.7, diff: 0.5}
}

func (q *p23Ctl) set(k string, v float64) {
	v = clamp(v, 0, 1)
	switch k {
	case "room":
		q.room = v
	case "damp":
		q.damp = v
	case "wet":
		q.wet = v
	case "dry":
		q.dry = v
	case "width":
		q.width = v
	case "freeze":
		q.freeze = v
	case "diff":
		q.diff = v
	case "mod":
		q.mod = v
	}
}

func (q *p23Ctl) preset(kind string, k int) {
	switch kind {
	case "Freeverb":
		p := [][5]float64{{0.3, 0.75, 0.25, 0.75, 0.5}, {0.6, 0.5, 0.35, 0.65, 0.75}, {0.85, 0.3, 0.4, 0.6, 1}, {0.95, 0.1, 0.5, 0.5, 1}}[k]
		q.room, q.damp, q.wet, q.dry, q.width = p[0], p[1], p[2], p[3], p[4]
	case "FDN":
		p := [][6]float64{{0.2, 0.8, 0.7, 0.1, 0.25, 0.75}, {0.5, 0.5, 0.85, 0.15, 0.35, 0.65}, {0.8, 0.3, 0.9, 0.2, 0.4, 0.6}, {0.95, 0.1, 0.95, 0.25, 0.5, 0.5}}[k]
		q.room, q.damp, q.diff, q.mod, q.wet, q.dry = p[0], p[1], p[2], p[3], p[4], p[5]
	}
}

// ring is a model delay of a fixed number of samples (or up to that many).
type ring struct {
	v []float64
	p int
}

func newRing(n int) *ring { return &ring{v: make([]float64, n)} }

// at is the value written k samples ago (before the write that comes next).
func (b *ring) at(k int) float64 { return b.v[((b.p-k)%len(b.v)+len(b.v))%len(b.v)] }

func (b *ring) put(x float64) { b.v[b.p] = x; b.p = (b.p + 1) % len(b.v) }

type p23Model struct {
	kind   string
	sr     float64
	q      p23Ctl
	comb   [2][]*ring
	store  [2][]float64
	ap     [2][]*ring
	n      int
	dl     []*ring
	times  []int
	damp   []float64
	phase  []float64
	matrix [][]float64 // orthogonal
}

func newP23Model(kind string, sr float64, lines int) *p23Model {
	m := &p23Model{kind: kind, sr: sr, q: p23Defaults(kind), n: lines}
	m.clear()
	return m
}

func (m *p23Model) clear() {
	m.comb, m.ap, m.store = [2][]*ring{}, [2][]*ring{}, [2][]float64{}
	switch m.kind {
	case "Freeverb":
		for ch := 0; ch < 2; ch++ {
			for _, t := range []int{1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617} {
				m.comb[ch] = append(m.comb[ch], newRing(int(float64(t+23*ch)*(m.sr/44100))))
				m.store[ch] = append(m.store[ch], 0)
			}
			for _, t := range []int{556, 441, 341, 225} {
				m.ap[ch] = append(m.ap[ch], newRing(int(float64(t+23*ch)*(m.sr/44100))))
			}
		}
	case "Schroeder":
		for _, t := range []float64{29.7, 37.1, 41.1, 43.7} {
			m.comb[0] = append(m.comb[0], newRing(int(t*m.sr/1000)))
			m.store[0] = append(m.store[0], 0)
		}
		for _, t := range []float64{5, 1.7} {
			m.ap[0] = append(m.ap[0], newRing(int(t*m.sr/1000)))
		}
	default:
		primes := []int{23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89}
		m.dl, m.times, m.damp, m.phase, m.matrix = nil, nil, nil, nil, nil
		for i := 0; i < m.n; i++ {
			t := int(m.sr*0.01) * primes[i%16] / 23
			m.times = append(m.times, t)
			m.dl = append(m.dl, newRing(t+16))
			m.damp = append(m.damp, 0)
			m.phase = append(m.phase, 2*math.Pi*float64(i)/float64(m.n))
			row := make([]float64, m.n)
			for j := range row {
				sign := 1.0
				for b := i & j; b != 0; b &= b - 1 {
					sign = -sign
				}
				row[j] = sign / math.Sqrt(float64(m.n))
			}
			m.matrix = append(m.matrix, row)
		}
	}
}

// touch follows a control change: full damping silences what is fed back.
func (m *p23Model) touch() {
	if m.q.damp < 1 || m.kind == "Freeverb" && m.q.freeze >= 0.5 {
		return
	}
	for ch := range m.store {
		for i := range m.store[ch] {
			m.store[ch][i] = 0
		}
	}
	for i := range m.damp {
		m.damp[i] = 0
	}
}

func (m *p23Model) exact() bool { return m.kind != "FDN" || m.n == 4 || m.n == 8 }

func (m *p23Model) chain(ch int, x, fb, damp float64) float64 {
	sum := 0.0
	for i, b := range m.comb[ch] {
		y := b.at(len(b.v))
		m.store[ch][i] = y*(1-damp) + m.store[ch][i]*damp
		if damp >= 1 {
			m.store[ch][i] = 0
		}
		b.put(x + fb*m.store[ch][i])
		sum += y
	}
	if m.kind == "Schroeder" {
		sum /= 4
	}
	for _, b := range m.ap[ch] {
		y := b.at(len(b.v))
		b.put(sum + 0.5*y)
		sum = y - sum
	}
	return sum
}

func (m *p23Model) fdn(x float64) float64 {
	out := make([]float64, m.n)
	for i := range out {
		d := float64(m.times[i])
		if m.q.mod > 0 {
			d += math.Sin(m.phase[i]) * 5 * m.q.mod
			m.phase[i] += 2 * math.Pi * 0.5 / m.sr
		}
		k := math.Floor(d)
		f := d - k
		out[i] = m.dl[i].at(int(k))*(1-f) + m.dl[i].at(int(k)+1)*f
	}
	sum := 0.0
	ds := 0.4 + 0.58*m.q.room
	gain := 1 / math.Sqrt(float64(m.n))
	for i := range out {
		fb := out[i] * (1 - m.q.diff)
		for j := range out {
			e := m.q.diff * m.matrix[i][j]
			if i == j {
				e += 1 - m.q.diff
			}
			fb += out[j] * ds * e * m.q.diff
		}
		v := x*gain + ds*fb
		m.damp[i] = v*(1-m.q.damp) + m.damp[i]*m.q.damp
		if m.q.damp >= 1 {
			m.damp[i] = 0
		}
		m.dl[i].put(m.damp[i])
		sum += out[i] * gain
	}
	return sum
}

func (m *p23Model) run(l, r float64, stereo bool) (float64, float64) {
	q := &m.q
	switch m.kind {
	case "Freeverb":
		if !stereo {
			r = l
		}
		fb, damp := 0.7+0.28*q.room, q.damp
		if q.freeze >= 0.5 {
			fb, damp = 0.98, 0
		}
		x := (l + r) * 0.015
		a, b := m.chain(0, x, fb, damp), m.chain(1, x, fb, damp)
		w1, w2 := q.wet*(1+q.width)/2, q.wet*(1-q.width)/2
		return a*w1 + b*w2 + l*q.dry, b*w1 + a*w2 + r*q.dry
	case "Schroeder":
		fb := 0.28 + 0.7*q.room
		if !stereo {
			return l*q.dry + m.chain(0, l, fb, q.damp)*q.wet, 0
		}
		w := m.chain(0, (l+r)/2, fb, q.damp) * (1 + q.width) / 2
		return l*q.dry + w*q.wet, r*q.dry + w*q.wet
	}
	if !stereo {
		return l*q.dry + m.fdn(l)*q.wet, 0
	}
	x := (l + r) / 2
	p := x*q.dry + m.fdn(x)*q.wet
	a := p + 0.3*q.wet*m.damp[0]
	b := p + 0.3*q.wet*m.damp[1]
	return l*q.dry + a*q.wet, r*q.dry + b*q.wet
}

func execP23(c *core.Case, r *core.Rec) {
	kind := c.CfgS["kind"]
	sr := float64(c.CfgF["sr"])
	lines := int(c.Cfg["lines"])
	stereo := c.Cfg["stereo"] == 1
	name := kind
	if kind == "FDN" {
		if lines != 4 && lines != 8 {
			r.Probe("householder")
		}
	}
	if stereo {
		name += ".stereo"
	}
	r.Comp("reverb." + name)
	r.Probe(kind)
	h := core.HashU(core.HashS(name+c.CfgS["scenario"]), uint64(sr)*100+uint64(lines))
	for _, o := range c.Threads[0] {
		h = core.HashU(h, core.HashS(o.K)+uint64(o.Int(0)))
	}
	r.State(h)
	srand.Extremes(0)
	mk := func() *p23Unit { srand.Seed(c.Cfg["sigseed"]); return p23Make(kind, sr, lines) }
	u := mk()
	m := newP23Model(kind, sr, lines)
	amp := 1.0
	if v := float64(c.CfgF["amp"]); v > 0 && v < 1 {
		amp = math.Max(v, 1e-8)
		r.Probe("quiet")
	}
	gl := newSig(int(c.Cfg["sig"]), uint64(c.Cfg["sigseed"]), amp)
	gr := newSig(int(c.Cfg["sig"]+4)%sigKinds, uint64(c.Cfg["sigseed"])+5, amp)
	peak := 0.001 * amp
	n := 0
	var twin *p23Unit // the other reverb of a comparison
	scen := c.CfgS["scenario"]
	fail := func(key, f string, a ...any) {
		r.Fail(key, name, "%s (%d lines) at %g Hz, sample %d: "+f, append([]any{name, lines, sr, n}, a...)...)
	}
	lastIn := 0.0
	changed := false
	if scen == "excursion" {
		twin = mk()
	}
	apply := func(o core.Op) bool {
		switch o.K {
		case "preset":
			r.Fault("automation")
			if kind == "Schroeder" {
				return true
			}
			r.Probe("preset")
			u.preset(int(o.Int(0)))
			m.q.preset(kind, int(o.Int(0)))
			if twin != nil {
				twin.preset(int(o.Int(0)))
			}
		case "reset":
			r.Fault("reset")
			r.Probe("reset")
			u.reset()
			m.clear()
			if twin != nil {
				twin.reset()
			}
		case "run":
			return false
		default:
			r.Fault("automation")
			u.set(o.K, o.Flt(0))
			m.q.set(o.K, o.Flt(0))
			m.touch()
			if twin != nil {
				twin.set(o.K, o.Flt(0))
				// The other one takes a detour.
				r.Probe("excursion")
				r.Fault("excursion")
				for _, k := range []string{"room", "damp", "wet", "dry", "width", "freeze", "diff", "mod"} {
					q := m.q
					cur := map[string]float64{"room": q.room, "damp": q.damp, "wet": q.wet, "dry": q.dry, "width": q.width, "freeze": q.freeze, "diff": q.diff, "mod": q.mod}[k]
					twin.set(k, 0.95-0.9*cur)
					twin.set(k, cur)
				}
			}
		}
		changed = changed || n > 0
		return true
	}
	step := func(l, rr float32) (float64, float64, bool) {
		yl, yr := u.run(l, rr, stereo)
		wl, wr := m.run(float64(l), float64(rr), stereo)
		n++
		r.Eval()
		r.ObserveF(float64(yl))
		r.ObserveF(float64(yr))
		if m.exact() {
			peak = math.Max(peak, math.Max(math.Abs(wl), math.Abs(wr)))
			tol := 2e-4 * peak
			if !(math.Abs(float64(yl)-wl) <= tol) || stereo && !(math.Abs(float64(yr)-wr) <= tol) {
				fail("network", "(%.7g, %.7g) for (%.7g, %.7g) where the network gives (%.7g, %.7g); controls %+v", yl, yr, l, rr, wl, wr, m.q)
				return 0, 0, false
			}
		}
		if m.q.wet == 0 {
			r.Probe("dry-only")
			if !(math.Abs(float64(yl)-float64(l)*m.q.dry) <= 1e-6*(amp+math.Abs(float64(l)))) || stereo && !(math.Abs(float64(yr)-float64(rr)*m.q.dry) <= 1e-6*(amp+math.Abs(float64(rr)))) {
				fail("dry", "(%g, %g) for (%g, %g) with no wet signal and the dry level at %g", yl, yr, l, rr, m.q.dry)
				return 0, 0, false
			}
		}
		if twin != nil && scen == "excursion" {
			tl, tr := twin.run(l, rr, stereo)
			if !(math.Abs(float64(yl-tl)) <= 1e-5*peak+1e-6*amp) || !(math.Abs(float64(yr-tr)) <= 1e-5*peak+1e-6*amp) {
				fail("excursion", "a control moved and moved back at once leaves a trace: (%g, %g) instead of (%g, %g)", tl, tr, yl, yr)
				return 0, 0, false
			}
		}
		if m.q.mod > 0 && kind == "FDN" {
			r.Probe("modulated")
		}
		if m.q.freeze >= 0.5 && kind == "Freeverb" {
			r.Probe("frozen")
		}
		if m.q.damp == 0 {
			r.Probe("damping-0")
		} else if m.q.damp == 1 {
			r.Probe("damping-1")
		}
		return float64(yl), float64(yr), true
	}
	for _, o := range c.Threads[0] {
		if apply(o) {
			continue
		}
		if scen == "dry" {
			u.set("wet", 0)
			m.q.set("wet", 0)
		}
		for i := int(o.Int(0)); i > 0; i-- {
			l, rr := float32(gl.next()), float32(gr.next())
			if o.Int(1) == 1 {
				l, rr = 0, 0
			}
			lastIn = math.Max(math.Abs(float64(l)), math.Abs(float64(rr)))
			y, _, ok := step(l, rr)
			if !ok {
				return
			}
			if changed && lastIn == 0 && math.Abs(y) > 1e-4*amp {
				r.NonTriv = true
			}
		}
	}
	switch scen {
	case "tail":
		if sr > 12000 {
			break
		}
		// The input ends.
		r.Probe("tail")
		g := 0.98 // the largest loop gain there is
		switch kind {
		case "Freeverb":
			if m.q.freeze < 0.5 {
				g = 0.7 + 0.28*m.q.room
			}
		case "Schroeder":
			g = 0.28 + 0.7*m.q.room
		default:
			g = 0.4 + 0.58*m.q.room
		}
		long := 0.0437 * sr
		if kind == "FDN" {
			long = float64(m.times[lines-1]) + 6
		}
		long += 0.03 * sr // what the allpasses and the damping add per round
		if m.q.damp < 1 {
			long += 1 / (1 - m.q.damp)
		}
		rounds := math.Log(1e-3) / math.Log(g)
		limit := int(long*(rounds*1.5+30)) + 2000
		block := int(long)
		if limit > 400000 {
			break
		}
		start, level := 0.0, 0.0
		for i := 0; i < limit; i++ {
			yl, yr := u.run(0, 0, stereo)
			level = math.Max(level, math.Max(math.Abs(float64(yl)), math.Abs(float64(yr))))
			if i%block == block-1 {
				r.Eval()
				r.ObserveF(level)
				if i < 4*block {
					start = math.Max(start, level)
				} else if level > 4*start+1e-6 {
					fail("tail", "the tail grows from %g to %g, %d samples after the input ended", start, level, i)
					return
				}
				if level > 1e-4 {
					r.NonTriv = true
				}
				if i+block >= limit {
					break
				}
				level = 0
			}
		}
		if level > 1e-3*start+1e-6 {
			fail("tail", "the tail is still at %g of %g, %d samples after the input ended (loop gain %g)", level, start, limit, g)
		}
	case "longer":
		r.Probe("longer")
		r.NonTriv = true
		// The same noise burst in a small and in a large room.
		a, b := mk(), mk()
		for _, k := range []string{"damp", "width", "diff"} {
			v := map[string]float64{"damp": math.Min(m.q.damp, 0.8), "width": m.q.width, "diff": m.q.diff}[k]
			a.set(k, v)
			b.set(k, v)
		}
		for _, x := range []*p23Unit{a, b} {
			x.set("wet", 1)
			x.set("dry", 0)
		}
		lo := math.Min(m.q.room, 0.6)
		a.set("room", lo)
		b.set("room", lo+0.4)
		noise := newSig(0, uint64(c.Cfg["sigseed"])+77, 1)
		ea, eb := 0.0, 0.0
		for i := 0; i < int(sr*0.5); i++ {
			x := float32(0)
			if i < int(sr*0.05) {
				x = float32(noise.next())
			}
			p, _ := a.run(x, x, stereo)
			q, _ := b.run(x, x, stereo)
			if i > int(sr*0.15) {
				ea += float64(p) * float64(p)
				eb += float64(q) * float64(q)
			}
		}
		r.Eval()
		r.ObserveF(ea)
		r.ObserveF(eb)
		if eb <= ea {
			fail("longer", "the tail has energy %g with room or decay %g and only %g with %g", ea, lo, eb, lo+0.4)
		}
	}
	r.SimNs += float64(n) / sr * 1e9
}
