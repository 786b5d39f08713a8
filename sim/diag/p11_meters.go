package diag

import (
	"fmt"
	"math"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
)

// P11: meters and analysers follow the stream they were given, whatever its
// division into blocks, and every reading of another thread is the reading of
// one moment between blocks.

// reading is a vector; und marks readings nothing is promised about.
type reading struct {
	v   []float64
	und bool
	tol []float64 // absolute tolerance per element (nil: default)
	chk func(got []float64) string
}

type meter interface {
	block(l, r []float64)
	set(k int, x float64)
	reset()
	read(k int) []float64
}

// oracle is the independent model of a meter.
type oracle interface {
	block(l, r []float64)
	set(k int, x float64)
	reset()
	read(k int) reading
	kinds() int
}

func db(x float64) float64 {
	if x > 0 {
		return 20 * math.Log10(x)
	}
	return math.Inf(-1)
}

func allFinite(xs ...[]float64) bool {
	for _, s := range xs {
		for _, x := range s {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return false
			}
		}
	}
	return true
}

// --- peak ---

type peakReal struct{ m *analysis.PeakMeter }

func (p *peakReal) block(l, _ []float64) { p.m.Process(l) }
func (p *peakReal) reset()               { p.m.Reset() }
func (p *peakReal) set(k int, x float64) {
	if k%2 == 0 {
		p.m.SetHoldTime(x)
	} else {
		p.m.SetDecayRate(x * 40)
	}
}
func (p *peakReal) read(k int) []float64 {
	switch k {
	case 0:
		return []float64{p.m.GetPeak()}
	case 1:
		return []float64{p.m.GetHold()}
	case 2:
		return []float64{p.m.GetPeakDB()}
	}
	return []float64{p.m.GetHoldDB()}
}

type peakRef struct {
	sr, holdTime, decay float64
	peak, hold          float64
	left                int
	und, ties           bool
}

func (p *peakRef) kinds() int { return 4 }
func (p *peakRef) reset()     { p.peak, p.hold, p.left, p.und, p.ties = 0, 0, 0, false, false }
func (p *peakRef) set(k int, x float64) {
	if k%2 == 0 {
		p.holdTime = x
	} else {
		p.decay = x * 40
	}
}
func (p *peakRef) block(l, _ []float64) {
	if !allFinite(l) {
		p.und = true
	}
	if p.und {
		return
	}
	bp := 0.0
	for _, x := range l {
		bp = math.Max(bp, math.Abs(x))
	}
	p.peak = math.Max(bp, p.peak*math.Pow(10, -p.decay*float64(len(l))/p.sr/20))
	if bp > p.hold*(1+1e-9) {
		p.hold, p.left, p.ties = bp, int(p.holdTime*p.sr), false
		return
	}
	if bp > p.hold*(1-1e-9) && bp > 0 {
		p.ties = true // equal to the held value: it may or may not restart the hold
	}
	p.left -= len(l)
	if p.left <= 0 {
		p.hold, p.left = p.peak, 0
	}
}
func (p *peakRef) read(k int) reading {
	v := p.peak
	if k%2 == 1 {
		v = p.hold
	}
	rd := reading{v: []float64{v}, und: p.und || (k%2 == 1 && p.ties)}
	if k >= 2 {
		rd.v[0] = db(v)
		rd.tol = []float64{1e-6}
	}
	return rd
}

// --- RMS ---

type rmsReal struct{ m *analysis.RMSMeter }

func (p *rmsReal) block(l, _ []float64) { p.m.Process(l) }
func (p *rmsReal) reset()               { p.m.Reset() }
func (p *rmsReal) set(int, float64)     {}
func (p *rmsReal) read(k int) []float64 {
	if k == 0 {
		return []float64{p.m.GetRMS()}
	}
	return []float64{p.m.GetRMSDB()}
}

type rmsRef struct {
	w    int
	hist []float64
}

func (p *rmsRef) kinds() int           { return 2 }
func (p *rmsRef) reset()               { p.hist = nil }
func (p *rmsRef) set(int, float64)     {}
func (p *rmsRef) block(l, _ []float64) { p.hist = append(p.hist, l...) }
func (p *rmsRef) read(k int) reading {
	h := p.hist
	if len(h) == 0 {
		v := 0.0
		if k == 1 {
			v = math.Inf(-1)
		}
		return reading{v: []float64{v}}
	}
	old := h
	if len(old) > 2*p.w {
		old = old[len(old)-2*p.w:]
	}
	if len(h) > p.w {
		h = h[len(h)-p.w:]
	}
	if !allFinite(old) {
		return reading{und: true}
	}
	sum, big := 0.0, 0.0
	for _, x := range h {
		sum += x * x
	}
	for _, x := range old {
		big = math.Max(big, x*x)
	}
	ms := sum / float64(len(h))
	tol := 1e-9*ms + 1e-12*big
	return reading{chk: func(got []float64) string {
		g := got[0]
		if k == 1 {
			g = math.Pow(10, g/20)
		}
		if !(math.Abs(g*g-ms) <= tol) {
			return fmt.Sprintf("RMS reading %v (read form %d), the last %d samples have %v", got[0], k, len(h), math.Sqrt(ms))
		}
		return ""
	}}
}

// --- LUFS ---

type lufsReal struct {
	m *analysis.LUFSMeter
	n int
}

// frames interleaves l and r into n channels: odd channels carry r, the last
// one a scaled copy.
func frames(n int, l, r []float64) []float64 {
	out := make([]float64, 0, n*len(l))
	for i := range l {
		for c := 0; c < n; c++ {
			out = append(out, chanOf(c, l[i], r[i]))
		}
	}
	return out
}

func chanOf(c int, l, r float64) float64 {
	x := l
	if c&1 == 1 {
		x = r
	}
	return x * (1 - 0.1*float64(c))
}

func (p *lufsReal) block(l, r []float64) { p.m.Process(frames(p.n, l, r)) }
func (p *lufsReal) reset()               { p.m.Reset() }
func (p *lufsReal) set(int, float64)     {}
func (p *lufsReal) read(k int) []float64 {
	switch k {
	case 0:
		return []float64{floor(p.m.GetMomentaryLUFS())}
	case 1:
		return []float64{floor(p.m.GetShortTermLUFS())}
	case 2:
		return []float64{floor(p.m.GetIntegratedLUFS())}
	}
	return []float64{p.m.GetLoudnessRange()}
}

// floor: far below audibility rounding decides.
func floor(x float64) float64 {
	if x < -250 {
		return math.Inf(-1)
	}
	return x
}

type bq struct{ b0, b1, b2, a1, a2, x1, x2, y1, y2 float64 }

func (f *bq) run(x float64) float64 {
	y := f.b0*x + f.b1*f.x1 + f.b2*f.x2 - f.a1*f.y1 - f.a2*f.y2
	f.x2, f.x1, f.y2, f.y1 = f.x1, x, f.y1, y
	return y
}

type lufsRef struct {
	sr     float64
	n      int
	f      [][2]*bq
	pw     [][]float64 // weighted signal power per channel and frame
	blocks []float64
	und    bool
}

func newLufsRef(sr float64, n int) *lufsRef {
	p := &lufsRef{sr: sr, n: n}
	p.reset()
	return p
}

func (p *lufsRef) kinds() int       { return 4 }
func (p *lufsRef) set(int, float64) {}
func (p *lufsRef) reset() {
	p.f, p.blocks, p.und = nil, nil, false
	p.pw = make([][]float64, p.n)
	for c := 0; c < p.n; c++ {
		k := math.Tan(math.Pi * 1681.974450955533 / p.sr)
		vh := math.Pow(10, 3.999843853973347/20)
		vb := math.Pow(vh, 0.4996667741545416)
		q := 0.7071752369554196
		a0 := 1 + k/q + k*k
		f1 := &bq{b0: (vh + vb*k/q + k*k) / a0, b1: 2 * (k*k - vh) / a0, b2: (vh - vb*k/q + k*k) / a0, a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
		k = math.Tan(math.Pi * 38.13547087602444 / p.sr)
		q = 0.5003270373238773
		a0 = 1 + k/q + k*k
		f2 := &bq{b0: (1 + math.Sqrt2*k + k*k) / a0, b1: 2 * (k*k - 1) / a0, b2: (1 - math.Sqrt2*k + k*k) / a0, a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
		p.f = append(p.f, [2]*bq{f1, f2})
	}
}

func (p *lufsRef) weight(c int) float64 {
	switch {
	case p.n == 5 && c >= 3: // L R C Ls Rs
		return 1.41
	case p.n >= 6 && c == 3: // L R C LFE Ls Rs
		return 0
	case p.n >= 6 && (c == 4 || c == 5):
		return 1.41
	}
	return 1
}

func (p *lufsRef) power(from, to int) float64 {
	s := 0.0
	for c := range p.pw {
		cs := 0.0
		for _, v := range p.pw[c][from:to] {
			cs += v
		}
		s += p.weight(c) * cs / float64(to-from)
	}
	return s
}

func (p *lufsRef) block(l, r []float64) {
	if !allFinite(l, r) {
		p.und = true
	}
	if p.und {
		return
	}
	step := int(0.1 * p.sr)
	for i := range l {
		for c := 0; c < p.n; c++ {
			y := p.f[c][1].run(p.f[c][0].run(chanOf(c, l[i], r[i])))
			p.pw[c] = append(p.pw[c], y*y)
		}
		if n := len(p.pw[0]); n%step == 0 {
			if pw := p.power(n-step, n); pw > 0 {
				p.blocks = append(p.blocks, -0.691+10*math.Log10(pw))
			}
		}
	}
}

// window is the loudness of the last full window of the given length that
// ended on a 100 ms boundary.
func (p *lufsRef) window(secs, keep float64) float64 {
	size, overlap := int(secs*p.sr), int(keep*p.sr)
	n := len(p.pw[0])
	if n < size {
		return math.Inf(-1)
	}
	end := size + (n-size)/(size-overlap)*(size-overlap)
	pw := p.power(end-size, end)
	if pw <= 0 {
		return math.Inf(-1)
	}
	return -0.691 + 10*math.Log10(pw)
}

func (p *lufsRef) read(k int) reading {
	rd := reading{und: p.und, tol: []float64{1e-3}}
	switch k {
	case 0:
		rd.v = []float64{floor(p.window(0.4, 0.3))}
	case 1:
		rd.v = []float64{floor(p.window(3, 2.9))}
	case 2:
		mean := func(gate float64) (float64, bool, bool) {
			s, n := 0.0, 0
			near := false
			for _, b := range p.blocks {
				if math.Abs(b-gate) < 1e-6 || math.Abs(b+70) < 1e-6 {
					near = true
				}
				if b >= -70 && b >= gate {
					s += math.Pow(10, b/10)
					n++
				}
			}
			if n == 0 {
				return math.Inf(-1), false, near
			}
			return 10 * math.Log10(s/float64(n)), true, near
		}
		all, n := 0.0, 0
		for _, b := range p.blocks {
			all += math.Pow(10, b/10)
			n++
		}
		if n == 0 {
			rd.v = []float64{math.Inf(-1)}
			break
		}
		v, _, near := mean(10*math.Log10(all/float64(n)) - 10)
		rd.v = []float64{floor(v)}
		rd.und = rd.und || near
	default:
		var s []float64
		for _, b := range p.blocks {
			if b >= -70 {
				s = append(s, b)
			}
		}
		if len(p.blocks) < 20 || len(s) < 20 {
			rd.v = []float64{0}
			break
		}
		for i := range s {
			for j := i + 1; j < len(s); j++ {
				if s[j] < s[i] {
					s[i], s[j] = s[j], s[i]
				}
			}
		}
		rd.v = []float64{s[int(float64(len(s))*0.95)] - s[int(float64(len(s))*0.1)]}
	}
	return rd
}

// --- correlation, balance, width (through the combined analyser or alone) ---

type stereoReal struct {
	c *analysis.CorrelationMeter
	b *analysis.BalanceMeter
	w *analysis.StereoWidthMeter
	s *analysis.StereoFieldAnalyzer
}

func (p *stereoReal) block(l, r []float64) {
	if p.s != nil {
		p.s.Process(l, r)
		return
	}
	p.c.Process(l, r)
}
func (p *stereoReal) reset() {
	if p.c != nil {
		p.c.Reset()
	}
}
func (p *stereoReal) set(k int, x float64) {
	if p.c != nil {
		if k%2 == 0 {
			p.c.SetAveraging(x / 3)
		} else {
			p.c.SetPeakHoldTime(x)
		}
	}
}
func (p *stereoReal) read(k int) []float64 {
	if p.s != nil {
		a := p.s.GetAnalysis()
		return []float64{a.Correlation, float64(a.PhaseStatus), a.MonoCompatibility, a.Balance, a.Width, a.WidthDB}
	}
	switch k {
	case 0:
		return []float64{p.c.GetCorrelation()}
	case 1:
		return []float64{p.c.GetPeakHold()}
	case 2:
		return []float64{float64(p.c.GetPhaseStatus())}
	}
	return []float64{p.c.GetMonoCompatibility()}
}

type stereoRef struct {
	w          int
	sr         float64
	combined   bool
	avg        float64
	holdTime   float64
	l, r       []float64
	corr       float64
	hold       float64
	holdLeft   int
	holdSure   bool
	holdLow    float64 // while not sure: the lowest value it may have
	pl, pr     float64
	pm, ps     float64
	und        bool
	clean      int // finite samples since the last non-finite one
	cleanBlock int
}

func (p *stereoRef) kinds() int {
	if p.combined {
		return 1
	}
	return 4
}
func (p *stereoRef) reset() {
	if p.combined {
		return
	}
	p.l, p.r, p.corr, p.hold, p.holdLeft, p.holdSure, p.und = nil, nil, 0, 1, 0, true, false
}
func (p *stereoRef) set(k int, x float64) {
	if p.combined {
		return
	}
	if k%2 == 0 {
		if x/3 >= 0 && x/3 <= 1 {
			p.avg = x / 3
		}
	} else {
		p.holdTime = x
	}
}
func pearson(l, r []float64) float64 {
	n := float64(len(l))
	var ml, mr, vl, vr, c float64
	for i := range l {
		ml, mr = ml+l[i]/n, mr+r[i]/n
	}
	for i := range l {
		a, b := l[i]-ml, r[i]-mr
		vl, vr, c = vl+a*a, vr+b*b, c+a*b
	}
	// no variation to speak of counts as silence
	el, er := 1e-20*ml*ml*n, 1e-20*mr*mr*n
	if vl <= el && vr <= er {
		return 1
	}
	if vl <= el || vr <= er {
		return 0
	}
	return math.Max(-1, math.Min(1, c/math.Sqrt(vl)/math.Sqrt(vr)))
}
func (p *stereoRef) block(l, r []float64) {
	if !allFinite(l, r) {
		p.und, p.clean, p.cleanBlock = true, 0, 0
	} else {
		p.clean += len(l)
		if len(l) > 0 {
			p.cleanBlock++
		}
	}
	p.l, p.r = append(p.l, l...), append(p.r, r...)
	if len(p.l) > p.w {
		p.l, p.r = p.l[len(p.l)-p.w:], p.r[len(p.r)-p.w:]
	}
	if p.und {
		return
	}
	if len(p.l) == p.w {
		c := pearson(p.l, p.r)
		p.corr = p.corr*p.avg + c*(1-p.avg)
		switch {
		case p.holdSure && c < p.hold-1e-9 || !p.holdSure && c < p.holdLow-1e-9:
			p.hold, p.holdLeft, p.holdSure = c, int(p.holdTime*p.sr/float64(p.w)), true
		case !p.holdSure:
			p.holdLow = math.Min(p.holdLow, p.corr)
		case c < p.hold+1e-9: // a tie: rounding decides whether the hold restarts
			p.holdSure, p.holdLow = false, math.Min(p.hold, p.corr)-1e-9
		default:
			if p.holdLeft--; p.holdLeft <= 0 {
				p.hold, p.holdLeft = p.corr, 0
			}
		}
	}
	if n := float64(len(l)); n > 0 {
		var sl, sr, sm, ss float64
		for i := range l {
			m, s := (l[i]+r[i])/2, (l[i]-r[i])/2
			sl, sr, sm, ss = sl+l[i]*l[i]/n, sr+r[i]*r[i]/n, sm+m*m/n, ss+s*s/n
		}
		p.pl, p.pr = p.pl*0.95+sl*0.05, p.pr*0.95+sr*0.05
		p.pm, p.ps = p.pm*0.95+sm*0.05, p.ps*0.95+ss*0.05
	}
}
func status(c float64) (float64, bool) {
	s := 4.0
	for k, t := range []float64{0.9, 0.5, -0.5, -0.9} {
		if math.Abs(c-t) < 1e-7 {
			return 0, false
		}
		if c > t {
			s = float64(k)
			break
		}
	}
	return s, true
}
func (p *stereoRef) read(k int) reading {
	if p.und {
		// Only that the reading came back once the window is clean again.
		if p.clean >= p.w && p.cleanBlock >= 2 && k != 1 {
			return reading{chk: func(got []float64) string {
				for i, x := range got {
					if math.IsNaN(x) {
						return fmt.Sprintf("reading %d is still NaN %d finite samples after a non-finite one (window %d)", i, p.clean, p.w)
					}
				}
				return ""
			}}
		}
		return reading{und: true}
	}
	st, sure := status(p.corr)
	mono := (p.corr + 1) / 2
	if !p.combined {
		switch k {
		case 0:
			return reading{v: []float64{p.corr}, tol: []float64{1e-7}}
		case 1:
			return reading{v: []float64{p.hold}, tol: []float64{1e-7}, und: !p.holdSure}
		case 2:
			return reading{v: []float64{st}, und: !sure}
		}
		return reading{v: []float64{mono}, tol: []float64{1e-7}}
	}
	bal, wid, wdb := 0.0, 0.0, math.Inf(-1)
	if p.pl+p.pr > 0 {
		bal = (p.pr - p.pl) / (p.pl + p.pr)
	}
	wtol := 1e-7
	if p.pm+p.ps > 0 {
		wid = math.Sqrt(p.ps / p.pm)
		if p.pm < 1e-12*p.ps || p.ps < 1e-12*p.pm {
			wtol = math.Inf(1) // dominated by rounding
		} else {
			wtol *= 1 + wid
		}
	}
	if p.pm > 0 && p.ps > 0 {
		wdb = 10 * math.Log10(p.ps/p.pm)
	}
	want := []float64{p.corr, st, mono, bal, wid, wdb}
	return reading{chk: func(got []float64) string {
		bad := func(i int, tol float64) bool { return !(math.Abs(got[i]-want[i]) <= tol) && got[i] != want[i] }
		if bad(0, 1e-7) || sure && bad(1, 0) || bad(2, 1e-7) || bad(3, 1e-7) || !math.IsInf(wtol, 1) && (bad(4, wtol) || bad(5, 1e-5)) {
			return fmt.Sprintf("analysis {correlation, status, mono compatibility, balance, width, width dB} = %v, the stream has %v", got, want)
		}
		return ""
	}}
}

// --- scopes ---

type scopeReal struct {
	p *analysis.PhaseScope
	v *analysis.VectorScope
}

func (p *scopeReal) block(l, r []float64) {
	if p.v != nil {
		p.v.Process(l, r)
	} else {
		p.p.Process(l, r)
	}
}
func (p *scopeReal) reset() {
	if p.v != nil {
		p.v.Reset()
	} else {
		p.p.Reset()
	}
}
func (p *scopeReal) set(k int, x float64) {
	if p.p == nil {
		return
	}
	switch k % 4 {
	case 0:
		p.p.SetMode(analysis.PhaseScopeMode(int(x*10) % 3))
	case 1:
		p.p.SetDecay(x / 2)
	case 2:
		p.p.SetScale(x)
	default:
		p.p.SetPersistence(x)
	}
}
func flat(a []analysis.PhasePoint, b []float64) []float64 {
	out := []float64{float64(len(a)), float64(len(b))}
	for _, p := range a {
		out = append(out, p.X, p.Y)
	}
	return append(out, b...)
}
func statVec(s analysis.PhaseScopeStats) []float64 {
	return []float64{s.AverageMid, s.AverageSide, s.Width, s.MaxRadius, s.PhaseConcentration, s.DominantAngle}
}
func (p *scopeReal) read(k int) []float64 {
	if p.v != nil {
		if k == 0 {
			a, b, _, _ := p.v.GetDisplay()
			return flat(a, b)
		}
		return statVec(p.v.GetStatistics())
	}
	switch k {
	case 0:
		return flat(p.p.GetPoints())
	case 1:
		return statVec(p.p.GetStatistics())
	}
	a, b, c := p.p.GetPolarData()
	out := append([]float64{float64(len(a)), float64(len(b)), float64(len(c))}, a...)
	return append(append(out, b...), c...)
}

type scopePt struct{ l, r, x, y, bright float64 }

type scopeRef struct {
	size         int
	vector       bool
	rot          bool
	decay, scale float64
	pts          []scopePt
}

func (p *scopeRef) kinds() int {
	if p.vector {
		return 2
	}
	return 3
}
func (p *scopeRef) reset() { p.pts = nil }
func (p *scopeRef) set(k int, x float64) {
	if p.vector {
		return
	}
	switch k % 4 {
	case 0:
		if m := int(x*10) % 3; m >= 0 {
			p.rot = m == 1
		}
	case 1:
		if x/2 >= 0 && x/2 <= 1 {
			p.decay = x / 2
		}
	case 2:
		if x > 0 {
			p.scale = x
		}
	}
}
func (p *scopeRef) block(l, r []float64) {
	for i := range p.pts {
		p.pts[i].bright *= p.decay
	}
	for i := range l {
		x, y := l[i]*p.scale, r[i]*p.scale
		if p.rot {
			x, y = (x-y)*math.Sqrt2/2, (x+y)*math.Sqrt2/2
		}
		p.pts = append(p.pts, scopePt{l[i], r[i], x, y, 1})
	}
	if len(p.pts) > p.size {
		p.pts = append([]scopePt(nil), p.pts[len(p.pts)-p.size:]...)
	}
}
func (p *scopeRef) read(k int) reading {
	n := float64(len(p.pts))
	finite := true
	for _, q := range p.pts {
		finite = finite && allFinite([]float64{q.l, q.r})
	}
	switch k {
	case 0:
		out := []float64{n, n}
		for _, q := range p.pts {
			out = append(out, q.x, q.y)
		}
		for _, q := range p.pts {
			out = append(out, q.bright)
		}
		return reading{v: out}
	case 2:
		out := []float64{n, n, n}
		for _, q := range p.pts {
			out = append(out, math.Hypot(q.l, q.r)*p.scale)
		}
		for _, q := range p.pts {
			out = append(out, math.Atan2(q.r*p.scale, q.l*p.scale))
		}
		for _, q := range p.pts {
			out = append(out, q.bright)
		}
		return reading{v: out, und: !finite}
	}
	if n == 0 {
		return reading{v: make([]float64, 6)}
	}
	var m, s, rad, a, aa, na float64
	for _, q := range p.pts {
		m += math.Abs((q.l + q.r) / 2)
		s += math.Abs((q.l - q.r) / 2)
		rad = math.Max(rad, math.Hypot(q.l, q.r))
		if q.l != 0 || q.r != 0 {
			t := math.Atan2(q.r, q.l)
			a, aa, na = a+t, aa+t*t, na+1
		}
	}
	out := []float64{m / n, s / n, 0, rad, 0, 0}
	tol := []float64{1e-9 * (1 + rad), 1e-9 * (1 + rad), 0, 1e-9 * (1 + rad), 1e-5, 1e-7}
	if out[0] > 0 {
		out[2] = out[1] / out[0]
		tol[2] = 1e-7 * (1 + out[2])
		if out[0] < 1e-9*out[1] {
			tol[2] = math.Inf(1)
		}
	}
	if na > 0 {
		mean := a / na
		out[4], out[5] = 1/(1+math.Sqrt(math.Abs(aa/na-mean*mean))), mean
	}
	return reading{v: out, tol: tol, und: !finite}
}

// --- spectrum ---

type specReal struct{ m *analysis.SpectrumAnalyzer }

func (p *specReal) block(l, _ []float64) { p.m.Process(l) }
func (p *specReal) reset()               { p.m.Reset() }
func (p *specReal) set(k int, x float64) { specSet(p.m, k, x) }
func specSet(m *analysis.SpectrumAnalyzer, k int, x float64) {
	switch k % 4 {
	case 0:
		m.SetHopSize(int(x * 8))
	case 1:
		m.SetAveraging(analysis.AveragingMode(int(x*100)%4), 1+int(x*2))
	case 2:
		m.SetSmoothing(x / 2)
	default:
		m.SetFrequencyRange(x*100, x*100+2000)
	}
}
func (p *specReal) read(k int) []float64 {
	switch k {
	case 0:
		return p.m.GetSpectrum()
	case 1:
		return p.m.GetSpectrumDB()
	case 2:
		return append([]float64{}, p.m.GetSpectrumInRange()...)
	case 3:
		return append([]float64{}, p.m.GetSpectrumDBInRange()...)
	case 4:
		f, g := p.m.GetPeakFrequency()
		return []float64{f, g}
	case 5:
		return []float64{p.m.GetBandEnergy(200, 1500)}
	}
	return p.m.GetOctaveBands([]float64{250, 1000, 3500})
}

type specRef struct {
	n        int
	sr       float64
	fft      *analysis.FFT
	buf      []float64
	hop      int
	mode     int
	ring     [][]float64
	ringN    int
	smooth   float64
	lo, hi   float64
	out      []float64
	und      bool
	sinceBad int
}

func newSpecRef(n int, sr float64, w analysis.WindowFunc) *specRef {
	return &specRef{n: n, sr: sr, fft: analysis.NewFFT(n, w), hop: n / 2, smooth: 0.9, lo: 20, hi: sr / 2, out: make([]float64, n/2+1)}
}
func (p *specRef) kinds() int { return 7 }
func (p *specRef) reset()     { p.buf, p.ring, p.out, p.und = nil, nil, make([]float64, p.n/2+1), false }
func (p *specRef) set(k int, x float64) {
	switch k % 4 {
	case 0:
		if h := int(x * 8); h > 0 && h <= p.n {
			p.hop = h
		}
	case 1:
		p.mode = int(x*100) % 4
		if p.mode != 0 {
			p.ring, p.ringN = nil, 1+int(x*2)
		}
	case 2:
		if x/2 >= 0 && x/2 <= 1 {
			p.smooth = x / 2
		}
	default:
		p.lo, p.hi = math.Max(0, x*100), math.Min(p.sr/2, x*100+2000)
	}
}
func (p *specRef) block(l, _ []float64) {
	for _, x := range l {
		p.buf = append(p.buf, x)
		if len(p.buf) < p.n {
			continue
		}
		if !allFinite(p.buf) {
			p.und = true
		}
		mag, _ := p.fft.Forward(append([]float64(nil), p.buf...))
		switch p.mode {
		case 0:
			copy(p.out, mag)
		case 1:
			for i := range p.out {
				p.out[i] = p.out[i]*p.smooth + mag[i]*(1-p.smooth)
			}
		case 2:
			p.ring = append(p.ring, append([]float64(nil), mag...))
			if len(p.ring) > p.ringN {
				p.ring = p.ring[1:]
			}
			for i := range p.out {
				p.out[i] = 0
				for _, m := range p.ring {
					p.out[i] += m[i] / float64(len(p.ring))
				}
			}
		default:
			for i := range p.out {
				p.out[i] = math.Max(p.out[i], mag[i])
			}
		}
		p.buf = append([]float64(nil), p.buf[p.hop:]...)
	}
}
func (p *specRef) bins() (int, int) {
	w := p.sr / float64(p.n)
	a, b := int(p.lo/w), int(p.hi/w)+1
	if b > p.n/2 {
		b = p.n / 2
	}
	return a, b
}
func (p *specRef) dbs(x []float64) ([]float64, []float64) {
	out, tol := make([]float64, len(x)), make([]float64, len(x))
	for i, m := range x {
		out[i], tol[i] = -120, 1e-4
		if m > 0 {
			out[i] = 20 * math.Log10(m)
		}
		if m < 1e-12 {
			tol[i] = math.Inf(1) // rounding decides
		}
	}
	return out, tol
}
func (p *specRef) read(k int) reading {
	rd := reading{und: p.und}
	big := 0.0
	for _, x := range p.out {
		big = math.Max(big, x)
	}
	lin := func(v []float64) {
		rd.v = append([]float64{}, v...)
		for range v {
			rd.tol = append(rd.tol, 1e-9*(1e-6+big))
		}
	}
	a, b := p.bins()
	in := []float64{}
	if a < b {
		in = p.out[a:b]
	}
	switch k {
	case 0:
		lin(p.out)
	case 1:
		rd.v, rd.tol = p.dbs(p.out)
	case 2:
		lin(in)
	case 3:
		rd.v, rd.tol = p.dbs(in)
	case 4:
		best := 0.0
		at := 0
		for i := a; i < b; i++ {
			if p.out[i] > best {
				best, at = p.out[i], i
			}
		}
		near := 0
		for i := a; i < b; i++ {
			if p.out[i] >= best*(1-1e-9)-1e-12 {
				near++
			}
		}
		rd.v = []float64{float64(at) * p.sr / float64(p.n), best}
		rd.tol = []float64{1e-6, 1e-9 * (1e-6 + big)}
		if near > 1 {
			rd.tol[0] = math.Inf(1)
		}
	case 5:
		e := 0.0
		for i := int(200 * float64(p.n) / p.sr); i <= int(1500*float64(p.n)/p.sr) && i < len(p.out); i++ {
			e += p.out[i] * p.out[i]
		}
		rd.v, rd.tol = []float64{e}, []float64{1e-9 * (1e-6 + e)}
	default:
		for _, f := range []float64{250, 1000, 3500} {
			e, n := 0.0, 0.0
			for i := int(f / math.Sqrt2 * float64(p.n) / p.sr); i <= int(f*math.Sqrt2*float64(p.n)/p.sr) && i < len(p.out); i++ {
				e += p.out[i] * p.out[i]
				n++
			}
			v := 0.0
			if n > 0 {
				v = math.Sqrt(e / n)
			}
			rd.v, rd.tol = append(rd.v, v), append(rd.tol, 1e-9*(1e-6+big))
		}
	}
	return rd
}

// --- the simulated stream and threads ---

// stream makes the samples of one block; the generator position carries on
// from block to block.
func stream(o core.Op, pos *float64) (l, r []float64) {
	n := int(o.Int(0))
	if n < 0 {
		n = 0
	}
	amp := o.Flt(0)
	g := core.NewR(uint64(o.Int(2)))
	l, r = make([]float64, n), make([]float64, n)
	for i := 0; i < n; i++ {
		*pos++
		var a, b float64
		switch o.Int(1) {
		case 0: // silence
		case 1: // in phase
			a = amp * math.Sin(*pos*0.21)
			b = a
		case 2: // out of phase
			a = amp * math.Sin(*pos*0.5)
			b = -a
		case 3: // noise
			a, b = amp*(2*g.F()-1), amp*(2*g.F()-1)
		case 4: // left only
			a = amp * math.Sin(*pos*0.13)
		case 5: // constant
			a, b = 0.5, 0.25
		case 6: // impulse
			if i == n/2 {
				a, b = amp, -amp/2
			}
		default: // noise with non-finite samples
			a, b = amp*(2*g.F()-1), amp*(2*g.F()-1)
			if i == n/3 {
				a = math.NaN()
				if g.Chance(0.5) {
					a = math.Inf(1)
				}
				b = a
			}
		}
		l[i], r[i] = a, b
	}
	return
}

var meterKinds = []string{"peak", "rms", "lufs", "corr", "stereo", "scope", "vector", "spectrum"}

func newMeter(c *core.Case) (meter, oracle) {
	w := int(c.Cfg["w"])
	sr := float64(c.CfgF["sr"])
	switch meterKinds[c.Cfg["kind"]] {
	case "peak":
		return &peakReal{analysis.NewPeakMeter(sr)}, &peakRef{sr: sr, holdTime: 3, decay: 20}
	case "rms":
		return &rmsReal{analysis.NewRMSMeter(w)}, &rmsRef{w: w}
	case "lufs":
		n := int(c.Cfg["ch"])
		return &lufsReal{analysis.NewLUFSMeter(8000, n), n}, newLufsRef(8000, n)
	case "corr":
		return &stereoReal{c: analysis.NewCorrelationMeter(w, sr)}, &stereoRef{w: w, sr: sr, avg: 0.9, holdTime: 3, hold: 1, holdSure: true}
	case "stereo":
		return &stereoReal{s: analysis.NewStereoFieldAnalyzer(w, sr)}, &stereoRef{w: w, sr: sr, combined: true, avg: 0.9, holdTime: 3, hold: 1, holdSure: true}
	case "scope":
		return &scopeReal{p: analysis.NewPhaseScope(w)}, &scopeRef{size: w, decay: 0.95, scale: 1}
	case "vector":
		return &scopeReal{v: analysis.NewVectorScope(w)}, &scopeRef{size: w, decay: 0.95, scale: 1, rot: true, vector: true}
	}
	n := 16 << (w % 3)
	win := analysis.WindowFunc(c.Cfg["win"])
	return &specReal{analysis.NewSpectrumAnalyzer(n, 8000, win)}, newSpecRef(n, 8000, win)
}

func init() {
	core.Register(&core.Check{
		ID: "P11", Quick: 21000, Thorough: 420000, RaceQuick: 400, RaceThoro: 8000,
		Rule:      "A simulated audio thread feeds one meter or analyser (peak, RMS, LUFS, correlation, stereo field, phase and vector scope, spectrum) a continuous stream cut into seeded blocks (0 to 4000 samples; sines, noise, silence, constants, impulses, loud and faint passages, NaN and infinity bursts), with setting changes and resets, while 1-2 simulated UI threads read it at seeded points. Every reading is compared with an independent sequential model of the stream: it has to equal the model's reading at one moment between the call's start and end, moments never going backwards per thread. Non-trivial: at least one preemption.",
		StateRule: "distinct interleavings (hash of context switches)",
		Real:      []string{"pkg/dsp/analysis meters, analysers and scopes"}, Stub: []string{"audio and UI threads", "thread scheduler", "audio stream"},
		Assume: []string{"after non-finite input a reading is only required to come back once the window is clean, or after Reset", "the FFT itself is taken from the code under test (a pure function)"},
		Must:   []string{"peak", "rms", "lufs", "corr", "stereo", "scope", "vector", "spectrum", "nonfinite-burst", "reset", "read-during-block", "seconds-long-window"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			k := g.N(len(meterKinds))
			if meterKinds[k] == "lufs" && g.Chance(0.75) {
				k = 1
			}
			c.Set("kind", int64(k))
			c.Set("w", int64(g.Pick(1, 2, 5, 16, 64, 64)))
			c.Set("ch", int64(g.Pick(1, 2, 2, 5, 6)))
			c.Set("win", int64(g.N(3)))
			c.SetF("sr", g.PickF(100, 1000, 48000))
			big := i%100 == 70 && meterKinds[k] != "lufs" && meterKinds[k] != "spectrum"
			if big {
				c.Set("w", int64(g.Pick(500, 1000, 4800, 9600)))
				if meterKinds[k] == "rms" {
					c.Set("w", int64(g.Pick(4800, 20000, 48000, 60000, 96000, 200000)))
				}
			}
			lufs := meterKinds[k] == "lufs"
			var ops []core.Op
			nb := g.Range(2, 14)
			total := 0
			if lufs && g.Chance(0.3) {
				nb = 40
			}
			for b := 0; b < nb; b++ {
				switch {
				case g.Chance(0.12):
					ops = append(ops, core.Op{K: "set", I: []int64{int64(g.N(4))}, F: []core.X{core.X(g.PickF(0, 0.01, 0.3, 1, 2, 2.9, -1))}})
				case g.Chance(0.06):
					ops = append(ops, core.Op{K: "reset"})
				default:
					n := g.Pick(0, 1, 3, 16, 33, 64, 100, 200)
					if lufs {
						n = g.Pick(1, 64, 512, 799, 800, 801, 1600, 3200, 4000, 8000, 16000)
						if total += n; total*int(c.Cfg["ch"]) > 120000 {
							n = g.Pick(1, 64)
						}
					}
					if big {
						n = g.Pick(1, 333, 4096, int(c.Cfg["w"])/2, int(c.Cfg["w"])+1)
					}
					kind := g.Pick(0, 1, 2, 3, 3, 4, 5, 6)
					if g.Chance(0.04) {
						kind = 7
					}
					ops = append(ops, core.Op{K: "blk", I: []int64{int64(n), int64(kind), int64(g.U64() >> 1)}, F: []core.X{core.X(g.PickF(1e-6, 1e-3, 0.1, 0.1, 1, 1, 30, 1000))}})
				}
			}
			c.Threads = [][]core.Op{ops}
			ui := g.Pick(0, 1, 1, 1, 2)
			for t := 0; t < ui; t++ {
				var rd []core.Op
				for k := g.Range(1, 6); k > 0; k-- {
					rd = append(rd, core.Op{K: "read", I: []int64{int64(g.N(7))}})
				}
				c.Threads = append(c.Threads, rd)
			}
			c.Scheds = []rt.Schedule{core.GenSched(g, 1+ui, nb*500, true)}
			return c
		},
		Exec: execP11,
	})
}

func agree(got []float64, want reading) string {
	if want.und {
		return ""
	}
	if want.chk != nil {
		return want.chk(got)
	}
	if len(got) != len(want.v) {
		return fmt.Sprintf("%d values %v, expected %d %v", len(got), short(got), len(want.v), short(want.v))
	}
	for i := range got {
		tol := 1e-9 * (1e-3 + math.Abs(want.v[i]))
		if want.tol != nil {
			tol = want.tol[i]
		}
		if math.IsInf(tol, 1) || got[i] == want.v[i] || math.Abs(got[i]-want.v[i]) <= tol || math.IsNaN(got[i]) && math.IsNaN(want.v[i]) {
			continue
		}
		return fmt.Sprintf("value %d is %v, expected %v (all: %v, expected %v)", i, got[i], want.v[i], short(got), short(want.v))
	}
	return ""
}

func short(x []float64) []float64 {
	if len(x) > 12 {
		return x[:12]
	}
	return x
}

func execP11(c *core.Case, r *core.Rec) {
	m, ref := newMeter(c)
	name := meterKinds[c.Cfg["kind"]]
	r.Probe(name)
	r.Comp(name)
	if c.Cfg["w"] > 48000 {
		r.Probe("seconds-long-window")
	}
	kinds := ref.kinds()
	ops := c.Threads[0]
	var pos float64
	blocks := make([][2][]float64, len(ops))
	var ns float64
	for k, o := range ops {
		switch o.K {
		case "blk":
			l, rr := stream(o, &pos)
			blocks[k] = [2][]float64{l, rr}
			ns += float64(len(l)) / 48000 * 1e9
			if o.Int(1) == 7 {
				r.Fault("non-finite-input")
				r.Probe("nonfinite-burst")
			}
		case "reset":
			r.Probe("reset")
		}
	}
	r.SimNs += ns
	type span struct{ call, ret int64 }
	done := make([]span, 0, len(ops))
	audio := func() {
		for k, o := range ops {
			s := span{rt.Seq(), 0}
			switch o.K {
			case "blk":
				// the caller's buffers are reused afterwards
				l := append([]float64(nil), blocks[k][0]...)
				rr := append([]float64(nil), blocks[k][1]...)
				m.block(l, rr)
				for i := range l {
					l[i], rr[i] = 777, 777
				}
			case "set":
				m.set(int(o.Int(0)), o.Flt(0))
			case "reset":
				m.reset()
			}
			s.ret = rt.Seq()
			done = append(done, s)
		}
	}
	type rd struct {
		kind      int
		got       []float64
		call, ret int64
	}
	n := len(c.Threads)
	reads := make([][]rd, n)
	fns := []func(){audio}
	for t := 1; t < n; t++ {
		t := t
		fns = append(fns, func() {
			for _, o := range c.Threads[t] {
				k := int(o.Int(0)) % kinds
				x := rd{kind: k, call: rt.Seq()}
				x.got = m.read(k)
				x.ret = rt.Seq()
				reads[t] = append(reads[t], x)
			}
		})
	}
	res := r.Run(80_000_000, fns...)
	if res.Aborted != "" || len(res.Panics) > 0 {
		return
	}
	// The model's readings after every operation.
	states := make([][]reading, 0, len(done)+1)
	take := func() {
		var row []reading
		for k := 0; k < kinds; k++ {
			row = append(row, ref.read(k))
		}
		states = append(states, row)
	}
	take()
	for k := range done {
		switch o := ops[k]; o.K {
		case "blk":
			ref.block(blocks[k][0], blocks[k][1])
		case "set":
			ref.set(int(o.Int(0)), o.Flt(0))
		case "reset":
			ref.reset()
		}
		take()
	}
	for t := 1; t < n; t++ {
		from := 0
		for _, x := range reads[t] {
			for _, v := range x.got {
				r.ObserveF(v)
			}
			r.Eval()
			lo, hi := 0, 0 // operations certainly done, possibly done
			for k, s := range done {
				if s.ret <= x.call {
					lo = k + 1
				}
				if s.call <= x.ret {
					hi = k + 1
				}
			}
			if len(done) < len(ops) && hi == len(done) {
				continue // the audio thread is stuck inside the next operation
			}
			if hi > lo {
				r.Probe("read-during-block")
			}
			if lo < from {
				lo = from
			}
			why, ok := "", false
			for k := lo; k <= hi; k++ {
				if why = agree(x.got, states[k][x.kind]); why == "" {
					ok, from = true, k
					break
				}
			}
			if !ok {
				r.Fail("wrong-reading", name, "%s meter, reading form %d by a UI thread during operations %d..%d: no moment of the stream explains it; %s", name, x.kind, lo, hi, why)
				return
			}
		}
	}
	if len(done) < len(ops) {
		return
	}
	for k := 0; k < kinds; k++ {
		got := m.read(k)
		for _, v := range got {
			r.ObserveF(v)
		}
		r.Eval()
		if why := agree(got, states[len(states)-1][k]); why != "" {
			r.Fail("wrong-reading", name, "%s meter, reading form %d after the whole stream: %s", name, k, why)
			return
		}
	}
}
