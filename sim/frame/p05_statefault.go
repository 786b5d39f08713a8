package frame

import (
	"bytes"
	"errors"
	"io"
	"math"

	"vstrt/rt"
	"vstsim/core"

	"github.com/justyntemme/vst3go/pkg/framework/state"
)

func init() {
	core.Register(&core.Check{
		ID: "P05", Quick: 375000, Thorough: 7500000,
		Rule:      "A valid state of 0-12 parameters is damaged (truncated at any byte, read error at any byte, bit flips, spliced, random bytes, wild counts, out-of-range stored values) and loaded through fragmenting readers; saves go to writers that fail or tear at any byte. Every outcome is compared with an independent decoder. Non-trivial: at least one fault fired.",
		StateRule: "distinct (fault kind, position bucket, outcome) triples",
		Real:      []string{"pkg/framework/state.Manager", "pkg/framework/param.Registry", "pkg/framework/param.Parameter"},
		Stub:      []string{"host stream (in-memory, seeded faults)"},
		Assume:    []string{"readers and writers keep the io.Reader/io.Writer contract"},
		Must:      []string{"thousands-of-parameters"},
		Gen: func(g *core.R, i int) *core.Case {
			c := &core.Case{}
			n := g.Pick(0, 1, 2, 3, 5, 12)
			ids := genIDs(g, n+2)
			var src, dst []core.Op
			for k := 0; k < n; k++ {
				v := specialValue(g)
				src = append(src, core.Op{K: "param", I: []int64{ids[k]}, F: []core.X{core.X(v)}})
				dst = append(dst, core.Op{K: "param", I: []int64{ids[k]}, F: []core.X{core.X(g.F())}})
			}
			dst = append(dst, core.Op{K: "param", I: []int64{ids[n]}, F: []core.X{core.X(g.F())}})
			var faults []core.Op
			for k := g.Pick(1, 1, 1, 2, 3); k > 0; k-- {
				switch g.N(12) {
				case 0, 1, 2:
					faults = append(faults, core.Op{K: "truncate", I: []int64{int64(g.N(1 << 20))}})
				case 3, 4:
					faults = append(faults, core.Op{K: "readerror", I: []int64{int64(g.N(1 << 20)), int64(g.N(3))}})
				case 5, 6:
					faults = append(faults, core.Op{K: "flip", I: []int64{int64(g.N(1 << 20)), int64(g.N(8))}})
				case 7:
					faults = append(faults, core.Op{K: "count", I: []int64{int64(g.PickF(0, 1, 2, 13, 1<<20, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0))}})
				case 8:
					faults = append(faults, core.Op{K: "version", I: []int64{int64(g.PickF(0, 2, 3, 0x80000000, 0xffffffff))}})
				case 9:
					faults = append(faults, core.Op{K: "value", I: []int64{int64(g.N(16))}, F: []core.X{core.X(g.PickF(math.NaN(), math.Inf(1), math.Inf(-1), 1.5, -0.25, 1e300))}})
				case 10:
					faults = append(faults, core.Op{K: "zero", I: []int64{int64(g.N(1 << 20)), int64(g.Range(1, 16))}})
				default:
					faults = append(faults, core.Op{K: "garbage", I: []int64{int64(g.N(64))}})
				}
			}
			if g.Chance(0.1) {
				faults = nil
			}
			big := g.Pick(200, 700, 1500, 5000, 12000)
			if i%500 == 150 {
				src, dst = genBulk(g, big, ids, src, dst)
				for k := range faults {
					switch faults[k].K {
					case "value":
						faults[k].I[0] = int64(g.N(20000))
					case "count":
						if g.Chance(0.5) {
							faults[k].I[0] = int64(big + g.Range(-2, 15))
						}
					}
				}
			}
			c.Threads = [][]core.Op{src, dst, faults}
			c.Set("custom", int64(g.N(2)))
			c.Set("customlen", int64(g.Pick(0, 1, 9, 60)))
			if i%500 == 50 {
				c.Set("customlen", int64(g.Pick(5000, 70000, 300000)))
			}
			c.Set("loader", int64(g.Pick(1, 1, 0)))
			c.Set("wfail", int64(g.N(1<<20)))
			c.Set("wshort", int64(g.N(2)))
			streamCfg(g, c)
			return c
		},
		Exec: execP05,
	})
}

var errOther = errors.New("device lost")

func execP05(c *core.Case, r *core.Rec) {
	g := core.NewR(c.Seed ^ 0xabcdef)
	srcOps, dstOps := expand(c.Threads[0]), expand(c.Threads[1])
	src, _ := mkRegistry(srcOps)
	if len(srcOps) >= 5000 {
		r.Probe("thousands-of-parameters")
	}
	m := state.NewManager(src)
	hasCustom := c.Cfg["custom"] == 1
	custom := customBytes(blob(g, int(c.Cfg["customlen"])))
	if hasCustom {
		m.SetCustomSaveFunc(func(w io.Writer) error { _, err := w.Write(custom); return err })
	}
	good := &core.Writer{FailAt: -1}
	if err := m.Save(good); err != nil {
		r.Fail("save-error", "save-error", "save into a healthy stream failed: %v", err)
		return
	}
	if es, _, _, ok := decode(good.B); !ok || len(es) != int(src.Count()) {
		r.Fail("saved-incomplete", "saved-incomplete", "a save that met no fault stored %d of %d parameters (well-formed: %v)", len(es), src.Count(), ok)
		return
	}
	// Save into a stream that fails.
	{
		at := int(c.Cfg["wfail"]) % (len(good.B) + 1)
		w := &core.Writer{FailAt: at, Short: c.Cfg["wshort"] == 1, Rec: r}
		var err error
		r.Eval()
		if f, st := rt.Solo(50_000_000, func() { err = m.Save(w) }); f != "" {
			r.Fail("save-"+f, "save-failure", "%s\n%s", f, st)
			return
		}
		if w.Fails > 0 && err == nil {
			r.Fail("write-error-swallowed", "write-error-swallowed", "the stream refused data after %d of %d bytes, but the save reported success", at, len(good.B))
			return
		}
		if w.Fails == 0 && (err != nil || !bytes.Equal(w.B, good.B)) {
			r.Fail("save-error", "save-error", "a save that met no fault: error %v, %d bytes instead of %d", err, len(w.B), len(good.B))
			return
		}
	}
	b := append([]byte{}, good.B...)
	rd := mkReader(c, r, nil, g)
	kinds := ""
	for _, o := range c.Threads[2] {
		at := 0
		if len(b) > 0 {
			at = int(o.Int(0)) % len(b)
		}
		switch o.K {
		case "truncate":
			b = b[:at]
		case "readerror":
			rd.FailAt = at
			rd.Err = []error{core.ErrDisk, io.ErrUnexpectedEOF, errOther}[o.Int(1)%3]
		case "flip":
			if len(b) > 0 {
				b[at] ^= 1 << uint(o.Int(1))
			}
		case "count", "version":
			p := 10
			if o.K == "version" {
				p = 6
			}
			if len(b) >= p+4 {
				v := uint32(o.Int(0))
				b[p], b[p+1], b[p+2], b[p+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
			}
		case "value":
			n := len(srcOps)
			if n > 0 {
				k := int(o.Int(0)) % n
				u := math.Float64bits(o.Flt(0))
				for j := 0; j < 8; j++ {
					if 14+12*k+4+j < len(b) {
						b[14+12*k+4+j] = byte(u >> (8 * uint(j)))
					}
				}
			}
		case "zero":
			for j := 0; j < int(o.Int(1)); j++ {
				if at+j < len(b) {
					b[at+j] = 0
				}
			}
		case "garbage":
			b = append([]byte{}, blob(g, int(o.Int(0)))...)
		}
		r.Fault("stream-" + o.K)
		kinds += o.K + ","
		r.NonTriv = true
	}
	rd.B = b
	seen := b
	readErr := rd.FailAt >= 0 && rd.FailAt < len(b)
	if readErr {
		seen = b[:rd.FailAt]
	}
	es, cu, hc, ok := decode(seen)
	dst, dids := mkRegistry(dstOps)
	before := map[uint32]float64{}
	for _, id := range dids {
		before[id] = dst.Get(id).GetValue()
	}
	m2 := state.NewManager(dst)
	var got []byte
	var cerr error
	calls := 0
	loader := c.Cfg["loader"] == 1
	if loader {
		m2.SetCustomLoadFunc(func(rr io.Reader) error { calls++; got, cerr = readCustom(rr); return cerr })
	}
	var err error
	r.Eval()
	if f, st := rt.Solo(50_000_000, func() { err = m2.Load(rd) }); f != "" {
		r.Fail("load-"+f, "load-failure", "loading a damaged state (%s): %s\n%s", kinds, f, st)
		return
	}
	after := map[uint32]float64{}
	changed := false
	for _, id := range dids {
		v := dst.Get(id).GetValue()
		after[id] = v
		if v != before[id] {
			changed = true
		}
		if !(v >= 0 && v <= 1) {
			r.Fail("out-of-range", "out-of-range", "parameter %d holds %v after loading (%s)", id, v, kinds)
			return
		}
	}
	if int(dst.Count()) != len(before) {
		r.Fail("registry-changed", "registry-changed", "loading changed the number of parameters")
		return
	}
	st := uint64(len(seen)) / 4
	if err != nil {
		st |= 1 << 30
	}
	r.State(core.HashU(core.HashS(kinds), st))
	r.ObserveS(kinds)
	r.Observe(uint64(len(after)))
	if !ok {
		if err == nil {
			r.Fail("damage-accepted", "damage-accepted", "a state that is not well-formed (%s; %d bytes) was loaded without an error", kinds, len(seen))
			return
		}
		if changed {
			r.Fail("half-restored", "half-restored", "loading failed (%v), but parameters changed (%s): before %v, after %v", err, kinds, before, after)
			return
		}
		r.Probe("refused")
		return
	}
	// The parameter section is complete.
	want := map[uint32]float64{}
	loose := map[uint32]bool{}
	for id, v := range before {
		want[id] = v
	}
	for _, e := range es {
		if _, known := want[e.id]; !known {
			continue
		}
		lo, hi := clamp01(e.v)
		loose[e.id] = lo != hi
		want[e.id] = lo
	}
	if hc && loader && cerr != nil {
		if err == nil {
			r.Fail("read-error-swallowed", "read-error-swallowed", "the plugin's own section failed to load (%v), but the load reported success", cerr)
		}
		// All or nothing.
		isNew, isOld := true, true
		for _, id := range dids {
			if !loose[id] && after[id] != want[id] {
				isNew = false
			}
			if after[id] != before[id] {
				isOld = false
			}
		}
		if !isNew && !isOld {
			r.Fail("half-restored", "half-restored", "custom section failed; parameters are neither all old nor all restored")
		}
		r.Probe("custom-failed")
		return
	}
	if err != nil {
		r.Fail("load-refused", "load-refused", "a state whose parameter section is complete was refused (%s): %v", kinds, err)
		return
	}
	for _, id := range dids {
		if !loose[id] && after[id] != want[id] {
			r.Fail("not-restored", "not-restored", "parameter %d is %v after loading, expected %v (before: %v; %s)", id, after[id], want[id], before[id], kinds)
			return
		}
	}
	if hc && loader && len(cu) >= 4 && calls != 1 {
		r.Fail("custom-not-restored", "custom-not-restored", "custom loader called %d times", calls)
	}
	if hc && loader && len(c.Threads[2]) == 0 && !bytes.Equal(customBytes(got), custom) {
		r.Fail("custom-not-restored", "custom-not-restored", "custom section differs")
	}
	r.Probe("accepted")
}
