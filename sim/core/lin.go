package core

import (
	"math"
	"time"

	"vstrt/rt"

	"github.com/anishathalye/porcupine"
)

// HOp is one operation of a recorded history.
type HOp struct {
	Task      int
	In, Out   any
	Call, Ret int64
}

// Hist records one task's operations; it is used by that task only.
type Hist struct {
	Task int
	Ops  []HOp
}

// Do stamps an operation with the simulator's event sequence numbers.
func (h *Hist) Do(in any, f func() any) any {
	h.Ops = append(h.Ops, HOp{Task: h.Task, In: in, Call: rt.Seq(), Ret: -1})
	k := len(h.Ops) - 1
	out := f()
	h.Ops[k].Out = out
	h.Ops[k].Ret = rt.Seq()
	return out
}

// Linearizable checks a history against a sequential model. Operations that
// never returned (their thread was suspended for ever) may or may not have
// taken effect: readOnly ones are dropped, the others stay open to the end.
// It returns 1 (linearizable), 0 (not), -1 (undecided).
func Linearizable(m porcupine.Model, hs []*Hist, readOnly func(in any) bool) int {
	var ops []porcupine.Operation
	for _, h := range hs {
		for _, o := range h.Ops {
			ret := o.Ret
			if ret < 0 {
				if readOnly(o.In) {
					continue
				}
				ret = math.MaxInt64 / 2
			}
			ops = append(ops, porcupine.Operation{ClientId: h.Task, Input: o.In, Output: o.Out, Call: o.Call, Return: ret})
		}
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 5*time.Second) {
	case porcupine.Ok:
		return 1
	case porcupine.Illegal:
		return 0
	}
	return -1
}
