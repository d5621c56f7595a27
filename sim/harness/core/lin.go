package core

import (
	"time"

	"github.com/anishathalye/porcupine"

	"simrt"
)

// Hist is a history of operations on one object, stamped with the simulator's global event order.
type Hist struct {
	Ops []porcupine.Operation
	In  []any
}

// Call starts an operation; Ret ends it.
func (h *Hist) Call(client int, in any) int {
	h.Ops = append(h.Ops, porcupine.Operation{ClientId: client, Input: in, Call: simrt.Seq(), Return: -1})
	return len(h.Ops) - 1
}

// Ret ends operation i.
func (h *Hist) Ret(i int, out any) {
	h.Ops[i].Output = out
	h.Ops[i].Return = simrt.Seq()
}

// Model of a sequential object.
type Model struct {
	Init  func() any
	Step  func(state, in, out any) (bool, any)
	Equal func(a, b any) bool
}

// Linearizable checks the history; operations that never returned may have happened or not.
func (h *Hist) Linearizable(m Model) bool {
	ops := make([]porcupine.Operation, 0, len(h.Ops))
	end := simrt.Seq() + 1
	for _, o := range h.Ops {
		if o.Return < 0 {
			o.Return = end
			end++
		}
		ops = append(ops, o)
	}
	pm := porcupine.Model{Init: func() interface{} { return m.Init() }, Step: func(s, i, o interface{}) (bool, interface{}) { return m.Step(s, i, o) }}
	if m.Equal != nil {
		pm.Equal = func(a, b interface{}) bool { return m.Equal(a, b) }
	}
	switch porcupine.CheckOperationsTimeout(pm, ops, 20*time.Second) {
	case porcupine.Illegal:
		return false
	case porcupine.Unknown:
		simrt.Count("lin-unknown")
	}
	return true
}
