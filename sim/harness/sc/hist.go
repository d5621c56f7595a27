package sc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/anishathalye/porcupine"

	"harness/core"
	"simrt"
)

// hist is a history with operations of unknown outcome: an operation that failed with an I/O error or was cut off by a
// crash may have taken effect (atomically, before `end`) or not at all.
type hist struct {
	ops []*hop
}

type hop struct {
	client    int
	in, out   any
	call, ret int64
	not       bool // failed: must have no effect
	maybe     bool // may or may not have happened; the output is unknown
}

func (h *hist) call(client int, in any) *hop {
	o := &hop{client: client, in: in, call: simrt.Seq(), ret: -1}
	h.ops = append(h.ops, o)
	return o
}

func (o *hop) done(out any) {
	o.out = out
	o.ret = simrt.Seq()
}

// unsure ends the operation with an unknown outcome.
func (o *hop) unsure() {
	o.maybe = true
	o.ret = simrt.Seq()
}

// never ends the operation: it failed and must not have had any effect.
func (o *hop) never() {
	o.not = true
	o.ret = simrt.Seq()
}

// cut ends every operation in flight with an unknown outcome (the process died).
func (h *hist) cut() (n int) {
	e := simrt.Seq()
	for _, o := range h.ops {
		if o.ret < 0 {
			o.maybe = true
			o.ret = e
			n++
		}
	}
	return
}

// unknown counts the operations of unknown outcome and those in flight.
func (h *hist) unknown() (n int) {
	for _, o := range h.ops {
		if o.maybe || o.ret < 0 {
			n++
		}
	}
	return
}

// model of a sequential object; out nil means the output is unknown.
type model struct {
	init  func() any
	step  func(state, in, out any) (bool, any)
	equal func(a, b any) bool
	show  func(in, out any) string
}

// linearizable checks the history under every combination of the operations of unknown outcome.
func (h *hist) linearizable(m model) bool {
	var mb []int
	for i, o := range h.ops {
		if o.maybe {
			mb = append(mb, i)
		}
	}
	if len(mb) > 10 {
		core.Broken("too many operations of unknown outcome: %d", len(mb))
		return true
	}
	pm := porcupine.Model{Init: func() interface{} { return m.init() },
		Step: func(s, i, o interface{}) (bool, interface{}) { return m.step(s, i, o) }}
	if m.equal != nil {
		pm.Equal = func(a, b interface{}) bool { return m.equal(a, b) }
	}
	for mask := 0; mask < 1<<len(mb); mask++ {
		var ops []porcupine.Operation
		j := 0
		for _, o := range h.ops {
			out := o.out
			if o.not {
				continue
			}
			if o.maybe {
				in := mask>>j&1 == 1
				j++
				if !in {
					continue
				}
				out = nil
			}
			ops = append(ops, porcupine.Operation{ClientId: o.client, Input: o.in, Output: out, Call: o.call, Return: o.ret})
		}
		if porcupine.CheckOperationsTimeout(pm, ops, 0) == porcupine.Ok {
			return true
		}
	}
	return false
}

func (h *hist) show(m model) string {
	ops := append([]*hop{}, h.ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	var b strings.Builder
	for _, o := range ops {
		s := fmt.Sprintf("%+v -> %+v", o.in, o.out)
		if m.show != nil {
			s = m.show(o.in, o.out)
		}
		if o.not {
			s = fmt.Sprintf("%+v failed", o.in)
		}
		if o.maybe {
			s += " (outcome unknown)"
		}
		fmt.Fprintf(&b, "  [%d..%d] client %d: %s\n", o.call, o.ret, o.client, s)
	}
	return b.String()
}
