package sc

import (
	"math"
	"time"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/skyobject/statutil"
)

type a01in struct {
	add bool
	x   float64
}

type a01state struct {
	win []float64
}

func mean(w []float64) float64 {
	if len(w) == 0 {
		return 0
	}
	var s float64
	for _, x := range w {
		s += x
	}
	return s / float64(len(w))
}

func a01Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"n": int64(1 + r.N(5)), "kind": int64(r.N(2)), "scale": pick(r, int64(1), 1000, 1000000007)}}
	n := 1 + r.N(4)
	total := 4 + r.N(10)
	for i := 0; i < total; i++ {
		k := "add"
		if r.N(3) == 0 {
			k = "val"
		}
		x := int64(1) << uint(i)
		if r.N(2) == 0 {
			x = int64(r.N(1000)) * 17
		}
		if r.N(4) == 0 {
			x = -x
		}
		p.Ops = append(p.Ops, core.Op{C: r.N(n), K: k, A: []int64{x}})
	}
	return p
}

func a01Body(p *core.Prog) {
	n := int(p.Cfg["n"])
	scale := float64(p.Cfg["scale"])
	pr := newProc("avg")
	h := &core.Hist{}
	var add func(float64) float64
	var val func() float64
	maxAbs := 1.0
	if p.Cfg["kind"] == 0 {
		f := statutil.NewFloat(n)
		add, val = f.Add, f.Value
	} else {
		d := statutil.NewDuration(n)
		add = func(x float64) float64 { return float64(d.Add(time.Duration(x))) }
		val = func() float64 { return float64(d.Value()) }
	}
	for _, o := range p.Ops {
		maxAbs = math.Max(maxAbs, math.Abs(float64(o.Arg(0))*scale))
	}
	pr.Par(p.Clients(), func(c int) {
		for _, o := range p.Of(c) {
			if o.K == "add" {
				x := float64(o.Arg(0)) * scale
				i := h.Call(c, a01in{true, x})
				h.Ret(i, add(x))
			} else {
				i := h.Call(c, a01in{})
				h.Ret(i, val())
			}
		}
	})
	if !pr.alive() {
		return
	}
	// the last operation of all: what is left must be the mean of the window in some order
	i := h.Call(99, a01in{})
	h.Ret(i, val())
	tol := maxAbs * 1e-9
	if p.Cfg["kind"] == 1 {
		tol += 1.5
	}
	ok := h.Linearizable(core.Model{
		Init: func() any { return []float64(nil) },
		Step: func(s, in, out any) (bool, any) {
			w := s.([]float64)
			i := in.(a01in)
			if i.add {
				w = append(append([]float64{}, w...), i.x)
				if len(w) > n {
					w = w[len(w)-n:]
				}
			}
			if out == nil {
				return true, w
			}
			return math.Abs(out.(float64)-mean(w)) <= tol, w
		},
		Equal: func(a, b any) bool {
			x, y := a.([]float64), b.([]float64)
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if x[i] != y[i] {
					return false
				}
			}
			return true
		}})
	if !ok {
		var s []any
		for _, o := range h.Ops {
			s = append(s, o.ClientId, o.Input, o.Output, o.Call, o.Return, "\n")
		}
		fail("not-linearizable", "window %d: no order of these operations (client, input, output, call, return) is a rolling mean:\n%v", n, s)
	}
}

// clock scenario: one caller, clock steps.
func a01ClockGen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"n": int64(1 + r.N(5))}}
	for k := 2 + r.N(10); k > 0; k-- {
		p.Ops = append(p.Ops, core.Op{K: pick(r, "start", "start", "sleepstart", "step", "add"), A: []int64{int64(r.N(5000)), int64(r.N(20000)) - 10000}})
	}
	return p
}

func a01ClockBody(p *core.Prog) {
	pr := newProc("avg")
	n := int(p.Cfg["n"])
	pr.Do("clock", func() {
		d := statutil.NewDuration(n)
		var lo, hi []float64
		put := func(a, b float64) {
			lo, hi = append(lo, a), append(hi, b)
			if len(lo) > n {
				lo, hi = lo[1:], hi[1:]
			}
		}
		check := func(got time.Duration, what string) {
			if g := float64(got); g < mean(lo)-2 || g > mean(hi)+2 {
				fail("elapsed", "%s: average %v, expected between %v and %v", what, got, time.Duration(mean(lo)), time.Duration(mean(hi)))
			}
			if v := d.Value(); v != got {
				fail("value", "Add returned %v, Value is %v", got, v)
			}
		}
		for _, o := range p.Ops {
			switch o.K {
			case "step":
				simrt.Count("clock-step")
				pr.D.Skew += o.Arg(1) * 1e6
			case "add":
				put(float64(o.Arg(0)), float64(o.Arg(0)))
				check(d.Add(time.Duration(o.Arg(0))), "Add")
			case "start", "sleepstart":
				t0 := simrt.SimNow()
				tp := time.Now()
				t1 := simrt.SimNow()
				if o.K == "sleepstart" {
					time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
					if o.Arg(1)%3 == 0 {
						simrt.Count("clock-step")
						pr.D.Skew += o.Arg(1) * 1e6
					}
				}
				t2 := simrt.SimNow()
				g := d.AddStartTime(tp)
				put(float64(t2-t1), float64(simrt.SimNow()-t0))
				check(g, "AddStartTime")
			}
		}
	})
}

func a01RefuseBody(p *core.Prog) {
	pr := newProc("avg")
	pr.Do("refuse", func() {
		n := int(p.Cfg["n"])
		try := func(f func()) (panicked bool) {
			defer func() { panicked = recover() != nil }()
			f()
			return
		}
		if try(func() { statutil.NewDuration(n) }) != (n <= 0) {
			fail("refuse", "NewDuration(%d): wrong refusal", n)
		}
		if try(func() { statutil.NewFloat(n) }) != (n <= 0) {
			fail("refuse", "NewFloat(%d): wrong refusal", n)
		}
	})
}

func init() {
	real := []string{"skyobject/statutil"}
	core.Register(&core.Scenario{Prop: "A01", Name: "linear", Quick: 60000, Thor: 3000000, Gen: a01Gen, Body: a01Body, Real: real,
		Rule: "1-4 callers add samples to and read one rolling average; the history is checked against a sequential window model", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "A01", Name: "clock", Quick: 10000, Thor: 50000, Gen: a01ClockGen, Body: a01ClockBody, Real: real,
		Rule: "one caller measures elapsed times while the wall clock is stepped", Needed: []string{"clock-step"}})
	core.Register(&core.Scenario{Prop: "A01", Name: "refuse", Quick: 50, Thor: 50, Real: real, Rule: "windows from -5 to 44",
		Gen: func(r *simrt.Rng) *core.Prog {
			return &core.Prog{Cfg: map[string]int64{"n": int64(r.N(50)) - 5}}
		}, Body: a01RefuseBody})
}
