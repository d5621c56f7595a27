// Package core describes scenarios, runs one of them in the simulator and keeps its verdict. It is not transformed.
package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"simrt"
)

// Op is one step of a workload.
type Op struct {
	C int     `json:"c"`           // client
	K string  `json:"k"`           // kind
	A []int64 `json:"a,omitempty"` // arguments
}

// Arg i of the operation, 0 when there is none.
func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) String() string { return fmt.Sprintf("%d:%s%v", o.C, o.K, o.A) }

// Prog is the workload of one run.
type Prog struct {
	Cfg map[string]int64 `json:"cfg"`
	Ops []Op             `json:"ops"`
}

// Clone the program.
func (p *Prog) Clone() *Prog {
	q := &Prog{Cfg: map[string]int64{}}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	for _, o := range p.Ops {
		q.Ops = append(q.Ops, Op{o.C, o.K, append([]int64(nil), o.A...)})
	}
	return q
}

// Clients is the number of clients that occur.
func (p *Prog) Clients() int {
	n := 0
	for _, o := range p.Ops {
		if o.C+1 > n {
			n = o.C + 1
		}
	}
	return n
}

// Of client c.
func (p *Prog) Of(c int) (l []Op) {
	for _, o := range p.Ops {
		if o.C == c {
			l = append(l, o)
		}
	}
	return
}

// Violation of a property.
type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

// Scenario is one way to exercise a property.
type Scenario struct {
	Prop   string
	Name   string
	Quick  int // runs in the quick tier
	Thor   int // runs in the thorough tier
	Gen    func(r *simrt.Rng) *Prog
	Body   func(p *Prog)
	Steps  int64 // yield-point limit (default 3 000 000)
	Rule   string
	Real   []string
	Stubs  []string
	Needed []string // counters that must be non-zero over a whole quick batch
	// Hang: a run whose main client blocks forever violates the property (default true when false here: see NoHang)
	NoHang bool
}

// All scenarios.
var All []*Scenario

// Register a scenario.
func Register(s *Scenario) {
	if s.Steps == 0 {
		s.Steps = 3_000_000
	}
	All = append(All, s)
}

// For a property.
func For(prop string) (l []*Scenario) {
	for _, s := range All {
		if s.Prop == prop {
			l = append(l, s)
		}
	}
	return
}

// Find by name.
func Find(prop, name string) *Scenario {
	for _, s := range All {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Result of a run.
type Result struct {
	Viol    []Violation
	Out     simrt.Outcome
	Events  []string
	Harness string // trouble of the harness itself
}

var (
	cur     *Result
	hang    func(kind string, blocked []string) *Violation
	onPanic func(p simrt.Panic) *Violation
	phase   string
)

// Fail records a violation.
func Fail(sig, f string, a ...any) {
	if simrt.S != nil && simrt.Killed() {
		return
	}
	fail(sig, f, a...)
}

func fail(sig, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	if len(d) > 3000 {
		d = d[:3000] + "..."
	}
	for _, v := range cur.Viol {
		if v.Sig == sig {
			return
		}
	}
	simrt.Logf("VIOLATION %s: %s", sig, d)
	cur.Viol = append(cur.Viol, Violation{sig, d})
}

// Failed tells if the run has a violation already.
func Failed() bool { return len(cur.Viol) > 0 }

// Broken records trouble of the harness (the check ends with an error, not a violation).
func Broken(f string, a ...any) {
	if cur.Harness == "" {
		cur.Harness = fmt.Sprintf(f, a...)
	}
}

// Phase names what the main client is doing; a hang is attributed to it.
func Phase(s string) { phase = s }

// OnPanic decides about a panic of a simulated process; nil means a violation "panic@where".
func OnPanic(f func(p simrt.Panic) *Violation) { onPanic = f }

// Run one program.
func Run(s *Scenario, p *Prog, cfg simrt.Config) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = s.Steps
	}
	res := &Result{}
	cur = res
	onPanic = nil
	phase = ""
	res.Out = simrt.Run(cfg, func() {
		defer func() { res.Events = simrt.Events() }()
		s.Body(p)
	})
	if cfg.LogOn && res.Events == nil {
		res.Events = res.Out.Events
	}
	before := cur.Viol
	cur.Viol = nil // a panic explains what follows it
	for _, pn := range res.Out.Panics {
		if pn.Domain == "harness" && !inCode(pn.Stack) {
			res.Harness = "panic in harness: " + pn.Msg + "\n" + pn.Stack
			continue
		}
		var v *Violation
		if onPanic != nil {
			v = onPanic(pn)
		} else {
			v = PanicViolation(pn)
		}
		if v != nil {
			fail(v.Sig, "%s", v.Detail)
		}
	}
	cur.Viol = append(cur.Viol, before...)
	switch res.Out.Kind {
	case "deadlock", "steps":
		if !s.NoHang {
			fail(HangSig(res.Out.Kind, res.Out.Blocked), "%s while %s: %s\n%s", res.Out.Kind, phase, res.Out.Detail, strings.Join(res.Out.Blocked, "\n"))
		}
	case "harness":
		if res.Harness == "" && len(res.Viol) == 0 {
			res.Harness = res.Out.Detail
		}
	}
	return res
}

// inCode says that it is the code under test that panicked, not the
// harness that called it.
func inCode(stack string) bool {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "simrt.fatal") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "harness/") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.Contains(l, "skycoin/cxo") {
			return true
		}
	}
	return false
}

// PanicViolation is the default treatment of a panic.
func PanicViolation(pn simrt.Panic) *Violation {
	return &Violation{"panic@" + pn.Where, "process " + pn.Domain + " died: " + pn.Msg + "\n" + pn.Stack}
}

// HangSig is the signature of a run that never ends.
func HangSig(kind string, blocked []string) string {
	return "hang:" + kind + ":" + phase
}

// Decisions as JSON lines.
func Decisions(d []simrt.Decision) string { b, _ := json.Marshal(d); return string(b) }

// SortedKeys of a counter map.
func SortedKeys(m map[string]int64) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
