// Package sc holds the scenarios. It is transformed like the code under test, so ordinary Go concurrency works in it.
package sc

import (
	"fmt"

	"harness/core"
	"simrt"
)

// Proc is a simulated process running code under test.
type Proc struct {
	D *simrt.Domain
}

// newProc starts a simulated process.
func newProc(name string) *Proc { return &Proc{D: simrt.NewDomain(name)} }

// Do runs f inside the process and waits until it is over; false when the process died.
func (p *Proc) Do(name string, f func()) bool {
	done := false
	over := make(chan struct{}, 1)
	if p.D.Dead {
		return false
	}
	p.D.OnCrash(func() {
		if !done {
			kick(over)
		}
	})
	simrt.GoIn(p.D, name, func() {
		f()
		done = true
		kick(over)
	})
	<-over
	return done
}

func kick(c chan struct{}) {
	simrt.Kick(c)
}

// Par runs n clients of the process at once and waits for all of them; false when the process died.
func (p *Proc) Par(n int, f func(i int)) bool {
	left := n
	over := make(chan struct{}, 1)
	if p.D.Dead {
		return false
	}
	p.D.OnCrash(func() {
		if left > 0 {
			kick(over)
		}
	})
	for i := 0; i < n; i++ {
		simrt.GoIn(p.D, fmt.Sprintf("client%d", i), func() {
			f(i)
			left--
			if left == 0 {
				kick(over)
			}
		})
	}
	if n == 0 {
		return true
	}
	<-over
	return left == 0
}

// alive reports that the process has not died.
func (p *Proc) alive() bool { return !p.D.Dead }

func pick[T any](r *simrt.Rng, l ...T) T { return l[r.N(len(l))] }

func chance(r *simrt.Rng, p float64) bool { return r.F() < p }

// payload makes distinct bytes for number n.
func payload(n int64, size int) []byte {
	b := make([]byte, size)
	x := simrt.NewRng(uint64(n) + 77)
	for i := range b {
		b[i] = byte(x.U64())
	}
	if size >= 8 {
		for i := 0; i < 8; i++ {
			b[i] = byte(n >> (8 * i))
		}
	}
	return b
}

func fail(sig, f string, a ...any) { core.Fail(sig, f, a...) }

// swarm picks a random subset of the kinds, so that some runs concentrate on few of them.
func swarm(r *simrt.Rng, kinds []string) []string {
	if r.N(3) == 0 {
		return kinds
	}
	var l []string
	for len(l) < 2 {
		l = nil
		for _, k := range kinds {
			if r.N(3) == 0 {
				l = append(l, k)
			}
		}
	}
	return l
}
