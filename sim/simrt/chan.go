package simrt

import (
	"iter"
	"runtime"
)

// Chan stands for every channel type of the transformed code.
type Chan[T any] struct {
	id      uint64
	buf     []T
	head    int
	n       int
	capa    int
	closed  bool
	discard bool
	recvq   []*waiter[T]
	sendq   []*waiter[T]
}

// selState is shared by all cases of one blocked select.
type selState struct {
	g    *G
	done bool
	idx  int
}

type waiter[T any] struct {
	st  *selState
	idx int
	val T
	ok  bool
	c   *Chan[T]
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{capa: n}
	if S != nil {
		S.objseq++
		c.id = S.objseq
	}
	return c
}

// ObjID identifies the channel deterministically.
func (c *Chan[T]) ObjID() uint64 { return c.id }

// Len is len(ch).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return c.n
}

// Cap is cap(ch).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capa
}

func (c *Chan[T]) push(v T) {
	if len(c.buf) == 0 {
		c.buf = make([]T, c.capa)
	}
	c.buf[(c.head+c.n)%c.capa] = v
	c.n++
}

func (c *Chan[T]) popv() (v T) {
	var z T
	v = c.buf[c.head]
	c.buf[c.head] = z
	c.head = (c.head + 1) % c.capa
	c.n--
	return
}

func popWaiter[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if !w.st.done && !w.st.g.killed {
			return w
		}
	}
	return nil
}

func liveWaiter[T any](q *[]*waiter[T]) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.st.done && !w.st.g.killed {
			return true
		}
		(*q)[0] = nil
		*q = (*q)[1:]
	}
	return false
}

func (w *waiter[T]) complete(ok bool) {
	w.ok = ok
	w.st.done = true
	w.st.idx = w.idx
	unpark(w.st.g)
}

func (c *Chan[T]) canSend() bool {
	if c == nil {
		return false
	}
	return c.closed || c.discard || c.n < c.capa || liveWaiter(&c.recvq)
}

func (c *Chan[T]) canRecv() bool {
	if c == nil {
		return false
	}
	return c.n > 0 || c.closed || liveWaiter(&c.sendq)
}

// doSend performs a send known to be possible.
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if c.discard {
		return
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val = v
		w.complete(true)
		return
	}
	c.push(v)
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	if c.n > 0 {
		v = c.popv()
		if w := popWaiter(&c.sendq); w != nil {
			c.push(w.val)
			w.complete(true)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v = w.val
		w.complete(true)
		return v, true
	}
	return v, false // closed
}

// Send is ch <- v.
func (c *Chan[T]) Send(v T) {
	if Killed() {
		runtime.Goexit()
	}
	Y(CurSite)
	if c == nil {
		park("chan send (nil chan)")
		return
	}
	if c.canSend() {
		c.doSend(v)
		return
	}
	st := &selState{g: S.cur}
	w := &waiter[T]{st: st, val: v, c: c}
	c.sendq = append(c.sendq, w)
	park("chan send")
	if !w.ok {
		panic("send on closed channel")
	}
}

// Recv is <-ch.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 is v, ok := <-ch.
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if Killed() {
		runtime.Goexit()
	}
	Y(CurSite)
	if c == nil {
		park("chan receive (nil chan)")
		return
	}
	if c.canRecv() {
		return c.doRecv()
	}
	st := &selState{g: S.cur}
	w := &waiter[T]{st: st, c: c}
	c.recvq = append(c.recvq, w)
	park("chan receive")
	return w.val, w.ok
}

// TrySend sends from scheduler context (timers, network); it never blocks.
func (c *Chan[T]) TrySend(v T) bool {
	if c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

// Close is close(ch).
func (c *Chan[T]) Close() {
	if Killed() {
		return
	}
	Y(CurSite)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.complete(false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.complete(false)
	}
}

// RangeChan is for v := range ch.
func RangeChan[T any](c *Chan[T]) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case of a select.
type Case interface {
	can() bool
	do()
	enq(st *selState, i int)
	fin()
}

// RecvCase is case v, ok := <-ch.
type RecvCase[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	V  T
	OK bool
}

// NewRecv case.
func NewRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) can() bool { return r.c.canRecv() }
func (r *RecvCase[T]) do()       { r.V, r.OK = r.c.doRecv() }
func (r *RecvCase[T]) enq(st *selState, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{st: st, idx: i, c: r.c}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *RecvCase[T]) fin() { r.V, r.OK = r.w.val, r.w.ok }

// SendCase is case ch <- v.
type SendCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

// NewSend case.
func NewSend[T any](c *Chan[T], v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }

func (r *SendCase[T]) can() bool { return r.c.canSend() }
func (r *SendCase[T]) do()       { r.c.doSend(r.v) }
func (r *SendCase[T]) enq(st *selState, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{st: st, idx: i, val: r.v, c: r.c}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *SendCase[T]) fin() {
	if !r.w.ok {
		panic("send on closed channel")
	}
}

// Select returns the index of the chosen case, -1 for default.
func Select(def bool, cases ...Case) int {
	if Killed() {
		runtime.Goexit()
	}
	Y(CurSite)
	var ready [16]int
	r := ready[:0]
	for i, c := range cases {
		if c.can() {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = Choose("sel", len(r))
			Count("select-multi")
		}
		i := r[k]
		cases[i].do()
		return i
	}
	if def {
		return -1
	}
	st := &selState{g: S.cur}
	for i, c := range cases {
		c.enq(st, i)
	}
	park("select")
	cases[st.idx].fin()
	return st.idx
}

// Discarder is implemented by every Chan.
type Discarder interface{ discardAll() }

func (c *Chan[T]) discardAll() {
	c.discard = true
	for !c.closed && c.canRecv() {
		c.doRecv()
	}
}

// Discard makes every pending and future send on the channel succeed and vanish.
func Discard(c any) { c.(Discarder).discardAll() }

// RecvC is a receive case of a select.
func (c *Chan[T]) RecvC() *RecvCase[T] { return NewRecv(c) }

// SendC is a send case of a select.
func (c *Chan[T]) SendC(v T) *SendCase[T] { return NewSend(c, v) }

// Kick puts a zero value in a channel without blocking, from any context.
func Kick(c any) { c.(kicker).kick() }

type kicker interface{ kick() }

func (c *Chan[T]) kick() {
	var z T
	c.TrySend(z)
}
