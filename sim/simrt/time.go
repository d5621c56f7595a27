package simrt

import (
	"container/heap"
	"runtime"
	"time"
	"unsafe"
)

type timerEv struct {
	at  int64
	seq uint64
	idx int
	f   func()
}

type theap []*timerEv

func (h theap) Len() int { return len(h) }
func (h theap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h theap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *theap) Push(x any)   { t := x.(*timerEv); t.idx = len(*h); *h = append(*h, t) }
func (h *theap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

type timerHeap struct{ q theap }

func (t *timerHeap) Len() int      { return len(t.q) }
func (t *timerHeap) pop() *timerEv { return heap.Pop(&t.q).(*timerEv) }
func (s *Sim) addTimer(d int64, f func()) *timerEv {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timerEv{at: s.now + d, seq: s.tseq, f: f}
	heap.Push(&s.timers.q, t)
	return t
}
func (s *Sim) delTimer(t *timerEv) bool {
	if t == nil || t.idx < 0 || t.idx >= len(s.timers.q) || s.timers.q[t.idx] != t {
		return false
	}
	heap.Remove(&s.timers.q, t.idx)
	return true
}

// After schedules f in scheduler context (it must not block) d ns from now.
func After(d int64, f func()) (cancel func() bool) {
	s := S
	t := s.addTimer(d, f)
	return func() bool { return s.delTimer(t) }
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// mkTime builds a time with a monotonic reading, exactly as time.Now does.
func mkTime(wallNS, monoNS int64) time.Time {
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := wallNS / 1e9
	ns := wallNS % 1e9
	secs := uint64(sec + unixToInternal - wallToInternal)
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = 1<<63 | secs<<30 | uint64(ns)
	r.ext = monoNS
	r.loc = time.UTC
	return t
}

// TimeNow is time.Now.
func TimeNow() time.Time {
	if S == nil {
		return mkTime(Epoch*1e9, 1)
	}
	Y(CurSite)
	s := S
	return mkTime(Epoch*1e9+s.now+s.cur.dom.Skew, s.now+1)
}

// TimeSince is time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if Killed() {
		runtime.Goexit()
	}
	if d <= 0 {
		resched()
		return
	}
	g := S.cur
	S.addTimer(int64(d), func() { unpark(g) })
	park("sleep")
}

// Timer replaces time.Timer.
type Timer struct {
	C   *Chan[time.Time]
	ev  *timerEv
	f   func()
	dom *Domain
}

func (t *Timer) arm(d time.Duration) {
	dom := t.dom
	t.ev = S.addTimer(int64(d), func() {
		if dom.Dead {
			return
		}
		if t.f != nil {
			s := S
			g := s.newG(dom, t.f, false)
			g.name = "timer"
			g.state = gRunnable
			s.runq = append(s.runq, g)
			return
		}
		t.C.TrySend(mkTime(Epoch*1e9+S.now+dom.Skew, S.now+1))
	})
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if Killed() {
		runtime.Goexit()
	}
	t := &Timer{C: MakeChan[time.Time](1), dom: S.cur.dom}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, dom: S.cur.dom}
	t.arm(d)
	return t
}

// TimeAfter is time.After.
func TimeAfter(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

// Stop the timer. Since Go 1.23 a stopped timer delivers no stale value.
func (t *Timer) Stop() bool {
	if Killed() {
		return false
	}
	if t.dom == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	ok := S.delTimer(t.ev)
	if t.C != nil && t.C.n > 0 {
		t.C.popv()
		ok = true
	}
	return ok
}

// Reset the timer.
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C   *Chan[time.Time]
	ev  *timerEv
	d   time.Duration
	dom *Domain
}

func (t *Ticker) arm() {
	t.ev = S.addTimer(int64(t.d), func() {
		if t.dom.Dead {
			return
		}
		t.C.TrySend(mkTime(Epoch*1e9+S.now+t.dom.Skew, S.now+1))
		t.arm()
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if Killed() {
		runtime.Goexit()
	}
	t := &Ticker{C: MakeChan[time.Time](1), d: d, dom: S.cur.dom}
	t.arm()
	return t
}

// Tick is time.Tick.
func Tick(d time.Duration) *Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop the ticker.
func (t *Ticker) Stop() {
	if Killed() {
		return
	}
	S.delTimer(t.ev)
	for t.C.n > 0 {
		t.C.popv()
	}
}

// Reset the ticker.
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}
