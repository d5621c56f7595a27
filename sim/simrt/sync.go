package simrt

import (
	"runtime"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	q    []*G
	run  uint32 // a package-level mutex starts every run unlocked
}

func (m *Mutex) fresh() {
	if m.run != runID {
		m.run, m.held, m.q = runID, false, nil
	}
}

func wakeOne(q *[]*G) {
	for len(*q) > 0 {
		i := 0
		if n := len(*q); n > 1 {
			i = Choose("mu", n)
		}
		g := (*q)[i]
		*q = append((*q)[:i:i], (*q)[i+1:]...)
		if g.state == gWaiting && !g.killed {
			unpark(g)
			return
		}
	}
}

// Lock m.
func (m *Mutex) Lock() {
	if Killed() {
		return
	}
	m.fresh()
	Y(CurSite)
	for m.held {
		Count("contended")
		m.q = append(m.q, S.cur)
		park("mutex lock")
	}
	m.held = true
}

// TryLock m.
func (m *Mutex) TryLock() bool {
	m.fresh()
	if Killed() || m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock m.
func (m *Mutex) Unlock() {
	if Killed() {
		return
	}
	if !m.held {
		fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	wakeOne(&m.q)
	Y(CurSite)
}

// RWMutex replaces sync.RWMutex; a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	readers int
	wq      []*G
	rq      []*G
}

func live(q *[]*G) int {
	k := 0
	for _, g := range *q {
		if g.state == gWaiting && !g.killed {
			(*q)[k] = g
			k++
		}
	}
	*q = (*q)[:k]
	return k
}

// RLock m.
func (m *RWMutex) RLock() {
	if Killed() {
		return
	}
	Y(CurSite)
	if m.w || live(&m.wq) > 0 {
		Count("contended")
		m.rq = append(m.rq, S.cur)
		park("rwmutex rlock")
		return // admitted by the unlocker
	}
	m.readers++
}

// TryRLock m.
func (m *RWMutex) TryRLock() bool {
	if Killed() || m.w || live(&m.wq) > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock m.
func (m *RWMutex) RUnlock() {
	if Killed() {
		return
	}
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.grantWriter()
	}
	Y(CurSite)
}

func (m *RWMutex) grantWriter() bool {
	n := live(&m.wq)
	if n == 0 {
		return false
	}
	i := 0
	if n > 1 {
		i = Choose("mu", n)
	}
	g := m.wq[i]
	m.wq = append(m.wq[:i:i], m.wq[i+1:]...)
	m.w = true
	unpark(g)
	return true
}

// Lock m.
func (m *RWMutex) Lock() {
	if Killed() {
		return
	}
	Y(CurSite)
	if m.w || m.readers > 0 || live(&m.wq) > 0 {
		Count("contended")
		m.wq = append(m.wq, S.cur)
		park("rwmutex lock")
		return // granted
	}
	m.w = true
}

// TryLock m.
func (m *RWMutex) TryLock() bool {
	if Killed() || m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock m.
func (m *RWMutex) Unlock() {
	if Killed() {
		return
	}
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if n := live(&m.rq); n > 0 {
		for _, g := range m.rq {
			m.readers++
			unpark(g)
		}
		m.rq = nil
	} else {
		m.grantWriter()
	}
	Y(CurSite)
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker of m.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*G
}

// Add delta.
func (w *WaitGroup) Add(d int) {
	if Killed() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			if !g.killed {
				unpark(g)
			}
		}
		w.q = nil
	}
	Y(CurSite)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait until zero.
func (w *WaitGroup) Wait() {
	if Killed() {
		runtime.Goexit()
	}
	Y(CurSite)
	if w.n == 0 {
		return
	}
	w.q = append(w.q, S.cur)
	park("waitgroup wait")
}

// Go runs f and counts it.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do f once.
func (o *Once) Do(f func()) {
	if Killed() {
		runtime.Goexit()
	}
	Y(CurSite)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues like sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*G
}

// NewCond with locker.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait for a signal.
func (c *Cond) Wait() {
	if Killed() {
		runtime.Goexit()
	}
	c.q = append(c.q, S.cur)
	// unlock without yielding in between would hide nothing: the signal may come right after Unlock
	g := S.cur
	g.ready = false
	c.L.Unlock()
	if !g.ready {
		park("cond wait")
	}
	g.ready = false
	c.L.Lock()
}

// Signal one waiter.
func (c *Cond) Signal() {
	if Killed() {
		return
	}
	for len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		if g.killed || g.state == gDead {
			continue
		}
		g.ready = true
		unpark(g)
		return
	}
}

// Broadcast all waiters.
func (c *Cond) Broadcast() {
	if Killed() {
		return
	}
	q := c.q
	c.q = nil
	for _, g := range q {
		g.ready = true
		unpark(g)
	}
}

// Pool replaces sync.Pool: it may forget what was put.
type Pool struct {
	New   func() any
	items []any
}

// Get an item.
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 && !Killed() && !Chance("pool", 0.3) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put an item.
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map replaces sync.Map; Range is in insertion order.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Load a key.
func (m *Map) Load(k any) (any, bool) { Y(CurSite); v, ok := m.m[k]; return v, ok }

// Store a key.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap a key.
func (m *Map) Swap(k, v any) (any, bool) {
	Y(CurSite)
	m.init()
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}

// LoadOrStore a key.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Y(CurSite)
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete a key.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y(CurSite)
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

// Delete a key.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap a key.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Y(CurSite)
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete a key.
func (m *Map) CompareAndDelete(k, o any) bool {
	Y(CurSite)
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}

// Clear the map.
func (m *Map) Clear() { m.m = nil; m.keys = nil }

// Range over the map.
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any{}, m.keys...) {
		Y(CurSite)
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
