// Package simrt is the deterministic simulator every transformed package runs on.
//
// Exactly one simulated goroutine runs at a time. Who runs next, when it is pre-empted, which ready select case is
// taken, in what order a map is iterated, how long a message takes, whether a disk write fails: all of it is decided
// here, by one Decider, which is a pure function of a seed or of a recorded decision list.
package simrt

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Epoch of the simulated wall clock (unix seconds).
const Epoch = 1_600_000_000

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gWaiting
	gDead
)

// G is a simulated goroutine (a real goroutine that only ever runs when it holds the baton).
type G struct {
	id     int
	dom    *Domain
	wake   chan struct{}
	state  gstate
	killed bool
	why    string // wait reason
	name   string
	site   int32

	// waiter payload, see chan.go
	sel    *selState
	ready  bool // generic wake flag for sync primitives
	client bool // harness goroutine (not counted as a leak)
	tag    int
}

// SetTag marks the running goroutine for the harness.
func SetTag(n int) { S.cur.tag = n }

// Tag of the running goroutine.
func Tag() int { return S.cur.tag }

// ID of the goroutine.
func (g *G) ID() int { return g.id }

// Domain is one simulated process (a node): its goroutines, clock and fate.
type Domain struct {
	ID      int
	Name    string
	Dead    bool
	Skew    int64 // added to the wall clock
	gs      map[int]*G
	Panics  []Panic
	OnPanic func(p Panic)
	// Exited is set when the process called os.Exit / log.Fatal
	Exited  bool
	crashed []func()
}

// Panic is an uncaught panic in a domain.
type Panic struct {
	Domain string
	Msg    string
	Stack  string
	Where  string
}

// Outcome of a run.
type Outcome struct {
	Kind     string // "ok", "deadlock", "steps", "harness"
	Detail   string
	Steps    int64 // yield points passed
	Switches int64
	Hash     uint64
	SimNS    int64
	Gs       int
	Panics   []Panic
	Counters map[string]int64
	Trace    []Decision
	Blocked  []string
	Events   []string
}

// Config of a run.
type Config struct {
	Seed     uint64
	Replay   []Decision // when non-nil decisions come from here (defaults otherwise)
	IsReplay bool
	MaxSteps int64 // yield points per run
	LogOn    bool
}

// Sim is the state of one run.
type Sim struct {
	cfg      Config
	now      int64 // simulated ns since start
	gs       []*G
	liveN    int
	runq     []*G
	cur      *G
	idle     *G // goroutine waiting for quiescence
	timers   timerHeap
	tseq     uint64
	gseq     int
	objseq   uint64
	dseq     int
	dec      *decider
	done     chan struct{}
	finished bool
	out      Outcome
	killing  bool
	hash     uint64
	steps    int64
	switches int64
	panics   []Panic
	counters map[string]int64
	ptrIDs   map[uintptr]uint64
	ptrKeep  []any
	main     *Domain
	events   []string
	stalled  int64
	calm     bool // no machine stalls any more
	lastProg int64 // step count at last time advance
	seqno    int64
	after    []func()
}

var runID uint32

// S is the current simulation.
var S *Sim

// Yc counts down to the next pre-emption.
var Yc int64

const farAway = int64(1) << 60

// Run executes body as the first goroutine of a fresh simulation and returns when the run is over.
func Run(cfg Config, body func()) Outcome {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	s := &Sim{cfg: cfg, done: make(chan struct{}), counters: map[string]int64{}, ptrIDs: map[uintptr]uint64{}}
	s.dec = newDecider(cfg)
	S = s
	runID++
	s.main = NewDomain("harness")
	s.hash = 14695981039346656037
	s.armPreempt()
	g := s.newG(s.main, body, true)
	g.state = gRunning
	s.cur = g
	g.wake <- struct{}{}
	<-s.done
	s.out.Steps = s.stepsNow()
	s.killAll()
	s.out.Switches = s.switches
	s.out.Hash = s.hash ^ uint64(s.now)
	s.out.SimNS = s.now
	s.out.Gs = s.gseq
	s.out.Panics = s.panics
	s.out.Counters = s.counters
	s.out.Trace = s.dec.trace()
	s.out.Events = s.events
	for _, f := range s.after {
		f()
	}
	S = nil
	return s.out
}

// AtEnd registers f to run after the simulation ended.
func AtEnd(f func()) { S.after = append(S.after, f) }

func (s *Sim) finish(kind, detail string) {
	if s.finished {
		return
	}
	s.finished = true
	s.out.Kind = kind
	s.out.Detail = detail
	if kind != "ok" {
		s.out.Blocked = s.blockedList()
	}
	close(s.done)
}

func (s *Sim) blockedList() (bl []string) {
	for _, g := range s.gs {
		if g.state == gWaiting || g.state == gRunnable {
			bl = append(bl, fmt.Sprintf("g%d dom=%s %s wait=%s at %s", g.id, g.dom.Name, g.name, g.why, SiteName(g.site)))
		}
	}
	return
}

// NewDomain makes a simulated process.
func NewDomain(name string) *Domain {
	S.dseq++
	return &Domain{ID: S.dseq, Name: name, gs: map[int]*G{}}
}

// Cur domain.
func CurDomain() *Domain { return S.cur.dom }

// CurID is the id of the running goroutine.
func CurID() int { return S.cur.id }

// MarkClient excludes the current goroutine from leak reports.
func MarkClient(name string) { S.cur.client = true; S.cur.name = name }

// Live lists the goroutines of the domain that still exist, harness clients excluded.
func (d *Domain) Live() (l []string) {
	ids := make([]int, 0, len(d.gs))
	for id := range d.gs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		g := d.gs[id]
		if g.client || g.state == gDead {
			continue
		}
		l = append(l, fmt.Sprintf("%s(%s at %s)", g.name, g.why, SiteName(g.site)))
	}
	return
}

func (s *Sim) newG(d *Domain, f func(), client bool) *G {
	s.gseq++
	g := &G{id: s.gseq, dom: d, wake: make(chan struct{}), client: client}
	d.gs[g.id] = g
	s.gs = append(s.gs, g)
	if len(s.gs) > 256 && len(s.gs) > 4*s.liveN {
		s.compact()
	}
	s.liveN++
	go s.gmain(g, f)
	return g
}

func (s *Sim) compact() {
	k := 0
	for _, g := range s.gs {
		if g.state != gDead {
			s.gs[k] = g
			k++
		}
	}
	for i := k; i < len(s.gs); i++ {
		s.gs[i] = nil
	}
	s.gs = s.gs[:k]
}

type fatalExit struct{ code int }

func (s *Sim) gmain(g *G, f func()) {
	<-g.wake
	defer func() {
		// runs on normal return, panic and Goexit alike
		if g.killed || s.killing {
			recover() // a panic in a deferred call of a killed goroutine means nothing
			g.state = gDead
			delete(g.dom.gs, g.id)
			s.liveN--
			g.wake <- struct{}{} // tell the killer
			return
		}
		if r := recover(); r != nil {
			p := Panic{Domain: g.dom.Name, Msg: fmt.Sprint(r), Stack: string(debug.Stack())}
			p.Where = panicWhere(p.Stack)
			if g.dom == s.main {
				g.state = gDead
				s.out.Detail = p.Msg
				s.panics = append(s.panics, p)
				s.finish("harness", p.Msg+"\n"+p.Stack)
				return
			}
			s.panics = append(s.panics, p)
			g.dom.Panics = append(g.dom.Panics, p)
			Count("panic")
			Logf("PANIC in %s: %s at %s", g.dom.Name, p.Msg, p.Where)
			cb := g.dom.OnPanic
			g.state = gDead
			delete(g.dom.gs, g.id)
			s.liveN--
			g.dom.crashOthers(g)
			if cb != nil {
				cb(p)
			}
			s.exitSwitch()
			return
		}
		g.state = gDead
		delete(g.dom.gs, g.id)
		s.liveN--
		if g.id == 1 {
			s.finish("ok", "")
			return
		}
		s.exitSwitch()
	}()
	if g.killed || s.killing {
		return
	}
	f()
}

// panicWhere extracts the innermost frames of the transformed code.
func panicWhere(st string) string {
	var fr []string
	lines := strings.Split(st, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "simrt.fatal") {
			seen = true
			fr = fr[:0]
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || l == "" {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if strings.Contains(l, "skycoin/cxo") {
			l = l[strings.Index(l, "skycoin/cxo")+len("skycoin/cxo/"):]
			fr = append(fr, l)
			if len(fr) == 3 {
				break
			}
		}
	}
	return strings.Join(fr, " < ")
}

// exitSwitch passes the baton on from a goroutine that is over.
func (s *Sim) exitSwitch() {
	if s.finished {
		return
	}
	n := s.pick()
	if n == nil {
		return // finished
	}
	s.switchTo(n)
}

func (s *Sim) switchTo(n *G) {
	s.cur = n
	n.state = gRunning
	n.why = ""
	s.switches++
	s.mix(uint64(n.id)<<20 ^ uint64(n.site))
	n.wake <- struct{}{}
}

func (s *Sim) mix(v uint64) {
	h := s.hash
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	s.hash = h
}

// pick chooses the next goroutine to run, advancing time when nothing is runnable.
func (s *Sim) pick() *G {
	for {
		s.fireDue()
		if len(s.runq) > 0 {
			i := 0
			if n := len(s.runq); n > 1 {
				i = s.dec.pickG(n)
			}
			g := s.runq[i]
			copy(s.runq[i:], s.runq[i+1:])
			s.runq[len(s.runq)-1] = nil
			s.runq = s.runq[:len(s.runq)-1]
			if g.state == gDead {
				continue
			}
			return g
		}
		if s.idle != nil {
			g := s.idle
			s.idle = nil
			return g
		}
		if s.timers.Len() == 0 {
			s.finish("deadlock", "nothing runnable, no timer pending")
			return nil
		}
		s.fireNext()
	}
}

func (s *Sim) fireNext() {
	t := s.timers.pop()
	if t.at > s.now {
		s.now = t.at
		s.lastProg = s.stepsNow()
	}
	t.idx = -1
	t.f()
}

// fireDue fires timers that are due at the current time.
func (s *Sim) fireDue() {
	for s.timers.Len() > 0 && s.timers.q[0].at <= s.now {
		s.fireNext()
	}
}

// park blocks the current goroutine until somebody calls unpark.
func park(why string) {
	s := S
	g := s.cur
	if g.killed || s.killing {
		runtime.Goexit()
	}
	g.state = gWaiting
	g.why = why
	g.site = CurSite
	n := s.pick()
	if n == g {
		s.cur = g
		g.state = gRunning
		g.why = ""
		return
	}
	if n != nil {
		s.switchTo(n)
	}
	<-g.wake
	if g.killed || s.killing {
		runtime.Goexit()
	}
}

// unpark makes g runnable.
func unpark(g *G) {
	if g.state == gWaiting {
		g.state = gRunnable
		S.runq = append(S.runq, g)
	}
}

// resched puts the current goroutine to the back of the run queue and lets another run.
func resched() {
	s := S
	g := s.cur
	if g.killed || s.killing {
		return
	}
	if len(s.runq) == 0 {
		return
	}
	n := s.pick() // g is not in the queue: somebody else runs
	if n == nil {
		<-g.wake
		runtime.Goexit()
	}
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.switchTo(n)
	<-g.wake
	if g.killed || s.killing {
		runtime.Goexit()
	}
}

func (s *Sim) armPreempt() {
	gap := s.dec.nextPreempt(s.steps)
	s.dec.gap = gap
	Yc = gap
}

func (s *Sim) stepsNow() int64 { return s.steps + (s.dec.gap - Yc) }

// CurSite is the last yield site passed.
var CurSite int32

// Y is a yield point.
func Y(site int32) {
	CurSite = site
	Yc--
	if Yc <= 0 {
		ySlow(site)
	}
}

// YS is a yield point that also records the site.
func ySlow(site int32) {
	s := S
	if s == nil {
		Yc = farAway
		return
	}
	if s.killing || s.cur.killed {
		Yc = 1000
		return
	}
	s.cur.site = site
	s.steps += s.dec.gap - Yc
	s.dec.gap = Yc
	if s.steps > s.cfg.MaxSteps || s.steps-s.lastProg > s.cfg.MaxSteps/2 {
		s.dec.gap = 0
		Yc = farAway
		s.finish("steps", fmt.Sprintf("step limit reached in %s at %s", s.cur.dom.Name, SiteName(site)))
		g := s.cur
		g.state = gWaiting
		<-g.wake
		runtime.Goexit()
	}
	real := s.dec.gapIsPreempt
	s.armPreempt()
	if !real {
		return
	}
	Count("preempt")
	switch s.dec.preemptKind(s.steps) {
	case 1: // stall: let time pass although somebody is runnable
		if s.timers.Len() > 0 && !s.calm && s.stalled < maxStalled {
			d := s.timers.q[0].at - s.now
			if d > 0 && d < int64(30e9) {
				Count("stall")
				s.stalled += d
				s.fireNext()
				s.fireDue()
			}
		}
	}
	s.now += 1000
	s.mix(uint64(site) << 32)
	resched()
}

// more stalls than this and timers keep the machine from doing anything else
const maxStalled = int64(600e9)

// Calm stops machine stalls for the rest of the run.
func Calm() { S.calm = true }

// Uncalm allows them again.
func Uncalm() { S.calm = false }

// Stalled is how long the simulated machine stood still although goroutines could have run.
func Stalled() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.stalled)
}

// Gosched yields to any other runnable goroutine.
func Gosched() {
	if S == nil {
		return
	}
	resched()
}

// Go starts f as a new simulated goroutine in the current domain.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.killing || s.cur.killed {
		return
	}
	g := s.newG(s.cur.dom, f, false)
	g.name = callerName(2)
	g.state = gRunnable
	s.runq = append(s.runq, g)
	Y(0)
}

// GoIn starts f in domain d; the goroutine is a harness client of that process.
func GoIn(d *Domain, name string, f func()) {
	s := S
	if d.Dead || s.killing {
		return
	}
	g := s.newG(d, f, true)
	g.name = name
	g.state = gRunnable
	s.runq = append(s.runq, g)
}

func callerName(skip int) string {
	pc, _, _, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	n := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// Killed reports whether the current goroutine is being killed (its deferred calls are running).
func Killed() bool { return S == nil || S.killing || S.cur.killed }

func (s *Sim) kill(g *G) {
	if g.state == gDead {
		return
	}
	save := s.cur
	for i, r := range s.runq {
		if r == g {
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:len(s.runq)-1]
			break
		}
	}
	if s.idle == g {
		s.idle = nil
	}
	g.killed = true
	s.cur = g
	g.wake <- struct{}{}
	<-g.wake
	s.cur = save
}

func (s *Sim) killAll() {
	s.killing = true
	Yc = farAway
	for i := 0; i < len(s.gs); i++ {
		if g := s.gs[i]; g.state != gDead {
			s.kill(g)
		}
	}
}

// OnCrash registers f to be called when the domain dies.
func (d *Domain) OnCrash(f func()) { d.crashed = append(d.crashed, f) }

func (d *Domain) crashOthers(self *G) {
	s := S
	d.Dead = true
	ids := make([]int, 0, len(d.gs))
	for id := range d.gs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if g := d.gs[id]; g != nil && g != self {
			s.kill(g)
		}
	}
	for _, f := range d.crashed {
		f()
	}
	d.crashed = nil
}

// Crash kills every goroutine of the domain at once, where it stands. If the caller belongs to the domain the call does
// not return.
func (d *Domain) Crash() {
	s := S
	if d.Dead {
		return
	}
	self := s.cur
	if self.dom == d {
		d.crashOthers(self)
		// become a dead goroutine: unwind quietly and pass the baton on
		exitSelf()
		return
	}
	d.crashOthers(nil)
}

// exitSelf ends the running goroutine: its deferred calls see Killed() and do nothing, then the baton moves on.
func exitSelf() {
	s := S
	g := s.cur
	g.killed = true
	// a helper goroutine plays the killer
	go func() {
		<-g.wake // the dying goroutine reports
		if g.id == 1 {
			s.finish("ok", "")
			return
		}
		s.exitSwitch()
	}()
	runtime.Goexit()
}

// Exit ends the current process like os.Exit.
func Exit(code int) {
	s := S
	if s == nil || s.cur.dom == s.main {
		panic(fmt.Sprintf("os.Exit(%d) in harness", code))
	}
	if Killed() {
		runtime.Goexit()
	}
	d := s.cur.dom
	d.Exited = true
	p := Panic{Domain: d.Name, Msg: fmt.Sprintf("process exit(%d)", code), Stack: string(debug.Stack())}
	p.Where = exitWhere(p.Stack)
	s.panics = append(s.panics, p)
	d.Panics = append(d.Panics, p)
	if d.OnPanic != nil {
		d.OnPanic(p)
	}
	d.Crash()
}

func exitWhere(st string) string {
	var fr []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if i := strings.Index(l, "skycoin/cxo"); i >= 0 {
			fr = append(fr, l[i+len("skycoin/cxo/"):])
			if len(fr) == 3 {
				break
			}
		}
	}
	return strings.Join(fr, " < ")
}

// Idle blocks the caller until no other goroutine is runnable (timers may be pending). Only one caller at a time.
func Idle() {
	s := S
	g := s.cur
	if len(s.runq) == 0 {
		return
	}
	if s.idle != nil {
		panic("simrt.Idle: already waiting")
	}
	s.idle = g
	park("idle")
}

// Seq returns a fresh number of the global event order.
func Seq() int64 { S.seqno++; return S.seqno }

// SimNow is the simulated time in ns since the run started.
func SimNow() int64 { return S.now }

// Steps passed so far.
func Steps() int64 { return S.stepsNow() }

// Count increments a named counter (fault fired, probe reached).
func Count(name string) {
	if S != nil {
		S.counters[name]++
	}
}

// CountN adds n.
func CountN(name string, n int64) {
	if S != nil {
		S.counters[name] += n
	}
}

// Counter value.
func Counter(name string) int64 { return S.counters[name] }

// Logf records an event line of the run (printed on replay); it never influences the schedule.
func Logf(format string, a ...any) {
	if S != nil && S.cfg.LogOn {
		l := fmt.Sprintf("%12.6fs g%d %s: ", float64(S.now)/1e9, S.cur.id, S.cur.dom.Name) + fmt.Sprintf(format, a...)
		S.events = append(S.events, l)
	}
}

// Events recorded so far.
func Events() []string { return S.events }

// Tracing reports whether the event log is on.
func Tracing() bool { return S != nil && S.cfg.LogOn }

var siteNames []string

// RegisterSites is called by generated code.
func RegisterSites(base int32, names []string) {
	for int(base)+len(names) > len(siteNames) {
		siteNames = append(siteNames, "")
	}
	copy(siteNames[base:], names)
}

// SiteName of a yield site.
func SiteName(id int32) string {
	if id > 0 && int(id) < len(siteNames) {
		return siteNames[id]
	}
	return fmt.Sprintf("site%d", id)
}

// HashString is a helper for stable hashing.
func HashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// fatal is an unrecoverable runtime error of the simulated process (e.g. unlock of unlocked mutex).
func fatal(msg string) { panic("fatal error: " + msg) }
