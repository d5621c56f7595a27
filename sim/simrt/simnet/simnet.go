// Package simnet is a simulated network of message connections between processes (domains).
package simnet

import (
	"errors"
	"fmt"
	"runtime"
	"sort"

	"simrt"
)

// Net of one run.
type Net struct {
	listeners map[string]*Listener
	hosts     map[*simrt.Domain]string
	conns     []*Conn
	port      int
	blocked   map[[2]string]bool // partitioned host pairs
	refuse    map[string]bool

	// configuration
	MinLat, Jitter int64 // ns
	StallP         float64
	StallMax       int64
	ResetP         float64 // connection reset per message
	DialErrP       float64
	DropP          float64 // datagram connections only
	DupP           float64
	ReorderP       float64
	ResetAfter     int64 // a partition longer than this resets connections (0: never)
	Quiet          bool  // no faults any more
	Window         int   // messages in flight per direction before a writer has to wait (0: 256)
	Tap            func(from, to *Conn, m []byte)
}

var cur *Net

// New network; becomes the current one.
func New() *Net {
	n := &Net{listeners: map[string]*Listener{}, hosts: map[*simrt.Domain]string{},
		blocked: map[[2]string]bool{}, refuse: map[string]bool{}, port: 40000,
		MinLat: 1e6, Jitter: 5e6}
	cur = n
	simrt.AtEnd(func() { cur = nil })
	return n
}

func get() *Net {
	if cur == nil {
		New()
	}
	return cur
}

// SetHost gives the process a host name (IP).
func (n *Net) SetHost(d *simrt.Domain, host string) {
	n.hosts[d] = host
	d.OnCrash(func() { n.crashed(d) })
}

func (n *Net) host(d *simrt.Domain) string {
	h := n.hosts[d]
	if h == "" {
		h = fmt.Sprintf("10.0.0.%d", d.ID)
		n.SetHost(d, h)
	}
	return h
}

func hostOf(addr string) string {
	for i := len(addr) - 1; i >= 0; i-- {
		if addr[i] == ':' {
			return addr[:i]
		}
	}
	return addr
}

func pair(a, b string) [2]string {
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

// Partition hosts a and b.
func (n *Net) Partition(a, b string) {
	if n.blocked[pair(a, b)] {
		return
	}
	simrt.Count("net-partition")
	simrt.Logf("net: partition %s | %s", a, b)
	n.blocked[pair(a, b)] = true
	if n.ResetAfter > 0 {
		simrt.After(n.ResetAfter, func() {
			if n.blocked[pair(a, b)] {
				n.ResetBetween(a, b)
			}
		})
	}
}

// Heal the partition between a and b.
func (n *Net) Heal(a, b string) {
	if !n.blocked[pair(a, b)] {
		return
	}
	simrt.Count("net-heal")
	simrt.Logf("net: heal %s | %s", a, b)
	delete(n.blocked, pair(a, b))
	for _, c := range append([]*Conn{}, n.conns...) {
		if pair(c.lhost, c.rhost) == pair(a, b) {
			c.flushHeld()
		}
	}
}

// HealAll partitions.
func (n *Net) HealAll() {
	ks := make([][2]string, 0)
	for k := range n.blocked {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0]+ks[i][1] < ks[j][0]+ks[j][1] })
	for _, k := range ks {
		n.Heal(k[0], k[1])
	}
}

// ResetBetween drops every connection between two hosts.
func (n *Net) ResetBetween(a, b string) {
	for _, c := range append([]*Conn{}, n.conns...) {
		if pair(c.lhost, c.rhost) == pair(a, b) && !c.closed {
			simrt.Count("net-reset")
			c.shut()
		}
	}
}

// Conns that are open.
func (n *Net) Conns() []*Conn {
	var l []*Conn
	for _, c := range n.conns {
		if !c.closed {
			l = append(l, c)
		}
	}
	return l
}

// ErrClosed and friends.
var (
	ErrClosed  = errors.New("use of closed network connection")
	ErrRefused = errors.New("connection refused")
	ErrTimeout = errors.New("i/o timeout")
	ErrInUse   = errors.New("address already in use")
)

// Listener accepts connections.
type Listener struct {
	n      *Net
	addr   string
	dom    *simrt.Domain
	q      *simrt.Chan[*Conn]
	closed bool
	dgram  bool
}

func key(dgram bool, addr string) string {
	if dgram {
		return "udp:" + addr
	}
	return "tcp:" + addr
}

// Listen on addr ("host:port"; an empty host means the process's host).
func Listen(addr string, dgram bool) (*Listener, error) {
	n := get()
	d := simrt.CurDomain()
	h := n.host(d)
	if hostOf(addr) == "" || hostOf(addr) == "0.0.0.0" || hostOf(addr) == "[::]" {
		addr = h + addr[len(hostOf(addr)):]
	}
	if l := n.listeners[key(dgram, addr)]; l != nil && !l.closed && !l.dom.Dead {
		return nil, ErrInUse
	}
	if len(addr) > 2 && addr[len(addr)-2:] == ":0" {
		n.port++
		addr = fmt.Sprintf("%s:%d", hostOf(addr), n.port)
	}
	l := &Listener{n: n, addr: addr, dom: d, q: simrt.MakeChan[*Conn](64), dgram: dgram}
	n.listeners[key(dgram, addr)] = l
	return l, nil
}

// Addr of the listener.
func (l *Listener) Addr() string { return l.addr }

// Accept a connection.
func (l *Listener) Accept() (*Conn, error) {
	c, ok := l.q.Recv2()
	if !ok {
		return nil, ErrClosed
	}
	return c, nil
}

// Close the listener.
func (l *Listener) Close() {
	if l.closed || simrt.Killed() {
		return
	}
	l.closed = true
	l.q.Close()
}

type item struct {
	b   []byte
	fin bool
}

// Conn is one end of a connection.
type Conn struct {
	n            *Net
	ID           int
	dom          *simrt.Domain
	peer         *Conn
	laddr, raddr string
	lhost, rhost string
	dgram        bool
	closed       bool // this end does not work any more
	q            []item
	waiter       *simrt.Chan[struct{}]
	last         int64 // delivery time of the last message sent by this end
	held         []item
	inflight     int
	room         *simrt.Chan[struct{}]
	Sent, Recvd  int
	Tag          string
}

// Dial connects to addr.
func Dial(addr string, dgram bool) (*Conn, error) {
	if simrt.Killed() {
		runtime.Goexit()
	}
	n := get()
	d := simrt.CurDomain()
	lh := n.host(d)
	if hostOf(addr) == "" {
		addr = lh + addr
	}
	rh := hostOf(addr)
	rtt := 2 * n.lat()
	if n.blocked[pair(lh, rh)] {
		simrt.Sleep(simDur(3e9))
		if n.blocked[pair(lh, rh)] {
			return nil, ErrTimeout
		}
	}
	simrt.Sleep(simDur(rtt))
	if !n.Quiet && n.DialErrP > 0 && simrt.Chance("ndial", n.DialErrP) {
		simrt.Count("net-dial-err")
		return nil, ErrRefused
	}
	l := n.listeners[key(dgram, addr)]
	if l == nil || l.closed || l.dom.Dead || n.refuse[rh] || n.blocked[pair(lh, rh)] {
		return nil, ErrRefused
	}
	n.port++
	a := &Conn{n: n, ID: n.port, dom: d, laddr: fmt.Sprintf("%s:%d", lh, n.port), raddr: addr, lhost: lh, rhost: rh, dgram: dgram}
	b := &Conn{n: n, ID: n.port, dom: l.dom, laddr: addr, raddr: a.laddr, lhost: rh, rhost: lh, dgram: dgram}
	a.waiter, b.waiter = simrt.MakeChan[struct{}](1), simrt.MakeChan[struct{}](1)
	a.room, b.room = simrt.MakeChan[struct{}](1), simrt.MakeChan[struct{}](1)
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a, b)
	if len(n.conns) > 200 {
		k := n.conns[:0]
		for _, c := range n.conns {
			if !c.closed {
				k = append(k, c)
			}
		}
		n.conns = k
	}
	if !l.q.TrySend(b) {
		return nil, ErrRefused
	}
	simrt.Count("net-conn")
	return a, nil
}

func (n *Net) lat() int64 {
	l := n.MinLat
	if n.Jitter > 0 && !n.Quiet {
		l += int64(simrt.Choose("nlat", 16)) * n.Jitter / 16
	}
	return l
}

// LocalAddr of this end.
func (c *Conn) LocalAddr() string { return c.laddr }

// RemoteAddr of this end.
func (c *Conn) RemoteAddr() string { return c.raddr }

// Peer end.
func (c *Conn) Peer() *Conn { return c.peer }

// Domain this end belongs to.
func (c *Conn) Domain() *simrt.Domain { return c.dom }

// Closed tells if this end is closed.
func (c *Conn) Closed() bool { return c.closed }

// Send a message; it never blocks.
func (c *Conn) Send(b []byte) error {
	if simrt.Killed() {
		return ErrClosed
	}
	if c.closed {
		return ErrClosed
	}
	n := c.n
	c.Sent++
	if n.Tap != nil {
		n.Tap(c, c.peer, b)
	}
	if !n.Quiet && n.ResetP > 0 && simrt.Chance("nreset", n.ResetP) {
		simrt.Count("net-reset")
		simrt.Logf("net: reset %s-%s", c.laddr, c.raddr)
		c.shut()
		return nil
	}
	it := item{b: append([]byte{}, b...)}
	if c.dgram && !n.Quiet {
		if n.DropP > 0 && simrt.Chance("ndrop", n.DropP) {
			simrt.Count("net-drop")
			return nil
		}
		if n.DupP > 0 && simrt.Chance("ndup", n.DupP) {
			simrt.Count("net-dup")
			c.transmit(it)
		}
	}
	c.transmit(it)
	return nil
}

// SendWait sends a message as soon as the window has room.
func (c *Conn) SendWait(b []byte) error {
	w := c.n.Window
	if w <= 0 {
		w = 256
	}
	for !c.closed && c.inflight >= w {
		simrt.Count("net-window-full")
		c.room.Recv()
	}
	return c.Send(b)
}

func (c *Conn) transmit(it item) {
	if !it.fin {
		c.inflight++
	}
	n := c.n
	if n.blocked[pair(c.lhost, c.rhost)] {
		simrt.Count("net-held")
		c.held = append(c.held, it)
		return
	}
	d := n.lat()
	if !n.Quiet && n.StallP > 0 && simrt.Chance("nstall", n.StallP) {
		simrt.Count("net-stall")
		d += int64(1+simrt.Choose("nstalln", 64)) * n.StallMax / 64
	}
	at := simrt.SimNow() + d
	ordered := !(c.dgram && !n.Quiet && n.ReorderP > 0 && simrt.Chance("nreord", n.ReorderP))
	if ordered {
		if at <= c.last {
			at = c.last + 1
		}
		c.last = at
	} else {
		simrt.Count("net-reorder")
		at += int64(simrt.Choose("nreordn", 64)) * 1e6
	}
	simrt.After(at-simrt.SimNow(), func() { c.arrive(it) })
}

func (c *Conn) arrive(it item) {
	n := c.n
	if n.blocked[pair(c.lhost, c.rhost)] {
		c.held = append(c.held, it)
		return
	}
	p := c.peer
	if it.fin {
		p.shutLocal()
		return
	}
	if p.closed || p.dom.Dead {
		// reset comes back
		if !c.closed {
			simrt.After(n.MinLat, func() { c.shutLocal() })
		}
		return
	}
	p.Recvd++
	p.q = append(p.q, it)
	p.waiter.TrySend(struct{}{})
}

func (c *Conn) flushHeld() {
	h := c.held
	c.held = nil
	for _, it := range h {
		if !it.fin {
			c.inflight--
		}
		c.transmit(it)
	}
}

func (c *Conn) shutLocal() {
	if c.closed {
		return
	}
	c.closed = true
	if c.dom.Dead {
		return
	}
	c.waiter.TrySend(struct{}{})
	c.room.TrySend(struct{}{})
}

// shut both ends at once (reset).
func (c *Conn) shut() {
	c.q, c.peer.q = nil, nil
	c.shutLocal()
	c.peer.shutLocal()
}

// Recv the next message; ok is false when the connection is closed.
func (c *Conn) Recv() (b []byte, ok bool) {
	for {
		if len(c.q) > 0 {
			it := c.q[0]
			c.q = c.q[1:]
			c.peer.inflight--
			c.peer.room.TrySend(struct{}{})
			return it.b, true
		}
		if c.closed {
			c.waiter.TrySend(struct{}{}) // for other receivers
			return nil, false
		}
		c.waiter.Recv()
	}
}

// Close this end; the other end notices after the latency.
func (c *Conn) Close() {
	if c.closed || simrt.Killed() {
		return
	}
	c.closed = true
	c.waiter.TrySend(struct{}{})
	c.room.TrySend(struct{}{})
	c.transmit(item{fin: true})
}

// crashed process: the peers see resets, or nothing until the keep-alive of the transport gives up.
func (n *Net) crashed(d *simrt.Domain) {
	for _, l := range n.listeners {
		if l.dom == d {
			l.closed = true
		}
	}
	silent := simrt.Chance("nvanish", 0.3) && !n.Quiet
	for _, c := range n.conns {
		if c.dom == d && !c.closed {
			c.closed = true
			if !silent {
				c.transmit(item{fin: true})
			} else {
				simrt.Count("net-vanish")
				simrt.After(int64(KeepAlive), func() { c.transmit(item{fin: true}) })
			}
		}
	}
}

// KeepAlive is how long the transport needs to notice a peer that vanished.
const KeepAlive = 40e9

type simDur = durT
