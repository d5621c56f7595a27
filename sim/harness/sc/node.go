package sc

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/net/factory"

	"harness/core"
	"simrt"
	"simrt/simnet"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// Wire protocol as documented in node/msg, decoded independently of it.
const (
	wSyn, wAck, wOk, wErr, wSub, wUnsub, wRqList, wList, wRoot, wRqObject, wObject, wRqPreview, wRqPeers, wPeers = 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16
)

type wRootMsg struct {
	Feed  cipher.PubKey
	Nonce uint64
	Seq   uint64
	Value []byte
	Sig   cipher.Sig
}

type wSynMsg struct {
	Protocol uint16
	NodeID   cipher.PubKey
}

type wPeer struct {
	PubKey   cipher.PubKey
	Metadata []byte
	TCPAddr  string
	UDPAddr  string
}

type wPeersMsg struct {
	Feed cipher.PubKey
	List []wPeer
}

// wMsg is a message on the wire.
type wMsg struct {
	t         int64 // simulated time
	conn      int
	from, to  int // nodes, -1 when it is no node
	seq, rseq uint32
	typ       byte
	raw       []byte // body
}

func wEnc(seq, rseq uint32, typ byte, body interface{}) []byte {
	b := []byte{byte(seq), byte(seq >> 8), byte(seq >> 16), byte(seq >> 24), byte(rseq), byte(rseq >> 8), byte(rseq >> 16), byte(rseq >> 24), typ}
	if body == nil {
		return b
	}
	return append(b, encoder.Serialize(body)...)
}

func wDec(b []byte) (m wMsg, ok bool) {
	if len(b) < 9 {
		return
	}
	le := func(b []byte) uint32 {
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	return wMsg{seq: le(b), rseq: le(b[4:]), typ: b[8], raw: b[9:]}, true
}

func (m wMsg) feed() (pk cipher.PubKey) {
	if len(m.raw) >= len(pk) {
		copy(pk[:], m.raw)
	}
	return
}

func (m wMsg) root() (r wRootMsg, ok bool) {
	n, err := encoder.DeserializeRaw(m.raw, &r)
	return r, err == nil && int(n) == len(m.raw)
}

func (m wMsg) err() (s string) {
	var x struct{ Err string }
	encoder.DeserializeRaw(m.raw, &x)
	return x.Err
}

// nRoot is a root somebody published.
type nRoot struct {
	time  int64 // of the Root
	nonce, seq uint64
	hash       cipher.SHA256
	val        []byte
	sig        cipher.Sig
	at         int64
}

// nFeed is a feed with its owner.
type nFeed struct {
	pk    cipher.PubKey
	sk    cipher.SecKey
	owner int
	roots []*nRoot
	base  int64
}

func (f *nFeed) last(nonce uint64) (l *nRoot) {
	for _, r := range f.roots {
		if r.nonce == nonce && (l == nil || r.seq > l.seq) {
			l = r
		}
	}
	return
}

func (f *nFeed) find(h cipher.SHA256) *nRoot {
	for _, r := range f.roots {
		if r.hash == h {
			return r
		}
	}
	return nil
}

// nEvent is a callback.
type nEvent struct {
	t     int64
	kind  string
	c     *node.Conn
	feed  cipher.PubKey
	nonce uint64
	seq   uint64
	hash  cipher.SHA256
	sig   cipher.Sig
	err   error
}

// nNode is a simulated machine with a node.
type nNode struct {
	w    *nWorld
	i    int
	host string
	pr   *Proc
	disk *simos.Disk
	db   *data.DB
	pk   cipher.PubKey
	sk   cipher.SecKey
	n    *node.Node
	ev   []nEvent
	gen  int
	up   bool
	// Close was called
	closing bool
	cb      int                  // number of callbacks
	conf    func(c *node.Config) // changes
	// callbacks
	onEvent func(e nEvent) error
}

func (nd *nNode) tcp() string { return nd.host + ":8870" }
func (nd *nNode) udp() string { return nd.host + ":8880" }

// nWorld is a network of nodes.
type nWorld struct {
	p     *core.Prog
	types *tTypes
	net   *simnet.Net
	nodes []*nNode
	feeds []*nFeed
	log   []string
	rt    time.Duration // response timeout
	wire  []wMsg
	// machine stalls until everything became calm
	stalls time.Duration
	watch  func(m wMsg)
	keep   func(m wMsg) bool // keep the message in wire
}

func (w *nWorld) note(f string, a ...any) {
	if len(w.log) < 150 {
		w.log = append(w.log, fmt.Sprintf("%7.3f ", float64(simrt.SimNow())/1e9)+fmt.Sprintf(f, a...))
	}
}

func (w *nWorld) fail(sig, f string, a ...any) {
	l := w.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	fail(sig, "%s\n  %s", fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
}

func (w *nWorld) index(addr string) int {
	for i, nd := range w.nodes {
		if strings.HasPrefix(addr, nd.host+":") {
			return i
		}
	}
	return -1
}

func (w *nWorld) byID(pk cipher.PubKey) int {
	for i, nd := range w.nodes {
		if nd.pk == pk {
			return i
		}
	}
	return -1
}

func (w *nWorld) feedOf(pk cipher.PubKey) int {
	for i, f := range w.feeds {
		if f.pk == pk {
			return i
		}
	}
	return -1
}

// newNodes prepares n machines and some feeds.
func newNodes(p *core.Prog, n, feeds int) *nWorld {
	w := &nWorld{p: p, types: newTypes(), net: simnet.New()}
	w.rt = time.Duration(p.Cfg["rt"]) * time.Second
	if p.Cfg["incap"] > 0 {
		factory.InCap = int(p.Cfg["incap"])
	} else {
		factory.InCap = 128
	}
	factory.OutCap = 1 + int(p.Cfg["outcap"])
	w.net.MinLat = 1e5 + p.Cfg["minlat"]*1e6
	w.net.Jitter = p.Cfg["jitter"] * 1e6
	w.net.StallP = float64(p.Cfg["stallp"]) / 1000
	w.net.StallMax = p.Cfg["stallmax"] * 1e6
	w.net.ResetP = float64(p.Cfg["resetp"]) / 1000
	w.net.DialErrP = float64(p.Cfg["dialerr"]) / 100
	w.net.ResetAfter = p.Cfg["resetafter"] * 1e9
	w.net.Window = int(p.Cfg["window"])
	for i := 0; i < n; i++ {
		nd := &nNode{w: w, i: i, host: fmt.Sprintf("10.1.0.%d", i+1)}
		nd.pk, nd.sk = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 77})
		w.nodes = append(w.nodes, nd)
	}
	for i := 0; i < feeds; i++ {
		f := &nFeed{owner: i, base: int64(1 + i)}
		f.pk, f.sk = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 99})
		w.feeds = append(w.feeds, f)
	}
	w.net.Tap = func(from, to *simnet.Conn, b []byte) {
		m, ok := wDec(b)
		if !ok {
			return
		}
		m.t, m.conn = simrt.SimNow(), from.ID
		m.from, m.to = w.index(from.LocalAddr()), w.index(to.LocalAddr())
		if w.watch != nil {
			w.watch(m)
		}
		if w.keep != nil && w.keep(m) {
			m.raw = append([]byte{}, m.raw...)
			w.wire = append(w.wire, m)
		}
	}
	return w
}

func (nd *nNode) event(e nEvent) error {
	e.t = simrt.SimNow()
	nd.ev = append(nd.ev, e)
	var err error
	if nd.onEvent != nil {
		err = nd.onEvent(e)
	}
	switch e.kind {
	case "received", "filled", "breaks":
		if m := nd.w.p.Cfg["cbmax"]; m > 0 { // slow callbacks
			nd.cb++
			time.Sleep(time.Duration(uint64(nd.cb)*2654435761%uint64(m*1000)) * time.Microsecond)
		}
	}
	return err
}

func rootEvent(kind string, c *node.Conn, r *registry.Root, err error) nEvent {
	return nEvent{kind: kind, c: c, feed: r.Pub, nonce: r.Nonce, seq: r.Seq, hash: r.Hash, sig: r.Sig, err: err}
}

func (nd *nNode) config() *node.Config {
	p := nd.w.p
	c := node.NewConfig()
	c.RPC = ""
	c.SecKey = nd.sk
	c.TCP.Listen = nd.tcp()
	c.UDP.Listen = nd.udp()
	c.TCP.ResponseTimeout, c.UDP.ResponseTimeout = nd.w.rt, nd.w.rt
	c.MaxFillingTime = time.Duration(p.Cfg["maxfill"]) * time.Second
	c.Config = twConf(p)
	c.Config.MaxFillingParallel = int(p.Cfg["parallel"])
	if nd.disk != nil {
		c.Config.DataDir = "/db"
	} else {
		if nd.db == nil {
			nd.db = data.NewDB(cxds.NewMemoryCXDS(), idxdb.NewMemeoryDB())
		}
		c.Config.DB = nd.db
	}
	gen := nd.gen
	ev := func(e nEvent) error {
		if gen != nd.gen {
			return nil
		}
		return nd.event(e)
	}
	c.OnConnect = func(c *node.Conn) error { return ev(nEvent{kind: "connect", c: c}) }
	c.OnDisconnect = func(c *node.Conn, err error) { ev(nEvent{kind: "disconnect", c: c, err: err}) }
	c.OnSubscribeRemote = func(c *node.Conn, pk cipher.PubKey) error { return ev(nEvent{kind: "sub", c: c, feed: pk}) }
	c.OnUnsubscribeRemote = func(c *node.Conn, pk cipher.PubKey) { ev(nEvent{kind: "unsub", c: c, feed: pk}) }
	c.OnRootReceived = func(c *node.Conn, r *registry.Root) error { return ev(rootEvent("received", c, r, nil)) }
	c.OnRootFilled = func(_ *node.Node, r *registry.Root) { ev(rootEvent("filled", nil, r, nil)) }
	c.OnFillingBreaks = func(_ *node.Node, r *registry.Root, err error) { ev(rootEvent("breaks", nil, r, err)) }
	if nd.conf != nil {
		nd.conf(c)
	}
	return c
}

// start the machine and its node.
func (nd *nNode) start() bool {
	nd.gen++
	nd.ev = nil
	nd.closing = false
	nd.pr = newProc(fmt.Sprintf("node%d", nd.i))
	nd.w.net.SetHost(nd.pr.D, nd.host)
	if nd.disk != nil {
		simos.Mount(nd.pr.D, nd.disk)
	} else {
		nd.db = nil
	}
	var err error
	if !nd.pr.Do("start", func() { nd.n, err = node.NewNode(nd.config()) }) {
		return false
	}
	if err != nil {
		nd.w.fail("start", "starting node %d: %v", nd.i, err)
		return false
	}
	nd.up = true
	return true
}

// do something on the machine; false when it is down.
func (nd *nNode) do(name string, f func(n *node.Node)) bool {
	if nd.pr == nil || !nd.up || nd.pr.D.Dead {
		return false
	}
	return nd.pr.Do(name, func() { f(nd.n) })
}

// timed runs f and complains when it takes longer than max.
func (w *nWorld) timed(what string, max time.Duration, f func()) time.Duration {
	t, st := simrt.SimNow(), simrt.Stalled()
	f()
	d := time.Duration(simrt.SimNow()-t) - 2*(simrt.Stalled()-st)
	if d > max {
		w.fail("slow:"+strings.Fields(what)[0], "%s took %v, at most %v allowed", what, d, max)
	}
	return d
}

// connTo the peer, nil when there is none.
func (nd *nNode) connTo(j int) *node.Conn {
	for _, c := range nd.n.Connections() {
		if c.PeerID() == nd.w.nodes[j].pk {
			return c
		}
	}
	return nil
}

// dial bound: the simulated network gives up after 3 s
func (w *nWorld) dialMax() time.Duration {
	return 3*time.Second + w.rt + 2*time.Second + 4*w.slow()
}

// slow is the most a message can take
func (w *nWorld) slow() time.Duration {
	return time.Duration(w.net.MinLat + w.net.Jitter + w.net.StallMax)
}

// connect i to j.
func (nd *nNode) connect(j int, udp bool) (c *node.Conn, err error) {
	nd.do("connect", func(n *node.Node) {
		nd.w.timed(fmt.Sprintf("Connect %d->%d", nd.i, j), nd.w.dialMax(), func() {
			if udp {
				c, err = n.UDP().Connect(nd.w.nodes[j].udp())
			} else {
				c, err = n.TCP().Connect(nd.w.nodes[j].tcp())
			}
		})
		if (c == nil) == (err == nil) {
			nd.w.fail("connect-result", "Connect returned %v, %v", c, err)
		}
	})
	return
}

// publish a new root of the feed; only one at a time per feed.
func (nd *nNode) publish(f int, nonce uint64, seed int64) (r *nRoot) {
	w, fd := nd.w, nd.w.feeds[f]
	gen := nd.gen
	nd.do("publish", func(n *node.Node) {
		bad := func(f string, a ...any) {
			if !nd.closing && gen == nd.gen {
				w.fail("publish", f, a...)
			}
		}
		c := n.Container()
		x, err := c.LastRoot(fd.pk, nonce)
		if err != nil {
			x = &registry.Root{Pub: fd.pk, Nonce: nonce}
		}
		up, err := c.Unpack(fd.sk, w.types.reg[int(w.p.Cfg["salt"])%tRegs])
		if err != nil {
			bad("Unpack: %v", err)
			return
		}
		defer up.Close()
		b := &tBuild{pack: up, r: simrt.NewRng(uint64(seed)), base: fd.base, left: int(2 + seed%5)}
		if x.Refs, err = b.dyns(x.Refs); err != nil {
			bad("building: %v", err)
			return
		}
		if err = c.Save(up, x); err != nil {
			if err != data.ErrNoSuchFeed {
				bad("Save: %v", err)
			}
			return
		}
		r = &nRoot{nonce: nonce, seq: x.Seq, hash: x.Hash, val: x.Encode(), sig: x.Sig, at: simrt.SimNow(), time: x.Time}
		fd.roots = append(fd.roots, r)
		w.note("node %d publishes feed %d %d/%d %s", nd.i, f, nonce, x.Seq, x.Hash.Hex()[:7])
		n.Publish(x)
	})
	return
}

// holds tells if the node has the root with the whole tree; why not otherwise.
func (nd *nNode) holds(f int, r *nRoot) (why string) {
	fd := nd.w.feeds[f]
	if !nd.do("holds", func(n *node.Node) {
		c := n.Container()
		x, err := c.LastRoot(fd.pk, r.nonce)
		if err != nil {
			why = "LastRoot: " + err.Error()
			return
		}
		if x.Seq != r.seq || x.Hash != r.hash {
			why = fmt.Sprintf("the last root is %d %s", x.Seq, x.Hash.Hex()[:7])
			return
		}
		wk := newWalk(nd.w.types, func(h cipher.SHA256) []byte {
			v, _, err := c.Get(h, 0)
			if err != nil {
				return nil
			}
			return v
		})
		wk.Root(x.Hash)
		why = wk.bad
	}) {
		why = "the node is down"
	}
	return
}

// filled counts the reports of a root.
func (nd *nNode) count(kind string, fd *nFeed, r *nRoot) (n int) {
	for _, e := range nd.ev {
		if e.kind == kind && e.feed == fd.pk && e.hash == r.hash {
			n++
		}
	}
	return
}

// events of the node for messages.
func (nd *nNode) show() string {
	var l []string
	for _, e := range nd.ev {
		s := fmt.Sprintf("%.3f %s", float64(e.t)/1e9, e.kind)
		if e.c != nil {
			s += fmt.Sprintf(" conn to %d", nd.w.byID(e.c.PeerID()))
		}
		if e.feed != (cipher.PubKey{}) {
			s += fmt.Sprintf(" feed %d", nd.w.feedOf(e.feed))
		}
		if e.hash != (cipher.SHA256{}) {
			s += fmt.Sprintf(" %d/%d %s", e.nonce, e.seq, e.hash.Hex()[:7])
		}
		if e.err != nil {
			s += fmt.Sprintf(" (%v)", e.err)
		}
		l = append(l, s)
	}
	if len(l) > 30 {
		l = l[len(l)-30:]
	}
	return fmt.Sprintf("events of node %d:\n    %s", nd.i, strings.Join(l, "\n    "))
}

// wait until the condition holds; false when the time is over.
func wait(max time.Duration, cond func() bool) bool {
	end := simrt.SimNow() + int64(max)
	st := simrt.Stalled()
	d := 10 * time.Millisecond
	for !cond() {
		if simrt.SimNow() > end+2*int64(simrt.Stalled()-st) {
			return false
		}
		time.Sleep(d)
		if d < time.Second {
			d += d / 2
		}
	}
	return true
}

// clients runs the operations, one goroutine per client.
func (w *nWorld) clients(f func(c int, o core.Op)) {
	n := w.p.Clients()
	left := n
	over := make(chan struct{}, 1)
	for c := 0; c < n; c++ {
		go func(c int) {
			simrt.MarkClient(fmt.Sprintf("client%d", c))
			for _, o := range w.p.Of(c) {
				f(c, o)
				if core.Failed() {
					break
				}
			}
			if left--; left == 0 {
				over <- struct{}{}
			}
		}(c)
	}
	if n > 0 {
		<-over
	}
}

// calm stops all faults.
func (w *nWorld) calm() {
	w.net.Quiet = true
	w.stalls = simrt.Stalled()
	simrt.Calm()
	w.net.HealAll()
}

// stop closes all nodes; it has to be prompt.
func (w *nWorld) stop() {
	for _, nd := range w.nodes {
		if !nd.up {
			continue
		}
		nd.shut()
	}
}

// shut closes the node and looks for leftovers.
func (nd *nNode) shut() {
	w := nd.w
	var err error
	nd.closing = true
	if !nd.do("close", func(n *node.Node) {
		w.timed(fmt.Sprintf("Close of node %d", nd.i), 5*time.Second, func() { err = n.Close() })
	}) {
		return
	}
	nd.up = false
	if err != nil {
		w.fail("close", "Close of node %d: %v", nd.i, err)
	}
	if !wait(w.rt+10*time.Second, func() bool { return len(nd.pr.D.Live()) == 0 }) {
		l := nd.pr.D.Live()
		sort.Strings(l)
		w.fail("leftover", "goroutines of node %d after Close:\n  %s", nd.i, strings.Join(l, "\n  "))
	}
}

// nCfg draws the configuration common to all scenarios.
func nCfg(r *simrt.Rng, faults bool) map[string]int64 {
	c := map[string]int64{
		"rt": pick(r, int64(2), 5, 5, 20), "maxfill": pick(r, int64(0), 120, 600), "parallel": pick(r, int64(1), 2, 4, 10, 0),
		"minlat": pick(r, int64(0), 1, 20), "jitter": pick(r, int64(0), 5, 50), "outcap": int64(r.N(3)), "incap": pick(r, int64(0), 0, 1, 4),
		"degree": int64(r.N(4)), "cache": int64(r.N(3)), "amount": int64(r.N(10)), "lfu": int64(r.N(2)), "regs": int64(r.N(3)), "salt": int64(r.N(1000)),
	}
	if faults {
		c["stallp"] = pick(r, int64(0), 10, 100)
		c["stallmax"] = pick(r, int64(100), 1000, 4000)
		c["resetp"] = pick(r, int64(0), 0, 2, 10)
		c["dialerr"] = pick(r, int64(0), 0, 20)
		c["resetafter"] = pick(r, int64(0), 1, 5)
	}
	return c
}
