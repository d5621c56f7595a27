package sc

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"harness/core"
	"simrt"
	"simrt/simnet"

	"github.com/skycoin/cxo/node"
)

// W01: 1-3 nodes in the swarm of one feed; scripted peers answer requests for peers honestly or not. The address book
// has the nodes, the peers that answer (they are reachable, each with its own port) and peers that are not reachable.

func w01Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, false)}
	c := p.Cfg
	c["rt"] = pick(r, int64(5), 5, 10)
	c["stallp"] = pick(r, int64(0), 0, 20)
	c["stallmax"] = pick(r, int64(50), 300)
	c["resetp"] = pick(r, int64(0), 0, 0, 5)
	c["dialerr"] = pick(r, int64(0), 0, 20)
	c["nodes"] = pick(r, int64(1), 1, 1, 2, 3)
	c["live"] = int64(2 + r.N(4))
	c["dead"] = int64(r.N(6))
	c["max"] = pick(r, int64(1), 2, 3, 4, 6, 20, 20)
	c["perresp"] = pick(r, int64(1), 2, 3, 30)
	c["reqrate"] = int64(1 + r.N(3))
	c["expire"] = pick(r, int64(6), 10, 15, 30)
	c["clear"] = int64(1 + r.N(4))
	c["outrate"] = int64(1 + r.N(5))
	c["conns"] = pick(r, int64(1), 2, 3, 20)
	c["lie"] = pick(r, int64(0), 0, 20, 60)
	c["listen"] = int64(r.N(4)) // which transports listen
	n, book := int(c["nodes"]), int(c["nodes"]+c["live"]+c["dead"])
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, core.Op{C: 0, K: "join", A: []int64{int64(i), 0, 0}})
		for j := 1 + r.N(2); j > 0; j-- {
			p.Ops = append(p.Ops, core.Op{C: 0, K: "conn", A: []int64{int64(i), int64(n + r.N(int(c["live"]))), 0}})
		}
	}
	for cl := 1; cl < 2+r.N(3); cl++ {
		for i := 3 + r.N(12); i > 0; i-- {
			k := pick(r, "add", "add", "add", "bad", "remove", "mode", "mode", "conn", "rdial", "ask", "drop", "sleep", "sleep", "sleep", "sleep")
			if r.N(25) == 0 {
				k = pick(r, "leave", "leave", "join", "close")
			}
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(n)), int64(r.N(book)), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 500, 5000, 20000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

const (
	w01Honest = iota // all the book
	w01Few
	w01Err
	w01Mute
	w01Late
	w01Wrong // another feed
	w01Self  // only itself
	w01Modes
)

type w01Peer struct {
	wPeer
	node int // -1
	live *nRaw
	mode int
	subs int // was dialed
}

type w01Mention struct {
	t, st int64
	sure  bool // the node accepts it for sure
}

type w01Node struct {
	nd    *nNode
	s     *node.Swarm
	joins int
	// calls of the users
	joinCalls, leaveCalls int
	busy                  bool // somebody joins or leaves
	// while in the swarm
	told     map[string]bool
	mention  map[cipher.PubKey][]w01Mention
	removed  map[cipher.PubKey]int // counts calls of RemovePeer
	prev     map[cipher.PubKey]node.Peer
	prevT    int64
	prevRm   map[cipher.PubKey]int
	conns    map[cipher.PubKey]map[*node.Conn]int64
	left     int64 // time of the last leaving, 0 while in the swarm
	leftSt   int64
	quiet    []node.Peer // after it has left
	isQuiet  bool
	dialing  int // user's calls
	lastUser int64
}

type w01World struct {
	*nWorld
	p    *core.Prog
	st   []*w01Node
	book []*w01Peer
	g    *simrt.Rng
	raws []*nRaw
	who  map[int]cipher.PubKey // by connection
	rq   map[[2]int64]w01Rq    // by connection and seq
	dur  map[string]time.Duration
	// the machines stood still at this time at last; a request can wait on the node
	stSeen, stAt int64
	// lie no more
	honest bool
	list   []wPeer // the last list of all
}

type w01Rq struct {
	t, st int64
	feed  cipher.PubKey
	to    cipher.PubKey
	from  cipher.PubKey
	node  int
}

func (w *w01World) max() int { return int(w.p.Cfg["max"]) }

// proc is the longest time to process a message since the given stalls.
func (w *w01World) proc(st int64) int64 {
	return int64(w.slow())*3 + 3e8 + 2*(int64(simrt.Stalled())-st)
}

func w01Key(p wPeer) string {
	return fmt.Sprintf("%s %x %s %s", p.PubKey.Hex()[:12], p.Metadata, p.TCPAddr, p.UDPAddr)
}

func w01Addr(a string) bool {
	if a == "" {
		return true
	}
	h, p, err := net.SplitHostPort(a)
	if err != nil || net.ParseIP(h) == nil {
		return false
	}
	n, err := strconv.ParseUint(p, 10, 16)
	return err == nil && n > 0
}

// valid tells why the node i must not know this peer.
func (w *w01World) invalid(i int, p wPeer) string {
	nd := w.nodes[i]
	switch {
	case p.PubKey == (cipher.PubKey{}):
		return "blank key"
	case p.PubKey == nd.pk:
		return "the node itself"
	case p.TCPAddr == nd.tcp() && w.p.Cfg["listen"]&1 == 0:
		return "the TCP address of the node itself"
	case p.UDPAddr == nd.udp() && w.p.Cfg["listen"]&2 == 0:
		return "the UDP address of the node itself"
	case !w01Addr(p.TCPAddr):
		return fmt.Sprintf("malformed TCP address %q", p.TCPAddr)
	case !w01Addr(p.UDPAddr):
		return fmt.Sprintf("malformed UDP address %q", p.UDPAddr)
	}
	return ""
}

var w01BadAddrs = []string{"10.3.0.9", "10.3.0.9:", ":80", "10.3.0.9:99999", "10.3.0.9:80 ", " 10.3.0.9:80", "10.3.0.9 :80", "10.3.0.9:8 0", "10.3.0.9:0", "10.3.0.9:-1",
	"10.3.0.9:x", "10.3.0:80", "10.3.0.999:80", "10.3.0.9:80:80", "x", " ", ":", "10.3.0.9:80\n"}

// bad makes an entry no node should take.
func (w *w01World) bad(i int, k int64) wPeer {
	p := w.book[int(k)%len(w.book)].wPeer
	p.Metadata = []byte{byte(k), 66}
	nd := w.nodes[i]
	p.PubKey, _ = cipher.GenerateDeterministicKeyPair([]byte{byte(k % 3), 111})
	switch k / 7 % 6 {
	case 0:
		p.PubKey = cipher.PubKey{}
	case 1:
		p.PubKey = nd.pk
	case 2:
		p.TCPAddr = nd.tcp()
	case 3:
		p.UDPAddr = nd.udp()
	case 4:
		p.TCPAddr = w01BadAddrs[int(k/50)%len(w01BadAddrs)]
	case 5:
		p.UDPAddr = w01BadAddrs[int(k/50)%len(w01BadAddrs)]
	}
	return p
}

// answer of a scripted peer.
func (w *w01World) answer(b *w01Peer, rc *rConn, m wMsg) {
	feed := m.feed()
	x := wPeersMsg{Feed: feed}
	mode := b.mode
	if w.honest {
		x.List = w.list
		rc.send(m.seq, wPeers, x)
		return
	}
	for _, o := range w.book {
		if mode != w01Few || w.g.N(3) == 0 {
			x.List = append(x.List, o.wPeer)
		}
	}
	if int64(w.g.N(100)) < w.p.Cfg["lie"] {
		switch w.g.N(4) {
		case 0:
			for i := 1 + w.g.N(4); i > 0; i-- {
				x.List = append(x.List, w.bad(w.g.N(len(w.nodes)), int64(w.g.N(1000))))
			}
		case 1: // twice
			x.List = append(x.List, x.List...)
		case 2: // many
			for i := 10 + w.g.N(30); i > 0; i-- {
				pk, _ := cipher.GenerateDeterministicKeyPair([]byte{byte(i), 112})
				x.List = append(x.List, wPeer{PubKey: pk, TCPAddr: fmt.Sprintf("10.4.0.%d:80", i)})
			}
		case 3: // other addresses of known ones
			for i := range x.List {
				if w.g.N(2) == 0 {
					x.List[i].TCPAddr, x.List[i].Metadata = fmt.Sprintf("10.4.1.%d:81", i), []byte{byte(w.g.N(9))}
				}
			}
		}
		for i := len(x.List) - 1; i > 0; i-- {
			j := w.g.N(i + 1)
			x.List[i], x.List[j] = x.List[j], x.List[i]
		}
	}
	switch mode {
	case w01Err:
		rc.send(m.seq, wErr, wErrMsg{"no"})
	case w01Mute:
	case w01Late:
		rc.later(time.Duration(w.g.N(int(w.rt)*3/2)), func() { rc.send(m.seq, wPeers, x) })
	case w01Wrong:
		x.Feed = w.feeds[1].pk
		rc.send(m.seq, wPeers, x)
	case w01Self:
		x.List = []wPeer{b.wPeer}
		rc.send(m.seq, wPeers, x)
	default:
		rc.send(m.seq, wPeers, x)
	}
}

func (w *w01World) on(b *w01Peer) func(rc *rConn, m wMsg) {
	return func(rc *rConn, m wMsg) {
		switch m.typ {
		case wSyn:
			var x wSynMsg
			encoder.DeserializeRaw(m.raw, &x)
			w.who[rc.c.ID] = b.PubKey
			if i := w.byID(x.NodeID); i >= 0 {
				w.active(i, "connects to a peer")
			}
			rc.send(m.seq, wAck, wFeedMsg{b.PubKey})
		case wSub:
			rc.send(m.seq, wOk, nil)
		case wRqPeers:
			w.answer(b, rc, m)
		case wRqList, wRqPreview, wRqObject:
			rc.send(m.seq, wErr, wErrMsg{"no"})
		}
	}
}

// active complains about activity of a swarm the node has left.
func (w *w01World) active(i int, what string) {
	x := w.st[i]
	if x.left == 0 || !x.nd.up || x.nd.closing {
		return
	}
	if x.dialing > 0 && what != "requests peers" {
		return
	}
	since := max(x.left, x.lastUser)
	if now := simrt.SimNow(); now > since+int64(w.rt)+int64(w.dialMax())+w.proc(x.leftSt) {
		w.fail("active-after-leave", "node %d left the swarm at %.3f, %s at %.3f", i, float64(x.left)/1e9, what, float64(now)/1e9)
	}
}

func (w *w01World) tap(from, to *simnet.Conn, b []byte) {
	m, ok := wDec(b)
	if !ok || m.typ != wRqPeers && m.typ != wPeers && m.typ != wSyn && m.typ != wAck {
		return
	}
	now, st := simrt.SimNow(), int64(simrt.Stalled())
	fi, ti := w.index(from.LocalAddr()), w.index(to.LocalAddr())
	who := func(i int) cipher.PubKey {
		if i >= 0 {
			return w.nodes[i].pk
		}
		return w.who[from.ID]
	}
	switch m.typ {
	case wRqPeers:
		w.rq[[2]int64{int64(from.ID), int64(m.seq)}] = w01Rq{now, st, m.feed(), who(ti), who(fi), fi}
		if fi >= 0 {
			if m.feed() != w.feeds[0].pk {
				w.fail("other-feed", "node %d asks for peers of a feed it did not join", fi)
			}
			w.active(fi, "requests peers")
		}
	case wPeers:
		var x wPeersMsg
		if n, err := encoder.DeserializeRaw(m.raw, &x); err != nil || int(n) != len(m.raw) {
			if fi >= 0 {
				w.fail("wire", "malformed list of peers from node %d: %v", fi, err)
			}
			return
		}
		rq, ok := w.rq[[2]int64{int64(from.ID), int64(m.rseq)}]
		if !ok {
			if fi >= 0 {
				w.fail("unasked", "node %d sends a list of peers nobody asked for", fi)
			}
			return
		}
		if fi >= 0 {
			w.check(fi, rq, x)
		}
		if ti >= 0 && x.Feed == w.feeds[0].pk {
			y := w.st[ti]
			sure := now-rq.t < int64(w.rt)/2-int64(w.slow()) && st == rq.st && rq.t > y.left && st == w.stSeen && rq.t > w.stAt+int64(w.rt)+1e9
			for _, e := range x.List {
				y.told[w01Key(e)] = true
				if w.invalid(ti, e) == "" {
					y.mentioned(e.PubKey, now, st, sure)
				}
			}
		}
	}
}

func (x *w01Node) mentioned(pk cipher.PubKey, now, st int64, sure bool) {
	l := x.mention[pk]
	if len(l) > 200 {
		l = l[100:]
	}
	x.mention[pk] = append(l, w01Mention{now, st, sure})
}

// cut tells if the node lost a connection about that time, maybe with the answer.
func (x *w01Node) cut(t int64) bool {
	for _, e := range x.nd.ev {
		if e.kind == "disconnect" && e.t > t-1e9 && e.t < t+5e9 {
			return true
		}
	}
	return false
}

// check an answer of a node.
func (w *w01World) check(i int, rq w01Rq, x wPeersMsg) {
	bad := func(sig, f string, a ...any) {
		var l []string
		for _, e := range x.List {
			l = append(l, w01Key(e))
		}
		w.fail(sig, "node %d answers to %s: %s\n  %s", i, rq.from.Hex()[:12], fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
	}
	if x.Feed != rq.feed {
		bad("answer-feed", "a list of another feed")
	}
	if n := w.p.Cfg["perresp"]; int64(len(x.List)) > n {
		bad("answer-long", "%d peers, at most %d allowed", len(x.List), n)
	}
	seen := map[cipher.PubKey]bool{}
	for _, e := range x.List {
		if seen[e.PubKey] {
			bad("answer-twice", "the same peer twice")
		}
		seen[e.PubKey] = true
		if e.PubKey == rq.from && rq.from != (cipher.PubKey{}) {
			bad("answer-asker", "the list has the peer that asks")
		}
		if why := w.invalid(i, e); why != "" {
			bad("answer-invalid", "%s", why)
		}
		if !w.st[i].told[w01Key(e)] {
			bad("answer-unknown", "nobody told the node about %s", w01Key(e))
		}
	}
}

// poll checks the table of the node.
func (w *w01World) poll(i int) {
	x := w.st[i]
	if st := int64(simrt.Stalled()); st != w.stSeen {
		w.stSeen, w.stAt = st, simrt.SimNow()
	}
	if x.s == nil || x.left != 0 || !x.nd.up || x.nd.closing {
		return
	}
	joins := x.joins
	var l []node.Peer
	var cs []*node.Conn
	var t0, t1, st0 int64
	rm := map[cipher.PubKey]int{}
	x.nd.do("poll", func(n *node.Node) {
		for pk, c := range x.removed {
			rm[pk] = c
		}
		t0, st0 = simrt.SimNow(), int64(simrt.Stalled())
		l = x.s.Peers()
		t1 = simrt.SimNow()
		cs = n.ConnectionsOfFeed(w.feeds[0].pk)
	})
	if joins != x.joins || x.left != 0 || x.nd.closing || core.Failed() {
		return
	}
	bad := func(sig, f string, a ...any) {
		var s []string
		for _, p := range l {
			s = append(s, fmt.Sprintf("%s seen %.3f retries %d", w01Key(w01Of(p)), float64(p.LastSeen.UnixNano()-w01Zero)/1e9, p.RetryTimes))
		}
		w.fail(sig, "node %d: %s\n  %s", i, fmt.Sprintf(f, a...), strings.Join(s, "\n  "))
	}
	if len(l) > w.max() {
		bad("too-many", "%d peers, at most %d allowed", len(l), w.max())
	}
	cur := map[cipher.PubKey]node.Peer{}
	for _, p := range l {
		if _, ok := cur[p.PubKey]; ok {
			bad("twice", "the peer %s is there twice", p.PubKey.Hex()[:12])
		}
		cur[p.PubKey] = p
		e := w01Of(p)
		if why := w.invalid(i, e); why != "" {
			bad("invalid", "%s", why)
		}
		if !x.told[w01Key(e)] {
			bad("unknown", "nobody told the node about %s", w01Key(e))
		}
		if p.RetryTimes > 1<<32 {
			bad("retries", "%d retries", p.RetryTimes)
		}
		if p.LastSeen.After(time.Now()) {
			bad("future", "the peer was seen in the future")
		}
	}
	// connections
	now := simrt.SimNow()
	conns := map[cipher.PubKey]map[*node.Conn]int64{}
	for _, c := range cs {
		pk := c.PeerID()
		if conns[pk] == nil {
			conns[pk] = map[*node.Conn]int64{}
		}
		conns[pk][c] = now
		if t := x.conns[pk][c]; t != 0 {
			conns[pk][c] = t
		}
		x.mentioned(pk, now, int64(simrt.Stalled()), false)
	}
	// expired ones have to go
	expire, clear := w.p.Cfg["expire"]*1e9, w.p.Cfg["clear"]*1e9
	for pk := range cur {
		var last w01Mention
		if ms := x.mention[pk]; len(ms) > 0 {
			last = ms[len(ms)-1]
		}
		if t0 > last.t+expire+clear+w.proc(last.st)+int64(time.Second) {
			bad("stale", "nobody mentioned %s since %.3f, now is %.3f", pk.Hex()[:12], float64(last.t)/1e9, float64(t0)/1e9)
		}
	}
	// the others have to stay
	for pk := range x.prev {
		if _, ok := cur[pk]; ok || x.removed[pk] != rm[pk] || rm[pk] != x.prevRm[pk] || rm[pk]&1 != 0 {
			continue
		}
		for _, m := range x.mention[pk] {
			if m.sure && !x.cut(m.t) && m.t+w.proc(m.st) < x.prevT && t1 < m.t+expire {
				bad("dropped", "the peer %s was mentioned at %.6f, was there at %.3f and is not there at %.3f", pk.Hex()[:12], float64(m.t)/1e9, float64(x.prevT)/1e9, float64(t1)/1e9)
			}
		}
		for c, t := range x.conns[pk] {
			if conns[pk][c] != 0 && t+clear+w.proc(st0)+int64(2*time.Second) < x.prevT && clear+w.proc(0) < expire && simrt.Stalled() == 0 {
				bad("dropped-connected", "the peer %s is connected since %.3f, was there at %.3f and is not there at %.3f", pk.Hex()[:12], float64(t)/1e9, float64(x.prevT)/1e9, float64(t1)/1e9)
			}
		}
	}
	x.prev, x.prevT, x.prevRm, x.conns = cur, t0, rm, conns
}

var w01Zero = time.Unix(0, 0).UnixNano()

func w01Of(p node.Peer) wPeer { return wPeer{p.PubKey, p.Metadata, p.TCPAddr, p.UDPAddr} }

func (w *w01World) join(i int) {
	x := w.st[i]
	x.nd.do("join", func(n *node.Node) {
		x.joinCalls++
		old, in := n.InSwarm(w.feeds[0].pk)
		if !in {
			x.told, x.mention = map[string]bool{}, map[cipher.PubKey][]w01Mention{}
			x.prev = nil
		}
		s, err := n.JoinSwarm(w.feeds[0].pk, node.SwarmConfig{
			MaxPeers: uint64(w.max()), PeersPerResponse: uint64(w.p.Cfg["perresp"]), MaxConns: uint64(w.p.Cfg["conns"]),
			RequestPeerRate: time.Duration(w.p.Cfg["reqrate"]) * time.Second, PeerExpirePeriod: time.Duration(w.p.Cfg["expire"]) * time.Second,
			ClearOldPeersRate: time.Duration(w.p.Cfg["clear"]) * time.Second, OutgoingConnRate: time.Duration(w.p.Cfg["outrate"]) * time.Second,
		})
		if x.nd.closing {
			return
		}
		if err != nil {
			w.fail("join", "JoinSwarm: %v", err)
			return
		}
		if in && s != old && x.left == 0 {
			w.fail("join", "JoinSwarm made another swarm")
		}
		if s != x.s {
			x.joins++
		}
		x.s, x.left, x.isQuiet = s, 0, false
	})
}

func (w *w01World) leave(i int) {
	x := w.st[i]
	s := x.s
	x.nd.do("leave", func(n *node.Node) {
		in := x.left == 0 && x.s != nil
		var err error
		x.leaveCalls++
		joins, leaves := x.joinCalls, x.leaveCalls
		w.timed("LeaveSwarm", 2*time.Second, func() { err = n.LeaveSwarm(w.feeds[0].pk) })
		if x.nd.closing || s != x.s || joins != x.joinCalls || leaves != x.leaveCalls {
			return // somebody else joins or leaves
		}
		if (err == nil) != in {
			w.fail("leave", "LeaveSwarm returned %v; in the swarm: %v", err, in)
		}
		if err != nil {
			return
		}
		if _, in := n.InSwarm(w.feeds[0].pk); in && joins == x.joinCalls {
			w.fail("leave", "the node is in the swarm after LeaveSwarm")
		}
		if joins != x.joinCalls {
			return
		}
		x.left, x.leftSt = max(1, simrt.SimNow()), int64(simrt.Stalled())
		w.note("node %d left the swarm", i)
	})
	if at := x.left; at != 0 && s != nil && !x.nd.closing {
		go func() {
			time.Sleep(w.rt + w.dialMax() + 2*time.Second + time.Duration(w.proc(x.leftSt)))
			if x.left != at || x.s != s || x.nd.closing || core.Failed() {
				return
			}
			x.quiet, x.isQuiet = s.Peers(), true
		}()
	}
}

func w01Body(p *core.Prog) {
	n := int(p.Cfg["nodes"])
	w := &w01World{nWorld: newNodes(p, n, 2), p: p, who: map[int]cipher.PubKey{}, rq: map[[2]int64]w01Rq{}}
	w.g = simrt.NewRng(uint64(p.Cfg["salt"])*31 + 9)
	f := w.feeds[0].pk
	tap := w.net.Tap
	w.net.Tap = func(from, to *simnet.Conn, b []byte) { tap(from, to, b); w.tap(from, to, b) }
	for i, nd := range w.nodes {
		nd.conf = func(c *node.Config) {
			c.Public = true
			if p.Cfg["listen"]&1 != 0 && n == 1 {
				c.TCP.Listen = ""
			}
			if p.Cfg["listen"]&2 != 0 {
				c.UDP.Listen = ""
			}
		}
		w.st = append(w.st, &w01Node{nd: nd, removed: map[cipher.PubKey]int{}})
		w.book = append(w.book, &w01Peer{wPeer: wPeer{PubKey: nd.pk, TCPAddr: nd.tcp(), Metadata: []byte{byte(i)}}, node: i})
	}
	if n > 1 {
		p.Cfg["listen"] &^= 1
	}
	for i := 0; i < int(p.Cfg["live"]); i++ {
		h := w.newRaw(i)
		b := &w01Peer{wPeer: wPeer{PubKey: h.pk, Metadata: []byte{byte(i), 1}}, node: -1, live: h}
		if p.Cfg["lie"] > 0 {
			b.mode = w.g.N(w01Modes)
		}
		b.TCPAddr = h.serve(9000, false, w.on(b))
		if i%3 == 1 {
			b.UDPAddr = fmt.Sprintf("%s:9001", h.host)
		}
		w.book = append(w.book, b)
	}
	for i := 0; i < int(p.Cfg["dead"]); i++ {
		pk, _ := cipher.GenerateDeterministicKeyPair([]byte{byte(i), 110})
		b := &w01Peer{wPeer: wPeer{PubKey: pk, Metadata: []byte{byte(i), 2}, TCPAddr: fmt.Sprintf("10.3.0.%d:80", i+1)}, node: -1}
		if i == 3 { // no address
			b.TCPAddr = ""
		}
		if i == 4 {
			b.TCPAddr, b.UDPAddr = "", "10.3.0.5:81"
		}
		w.book = append(w.book, b)
	}
	core.Phase("start")
	simrt.Calm()
	for i, nd := range w.nodes {
		if !nd.start() {
			return
		}
		nd.do("share", func(n *node.Node) {
			if err := n.Share(f); err != nil {
				w.fail("share", "Share: %v", err)
			}
		})
		w.join(i)
		go func(i int) {
			for !core.Failed() && !w.nodes[i].closing {
				w.poll(i)
				time.Sleep(200 * time.Millisecond)
			}
		}(i)
	}
	simrt.Uncalm()
	core.Phase("work")
	w.clients(func(cl int, o core.Op) { w.op(o) })
	if core.Failed() {
		return
	}
	core.Phase("settle")
	w.calm()
	time.Sleep(10*time.Second + w.rt) // lost connections go
	w.settle()
	if core.Failed() {
		return
	}
	core.Phase("close")
	w.stop()
}

// connect the node to the peer of the book and subscribe, as a user does.
func (w *w01World) connect(i int, b *w01Peer) {
	x := w.st[i]
	x.dialing++
	x.nd.do("connect", func(n *node.Node) {
		c, err := n.TCP().Connect(b.TCPAddr)
		if err == nil {
			c.Subscribe(w.feeds[0].pk)
		}
	})
	x.dialing--
	x.lastUser = simrt.SimNow()
}

func (w *w01World) op(o core.Op) {
	i := int(o.Arg(0)) % len(w.nodes)
	if o.K == "sleep" {
		time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
		return
	}
	x, b, k := w.st[i], w.book[int(o.Arg(1))%len(w.book)], o.Arg(2)
	nd := x.nd
	if !nd.up || nd.closing {
		return
	}
	switch o.K {
	case "join", "leave":
		if x.busy {
			return
		}
		x.busy = true
		if o.K == "join" {
			w.join(i)
		} else {
			w.leave(i)
		}
		x.busy = false
	case "close":
		x.left, x.leftSt = max(1, simrt.SimNow()), int64(simrt.Stalled())
		nd.shut()
	case "add":
		w.add(i, b.wPeer, k)
	case "bad":
		w.add(i, w.bad(i, k), 0)
	case "remove":
		s := x.s
		if s == nil || x.left != 0 {
			return
		}
		nd.do("remove", func(n *node.Node) {
			x.removed[b.PubKey]++ // odd while a call is running
			t0, st0 := simrt.SimNow(), int64(simrt.Stalled())
			err := s.RemovePeer(b.PubKey)
			l := s.Peers()
			x.removed[b.PubKey]++
			if err != nil || s != x.s {
				return
			}
			for _, m := range x.mention[b.PubKey] {
				if m.t+w.proc(m.st)+int64(w.rt) > t0-int64(simrt.Stalled())+st0 {
					return
				}
			}
			for _, p := range l {
				if p.PubKey == b.PubKey {
					w.fail("not-removed", "the peer %s is there after RemovePeer", p.PubKey.Hex()[:12])
				}
			}
		})
	case "mode":
		b.mode = int(k) % w01Modes
	case "conn":
		if b.node != i && b.TCPAddr != "" {
			w.connect(i, b)
		}
	case "drop":
		nd.do("drop", func(n *node.Node) {
			if cs := n.Connections(); len(cs) > 0 {
				cs[int(k)%len(cs)].Close()
			}
		})
	case "rdial", "ask":
		if b.live == nil || w.p.Cfg["listen"]&1 != 0 {
			return
		}
		rc := b.live.dial(nd.tcp(), false, w.on(b))
		if rc == nil {
			return
		}
		w.who[rc.c.ID] = b.PubKey
		seq := rc.send(0, wSyn, wSynMsg{3, b.PubKey})
		if !wait(w.rt, func() bool { return rc.closed || rc.reply(seq) != nil }) || rc.closed {
			return
		}
		if o.K == "rdial" {
			rc.send(0, wSub, wFeedMsg{w.feeds[0].pk})
		} else {
			for j := 1 + k%4; j > 0 && !rc.closed; j-- {
				rc.send(0, wRqPeers, wFeedMsg{w.feeds[k/4%9/8].pk})
				time.Sleep(time.Duration(k) * time.Millisecond)
			}
			time.Sleep(time.Second)
			if !rc.closed {
				rc.close()
			}
		}
	}
}

// add a peer to the table as a user does.
func (w *w01World) add(i int, e wPeer, k int64) {
	x := w.st[i]
	s := x.s
	if s == nil || x.left != 0 {
		return
	}
	if k%5 == 4 {
		e.Metadata = []byte{byte(k), 3}
	}
	x.nd.do("add", func(n *node.Node) {
		has := func() bool {
			for _, p := range s.Peers() {
				if p.PubKey == e.PubKey {
					return true
				}
			}
			return false
		}
		why := w.invalid(i, e)
		x.told[w01Key(e)] = true
		before := has()
		t0, st0 := simrt.SimNow(), int64(simrt.Stalled())
		if why == "" {
			x.mentioned(e.PubKey, t0, st0, false)
		}
		rm := x.removed[e.PubKey]
		err := s.AddPeer(e.PubKey, e.Metadata, e.TCPAddr, e.UDPAddr)
		if s != x.s || x.left != 0 || x.nd.closing {
			return
		}
		switch {
		case why != "" && err == nil:
			w.fail("added-invalid", "AddPeer accepted %s (%s)", w01Key(e), why)
		case why == "" && err == nil:
			x.mentioned(e.PubKey, t0, st0, true)
			x.mentioned(e.PubKey, simrt.SimNow(), int64(simrt.Stalled()), false)
		case why == "" && w.max() >= len(w.book)+60 || why == "" && before && has() && rm == x.removed[e.PubKey] && rm&1 == 0:
			w.fail("not-added", "AddPeer refused the known peer %s: %v", w01Key(e), err)
		}
	})
}

// settle: all peers answer with one list, the tables follow.
func (w *w01World) settle() {
	for i, x := range w.st {
		if !x.nd.up {
			continue
		}
		if x.left != 0 && x.isQuiet {
			a, b := map[string]bool{}, map[string]bool{}
			for _, p := range x.quiet {
				a[fmt.Sprint(w01Key(w01Of(p)), p.RetryTimes, p.LastSeen.UnixNano())] = true
			}
			for _, p := range x.s.Peers() {
				b[fmt.Sprint(w01Key(w01Of(p)), p.RetryTimes, p.LastSeen.UnixNano())] = true
			}
			if len(a) != len(b) {
				w.fail("active-after-leave", "the table of the swarm node %d has left changes", i)
			}
			for k := range a {
				if !b[k] {
					w.fail("active-after-leave", "the table of the swarm node %d has left changes: %s", i, k)
				}
			}
		}
		w.join(i)
	}
	var good *w01Peer
	for _, b := range w.book {
		if b.live != nil {
			good = b
		}
	}
	for _, b := range w.book {
		if b.node < 0 && len(w.list) < w.max()-len(w.nodes)-int(w.p.Cfg["live"]) {
			w.list = append(w.list, b.wPeer)
		}
	}
	w.honest = true
	expire := time.Duration(w.p.Cfg["expire"]) * time.Second
	cycle := expire + time.Duration(w.p.Cfg["clear"]+w.p.Cfg["reqrate"])*time.Second
	for i, x := range w.st {
		if !x.nd.up {
			continue
		}
		missing := func() (s string) {
			have := map[cipher.PubKey]bool{}
			for _, p := range x.s.Peers() {
				have[p.PubKey] = true
			}
			for _, e := range w.list {
				if !have[e.PubKey] {
					return w01Key(e)
				}
			}
			return
		}
		connected := func() bool {
			ok := false
			x.nd.do("conns", func(n *node.Node) {
				for _, c := range n.ConnectionsOfFeed(w.feeds[0].pk) {
					ok = ok || c.PeerID() == good.PubKey
				}
			})
			return ok
		}
		for k := 0; k < 30 && !connected(); k++ {
			var c *node.Conn
			x.nd.do("conns", func(n *node.Node) {
				for _, o := range n.Connections() {
					if o.PeerID() == good.PubKey {
						c = o
					}
				}
				if c != nil {
					c.Subscribe(w.feeds[0].pk)
				}
			})
			if c == nil {
				w.connect(i, good)
			}
			if !connected() {
				time.Sleep(time.Second)
			}
		}
		if !connected() {
			w.fail("connect", "node %d can't connect to %s", i, good.TCPAddr)
			return
		}
		// with several nodes old entries can go round
		if len(w.nodes) == 1 && !wait(2*cycle+10*time.Second+2*w.rt, func() bool { return missing() == "" }) {
			w.fail("not-learned", "all the peers answer to node %d with a list, but it does not learn %s", i, missing())
			return
		}
		time.Sleep(cycle * 3 / 2)
	}
}

func init() {
	real := []string{"node (swarm, connections, requests, transports)", "node/msg", "skyobject (container)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "peers (scripts)"}
	core.Register(&core.Scenario{Prop: "W01", Name: "swarm", Quick: 4000, Thor: 40000, Gen: w01Gen, Body: w01Body, Real: real, Stubs: stubs,
		Rule: "1-3 nodes in a swarm with scripted peers that answer with honest lists, lists full of malformed entries, of the node itself, twice the same, too many, of another feed, late, errors or never; users add and remove peers, connect, drop, leave and join; the table never has the node, a peer twice, a malformed address, somebody nobody told about or too many; peers expire when nobody mentions them and stay otherwise; answers are short enough and never have the asker; after leaving nothing goes on", Needed: []string{"preempt"}})
}
