package sc

import (
	"errors"
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simnet"

	"github.com/skycoin/cxo/node"
)

// handshakes of scripted peers
const (
	hsGood = iota
	hsVersion
	hsType
	hsGarbage
	hsSilent
	hsOther // identity of somebody else
	hsTwice
	hsClose
	hsSlow
	hsLate
	hsErr
	hsRseq
	hsAll
)

func n01Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["lat0"] = int64(r.N(3) / 2)
	n := 1 + r.N(4)
	c["nodes"], c["raws"] = int64(n), int64(r.N(3))
	if n == 1 {
		c["raws"]++
	}
	c["reject"] = pick(r, int64(0), 0, 0, 30)
	c["feeds"] = 1
	kinds := []string{"connect", "connect", "connect", "connect", "close", "sleep", "sleep", "reset", "cut", "heal", "self"}
	if c["raws"] > 0 {
		kinds = append(kinds, "dial", "dial", "serve", "serve", "rawclose")
	}
	kinds = swarm(r, kinds)
	if n > 1 {
		kinds = append(kinds, "connect", "connect")
	}
	u := r.N(4)
	for cl := 0; cl < 1+r.N(2*n+2); cl++ {
		for i := 1 + r.N(7); i > 0; i-- {
			k := pick(r, kinds...)
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(n)), int64(r.N(n)), int64(r.N(hsAll)), int64(r.N(1000)), int64(u / 2)}}
			if u == 1 {
				o.A[4] = int64(r.N(2))
			}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 3, 20, 300, 4000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// n01Raw is a scripted peer.
type n01Raw struct {
	*nRaw
	conns []*rConn // established, as it sees it
	plan  int64    // of the next incoming connection
	delay int64
	good  bool // every established connection had a correct handshake
}

func n01Body(p *core.Prog) {
	n := int(p.Cfg["nodes"])
	w := newNodes(p, n, 1)
	if p.Cfg["lat0"] == 1 {
		w.net.MinLat, w.net.Jitter = 1000, 0
	}
	type life struct{ connect, disconnect int }
	lives := map[*node.Conn]*life{}
	rej := simrt.NewRng(uint64(p.Cfg["salt"]))
	calm := false
	// identities that can be found somewhere
	known := map[cipher.PubKey]bool{}
	check := func(nd *nNode, n *node.Node) {
		seen := map[cipher.PubKey]bool{}
		for _, c := range n.Connections() {
			pk := c.PeerID()
			switch {
			case pk == (cipher.PubKey{}):
				w.fail("no-identity", "node %d lists a connection without an identity", nd.i)
			case pk == nd.pk:
				w.fail("itself", "node %d is connected to itself", nd.i)
			case seen[pk]:
				w.fail("two-connections", "node %d lists two connections to %s (node %d)", nd.i, pk.Hex()[:7], w.byID(pk))
			case !known[pk]:
				w.fail("stranger", "node %d lists a connection to %s, who never introduced itself correctly", nd.i, pk.Hex()[:7])
			}
			seen[pk] = true
		}
	}
	for _, nd := range w.nodes {
		nd := nd
		known[nd.pk] = true
		nd.conf = func(c *node.Config) {
			c.Public = true
			f := c.OnConnect
			c.OnConnect = func(c *node.Conn) error {
				f(c)
				if !calm && int64(rej.N(100)) < p.Cfg["reject"] {
					return errors.New("no")
				}
				return nil
			}
		}
		nd.onEvent = func(e nEvent) error {
			switch e.kind {
			case "connect", "disconnect":
				l := lives[e.c]
				if l == nil {
					l = &life{}
					lives[e.c] = l
				}
				if e.kind == "connect" {
					l.connect++
				} else {
					l.disconnect++
				}
				w.note("node %d: %s %s", nd.i, e.kind, e.c.PeerID().Hex()[:7])
				if l.connect != 1 || l.disconnect > 1 {
					w.fail("callbacks", "node %d: OnConnect was called %d times and OnDisconnect %d times for a connection", nd.i, l.connect, l.disconnect)
				}
				check(nd, nd.n)
			}
			return nil
		}
		if !nd.start() {
			return
		}
		nd.do("share", func(n *node.Node) { n.Share(w.feeds[0].pk) })
	}
	var raws []*n01Raw
	for i := 0; i < int(p.Cfg["raws"]); i++ {
		x := &n01Raw{nRaw: w.newRaw(i), good: true}
		raws = append(raws, x)
	}
	// identity of somebody else
	other := func(x *n01Raw, d int64) cipher.PubKey {
		if l := len(w.nodes) + len(raws); l > 1 {
			if j := int(d) % l; j < len(w.nodes) {
				return w.nodes[j].pk
			} else {
				return raws[j-len(w.nodes)].pk
			}
		}
		return w.nodes[0].pk
	}
	garbage := func(rc *rConn, seq uint32, d int64) {
		g := simrt.NewRng(uint64(d))
		switch d % 4 {
		case 0:
			rc.raw(make([]byte, g.N(9)))
		case 1:
			rc.raw(wEnc(1, seq, byte(100+g.N(100)), nil))
		case 2:
			b := wEnc(1, seq, byte(3+g.N(2)), nil)
			rc.raw(append(b, make([]byte, g.N(30))...)) // too short or the zero identity
		default:
			b := wEnc(1, seq, byte(g.N(20)), nil)
			for i := g.N(60); i > 0; i-- {
				b = append(b, byte(g.N(256)))
			}
			rc.raw(b)
		}
	}
	serve := func(x *n01Raw) func(rc *rConn, m wMsg) {
		return func(rc *rConn, m wMsg) {
			switch m.typ {
			case wSyn:
				var s wSynMsg
				copy(s.NodeID[:], m.raw[2:])
				if len(m.raw) != 35 || m.raw[0] != 3 || m.raw[1] != 0 || w.byID(s.NodeID) < 0 {
					w.fail("wire", "a wrong introduction from a node")
				}
				ack := func() {
					known[x.pk] = true
					x.conns = append(x.conns, rc)
					rc.send(m.seq, wAck, wFeedMsg{x.pk})
				}
				w.note("raw %d answers the introduction by plan %d", x.i, x.plan)
				switch x.plan {
				case hsGood, hsVersion:
					ack()
				case hsType:
					rc.send(m.seq, []byte{wOk, wList, wObject, wPeers}[x.delay%4], nil)
				case hsGarbage:
					garbage(rc, m.seq, x.delay)
				case hsSilent:
				case hsOther:
					pk := other(x, x.delay)
					known[pk] = true
					x.conns = append(x.conns, rc)
					rc.send(m.seq, wAck, wFeedMsg{pk})
				case hsTwice:
					ack()
					rc.send(m.seq, wAck, wFeedMsg{x.pk})
				case hsClose:
					rc.close()
				case hsSlow:
					rc.later(w.rt*time.Duration(x.delay)/1000, ack)
				case hsLate:
					rc.later(w.rt+time.Duration(x.delay)*time.Millisecond, ack)
				case hsErr:
					rc.send(m.seq, wErr, wErrMsg{"go away"})
				case hsRseq:
					rc.send(m.seq+1+uint32(x.delay), wAck, wFeedMsg{x.pk})
				}
			case wRqList:
				rc.send(m.seq, wList, wListMsg{})
			}
		}
	}
	for _, x := range raws {
		x.serve(8870, false, serve(x))
		x.serve(8880, true, serve(x))
	}
	answer := func(rc *rConn, m wMsg) {
		if m.typ == wRqList {
			rc.send(m.seq, wList, wListMsg{})
		}
	}
	dial := func(x *n01Raw, j int, udp bool, plan, d int64) (ok bool) {
		a := w.nodes[j].tcp()
		if udp {
			a = w.nodes[j].udp()
		}
		rc := x.dial(a, udp, answer)
		if rc == nil {
			return false
		}
		w.note("raw %d dials node %d by plan %d", x.i, j, plan)
		id := x.pk
		proto := uint16(3)
		switch plan {
		case hsVersion:
			if proto = uint16(d % 5); proto == 3 {
				proto = 3 + 256
			}
		case hsOther:
			id = other(x, d)
		case hsType:
			rc.send(0, []byte{wAck, wSub, wOk, wRoot, wErr}[d%5], wFeedMsg{x.pk})
		case hsGarbage:
			garbage(rc, 0, d)
		case hsClose:
			rc.close()
		case hsSlow:
			time.Sleep(w.rt * time.Duration(d) / 1000)
		case hsLate:
			time.Sleep(w.rt + w.slow() + time.Second + 2*simrt.Stalled())
		}
		good := false
		switch plan {
		case hsType, hsGarbage, hsSilent, hsClose:
		default:
			if proto == 3 {
				known[id] = true
			}
			seq := rc.send(0, wSyn, wSynMsg{proto, id})
			if plan == hsTwice {
				rc.send(0, wSyn, wSynMsg{proto, id})
			}
			wait(w.rt+5*time.Second+3*w.slow(), func() bool { return rc.closed || rc.reply(seq) != nil })
			m := rc.reply(seq)
			good = m != nil && m.typ == wAck
			if good {
				if m.feed() != w.nodes[j].pk {
					w.fail("wire", "node %d introduces itself as somebody else", j)
				}
				if plan == hsVersion {
					w.fail("version", "node %d accepts protocol version %d", j, proto)
				}
				x.conns = append(x.conns, rc)
			}
			if plan == hsVersion && m != nil && m.typ != wErr {
				w.fail("version", "node %d answers protocol version %d with a message of type %d", j, proto, m.typ)
			}
		}
		if !good || plan == hsTwice {
			// the node has to end it
			st := simrt.Stalled()
			if !wait(w.rt+3*time.Second+3*w.slow()+2*(simrt.Stalled()-st), func() bool { return rc.closed }) && plan != hsTwice {
				w.fail("not-closed", "node %d does not close the connection after the failed introduction %d", j, plan)
			}
			rc.close()
		}
		return good
	}
	core.Phase("work")
	w.clients(func(cl int, o core.Op) {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		i, j, udp := int(o.Arg(0)), int(o.Arg(1)), o.Arg(4) == 1
		nd := w.nodes[i]
		var x *n01Raw
		if len(raws) > 0 {
			x = raws[int(o.Arg(1))%len(raws)]
		}
		switch o.K {
		case "self":
			nd.do("self", func(n *node.Node) {
				if _, err := n.TCP().Connect(nd.tcp()); err == nil {
					w.fail("itself", "node %d connects to itself", i)
				}
			})
		case "connect":
			if i == j {
				return
			}
			c, err := nd.connect(j, udp)
			w.note("node %d connects to node %d: %v", i, j, err)
			if err == nil && c.PeerID() != w.nodes[j].pk {
				w.fail("identity", "the connection of node %d to node %d has another identity", i, j)
			}
			nd.do("check", func(n *node.Node) { check(nd, n) })
		case "close":
			nd.do("close", func(n *node.Node) {
				l := n.Connections()
				if len(l) > 0 {
					c := l[int(o.Arg(3))%len(l)]
					w.note("node %d closes the connection to %s", i, c.PeerID().Hex()[:7])
					c.Close()
				}
			})
		case "dial":
			dial(x, i, udp, o.Arg(2), o.Arg(3))
		case "serve":
			x.plan, x.delay = o.Arg(2), o.Arg(3)
			plan := x.plan
			nd.do("connect", func(n *node.Node) {
				var c *node.Conn
				var err error
				w.timed(fmt.Sprintf("Connect %d->raw %d", i, x.i), w.dialMax(), func() {
					if udp {
						c, err = n.UDP().Connect(x.host + ":8880")
					} else {
						c, err = n.TCP().Connect(x.host + ":8870")
					}
				})
				w.note("node %d connects to raw %d: %v", i, x.i, err)
				if (c == nil) == (err == nil) {
					w.fail("connect-result", "Connect returned %v, %v", c, err)
				}
				if err == nil && !known[c.PeerID()] && plan != hsOther {
					w.fail("stranger", "Connect succeeds without the introduction of the peer (plan %d)", plan)
				}
				check(nd, n)
			})
		case "rawclose":
			if l := x.conns; len(l) > 0 {
				k := int(o.Arg(3)) % len(l)
				x.conns = append(l[:k:k], l[k+1:]...)
				l[k].close()
			}
		case "reset":
			if i != j {
				w.net.ResetBetween(nd.host, w.nodes[j].host)
			} else if x != nil {
				w.net.ResetBetween(nd.host, x.host)
			}
		case "cut":
			if i != j {
				w.net.Partition(nd.host, w.nodes[j].host)
			}
		case "heal":
			w.net.Heal(nd.host, w.nodes[j].host)
		}
	})
	if core.Failed() {
		return
	}
	core.Phase("calm")
	w.calm()
	calm = true
	time.Sleep(simnet.KeepAlive + 2*w.rt + 5*time.Second + 2*w.slow())
	for _, x := range raws {
		for _, rc := range x.conns {
			rc.close()
		}
	}
	time.Sleep(time.Second + 2*w.slow())
	if !n01Agree(w) {
		return
	}
	for _, nd := range w.nodes {
		nd := nd
		nd.do("check", func(n *node.Node) {
			check(nd, n)
			for _, c := range n.Connections() {
				if j := w.byID(c.PeerID()); j < 0 || j == nd.i {
					w.fail("trace", "node %d still lists a connection of a scripted peer that is closed, or to itself", nd.i)
				}
			}
		})
	}
	if core.Failed() {
		return
	}
	// nothing is in the way of new connections
	core.Phase("again")
	for _, x := range raws {
		for j := range w.nodes {
			x.conns = nil
			if !dial(x, j, false, hsGood, 0) {
				w.fail("trace", "raw %d can't connect to node %d after everything is over", x.i, j)
				return
			}
			w.note("raw %d is connected to node %d", x.i, j)
			x.conns[0].close()
			time.Sleep(time.Second + 2*w.slow())
		}
		x.plan = hsGood
		for _, nd := range w.nodes {
			nd := nd
			nd.do("connect", func(n *node.Node) {
				c, err := n.TCP().Connect(x.host + ":8870")
				if err != nil {
					w.fail("trace", "node %d can't connect to raw %d after everything is over: %v", nd.i, x.i, err)
					return
				}
				if _, err = c.RemoteFeeds(); err != nil {
					w.fail("unusable", "the connection of node %d to raw %d: %v", nd.i, x.i, err)
				}
				c.Close()
			})
		}
	}
	for i, nd := range w.nodes {
		for j := 0; j < i && !core.Failed(); j++ {
			a, b := nd, j
			if (i+j)%2 == 0 {
				a, b = w.nodes[j], i
			}
			c := a.connTo(b)
			var err error
			if c == nil {
				c, err = a.connect(b, p.Cfg["salt"]%3 == 0)
			}
			if err != nil {
				w.fail("trace", "node %d can't connect to node %d after everything is over: %v", a.i, b, err)
				return
			}
			a.do("use", func(n *node.Node) {
				if _, err := c.RemoteFeeds(); err != nil {
					w.fail("unusable", "the connection of node %d to node %d: %v", a.i, b, err)
				}
			})
		}
	}
	if core.Failed() || !n01Agree(w) {
		return
	}
	core.Phase("close")
	w.stop()
	if core.Failed() {
		return
	}
	for c, l := range lives {
		if l.disconnect != l.connect {
			w.fail("callbacks", "OnConnect was called %d times and OnDisconnect %d times for a connection to %s", l.connect, l.disconnect, c.PeerID().Hex()[:7])
		}
	}
}

// n01Agree compares both ends of all connections.
func n01Agree(w *nWorld) bool {
	for i, a := range w.nodes {
		for j := 0; j < i; j++ {
			b := w.nodes[j]
			c, d := a.connTo(j), b.connTo(i)
			if (c == nil) != (d == nil) {
				w.fail("one-end", "nodes %d and %d do not agree that they are connected (%v, %v)", i, j, c != nil, d != nil)
				return false
			}
			if c == nil {
				continue
			}
			if c.IsTCP() != d.IsTCP() || c.IsIncoming() == d.IsIncoming() || c.IsOutgoing() == c.IsIncoming() {
				w.fail("ends", "nodes %d and %d do not have ends of the same connection: %v and %v", i, j, c, d)
				return false
			}
			var err error
			a.do("use", func(n *node.Node) { _, err = c.RemoteFeeds() })
			if err != nil {
				w.fail("unusable", "the connection of node %d to node %d: %v", i, j, err)
				return false
			}
		}
	}
	return true
}

func init() {
	real := []string{"node (transports, handshake, connections)", "node/msg"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "some of the peers (scripts)"}
	core.Register(&core.Scenario{Prop: "N01", Name: "storm", Quick: 30000, Thor: 200000, Gen: n01Gen, Body: n01Body, Real: real, Stubs: stubs,
		Rule: "1-4 nodes connect to each other from all sides at once over TCP and UDP while connections are closed, rejected by callbacks, reset and partitioned, and 0-3 scripted peers introduce themselves wrongly in many ways; unique live connections, identities, callbacks, both ends' views at rest, and reconnecting at the end", Needed: []string{"net-reset", "net-partition", "preempt"}})
}
