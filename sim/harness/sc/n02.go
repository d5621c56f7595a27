package sc

import (
	"errors"
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node"
)

// n02Conn is a connection of a scripted peer to the node under test.
type n02Conn struct {
	rc     *rConn
	at     int64 // dialled or accepted
	acked  int64 // the handshake is over for the peer
	silent bool  // the peer sends nothing and waits
}

func n02Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["maxconn"] = pick(r, int64(0), 1, 2, 2, 3, 4)
	c["maxpend"] = pick(r, int64(0), 1, 1, 2, 3)
	c["nodes"], c["raws"] = int64(1+r.N(3)), int64(1+r.N(3))
	c["reject"] = pick(r, int64(0), 0, 0, 30)
	c["feeds"] = 1
	kinds := swarm(r, []string{"dial", "dial", "dial", "silent", "silent", "garbage", "slow", "same", "connect", "connect", "serve",
		"close", "close", "rawclose", "rawclose", "break", "reset", "node"})
	u := r.N(4)
	for cl := 0; cl < 1+r.N(5); cl++ {
		for i := 1 + r.N(8); i > 0; i-- {
			o := core.Op{C: cl, K: pick(r, append(kinds, "sleep")...), A: []int64{int64(r.N(3)), int64(r.N(1000)), int64(u / 2)}}
			if u == 1 {
				o.A[2] = int64(r.N(2))
			}
			if o.K == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 3, 20, 300, 4000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

func n02Body(p *core.Prog) {
	w := newNodes(p, int(p.Cfg["nodes"]), 1)
	maxconn, maxpend := int(p.Cfg["maxconn"]), int(p.Cfg["maxpend"])
	rej := simrt.NewRng(uint64(p.Cfg["salt"]))
	calm := false
	var conns []*n02Conn
	over := func(n int, max int) bool { return max > 0 && n > max }
	nd := w.nodes[0]
	check := func() {
		if k := len(nd.n.Connections()); over(k, maxconn) {
			w.fail("too-many", "the node has %d connections, the limit is %d", k, maxconn)
		}
		// what the peers see; the news are late
		slack := int64(2*w.slow()) + 1e9
		if simrt.Stalled() > 0 {
			return
		}
		t := simrt.SimNow()
		live, pend := 0, 0
		for _, c := range conns {
			switch {
			case c.rc.closed:
			case c.acked != 0:
				if c.acked+slack < t {
					live++
				}
			case c.silent && c.at+slack < t && t < c.at+int64(w.rt):
				pend++
			}
		}
		if over(live, maxconn) {
			w.fail("too-many", "%d peers have a connection to the node for a while already, the limit is %d", live, maxconn)
		}
		if over(pend, maxpend) {
			w.fail("too-many-pending", "%d peers do not finish the handshake for a while already, the limit is %d", pend, maxpend)
		}
	}
	for i, x := range w.nodes {
		i, x := i, x
		x.conf = func(c *node.Config) {
			if i != 0 {
				return
			}
			c.MaxConnections, c.MaxPendingConnections = maxconn, maxpend
			f := c.OnConnect
			c.OnConnect = func(c *node.Conn) error {
				f(c)
				if !calm && int64(rej.N(100)) < p.Cfg["reject"] {
					return errors.New("no")
				}
				return nil
			}
		}
		if i == 0 {
			x.onEvent = func(e nEvent) error {
				if (e.kind == "connect" || e.kind == "disconnect") && x.n != nil {
					w.note("%s %s", e.kind, e.c.PeerID().Hex()[:7])
					check()
				}
				return nil
			}
		}
		if !x.start() {
			return
		}
	}
	ids := 0
	newID := func() cipher.PubKey {
		ids++
		pk, _ := cipher.GenerateDeterministicKeyPair([]byte{byte(ids), byte(ids >> 8), 33})
		return pk
	}
	var raws []*nRaw
	answer := func(rc *rConn, m wMsg) {
		if m.typ == wRqList {
			rc.send(m.seq, wList, wListMsg{})
		}
	}
	plan := int64(0)
	serve := func(rc *rConn, m wMsg) {
		switch m.typ {
		case wSyn:
			c := &n02Conn{rc: rc, at: simrt.SimNow()}
			conns = append(conns, c)
			switch plan % 4 {
			case 1:
				c.silent = true
				return
			case 2:
				rc.raw([]byte{1, 2, 3})
				return
			case 3:
				rc.close()
				return
			}
			rc.send(m.seq, wAck, wFeedMsg{newID()})
			c.acked = simrt.SimNow()
		default:
			answer(rc, m)
		}
	}
	for i := 0; i < int(p.Cfg["raws"]); i++ {
		h := w.newRaw(i)
		raws = append(raws, h)
		for j := 0; j < 10; j++ { // an address is connected once
			h.serve(8870+j, j%2 == 1, serve)
		}
	}
	open := func(h *nRaw, udp bool) *n02Conn {
		a := nd.tcp()
		if udp {
			a = nd.udp()
		}
		rc := h.dial(a, udp, answer)
		if rc == nil {
			return nil
		}
		c := &n02Conn{rc: rc, at: simrt.SimNow()}
		conns = append(conns, c)
		return c
	}
	// hello makes the handshake
	hello := func(c *n02Conn, id cipher.PubKey) bool {
		if c.rc.hello(id) {
			c.acked = simrt.SimNow()
			return true
		}
		return false
	}
	core.Phase("work")
	w.clients(func(cl int, o core.Op) {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		h, d, udp := raws[int(o.Arg(0))%len(raws)], o.Arg(1), o.Arg(2) == 1
		switch o.K {
		case "dial", "silent", "garbage", "slow", "same":
			c := open(h, udp)
			if c == nil {
				return
			}
			switch o.K {
			case "dial":
				hello(c, newID())
			case "same":
				if !hello(c, h.pk) {
					c.rc.close()
				}
			case "silent":
				c.silent = true
			case "garbage":
				c.rc.raw(make([]byte, d%9))
			case "slow":
				time.Sleep(w.rt * time.Duration(d) / 1000)
				hello(c, newID())
			}
		case "connect", "serve":
			plan = 0
			if o.K == "serve" {
				plan = d
			}
			nd.do("connect", func(n *node.Node) {
				w.timed("Connect", w.dialMax(), func() {
					if udp {
						n.UDP().Connect(fmt.Sprintf("%s:%d", h.host, 8871+2*(d%5)))
					} else {
						n.TCP().Connect(fmt.Sprintf("%s:%d", h.host, 8870+2*(d%5)))
					}
				})
			})
		case "node":
			if j := int(d) % len(w.nodes); j > 0 {
				if o.Arg(0) == 0 {
					nd.connect(j, udp)
				} else {
					w.nodes[j].connect(0, udp)
				}
			}
		case "close":
			nd.do("close", func(n *node.Node) {
				if l := n.Connections(); len(l) > 0 {
					l[int(d)%len(l)].Close()
				}
			})
		case "rawclose", "break":
			if len(conns) > 0 {
				c := conns[int(d)%len(conns)]
				if o.K == "break" {
					c.rc.raw([]byte{9, 9})
				} else {
					c.rc.close()
				}
			}
		case "reset":
			w.net.ResetBetween(nd.host, h.host)
		}
		nd.do("check", func(n *node.Node) { check() })
	})
	if core.Failed() {
		return
	}
	core.Phase("calm")
	w.calm()
	calm = true
	plan = 0
	time.Sleep(w.rt + 2*time.Second + 2*w.slow())
	nd.do("check", func(n *node.Node) { check() })
	for _, c := range conns {
		c.rc.close()
	}
	nd.do("close", func(n *node.Node) {
		for _, c := range n.Connections() {
			c.Close()
		}
	})
	time.Sleep(2*time.Second + 2*w.slow())
	conns = nil
	settle := func() { time.Sleep(500*time.Millisecond + 2*w.slow()) }
	// silent peers up to the limit of pending ones
	core.Phase("pending")
	limit := func(max, other int) int {
		if max > 0 {
			return max
		}
		return other
	}
	full := limit(maxconn, 6)
	np := limit(maxpend, 5)
	if np > full {
		np = full
	}
	var sil []*n02Conn
	t0 := simrt.SimNow()
	for i := 0; i < np; i++ {
		c := open(raws[0], i%2 == 1)
		if c == nil {
			w.fail("dial", "a peer can't dial the node")
			return
		}
		c.silent = true
		sil = append(sil, c)
	}
	settle()
	early := func() bool { return simrt.SimNow() < t0+int64(w.rt) && simrt.Stalled() == w.stalls }
	for i, c := range sil {
		if c.rc.closed && early() {
			w.fail("slot", "the node does not accept pending connection %d of %d allowed ones", i+1, np)
			return
		}
	}
	if np == maxpend {
		c := open(raws[0], false)
		settle()
		if c != nil && !c.rc.closed && early() {
			w.fail("too-many-pending", "pending connection %d is accepted, the limit is %d", np+1, maxpend)
			return
		}
		if c != nil {
			c.rc.close()
		}
	}
	// one of them goes on, the others give up in some way
	good := hello(sil[0], newID())
	if !good && early() {
		w.fail("slot", "the handshake of a waiting connection fails")
		return
	}
	for i, c := range sil {
		switch (i + int(p.Cfg["salt"])) % 3 {
		case 0:
			c.rc.close()
		case 1:
			c.rc.raw([]byte{1})
		}
	}
	time.Sleep(w.rt + time.Second + 2*w.slow())
	for _, c := range sil {
		c.rc.close()
	}
	time.Sleep(time.Second + 2*w.slow())
	// connections up to the limit, from both sides
	core.Phase("full")
	conns = nil
	up := func(i int) bool {
		h := raws[i%len(raws)]
		if i%3 == 2 {
			var err error
			nd.do("connect", func(n *node.Node) { _, err = n.TCP().Connect(fmt.Sprintf("%s:%d", h.host, 8870+2*(i%5))) })
			return err == nil
		}
		c := open(h, i%3 == 1)
		return c != nil && hello(c, newID())
	}
	for i := 0; i < full; i++ {
		if !up(i) {
			w.fail("slot", "connection %d fails after everything is over, the limit is %d", i+1, maxconn)
			return
		}
	}
	settle()
	nd.do("check", func(n *node.Node) {
		check()
		if k := len(n.Connections()); k != full {
			w.fail("slot", "the node has %d connections instead of %d", k, full)
		}
	})
	if maxconn > 0 {
		for i := 0; i < 3 && !core.Failed(); i++ {
			if up(full + i) {
				w.fail("too-many", "connection %d succeeds, the limit is %d", full+1, maxconn)
				return
			}
		}
		// one ends, another can come
		nd.do("close", func(n *node.Node) {
			l := n.Connections()
			l[int(p.Cfg["salt"])%len(l)].Close()
		})
		settle()
		if !up(full+3) && !core.Failed() {
			w.fail("slot", "no connection is possible after one of %d was closed", full)
			return
		}
	}
	if core.Failed() {
		return
	}
	core.Phase("close")
	w.stop()
}

func init() {
	real := []string{"node (transports, handshake, connections)", "node/msg"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "peers (scripts)"}
	core.Register(&core.Scenario{Prop: "N02", Name: "limits", Quick: 20000, Thor: 200000, Gen: n02Gen, Body: n02Body, Real: real, Stubs: stubs,
		Rule: "a node with limits (0 switches one off) is connected from and to many scripted peers and nodes at once over TCP and UDP, in good and in broken ways (silent, garbage, duplicate identity, rejected, reset, closed by either side); connections and pending handshakes as the node and as the peers see them never exceed the limits, and afterwards exactly the allowed numbers can be opened", Needed: []string{"net-reset", "preempt"}})
}
