package sc

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

func n08Gen(r *simrt.Rng) *core.Prog {
	n := 1 + r.N(3)
	p := &core.Prog{Cfg: nCfg(r, r.N(3) > 0)}
	c := p.Cfg
	c["nodes"], c["feeds"] = int64(n), int64(1+r.N(3))
	c["rt"] = pick(r, int64(0), 2, 5, 20)
	c["stallmax"] = pick(r, int64(50), 300, 1000)
	c["udp"] = int64(r.N(2))
	c["disk"] = int64(r.N(4)) // bits
	c["mute"] = int64(r.N(3))
	c["window"] = pick(r, int64(0), 0, 1, 2, 4)
	c["cbclose"] = pick(r, int64(0), 0, 5, 30)
	c["cbnode"] = pick(r, int64(0), 0, 0, 20)
	c["cbmax"] = pick(r, int64(0), 0, 1, 20, 3000)
	c["bseed"] = int64(r.N(300))
	kinds := swarm(r, []string{"sub", "sub", "unsub", "share", "dont", "publish", "publish", "list", "prev", "connect", "connect", "mconnect", "mconnect", "msub", "mlist", "mflood", "mburst", "mprev", "drop", "drop", "join", "sleep", "sleep"})
	for i := 0; i < n; i++ {
		for f := 0; f < int(c["feeds"]); f++ {
			if r.N(4) > 0 {
				p.Ops = append(p.Ops, core.Op{C: i, K: "share", A: []int64{0, int64(f), 0}})
			}
		}
		if r.N(3) > 0 {
			p.Ops = append(p.Ops, core.Op{C: i, K: "connect", A: []int64{int64(r.N(n)), 0, 0}})
		}
		if c["mute"] > 0 && r.N(2) > 0 {
			p.Ops = append(p.Ops, core.Op{C: i, K: "mconnect", A: []int64{int64(r.N(int(c["mute"]))), 0, 0}})
		}
	}
	for cl := 0; cl < 3*n; cl++ {
		for i := 1 + r.N(9); i > 0; i-- {
			k := pick(r, kinds...)
			if r.N(20) == 0 {
				k = "close"
			}
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(6)), int64(r.N(int(c["feeds"]))), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 5, 50, 500, 3000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

type n08Call struct {
	what  string
	begin int64
}

// n08Node is what is known about one node.
type n08Node struct {
	nd     *nNode
	calls  map[*n08Call]bool
	began  int64 // first Close
	closed int64 // Close returned
	acked  map[[2]int]*nRoot
	drops  []*node.Conn // closed by the user
	dont   map[int]bool
}

type n08World struct {
	*nWorld
	st    []*n08Node
	mutes []*nRaw
}

// bound of Close: nothing may wait for the network longer than a dial takes
func (w *n08World) bound() time.Duration { return 8*time.Second + 4*w.slow() }

// call runs f on the node as a call of its user.
func (w *n08World) call(s *n08Node, what string, f func(n *node.Node) error) {
	if w.rt == 0 { // it can take forever
		go w.callNow(s, what, f)
		time.Sleep(time.Second)
		return
	}
	w.callNow(s, what, f)
}

func (w *n08World) callNow(s *n08Node, what string, f func(n *node.Node) error) {
	nd := s.nd
	c := &n08Call{what, simrt.SimNow()}
	s.calls[c] = true
	dead := s.closed > 0
	var err error
	nd.do(what, func(n *node.Node) {
		st := simrt.Stalled()
		err = f(n)
		d := time.Duration(simrt.SimNow()-c.begin) - 2*(simrt.Stalled()-st)
		if dead && d > w.bound() {
			w.fail("slow-call", "%s on the closed node %d took %v", what, nd.i, d)
		}
		if dead && err == nil {
			w.fail("call-after-close", "%s on the closed node %d succeeded", what, nd.i)
		}
	})
	delete(s.calls, c)
}

// close the node by several callers at once.
func (w *n08World) close(s *n08Node, n int, how string) {
	nd := s.nd
	left := n
	over := make(chan struct{}, 1)
	for i := 0; i < n; i++ {
		go func() {
			nd.do("close", func(*node.Node) { w.closeNow(s, how) })
			if left--; left == 0 {
				over <- struct{}{}
			}
		}()
	}
	<-over
}

func (w *n08World) closeNow(s *n08Node, how string) {
	nd := s.nd
	nd.closing = true
	if s.began == 0 {
		s.began = simrt.SimNow()
		w.note("node %d: Close (%s)", nd.i, how)
	}
	var err error
	w.timed(fmt.Sprintf("Close of node %d (%s)", nd.i, how), w.bound(), func() { err = nd.n.Close() })
	if err != nil && how != "again" {
		w.fail("close", "Close of node %d (%s): %v", nd.i, how, err)
	}
	if s.closed == 0 {
		s.closed = simrt.SimNow()
		w.note("node %d is closed", nd.i)
		go w.over(s)
	}
}

// over looks at what goes on when Close has returned.
func (w *n08World) over(s *n08Node) {
	t := simrt.SimNow()
	stuck := func() (l []string) {
		for c := range s.calls {
			if c.begin < t {
				l = append(l, c.what)
			}
		}
		sort.Strings(l)
		return
	}
	if !wait(w.bound(), func() bool { return len(stuck()) == 0 || core.Failed() }) {
		w.fail("blocked", "node %d is closed, but %s did not return", s.nd.i, strings.Join(stuck(), ", "))
	}
}

// mute machines accept connections and answer as little as they like.
func (w *n08World) mute(i int) *nRaw {
	h := w.newRaw(i)
	g := simrt.NewRng(uint64(w.p.Cfg["salt"])*7 + uint64(i))
	var roots []*tRemote
	if f := len(w.feeds) - 1; g.N(2) == 0 {
		fd := w.feeds[f]
		roots = w.makeRoots(fd.pk, fd.sk, 7, 3, fd.base, w.p.Cfg["bseed"])
	}
	sent := 0
	on := func(rc *rConn, m wMsg) {
		switch m.typ {
		case wSyn:
			if g.N(3) == 0 {
				rc.deaf = true
			}
			for k := g.N(4); k > 1; k-- {
				rc.h.w.note("mute %d asks for an object nobody has", i)
				rc.later(w.slow()+100*time.Millisecond, func() { rc.send(0, wRqObject, wKeyMsg{cipher.SumSHA256([]byte{byte(k)})}) })
			}
			if g.N(5) > 0 {
				rc.send(m.seq, wAck, wFeedMsg{h.pk})
			}
		case wSub:
			if g.N(3) > 0 {
				rc.send(m.seq, wOk, nil)
				if len(roots) > 0 && m.feed() == w.feeds[len(w.feeds)-1].pk {
					t := roots[sent%len(roots)]
					sent++
					dr, _ := registry.DecodeRoot(t.val)
					rc.send(0, wRoot, wRootMsg{Feed: m.feed(), Nonce: dr.Nonce, Seq: dr.Seq, Value: t.val, Sig: t.sig})
				}
			}
		case wRqList:
			if rc.batch = append(rc.batch, m.seq); len(rc.batch) == 1 && g.N(4) > 0 { // all at once
				rc.later(time.Duration(g.N(100))*time.Millisecond, func() {
					for _, seq := range rc.batch {
						rc.send(seq, wErr, wErrMsg{"no"})
					}
					rc.batch = nil
				})
			}
		case wRqPreview:
			if len(roots) > 0 && g.N(2) == 0 {
				t := roots[0]
				dr, _ := registry.DecodeRoot(t.val)
				rc.send(m.seq, wRoot, wRootMsg{Feed: w.feeds[len(w.feeds)-1].pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: t.val, Sig: t.sig})
			}
		case wRqObject:
			if g.N(3) == 0 {
				for _, t := range roots {
					if b, ok := t.objs[m.key()]; ok {
						rc.send(m.seq, wObject, wObjMsg{b})
						return
					}
				}
			}
		}
	}
	h.serve(8870, false, on)
	h.serve(8880, true, on)
	return h
}

func n08Body(p *core.Prog) {
	n := int(p.Cfg["nodes"])
	w := &n08World{nWorld: newNodes(p, n, int(p.Cfg["feeds"]))}
	for i, f := range w.feeds {
		f.owner = i % n
	}
	g := simrt.NewRng(uint64(p.Cfg["salt"]))
	core.Phase("start")
	simrt.Calm()
	for i := 0; i < int(p.Cfg["mute"]); i++ {
		w.mutes = append(w.mutes, w.mute(i))
	}
	for _, nd := range w.nodes {
		nd := nd
		s := &n08Node{nd: nd, calls: map[*n08Call]bool{}, acked: map[[2]int]*nRoot{}, dont: map[int]bool{}}
		w.st = append(w.st, s)
		if p.Cfg["disk"]>>uint(nd.i)&1 == 1 {
			nd.disk = simos.NewDisk(fmt.Sprintf("d%d", nd.i))
		}
		nd.conf = func(c *node.Config) { c.Public = true }
		nd.onEvent = func(e nEvent) error {
			if e.kind == "filled" {
				if f := w.feedOf(e.feed); f >= 0 && !s.dont[f] {
					s.ack(f, &nRoot{nonce: e.nonce, seq: e.seq, hash: e.hash})
				}
			}
			if e.c != nil && int64(g.N(100)) < p.Cfg["cbclose"] {
				w.note("node %d closes a connection inside the callback %s", nd.i, e.kind)
				w.timed("Conn.Close", time.Second, func() { e.c.Close() })
				s.drops = append(s.drops, e.c)
			}
			switch e.kind {
			case "received", "filled", "breaks":
				if int64(g.N(100)) < p.Cfg["cbnode"] && nd.n != nil {
					w.closeNow(s, "inside the callback "+e.kind)
				}
			}
			return nil
		}
		if !nd.start() {
			return
		}
	}
	simrt.Uncalm()
	core.Phase("work")
	busy := map[int]bool{}
	w.clients(func(cl int, o core.Op) {
		s := w.st[cl%n]
		nd := s.nd
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		j, f, d := int(o.Arg(0))%n, int(o.Arg(1))%len(w.feeds), o.Arg(2)
		fd := w.feeds[f]
		conn := func(id cipher.PubKey) *node.Conn {
			for _, c := range nd.n.Connections() {
				if c.PeerID() == id {
					return c
				}
			}
			return nil
		}
		var to cipher.PubKey
		mute := strings.HasPrefix(o.K, "m")
		addr := func(udp bool) string {
			if udp {
				return w.nodes[j].udp()
			}
			return w.nodes[j].tcp()
		}
		if mute {
			if len(w.mutes) == 0 {
				return
			}
			m := w.mutes[int(o.Arg(0))%len(w.mutes)]
			to = m.pk
			addr = func(udp bool) string {
				if udp {
					return m.host + ":8880"
				}
				return m.host + ":8870"
			}
		} else {
			to = w.nodes[j].pk
		}
		switch o.K {
		case "close":
			w.close(s, 1+int(d)%3, pick(g, "call", "calls"))
			return
		case "publish":
			if fd.owner == nd.i && !busy[f] {
				busy[f] = true
				has := false
				nd.do("has", func(n *node.Node) {
					for _, pk := range n.Container().Feeds() {
						has = has || pk == fd.pk
					}
				})
				if has {
					c := &n08Call{"publishing", simrt.SimNow()}
					s.calls[c] = true
					if r := nd.publish(f, 1, d); r != nil && !s.dont[f] {
						s.ack(f, r)
					}
					delete(s.calls, c)
				}
				busy[f] = false
			}
			return
		case "share":
			nd.do(o.K, func(n *node.Node) { n.Share(fd.pk) })
			return
		case "dont":
			s.dont[f] = true
			nd.do(o.K, func(n *node.Node) { n.DontShare(fd.pk) })
			return
		case "join":
			nd.do(o.K, func(n *node.Node) { n.JoinSwarm(fd.pk, node.SwarmConfig{}) })
			return
		case "connect", "mconnect":
			if to == nd.pk {
				return
			}
			w.call(s, "Connect", func(n *node.Node) (err error) {
				if p.Cfg["udp"] == 1 {
					_, err = n.UDP().Connect(addr(true))
				} else {
					_, err = n.TCP().Connect(addr(false))
				}
				return
			})
			return
		}
		if to == nd.pk {
			return
		}
		c := conn(to)
		if c == nil {
			return
		}
		switch o.K {
		case "sub", "msub":
			w.call(s, "Subscribe", func(n *node.Node) error { return c.Subscribe(fd.pk) })
		case "unsub":
			nd.do(o.K, func(n *node.Node) { c.Unsubscribe(fd.pk) })
		case "mflood":
			for i := 5 + d%30; i > 0; i-- {
				go w.callNow(s, "RemoteFeeds", func(n *node.Node) error { _, err := c.RemoteFeeds(); return err })
			}
		case "mburst": // closed as soon as some of the answers are here
			left := 1 + d%4
			for i := 2 + d%15; i > 0; i-- {
				go w.callNow(s, "RemoteFeeds", func(n *node.Node) error {
					_, err := c.RemoteFeeds()
					if left--; left == 0 {
						w.timed("Conn.Close", time.Second, func() { c.Close() })
						s.drops = append(s.drops, c)
					}
					return err
				})
			}
		case "list", "mlist":
			w.call(s, "RemoteFeeds", func(n *node.Node) error { _, err := c.RemoteFeeds(); return err })
		case "prev", "mprev":
			w.call(s, "Preview", func(n *node.Node) error {
				return c.Preview(fd.pk, func(pack registry.Pack, r *registry.Root) bool {
					r.Tree(pack)
					return d%2 == 0
				})
			})
		case "drop":
			for i := int(d) % 3; i >= 0; i-- {
				nd.do(o.K, func(n *node.Node) { w.timed("Conn.Close", time.Second, func() { c.Close() }) })
				s.drops = append(s.drops, c)
			}
		}
	})
	if core.Failed() {
		return
	}
	core.Phase("notice")
	w.calm()
	keep := 60*time.Second + 3*w.slow()
	if !wait(keep, func() bool { return w.unnoticed() == "" }) {
		w.fail("unnoticed", "%s", w.unnoticed())
		return
	}
	core.Phase("close")
	for _, s := range w.st {
		w.close(s, 1+g.N(3), "last")
		if core.Failed() {
			return
		}
		if g.N(2) == 0 {
			s.nd.do("again", func(*node.Node) { w.closeNow(s, "again") })
		}
		s.nd.up = false
		if !wait(w.bound(), func() bool { return len(s.nd.pr.D.Live()) == 0 || core.Failed() }) {
			l := s.nd.pr.D.Live()
			sort.Strings(l)
			w.fail("leftover", "goroutines of node %d after Close:\n  %s", s.nd.i, strings.Join(l, "\n  "))
		}
		if core.Failed() {
			return
		}
		if s.nd.disk != nil {
			w.reopen(s)
		}
	}
}

func (s *n08Node) ack(f int, r *nRoot) {
	k := [2]int{f, int(r.nonce)}
	if o := s.acked[k]; o == nil || o.seq < r.seq {
		s.acked[k] = r
	}
}

// unnoticed finds a connection to a closed node.
func (w *n08World) unnoticed() (why string) {
	for _, s := range w.st {
		if s.began > 0 {
			continue
		}
		for _, c := range s.drops {
			conn, gone := false, false
			for _, e := range s.nd.ev {
				if e.c == c {
					conn = conn || e.kind == "connect"
					gone = gone || e.kind == "disconnect"
				}
			}
			if conn && !gone {
				why = fmt.Sprintf("node %d closed its connection to %s, but there was no OnDisconnect", s.nd.i, c.Address())
			}
		}
		s.nd.do("conns", func(n *node.Node) {
			for _, c := range n.Connections() {
				if j := w.byID(c.PeerID()); j >= 0 && w.st[j].closed > 0 {
					why = fmt.Sprintf("node %d is closed, but node %d has a connection to it", j, s.nd.i)
				}
			}
		})
	}
	return
}

// reopen the files of a closed node.
func (w *n08World) reopen(s *n08Node) {
	core.Phase("reopen")
	nd := s.nd
	pr := newProc(fmt.Sprintf("again%d", nd.i))
	simos.Mount(pr.D, nd.disk)
	pr.Do("reopen", func() {
		conf := twConf(w.p)
		conf.DataDir = "/db"
		c, err := skyobject.NewContainer(conf)
		if err != nil {
			w.fail("reopen", "the files of node %d can't be opened after Close: %v", nd.i, err)
			return
		}
		defer c.Close()
		for f := range w.feeds {
			for nonce := 0; nonce < 10; nonce++ {
				r := s.acked[[2]int{f, nonce}]
				if r == nil || s.dont[f] {
					continue
				}
				x, err := c.LastRoot(w.feeds[f].pk, r.nonce)
				if err != nil || x.Seq < r.seq {
					w.fail("lost", "node %d had root %d/%d of feed %d; after Close its files have %v, %v", nd.i, r.nonce, r.seq, f, x, err)
					return
				}
				wk := newWalk(w.types, func(h cipher.SHA256) []byte {
					v, _, err := c.Get(h, 0)
					if err != nil {
						return nil
					}
					return v
				})
				wk.Root(x.Hash)
				if wk.bad != "" {
					w.fail("lost-object", "after Close the files of node %d have root %d/%d of feed %d with a broken tree: %s", nd.i, x.Nonce, x.Seq, f, wk.bad)
				}
			}
		}
	})
}

func init() {
	real := []string{"node (all but RPC)", "node/msg", "skyobject", "data", "bolt (runs on disk)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "disk", "mute peers (scripts)"}
	core.Register(&core.Scenario{Prop: "N08", Name: "close", Quick: 9000, Thor: 100000, Gen: n08Gen, Body: n08Body, Real: real, Stubs: stubs,
		Rule: "1-3 nodes and up to two machines that accept connections and answer little; connections and nodes are closed at any time, by several callers, from callbacks; Close returns in time without error, calls that wait return, no goroutine is left, the others notice, calls on a closed node fail, the files open again and have every root that was saved or reported as filled", Needed: []string{"preempt"}})
}
