package sc

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simnet"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

func n07Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["resetp"] = pick(r, int64(0), 0, 0, 3)
	c["dialerr"], c["stallmax"] = 0, pick(r, int64(50), 300)
	n := 2 + r.N(3)
	c["nodes"], c["feeds"] = int64(n), int64(1+r.N(3))
	c["public"] = int64(r.N(16))
	c["reject"] = pick(r, int64(0), 0, 20, 60)
	c["udp"] = int64(r.N(2))
	kinds := swarm(r, []string{"sub", "sub", "sub", "unsub", "unsub", "share", "share", "dont", "publish", "publish", "list", "prev", "connect", "connect", "drop", "sleep", "sleep"})
	if c["nodes"] == 2 || r.N(2) == 0 {
		kinds = append(kinds, "sub", "publish")
	}
	for i := 0; i < n; i++ { // start in a useful state most of the time
		if r.N(3) > 0 {
			p.Ops = append(p.Ops, core.Op{C: i, K: "connect", A: []int64{int64(r.N(n)), 0}})
		}
		for f := 0; f < int(c["feeds"]); f++ {
			if r.N(3) > 0 {
				p.Ops = append(p.Ops, core.Op{C: i, K: "share", A: []int64{0, int64(f)}})
			}
		}
	}
	for cl := 0; cl < 2*n; cl++ {
		for i := r.N(9); i > 0; i-- {
			k := pick(r, kinds...)
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(n)), int64(r.N(int(c["feeds"]))), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 5, 50, 500, 3000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// n07Pair is what the calls about one connection and one feed should have led to.
type n07Pair struct {
	begin, end int64 // of the last successful subscription
	off0, off1 int64 // of the last call that ends it
	maybe      bool  // something failed half-way
	offs       int
}

func n07Body(p *core.Prog) {
	n := int(p.Cfg["nodes"])
	w := newNodes(p, n, int(p.Cfg["feeds"]))
	x := newWire(w)
	x.agree, x.list = true, true
	for i, f := range w.feeds {
		f.owner = i % n
	}
	rej := simrt.NewRng(uint64(p.Cfg["salt"]))
	core.Phase("start")
	for _, nd := range w.nodes {
		nd := nd
		nd.conf = func(c *node.Config) {
			c.Public = p.Cfg["public"]>>uint(nd.i)&1 == 1
			c.OnSubscribeRemote = func(c *node.Conn, pk cipher.PubKey) error {
				j := w.byID(c.PeerID())
				if int64(rej.N(100)) < p.Cfg["reject"] {
					w.note("node %d rejects node %d, feed %d", nd.i, j, w.feedOf(pk))
					return errors.New("rejected")
				}
				x.yes[yesKey(nd.i, j, pk)] = true
				return nil
			}
		}
		if !nd.start() {
			return
		}
	}
	pairs := map[string]*n07Pair{}
	pair := func(c *node.Conn, a, b int, f int) *n07Pair {
		if a > b {
			a, b = b, a
		}
		k := fmt.Sprint(a, " ", b, " ", f)
		q := pairs[k]
		if q == nil {
			q = &n07Pair{}
			pairs[k] = q
		}
		return q
	}
	// no other calls about a feed while the node shares it or stops sharing it
	busy, wild, inw := map[[2]int]int{}, map[[2]int]int{}, map[[2]int]int{}
	sure := func(i, f int) func() bool {
		k := [2]int{i, f}
		n := wild[k]
		return func() bool { return inw[k] == 0 && wild[k] == n }
	}
	lock := func(i, f int, all bool) func() {
		k := [2]int{i, f}
		for busy[k] < 0 || all && busy[k] > 0 {
			time.Sleep(20 * time.Millisecond)
		}
		if all {
			busy[k] = -1
			return func() { busy[k] = 0 }
		}
		busy[k]++
		return func() { busy[k]-- }
	}
	off := func(i int, f int) func() {
		now := simrt.SimNow()
		for j := range w.nodes {
			if j != i {
				q := pair(nil, i, j, f)
				q.off0, q.off1 = now, 1<<62
			}
		}
		return func() {
			for j := range w.nodes {
				if j != i {
					pair(nil, i, j, f).off1 = simrt.SimNow()
				}
			}
		}
	}
	subscribe := func(nd *nNode, c *node.Conn, j, f int, sub func() error) {
		fd := w.feeds[f]
		q := pair(c, nd.i, j, f)
		begin := simrt.SimNow()
		ok := sure(nd.i, f)
		if x.shares(nd.i, fd.pk).st == 0 {
			x.setShare(nd.i, fd.pk, 1)
		}
		err := sub()
		w.note("node %d Subscribe to feed %d of node %d: %v", nd.i, f, j, err)
		if x.shares(nd.i, fd.pk).st == 1 && nd.n.IsSharing(fd.pk) && ok() {
			x.setShare(nd.i, fd.pk, 2)
		}
		switch err {
		case nil:
			if begin > q.begin {
				q.begin = begin
			}
			q.end = simrt.SimNow()
		case node.ErrTimeout, node.ErrClosed:
			q.maybe = true
		}
	}
	// connections that were lost end subscriptions too
	lost := func(i, j int) {
		for f := range w.feeds {
			q := pair(nil, i, j, f)
			q.off0, q.off1, q.maybe = simrt.SimNow(), simrt.SimNow(), true
		}
	}
	for _, nd := range w.nodes {
		nd := nd
		nd.onEvent = func(e nEvent) error {
			if e.kind == "disconnect" {
				lost(nd.i, w.byID(e.c.PeerID()))
			}
			return nil
		}
	}
	core.Phase("work")
	w.clients(func(cl int, o core.Op) {
		nd := w.nodes[cl%n]
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		j, f := int(o.Arg(0))%n, int(o.Arg(1))%len(w.feeds)
		if o.K == "publish" {
			for f, fd := range w.feeds {
				if fd.owner == nd.i && (f == int(o.Arg(1)) || n >= len(w.feeds)) {
					u := lock(100+nd.i, f, true)
					hasFeed := false
					nd.do("has", func(n *node.Node) {
						for _, pk := range n.Container().Feeds() {
							hasFeed = hasFeed || pk == fd.pk
						}
					})
					if hasFeed {
						nd.publish(f, 1, o.Arg(2))
					}
					u()
					return
				}
			}
			return
		}
		fd := w.feeds[f]
		nd.do(o.K, func(n *node.Node) {
			switch o.K {
			case "share":
				defer lock(nd.i, f, true)()
				ok := sure(nd.i, f)
				if x.shares(nd.i, fd.pk).st == 0 {
					x.setShare(nd.i, fd.pk, 1)
				}
				if err := n.Share(fd.pk); err != nil {
					w.fail("share", "Share: %v", err)
				}
				w.note("node %d shares feed %d", nd.i, f)
				if x.shares(nd.i, fd.pk).st == 1 && ok() {
					x.setShare(nd.i, fd.pk, 2)
				}
				return
			case "dont":
				if k := [2]int{nd.i, f}; o.Arg(2)%3 == 0 && busy[k] >= 0 {
					// in the middle of other calls
					x.setShare(nd.i, fd.pk, 1)
					wild[k]++
					inw[k]++
					fin := off(nd.i, f)
					n.DontShare(fd.pk)
					w.note("node %d stops sharing feed %d", nd.i, f)
					fin()
					wild[k]++
					inw[k]--
					x.setShare(nd.i, fd.pk, 1)
					return
				}
				defer lock(nd.i, f, true)()
				x.setShare(nd.i, fd.pk, 1)
				defer off(nd.i, f)()
				ok := sure(nd.i, f)
				n.DontShare(fd.pk)
				w.note("node %d stops sharing feed %d", nd.i, f)
				if ok() {
					x.setShare(nd.i, fd.pk, 0)
				}
				return
			}
			if j == nd.i {
				return
			}
			c := nd.connTo(j)
			if c == nil {
				if o.K == "connect" {
					if p.Cfg["udp"] == 1 {
						n.UDP().Connect(w.nodes[j].udp())
					} else {
						n.TCP().Connect(w.nodes[j].tcp())
					}
				}
				return
			}
			switch o.K {
			case "sub":
				defer lock(nd.i, f, false)()
				subscribe(nd, c, j, f, func() error { return c.Subscribe(fd.pk) })
			case "unsub":
				defer lock(nd.i, f, false)()
				q := pair(c, nd.i, j, f)
				q.off0, q.off1 = simrt.SimNow(), 1<<62
				q.offs++
				c.Unsubscribe(fd.pk)
				w.note("node %d Unsubscribe from feed %d of node %d", nd.i, f, j)
				if q.offs--; q.offs == 0 {
					q.off1 = simrt.SimNow()
				}
			case "list":
				fs, err := c.RemoteFeeds()
				w.note("node %d RemoteFeeds of node %d: %d %v", nd.i, j, len(fs), err)
			case "prev":
				err := c.Preview(fd.pk, func(pack registry.Pack, r *registry.Root) bool { return false })
				w.note("node %d Preview of feed %d of node %d: %v", nd.i, f, j, err)
			case "drop":
				lost(nd.i, j)
				w.note("node %d drops node %d", nd.i, j)
				c.Close()
			}
		})
	})
	if core.Failed() {
		return
	}
	core.Phase("quiet")
	w.calm()
	time.Sleep(2*w.rt + 5*time.Second)
	_ = simnet.KeepAlive
	n07Agree(w, x, pairs)
	if core.Failed() {
		return
	}
	// what was agreed has to work
	core.Phase("close")
	w.stop()
}

// n07Agree compares the views of both ends.
func n07Agree(w *nWorld, x *nWire, pairs map[string]*n07Pair) {
	type view struct {
		cs    map[int]*node.Conn
		feeds map[int]string
	}
	has := func(c *node.Conn, pk cipher.PubKey) bool {
		for _, f := range c.Feeds() {
			if f == pk {
				return true
			}
		}
		return false
	}
	names := func(l []cipher.PubKey) string {
		var s []int
		for _, pk := range l {
			s = append(s, w.feedOf(pk))
		}
		sort.Ints(s)
		return fmt.Sprint(s)
	}
	for _, nd := range w.nodes {
		nd := nd
		nd.do("views", func(n *node.Node) {
			for i, f := range w.feeds {
				s := x.shares(nd.i, f.pk)
				if (s.st == 2 && !n.IsSharing(f.pk)) || (s.st == 0 && n.IsSharing(f.pk)) {
					w.fail("sharing", "node %d, feed %d: IsSharing %v, calls say %d", nd.i, i, n.IsSharing(f.pk), s.st)
				}
			}
			fl := n.Feeds()
			for i, f := range w.feeds {
				k := 0
				for _, pk := range fl {
					if pk == f.pk {
						k++
					}
				}
				if (k == 1) != n.IsSharing(f.pk) || k > 1 {
					w.fail("feeds", "node %d, feed %d: IsSharing %v, but Feeds has it %d times", nd.i, i, n.IsSharing(f.pk), k)
				}
			}
			all := n.Connections()
			for _, c := range all {
				fs := c.Feeds()
				for _, pk := range fs {
					if !n.IsSharing(pk) {
						w.fail("subscribed-not-shared", "node %d is subscribed to feed %d with node %d but does not share it", nd.i, w.feedOf(pk), w.byID(c.PeerID()))
					}
				}
				for i, f := range append([]*nFeed{{}}, w.feeds...) {
					in := false
					for _, y := range n.ConnectionsOfFeed(f.pk) {
						in = in || y == c
					}
					want := has(c, f.pk)
					if i == 0 {
						want = len(fs) == 0
					}
					if in != want {
						w.fail("tables", "node %d: the connection to node %d has feeds %s, but ConnectionsOfFeed(%d) says %v", nd.i, w.byID(c.PeerID()), names(fs), i-1, in)
					}
				}
			}
			for i, f := range append([]*nFeed{{}}, w.feeds...) {
				for _, c := range n.ConnectionsOfFeed(f.pk) {
					in := false
					for _, y := range all {
						in = in || y == c
					}
					if !in {
						w.fail("dead-connection", "node %d: ConnectionsOfFeed(%d) has a connection to node %d that does not exist any more", nd.i, i-1, w.byID(c.PeerID()))
					}
				}
			}
		})
		for _, nj := range w.nodes[nd.i+1:] {
			c, d := nd.connTo(nj.i), nj.connTo(nd.i)
			if (c == nil) != (d == nil) {
				w.fail("one-end", "node %d and node %d do not agree that they are connected (%v, %v)", nd.i, nj.i, c != nil, d != nil)
				return
			}
			if c == nil {
				continue
			}
			for i, f := range w.feeds {
				a, b := has(c, f.pk), has(d, f.pk)
				q := pairs[fmt.Sprint(nd.i, " ", nj.i, " ", i)]
				if q == nil {
					q = &n07Pair{}
				}
				if a != b {
					w.fail("disagree", "feed %d: node %d says subscribed %v, node %d says %v", i, nd.i, a, nj.i, b)
					return
				}
				if q.maybe {
					continue
				}
				if q.begin > q.off1 && !a {
					w.fail("lost-subscription", "feed %d: the nodes %d and %d are not subscribed although the last call was a successful Subscribe", i, nd.i, nj.i)
				}
				if q.off0 > q.end && a && q.off0 > 0 {
					w.fail("kept-subscription", "feed %d: the nodes %d and %d are still subscribed although the last call ended it", i, nd.i, nj.i)
				}
			}
		}
		if core.Failed() {
			return
		}
	}
}

func init() {
	real := []string{"node (connections, feeds, subscriptions, previews, transports)", "node/msg", "skyobject"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network"}
	core.Register(&core.Scenario{Prop: "N07", Name: "talk", Quick: 50000, Thor: 100000, Gen: n07Gen, Body: n07Body, Real: real, Stubs: stubs,
		Rule: "2-4 nodes subscribe, unsubscribe, share, stop sharing, publish, ask for lists and previews, connect and disconnect at random times; every message on the wire is judged by what both ends agreed on before, and both ends' tables are compared at rest", Needed: []string{"preempt"}})
}
