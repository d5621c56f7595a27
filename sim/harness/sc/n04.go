package sc

import (
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simnet"
	"simrt/simos"

	"github.com/skycoin/cxo/node"
)

// nEdge: a connects to b and both subscribe to the feeds of both.
type nEdge struct{ a, b int }

// nEdges of a topology.
func nEdges(topo, n, seed int64) (l []nEdge) {
	r := simrt.NewRng(uint64(seed))
	add := func(a, b int) {
		if a == b {
			return
		}
		for _, e := range l {
			if e.a == a && e.b == b || e.a == b && e.b == a {
				return
			}
		}
		if r.N(2) == 0 {
			a, b = b, a
		}
		l = append(l, nEdge{a, b})
	}
	switch topo {
	case 0: // chain
		for i := 1; i < int(n); i++ {
			add(i-1, i)
		}
	case 1: // star
		c := r.N(int(n))
		for i := 0; i < int(n); i++ {
			add(c, i)
		}
	case 2: // tree
		for i := 1; i < int(n); i++ {
			add(r.N(i), i)
		}
	case 3: // ring
		for i := 0; i < int(n); i++ {
			add(i, (i+1)%int(n))
		}
	default: // tree with more edges
		for i := 1; i < int(n); i++ {
			add(r.N(i), i)
		}
		for i := 0; i < int(n); i++ {
			add(r.N(int(n)), r.N(int(n)))
		}
	}
	return
}

// link makes the edge work: connection and subscriptions; false when it does not yet.
func (w *nWorld) link(e nEdge) bool {
	a, b := w.nodes[e.a], w.nodes[e.b]
	if !a.up || !b.up {
		return false
	}
	ok := false
	a.do("link", func(n *node.Node) {
		c := a.connTo(e.b)
		if c == nil {
			var err error
			w.timed(fmt.Sprintf("Connect %d->%d", e.a, e.b), w.dialMax(), func() {
				if w.p.Cfg["udp"] == 1 {
					c, err = n.UDP().Connect(b.udp())
				} else {
					c, err = n.TCP().Connect(b.tcp())
				}
			})
			if err != nil {
				w.note("link %d-%d: %v", e.a, e.b, err)
				return
			}
			if c.PeerID() != b.pk {
				w.fail("identity", "the connection to node %d has another peer", e.b)
			}
		}
		has := map[cipher.PubKey]bool{}
		for _, pk := range c.Feeds() {
			has[pk] = true
		}
		ok = true
		if len(has) == len(w.feeds) { // is anybody there? (nodes have no keep-alive)
			var err error
			w.timed(fmt.Sprintf("RemoteFeeds %d->%d", e.a, e.b), w.rt+time.Second+w.slow(), func() { _, err = c.RemoteFeeds() })
			if err == node.ErrTimeout {
				w.note("link %d-%d: %v", e.a, e.b, err)
				c.Close()
				ok = false
				return
			}
		}
		for i, f := range w.feeds {
			if has[f.pk] {
				continue
			}
			var err error
			w.timed(fmt.Sprintf("Subscribe %d->%d", e.a, e.b), w.rt+time.Second+w.slow(), func() { err = c.Subscribe(f.pk) })
			if err != nil {
				w.note("link %d-%d: Subscribe to feed %d: %v", e.a, e.b, i, err)
				ok = false
				return
			}
		}
	})
	return ok
}

// linked tells if the edge works on both ends.
func (w *nWorld) linked(e nEdge) bool {
	for _, x := range [][2]int{{e.a, e.b}, {e.b, e.a}} {
		nd := w.nodes[x[0]]
		ok := false
		nd.do("linked", func(n *node.Node) {
			c := nd.connTo(x[1])
			ok = c != nil && len(c.Feeds()) == len(w.feeds)
		})
		if !ok {
			return false
		}
	}
	return true
}

// crash the machine; what the disk has is kept.
func (nd *nNode) crash() {
	if !nd.up {
		return
	}
	nd.up = false
	simrt.Count("node-crash")
	nd.w.note("node %d crashes", nd.i)
	nd.pr.D.Crash()
	if nd.disk != nil {
		nd.disk.Crash()
	}
}

// ready starts the node again and shares the feeds.
func (nd *nNode) ready() bool {
	if !nd.up {
		if !nd.start() {
			return false
		}
		nd.w.note("node %d is up", nd.i)
	}
	ok := true
	nd.do("share", func(n *node.Node) {
		for i, f := range nd.w.feeds {
			if err := n.Share(f.pk); err != nil {
				nd.w.fail("share", "node %d, Share feed %d: %v", nd.i, i, err)
				ok = false
			}
		}
	})
	return ok
}

func (w *nWorld) netOp(o core.Op) {
	n := len(w.nodes)
	a, b := w.nodes[int(o.Arg(0))%n], w.nodes[int(o.Arg(1))%n]
	switch o.K {
	case "sleep":
		time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
	case "cut":
		if a != b {
			w.note("partition %d | %d", a.i, b.i)
			w.net.Partition(a.host, b.host)
		}
	case "heal":
		w.net.Heal(a.host, b.host)
	case "reset":
		if a != b {
			w.note("reset %d - %d", a.i, b.i)
			w.net.ResetBetween(a.host, b.host)
		}
	case "drop": // one of them closes the connection
		a.do("drop", func(*node.Node) {
			if c := a.connTo(b.i); c != nil {
				w.note("node %d closes the connection to %d", a.i, b.i)
				c.Close()
			}
		})
	case "restart":
		w.note("node %d restarts", a.i)
		if a.up {
			a.shut()
			a.ready()
		}
	case "crash":
		a.crash()
	case "stat":
		a.stat(false)
	case "up":
		if !a.up {
			a.ready()
		}
	}
}

func n04Gen(faults bool) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := &core.Prog{Cfg: nCfg(r, faults)}
		c := p.Cfg
		n := 2 + r.N(4)
		c["nodes"], c["topo"], c["tseed"] = int64(n), int64(r.N(5)), int64(r.N(1000))
		c["feeds"] = int64(1 + r.N(2))
		c["heads"] = int64(1 + r.N(2))
		c["udp"] = int64(r.N(4) / 3)
		c["cbmax"] = pick(r, int64(0), 0, 1, 20, 200)
		if c["maxfill"] != 0 || faults {
			// peers can wait for each other's objects: a filling has to survive some response timeouts
			c["maxfill"] = 12*c["rt"] + c["maxfill"]/10
		}
		if faults {
			c["disk"] = int64(r.N(2))
		} else if r.N(2) == 0 {
			c["heads"] = 1
		}
		edges := nEdges(c["topo"], c["nodes"], c["tseed"])
		kinds := []string{"sleep", "sleep", "link", "link"}
		if faults {
			kinds = append(kinds, "cut", "heal", "reset", "drop", "link", "link", "link")
			if c["disk"] == 1 {
				kinds = append(kinds, "crash", "up", "up", "restart")
			}
			kinds = swarm(r, kinds)
		}
		for f := 0; f < int(c["feeds"]); f++ {
			for i := 1 + r.N(5); i > 0; i-- {
				p.Ops = append(p.Ops, core.Op{C: f, K: "publish", A: []int64{int64(r.N(int(c["heads"]))), int64(r.N(100000))}})
				if r.N(2) == 0 {
					p.Ops = append(p.Ops, core.Op{C: f, K: "sleep", A: []int64{int64(r.N(pick(r, 10, 100, 1000, 5000)))}})
				}
			}
		}
		for cl := int(c["feeds"]); cl < int(c["feeds"])+1+r.N(2); cl++ {
			for i := 2 + r.N(12); i > 0; i-- {
				k := pick(r, kinds...)
				o := core.Op{C: cl, K: k}
				switch k {
				case "sleep":
					o.A = []int64{int64(r.N(pick(r, 10, 100, 1000, 8000)))}
				case "link":
					o.A = []int64{int64(r.N(len(edges)))}
				default:
					o.A = []int64{int64(r.N(n)), int64(r.N(n))}
				}
				p.Ops = append(p.Ops, o)
			}
		}
		return p
	}
}

// n04World runs the operations and brings the network to rest.
func n04World(p *core.Prog, faults bool, prep func(w *nWorld)) (w *nWorld, edges []nEdge, ok bool) {
	w = newNodes(p, int(p.Cfg["nodes"]), int(p.Cfg["feeds"]))
	edges = nEdges(p.Cfg["topo"], p.Cfg["nodes"], p.Cfg["tseed"])
	core.Phase("start")
	for _, nd := range w.nodes {
		if p.Cfg["disk"] == 1 {
			nd.disk = simos.NewDisk(fmt.Sprintf("d%d", nd.i))
		}
		if !nd.ready() {
			return
		}
	}
	busy := map[int]bool{}
	n04Order(w)
	if prep != nil {
		prep(w)
	}
	core.Phase("work")
	w.clients(func(c int, o core.Op) {
		switch o.K {
		case "publish":
			w.nodes[c].publish(c, uint64(1+o.Arg(0)), o.Arg(1))
		case "link":
			i := int(o.Arg(0)) % len(edges)
			if !busy[i] {
				busy[i] = true
				w.link(edges[i])
				busy[i] = false
			}
		case "crash", "up", "restart":
			i := 1000 + int(o.Arg(0))%len(w.nodes)
			if !busy[i] {
				busy[i] = true
				w.netOp(o)
				busy[i] = false
			}
		default:
			w.netOp(o)
		}
	})
	if core.Failed() {
		return
	}
	w.calm()
	w.note("calm")
	core.Phase("recover")
	for _, nd := range w.nodes {
		if !nd.ready() {
			return
		}
	}
	time.Sleep(2*time.Second + 2*w.slow()) // resets and losses on the way are noticed
	max := simnet.KeepAlive + 30*time.Second + 3*w.rt + w.dialMax()
	for again := 0; ; again++ {
		for _, e := range edges {
			if !wait(max, func() bool { return w.linked(e) || w.link(e) && w.linked(e) || core.Failed() }) {
				w.fail("reconnect", "nodes %d and %d can't connect and subscribe within %v after faults stopped\n%s\n%s", e.a, e.b, max, w.nodes[e.a].show(), w.nodes[e.b].show())
				return
			}
			if core.Failed() {
				return
			}
		}
		time.Sleep(2 * time.Second)
		all := true
		for _, e := range edges {
			if !w.linked(e) {
				all = false
				w.note("link %d-%d is lost", e.a, e.b)
			}
		}
		if all {
			break
		}
		if again > 3+2*len(edges) {
			w.fail("unstable", "connections don't stay after faults stopped")
			return
		}
	}
	return w, edges, true
}

// n04Order checks the callbacks of all nodes: never twice, never backwards.
func n04Order(w *nWorld) {
	for _, nd := range w.nodes {
		last := map[string]uint64{}
		gen := nd.gen
		nd.onEvent = func(e nEvent) error {
			if e.kind != "filled" {
				return nil
			}
			if gen != nd.gen {
				gen = nd.gen
				last = map[string]uint64{}
			}
			k := fmt.Sprint(e.feed.Hex(), e.nonce)
			if l, ok := last[k]; ok && e.seq <= l {
				if e.seq == l {
					w.fail("filled-twice", "node %d reports root %d/%d of feed %d as filled twice\n%s", nd.i, e.nonce, e.seq, w.feedOf(e.feed), nd.show())
				} else {
					w.fail("filled-old", "node %d reports root %d/%d of feed %d as filled after %d\n%s", nd.i, e.nonce, e.seq, w.feedOf(e.feed), l, nd.show())
				}
			}
			last[k] = e.seq
			return nil
		}
	}
}

func n04Body(faults bool) func(p *core.Prog) {
	return func(p *core.Prog) {
		w, edges, ok := n04World(p, faults, nil)
		if !ok {
			return
		}
		core.Phase("converge")
		heads := int(p.Cfg["heads"])
		last := map[[2]int]*nRoot{}
		final := faults || heads > 1 || w.stalls > 0
		if final {
			w.note("final publications")
		}
		for i, f := range w.feeds {
			for h := 1; h <= heads; h++ {
				r := f.last(uint64(h))
				if final {
					r = w.nodes[f.owner].publish(i, uint64(h), int64(i*10+h)+p.Cfg["salt"])
					if r == nil {
						if !core.Failed() {
							w.fail("publish", "publishing after faults stopped failed")
						}
						return
					}
				}
				if r != nil {
					last[[2]int{i, h}] = r
				}
			}
		}
		max := time.Duration(len(w.nodes))*2*w.rt + 30*time.Second
		for i, f := range w.feeds {
			for h := 1; h <= heads; h++ {
				r := last[[2]int{i, h}]
				if r == nil {
					continue
				}
				for _, nd := range w.nodes {
					why := ""
					got := wait(max, func() bool {
						why = nd.holds(i, r)
						return why == "" && (nd.i == f.owner || nd.count("filled", f, r) > 0)
					})
					if got {
						continue
					}
					if why == "" {
						w.fail("not-reported", "node %d holds root %d/%d of feed %d but never reported it as filled\n%s", nd.i, r.nonce, r.seq, i, nd.show())
					} else {
						s := ""
						for _, x := range w.nodes {
							s += x.show() + "\n"
						}
						w.fail("converge", "node %d does not get root %d/%d of feed %d within %v (edges %v): %s\n%s", nd.i, r.nonce, r.seq, i, max, edges, why, s)
					}
					return
				}
				for _, nd := range w.nodes {
					if n := nd.count("filled", f, r); n > 1 {
						w.fail("filled-twice", "node %d reported root %d/%d as filled %d times\n%s", nd.i, r.nonce, r.seq, n, nd.show())
					}
				}
			}
		}
		core.Phase("close")
		w.stop()
	}
}

func init() {
	real := []string{"node (transports, connections, handshake, feeds, heads, filling)", "node/msg", "skyobject (container, cache, index, filler, unpack)", "skyobject/registry", "data/cxds", "data/idxdb", "bolt (runs on disk)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "disk"}
	core.Register(&core.Scenario{Prop: "N04", Name: "calm", Quick: 6000, Thor: 20000, Gen: n04Gen(false), Body: n04Body(false), Real: real, Stubs: stubs,
		Rule: "2-5 nodes in chains, stars, trees, rings and meshes connect and subscribe at random times while 1-2 publishers publish on 1-2 heads; every node gets the newest root with its whole tree within bounded time and reports it once; late subscribers need no new publication", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "N04", Name: "faults", Quick: 5000, Thor: 30000, Gen: n04Gen(true), Body: n04Body(true), Real: real, Stubs: stubs,
		Rule: "the same with slow messages, resets, refused dials, partitions, closed connections, restarts and crashes; after they stop and the edges are restored the next publication reaches everybody", Needed: []string{"net-partition", "net-reset", "node-crash", "net-stall"}})
}
