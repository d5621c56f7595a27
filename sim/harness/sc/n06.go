package sc

import (
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node"
)

// n06: scripted peers push the roots of some heads in any order to a node.

func n06Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["resetp"], c["dialerr"] = 0, 0
	c["stallmax"] = pick(r, int64(50), 300)
	c["peers"], c["subs"] = int64(1+r.N(5)), int64(r.N(2))
	c["heads"], c["roots"] = int64(1+r.N(2)), int64(1+r.N(6))
	c["maxheads"] = pick(r, int64(0), 0, 1, 2)
	if c["maxfill"] != 0 {
		c["maxfill"] = 8 + c["maxfill"]/20
	}
	c["bad"] = pick(r, int64(0), 0, 10, 30) // objects that are refused, late or never come
	c["lag"] = pick(r, int64(0), 2, 30, 300)
	c["cbmax"] = pick(r, int64(0), 0, 1, 20, 200)
	c["bseed"] = int64(r.N(300))
	c["udp"] = int64(r.N(4) / 3)
	kinds := swarm(r, []string{"root", "root", "root", "root", "same", "same", "sleep", "resub", "drop", "unsub", "publish", "reshare"})
	for cl := 0; cl < int(c["peers"]+c["subs"]); cl++ {
		for i := 2 + r.N(10); i > 0; i-- {
			k := pick(r, kinds...)
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(int(c["heads"]))), int64(r.N(int(c["roots"])))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 3, 10, 100, 1000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// n06PendGen has only peers that push; the first one serves everything.
func n06PendGen(r *simrt.Rng) *core.Prog {
	p := n06Gen(r)
	c := p.Cfg
	c["bad"], c["maxfill"], c["maxheads"], c["pend"], c["rt"] = pick(r, int64(0), 0, 10, 50, 100), 0, 0, 1, 20
	if c["bad"] == 100 && r.N(2) == 0 {
		c["jitter"] = 0
	}
	c["stallp"], c["stallmax"] = 0, 0
	c["lag"] = pick(r, int64(2), 30, 300)
	c["peers"], c["subs"], c["roots"] = int64(2+r.N(3)), 0, int64(3+r.N(6))
	if c["bad"] == 100 && c["jitter"] == 0 {
		c["peers"] = 2
	}
	p.Ops = nil
	for cl := 0; cl < int(c["peers"]); cl++ {
		for i := 1 + r.N(6); i > 0; i-- {
			o := core.Op{C: cl, K: "root", A: []int64{int64(r.N(int(c["heads"]))), int64(r.N(int(c["roots"])))}}
			if r.N(3) == 0 {
				o = core.Op{C: cl, K: "sleep", A: []int64{int64(r.N(pick(r, 3, 10, 100, 1000)))}}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// n06Peer is a scripted peer.
type n06Peer struct {
	*n06World
	i    int
	raw  *nRaw
	rc   *rConn
	r    *simrt.Rng
	on   bool // subscribed
	lost bool // the node unsubscribed
	seq  uint32
	last map[uint64]uint64 // pushed to us
	// the last it pushed
	cur     *tRemote
	curHead uint64
}

type n06World struct {
	*nWorld
	nd    *nNode
	f     *nFeed
	heads map[uint64][]*tRemote
	objs  map[cipher.SHA256][]byte
	// which roots use the object, as nonce and greatest seq
	uses   map[cipher.SHA256]map[uint64]uint64
	multi  map[cipher.SHA256]bool // by more heads or as well locally
	full   map[uint64]uint64      // greatest root reported as filled
	when   map[uint64]int64
	fst    map[uint64]int64
	fine   bool
	byUser map[[2]uint64]bool
	peers  []*n06Peer
	pushAs func(cl int, l *tRemote, h uint64)
}

func (x *n06Peer) see(rc *rConn, m wMsg) {
	w := x.n06World
	if rc != x.rc {
		return
	}
	switch m.typ {
	case wSyn:
		rc.send(m.seq, wAck, wFeedMsg{x.raw.pk})
	case wOk:
		if m.rseq == x.seq {
			x.on = true
		}
	case wUnsub:
		x.on, x.lost = false, true
	case wSub:
		rc.send(m.seq, wErr, wErrMsg{"no"})
	case wRqList:
		rc.send(m.seq, wErr, wErrMsg{"no"})
	case wRoot:
		r, ok := m.root()
		if !ok || m.rseq != 0 {
			w.fail("wire", "a broken root")
			return
		}
		if !x.on {
			return
		}
		l, ok := x.last[r.Nonce]
		if ok && r.Seq < l && w.byUser[[2]uint64{r.Nonce, r.Seq}] {
			return
		}
		if ok && r.Seq < l {
			w.fail("sent-older", "peer %d gets root %d/%d after %d within one subscription", x.i, r.Nonce, r.Seq, l)
		}
		x.last[r.Nonce] = r.Seq
	case wRqObject:
		k := m.key()
		v, ok := w.objs[k]
		if !ok {
			w.fail("unknown-request", "the node asks for an object that does not exist")
			return
		}
		if !w.multi[k] {
			for n, s := range w.uses[k] {
				if f, ok := w.full[n]; ok && f >= s && m.t > w.when[n]+int64(w.slow())+int64(100*time.Millisecond)+2*(int64(simrt.Stalled())-w.fst[n]) {
					w.fail("fetch-old", "the node asks peer %d for an object of root %d/%d and older, but %d was filled at %.3f", x.i, n, s, f, float64(w.when[n])/1e9)
				}
			}
		}
		if !w.fine && (w.p.Cfg["pend"] == 0 || x.i > 0) && int64(x.r.N(100)) < w.p.Cfg["bad"] {
			switch x.r.N(3) {
			case 0:
				rc.send(m.seq, wErr, wErrMsg{"not found"})
			case 1:
				rc.later(w.rt+time.Second, func() { rc.send(m.seq, wObject, wObjMsg{v}) })
			}
			return
		}
		if l := w.p.Cfg["lag"]; l > 0 && !w.fine {
			rc.later(time.Duration(x.r.N(int(l)*1000))*time.Microsecond, func() { rc.send(m.seq, wObject, wObjMsg{v}) })
			return
		}
		rc.send(m.seq, wObject, wObjMsg{v})
	}
}

// open connects and subscribes.
func (x *n06Peer) open() bool {
	w := x.n06World
	if x.rc != nil {
		x.rc.close()
	}
	a := w.nd.tcp()
	if w.p.Cfg["udp"] == 1 {
		a = w.nd.udp()
	}
	for i := 0; i < 300; i++ {
		x.on = false
		x.rc = x.raw.dial(a, w.p.Cfg["udp"] == 1, nil)
		if x.rc == nil {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		rc := x.rc
		rc.on = func(m wMsg) { x.see(rc, m) }
		if rc.hello(x.raw.pk) {
			x.sub()
			return true
		}
		rc.close()
		time.Sleep(200 * time.Millisecond)
	}
	w.fail("connect", "peer %d can't connect", x.i)
	return false
}

func (x *n06Peer) sub() {
	x.on, x.lost = false, false
	x.last = map[uint64]uint64{}
	x.seq = x.rc.seq + 1 // of the message below
	x.seq = x.rc.send(0, wSub, wFeedMsg{x.f.pk})
	rc, s := x.rc, x.seq
	wait(x.rt+5*time.Second, func() bool { return x.on || rc.closed || rc.reply(s) != nil })
	if !x.on && !x.rc.closed && x.fine {
		x.fail("subscribe", "peer %d can't subscribe: %v", x.i, x.rc.reply(s))
	}
}

func (x *n06Peer) push(l *tRemote, nonce uint64) {
	if x.rc == nil || x.rc.closed {
		return
	}
	x.rc.send(0, wRoot, wRootMsg{Feed: x.f.pk, Nonce: nonce, Seq: l.seq, Value: l.val, Sig: l.sig})
}

func n06Body(p *core.Prog) {
	w := &n06World{nWorld: newNodes(p, 1, 1), heads: map[uint64][]*tRemote{}, objs: map[cipher.SHA256][]byte{}, uses: map[cipher.SHA256]map[uint64]uint64{},
		multi: map[cipher.SHA256]bool{}, full: map[uint64]uint64{}, when: map[uint64]int64{}, fst: map[uint64]int64{}, byUser: map[[2]uint64]bool{}}
	w.nd, w.f = w.nodes[0], w.feeds[0]
	nd := w.nd
	nd.conf = func(c *node.Config) { c.MaxHeads = int(p.Cfg["maxheads"]) }
	core.Phase("roots")
	for h := uint64(1); h <= uint64(p.Cfg["heads"]); h++ {
		l := w.makeRoots(w.f.pk, w.f.sk, h, int(p.Cfg["roots"]), int64(h), p.Cfg["bseed"]+int64(h))
		if l == nil {
			return
		}
		w.heads[h] = l
		for _, r := range l {
			for k, v := range r.objs {
				w.objs[k] = v
				u := w.uses[k]
				if u == nil {
					u = map[uint64]uint64{}
					w.uses[k] = u
				}
				u[h] = r.seq
				if len(u) > 1 {
					w.multi[k] = true
				}
			}
		}
	}
	byHash := map[cipher.SHA256]uint64{}
	for _, l := range w.heads {
		for _, r := range l {
			byHash[r.hash] = r.seq
		}
	}
	nd.onEvent = func(e nEvent) error {
		switch e.kind {
		case "received":
			w.note("received %d/%d", e.nonce, e.seq)
			last, err := nd.n.Container().LastRootSeq(e.feed, e.nonce)
			if err == nil && last >= e.seq {
				w.fail("received-old", "root %d/%d is reported as received but the node has %d", e.nonce, e.seq, last)
			}
		case "breaks":
			w.note("breaks %d/%d %v", e.nonce, e.seq, e.err)
		case "filled":
			w.note("filled %d/%d", e.nonce, e.seq)
			if s, ok := byHash[e.hash]; !ok || s != e.seq {
				w.fail("unknown-root", "a root nobody published was filled")
			}
			if f, ok := w.full[e.nonce]; ok && e.seq <= f {
				w.fail("filled-old", "root %d/%d is reported as filled after %d", e.nonce, e.seq, f)
				return nil
			}
			w.full[e.nonce], w.when[e.nonce], w.fst[e.nonce] = e.seq, simrt.SimNow(), int64(simrt.Stalled())
			last, err := nd.n.Container().LastRootSeq(e.feed, e.nonce)
			if err != nil || last < e.seq {
				w.fail("filled-not-last", "root %d/%d is reported as filled but the last root is %d, %v", e.nonce, e.seq, last, err)
			}
		}
		return nil
	}
	core.Phase("start")
	if !nd.ready() {
		return
	}
	for i := 0; i < int(p.Cfg["peers"]+p.Cfg["subs"]); i++ {
		x := &n06Peer{n06World: w, i: i, raw: w.newRaw(i), r: simrt.NewRng(uint64(p.Cfg["salt"]) + uint64(i)*977)}
		w.peers = append(w.peers, x)
		if !x.open() {
			return
		}
	}
	core.Phase("work")
	over := false
	prev := map[uint64]uint64{}
	poll := func() {
		nd.do("poll", func(n *node.Node) {
			for h := range w.heads {
				before, ok := prev[h] // another poll may run at the same time
				r, err := n.Container().LastRoot(w.f.pk, h)
				if err != nil {
					if ok {
						w.fail("last-lost", "LastRoot of head %d: %v", h, err)
					}
					continue
				}
				if s, ok := byHash[r.Hash]; !ok || s != r.Seq || r.Nonce != h {
					w.fail("last-unknown", "the last root of head %d is not one of its roots", h)
				}
				if r.Seq < before {
					w.fail("last-older", "the last root of head %d was %d and now is %d", h, before, r.Seq)
				}
				if r.Seq >= prev[h] {
					prev[h] = r.Seq
				}
			}
		})
	}
	go func() {
		r := simrt.NewRng(uint64(p.Cfg["salt"]))
		for !over && !core.Failed() {
			poll()
			time.Sleep(time.Duration(1+r.N(200)) * time.Millisecond)
		}
	}()
	newest := map[uint64]uint64{}
	pushed, most, good := map[uint64]bool{}, map[uint64]uint64{}, map[uint64]bool{}
	w.pushAs = func(cl int, l *tRemote, h uint64) {
		x := w.peers[cl]
		if !pushed[h] || most[h] < l.seq {
			most[h], good[h] = l.seq, p.Cfg["bad"] == 0
		}
		if l.seq == most[h] && cl == 0 {
			good[h] = true
		}
		pushed[h] = true
		w.note("peer %d pushes %d/%d", x.i, h, l.seq)
		x.cur, x.curHead = l, h
		x.push(l, h)
	}
	w.clients(func(cl int, o core.Op) {
		x := w.peers[cl]
		if cl >= int(p.Cfg["peers"]) && (o.K == "root" || o.K == "same") {
			o = core.Op{C: cl, K: "sleep", A: []int64{10 * (1 + o.Arg(1))}}
		}
		if x.rc == nil || x.rc.closed {
			if o.K != "sleep" && !x.open() {
				return
			}
		}
		if x.lost && o.K != "sleep" {
			x.sub()
		}
		h := uint64(1 + o.Arg(0))
		switch o.K {
		case "sleep":
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
		case "root", "same":
			l := w.heads[h]
			i := int(o.Arg(1)) % len(l)
			if o.K == "same" { // one the node has or is about to have
				if f, ok := w.full[h]; ok && x.r.N(2) == 0 {
					i = int(f)
				} else {
					i = int(newest[h])
				}
			}
			newest[h] = uint64(i)
			w.pushAs(cl, l[i], h)
		case "reshare":
			nd.do("reshare", func(n *node.Node) {
				w.note("the user stops sharing and shares again")
				n.DontShare(w.f.pk)
				if x.r.N(2) == 0 {
					time.Sleep(time.Duration(x.r.N(100)) * time.Millisecond)
				}
				n.Share(w.f.pk)
			})
			time.Sleep(w.slow())
		case "publish": // by the user, any root it has
			nd.do("publish", func(n *node.Node) {
				r, err := n.Container().Root(w.f.pk, h, uint64(o.Arg(1)))
				if err == nil {
					w.byUser[[2]uint64{h, r.Seq}] = true
					w.note("the user publishes %d/%d", h, r.Seq)
					n.Publish(r)
				}
			})
		case "resub":
			x.sub()
		case "unsub":
			x.on = false
			x.rc.send(0, wUnsub, wFeedMsg{w.f.pk})
			if x.r.N(2) == 0 {
				time.Sleep(time.Duration(x.r.N(300)) * time.Millisecond)
			}
			x.sub()
		case "drop":
			x.rc.close()
			x.open()
		}
	})
	if core.Failed() {
		return
	}
	w.calm()
	w.fine = true
	core.Phase("rest")
	time.Sleep(2*w.rt + 2*time.Second)
	if p.Cfg["pend"] == 1 {
		// the first peer serves everything and stays; nobody has to push again
		for h := uint64(1); h <= uint64(len(w.heads)); h++ {
			if !pushed[h] || !good[h] {
				continue
			}
			if !wait(time.Minute+10*w.rt, func() bool { poll(); return prev[h] == most[h] && w.full[h] == most[h] || core.Failed() }) {
				w.fail("converge", "head %d: root %d was pushed but the last root is %d, reported as filled is %d\n%s", h, most[h], prev[h], w.full[h], nd.show())
				return
			}
		}
	}
	// somebody pushes the newest roots; at last they are there
	for h, l := range w.heads {
		if mh := p.Cfg["maxheads"]; mh > 0 && int64(len(w.heads)) > mh && h > 1 {
			continue
		}
		top := l[len(l)-1]
		x := w.peers[0]
		if x.rc.closed && !x.open() {
			return
		}
		if !x.on {
			x.sub()
		}
		max := time.Minute + 10*w.rt
		next := int64(0)
		if !wait(max, func() bool {
			if simrt.SimNow() > next { // a filling may break again
				x.push(top, h)
				next = simrt.SimNow() + int64(2*w.rt)
			}
			poll()
			return prev[h] == top.seq || core.Failed()
		}) {
			w.fail("stuck", "head %d: root %d was pushed but the last root is %d\n%s", h, top.seq, prev[h], nd.show())
			return
		}
	}
	time.Sleep(w.rt)
	poll()
	over = true
	core.Phase("close")
	w.stop()
}

// n06NetBody checks a whole network.
func n06NetBody(p *core.Prog) {
	type hk struct{ node, feed, head int }
	top := map[hk]uint64{}
	over := false
	w, _, ok := n04World(p, true, func(w *nWorld) {
		x := newWire(w)
		x.order = true
		for _, nd := range w.nodes {
			nd := nd
			nd.onEvent = func(e nEvent) error {
				k := hk{nd.i, w.feedOf(e.feed), int(e.nonce)}
				switch e.kind {
				case "received":
					if w.feeds[k.feed].owner == nd.i {
						return nil // it publishes at the same time
					}
					last, err := nd.n.Container().LastRootSeq(e.feed, e.nonce)
					if err == nil && last >= e.seq {
						w.fail("received-old", "node %d: root %d/%d of feed %d is reported as received but it has %d", nd.i, e.nonce, e.seq, k.feed, last)
					}
				case "filled":
					l, ok := top[k]
					if ok && e.seq <= l {
						w.fail("filled-old", "node %d: root %d/%d of feed %d is reported as filled but %d was there before", nd.i, e.nonce, e.seq, k.feed, l)
					}
					top[k] = e.seq
				}
				return nil
			}
		}
		r := simrt.NewRng(uint64(p.Cfg["salt"]))
		go func() {
			for !over && !core.Failed() {
				for _, nd := range w.nodes {
					gen := nd.gen
					nd.do("poll", func(n *node.Node) {
						for i, f := range w.feeds {
							for h := 1; h <= int(p.Cfg["heads"]); h++ {
								k := hk{nd.i, i, h}
								l, ok := top[k] // at least this one
								s, err := n.Container().LastRootSeq(f.pk, uint64(h))
								if gen != nd.gen || nd.closing || !nd.up {
									return
								}
								if err != nil {
									if ok {
										w.fail("last-lost", "node %d: the last root of head %d of feed %d: %v", nd.i, h, i, err)
									}
									continue
								}
								if ok && s < l {
									w.fail("last-older", "node %d: the last root of head %d of feed %d is %d, but %d was there before", nd.i, h, i, s, l)
								}
								if f.owner != nd.i { // filled roots are there before they are reported
									continue
								}
								if s > top[k] {
									top[k] = s
								}
							}
						}
					})
				}
				time.Sleep(time.Duration(1+r.N(500)) * time.Millisecond)
			}
		}()
	})
	if !ok {
		return
	}
	time.Sleep(w.rt + time.Second)
	over = true
	core.Phase("close")
	w.stop()
}

func init() {
	real := []string{"node (heads, filling, broadcasting, connections)", "node/msg", "skyobject", "data (memory)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "the peers (scripts)"}
	core.Register(&core.Scenario{Prop: "N06", Name: "net", Quick: 4000, Thor: 50000, Gen: n04Gen(true), Body: n06NetBody, Real: []string{"node (transports, connections, handshake, feeds, heads, filling)", "node/msg", "skyobject", "data", "bolt (runs on disk)"}, Stubs: []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "disk"},
		Rule: "2-5 nodes in chains to meshes with slow messages, resets, partitions, restarts and crashes on a simulated disk; the roots every relay passes on within one subscription, its callbacks and its last roots (also after restarts) never go back", Needed: []string{"net-partition", "net-reset", "node-crash", "net-stall"}})
	core.Register(&core.Scenario{Prop: "N04", Name: "pend", Quick: 3000, Thor: 40000, Gen: n06PendGen, Body: n06Body, Real: real, Stubs: stubs,
		Rule: "2-4 scripted peers push the roots of 1-2 heads in any order while others are filling, and all but the first may refuse objects or send them too late; if the first peer pushed the greatest root it gets filled without being pushed again", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "N06", Name: "flood", Quick: 8000, Thor: 100000, Gen: n06Gen, Body: n06Body, Real: real, Stubs: stubs,
		Rule: "1-6 scripted peers push the roots of 1-2 heads in any order, again and at the same time, serve objects late, not at all or refuse them, resubscribe and reconnect; callbacks, last roots, fetched objects and forwarded roots never go back", Needed: []string{"preempt"}})
}
