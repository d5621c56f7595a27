package sc

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// Hostile peers of a node that has honest ones as well.
// Node 0 is the victim, node 1 publishes feed 0, node 2 (if any) is subscribed to the victim.
// Feed 1 is published by nobody here, feed 2 belongs to a hostile peer.

type hWorld struct {
	*nWorld
	v      *nNode
	honest map[int]map[cipher.SHA256]bool // roots of feeds 0 and 1
	pool   [3][]*tRemote
	objs   map[cipher.SHA256][]byte
	keys   []cipher.SHA256
	peers  []*hPeer
	asked  map[[2]int]cipher.SHA256
	evil   bool // the peers do not behave
	begun  bool
}

// hPeer is a hostile peer.
type hPeer struct {
	*hWorld
	i      int
	raw    *nRaw
	rc     *rConn
	r      *simrt.Rng
	policy int // of answers
	all    []*rConn
}

func hGen(hostile []string) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := &core.Prog{Cfg: nCfg(r, true)}
		c := p.Cfg
		c["resetp"], c["dialerr"] = 0, 0
		c["stallmax"] = pick(r, int64(50), 300)
		c["minlat"] = pick(r, int64(0), 1, 20)
		c["nodes"], c["hostile"] = int64(2+r.N(2)), int64(1+r.N(2))
		c["roots"] = int64(1 + r.N(4))
		c["bad"] = pick(r, int64(0), 20, 50, 90)
		if c["maxfill"] != 0 {
			c["maxfill"] = 12 * c["rt"]
		}
		c["bseed"] = int64(r.N(300))
		c["cbmax"] = pick(r, int64(0), 0, 1, 20)
		kinds := swarm(r, append(hostile, hostile...))
		for cl := 0; cl < int(c["hostile"]); cl++ {
			for i := 2 + r.N(14); i > 0; i-- {
				k := pick(r, kinds...)
				o := core.Op{C: cl, K: k, A: []int64{int64(r.N(3)), int64(r.N(8)), int64(r.N(16)), int64(r.N(100000))}}
				if k == "sleep" || r.N(8) == 0 {
					o.K, o.A = "sleep", []int64{int64(r.N(pick(r, 3, 10, 100, 1000)))}
				}
				p.Ops = append(p.Ops, o)
			}
		}
		cl := int(c["hostile"])
		for i := r.N(8); i > 0; i-- {
			k := pick(r, "publish", "publish", "ask", "sleep")
			p.Ops = append(p.Ops, core.Op{C: cl, K: k, A: []int64{int64(r.N(500))}})
		}
		return p
	}
}

// genuine tells what is wrong with a root.
func (w *hWorld) genuine(feed cipher.PubKey, nonce, seq uint64, hash cipher.SHA256, sig cipher.Sig, val []byte) string {
	f := w.feedOf(feed)
	if f < 0 {
		return "of an unknown feed"
	}
	if val == nil {
		if t := w.find(hash); t != nil {
			val = t.val
		}
	}
	if val != nil && cipher.SumSHA256(val) != hash {
		return "with another hash"
	}
	if f != 2 && !w.honest[f][hash] {
		for _, r := range w.feeds[f].roots {
			if r.hash == hash {
				if r.nonce != nonce || r.seq != seq {
					return "with other numbers than signed"
				}
				return ""
			}
		}
		return "never published by the owner of the feed"
	}
	if err := cipher.VerifyPubKeySignedHash(feed, sig, hash); err != nil {
		return "with a wrong signature"
	}
	if val == nil {
		return ""
	}
	r, err := registry.DecodeRoot(val)
	if err != nil {
		return "that can't be decoded"
	}
	if r.Pub != feed {
		return "of another feed"
	}
	if r.Nonce != nonce || r.Seq != seq {
		return "with other numbers than signed"
	}
	return ""
}

func (w *hWorld) find(h cipher.SHA256) *tRemote {
	for _, l := range w.pool {
		for _, t := range l {
			if t.hash == h {
				return t
			}
		}
	}
	return nil
}

func (w *hWorld) addRoots(f int, l []*tRemote) {
	w.pool[f] = append(w.pool[f], l...)
	for _, t := range l {
		if f != 2 {
			w.honest[f][t.hash] = true
		}
		for k, v := range t.objs {
			w.addObj(k, v)
		}
		w.addObj(t.hash, t.val)
	}
	sort.Slice(w.keys, func(i, j int) bool { return bytes.Compare(w.keys[i][:], w.keys[j][:]) < 0 })
}

func (w *hWorld) addObj(k cipher.SHA256, v []byte) {
	if _, ok := w.objs[k]; !ok {
		w.objs[k] = v
		w.keys = append(w.keys, k)
	}
}

// store looks through all what the node keeps.
func (w *hWorld) store(nd *nNode) {
	nd.do("store", func(n *node.Node) {
		nd.db.CXDS().Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
			if cipher.SumSHA256(v) != k {
				w.fail("wrong-object", "node %d keeps %d bytes under %s that they do not hash to", nd.i, len(v), k.Hex()[:7])
			}
			return nil
		})
		nd.db.IdxDB().Tx(func(fs data.Feeds) error {
			return fs.Iterate(func(pk cipher.PubKey) error {
				hs, err := fs.Heads(pk)
				if err != nil {
					return err
				}
				return hs.Iterate(func(nonce uint64) error {
					rs, err := hs.Roots(nonce)
					if err != nil {
						return err
					}
					return rs.Ascend(func(r *data.Root) error {
						v, _, _ := nd.db.CXDS().Get(r.Hash, 0)
						if v == nil {
							v = []byte{}
						}
						if why := w.genuine(pk, nonce, r.Seq, r.Hash, r.Sig, v); why != "" {
							w.fail("forged-stored", "node %d keeps root %d/%d of feed %d %s", nd.i, nonce, r.Seq, w.feedOf(pk), why)
						}
						return nil
					})
				})
			})
		})
	})
}

func (w *hWorld) see(m wMsg) {
	switch {
	case m.to == 0 && m.typ == wRqObject:
		w.asked[[2]int{m.conn, int(m.seq)}] = m.key()
	case m.from == 0 && m.typ == wObject:
		k, ok := w.asked[[2]int{m.conn, int(m.rseq)}]
		if !ok {
			return
		}
		// the object as the protocol says: a length and the bytes
		if len(m.raw) < 4 || cipher.SumSHA256(m.raw[4:]) != k {
			w.fail("wrong-object-sent", "the node answers a request for %s with other bytes", k.Hex()[:7])
		}
	case m.from == 0 && m.typ == wRoot:
		r, ok := m.root()
		if !ok {
			w.fail("wire", "a broken root from the node")
			return
		}
		if why := w.genuine(r.Feed, r.Nonce, r.Seq, cipher.SumSHA256(r.Value), r.Sig, r.Value); why != "" {
			w.fail("forged-sent", "the node passes on a root %d/%d of feed %d %s", r.Nonce, r.Seq, w.feedOf(r.Feed), why)
		}
	}
}

// push a changed root.
func (x *hPeer) push(f, i, mut int, d int64) {
	w := x.hWorld
	l := w.pool[f]
	if f == 0 { // what the publisher published so far
		l = nil
		for _, r := range w.feeds[0].roots {
			l = append(l, &tRemote{pk: w.feeds[0].pk, sig: r.sig, val: r.val, hash: r.hash, seq: r.seq})
		}
	}
	if len(l) == 0 {
		return
	}
	t := l[i%len(l)]
	if t.val == nil {
		return
	}
	dr, err := registry.DecodeRoot(t.val)
	if err != nil {
		return
	}
	hs := w.feeds[2]
	m := wRootMsg{Feed: t.pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: append([]byte{}, t.val...), Sig: t.sig}
	change := func() {
		switch d % 6 {
		case 0:
			dr.Seq += 1 + uint64(d/6)%3
			if dr.Prev == (cipher.SHA256{}) {
				dr.Prev = t.hash
			}
		case 1:
			dr.Nonce++
		case 2:
			dr.Time++
		case 3:
			dr.Refs = nil
		case 4:
			dr.Descriptor = append(dr.Descriptor, 1)
		case 5:
			dr.Seq, dr.Prev = 1<<63, t.hash
		}
		m.Value = dr.Encode()
		m.Nonce, m.Seq = dr.Nonce, dr.Seq
	}
	sign := func(sk cipher.SecKey) {
		h := cipher.SumSHA256(m.Value)
		m.Sig, _ = cipher.SignHash(h, sk)
		if dr.Pub == hs.pk {
			n := &tRemote{pk: hs.pk, sig: m.Sig, val: m.Value, hash: h, seq: dr.Seq}
			w.addObj(h, m.Value)
			w.pool[2] = append(w.pool[2], n)
		}
	}
	switch mut {
	case 1:
		m.Feed = w.feeds[(f+1+int(d)%2)%3].pk
	case 2:
		m.Nonce += 1 + uint64(d)%2
	case 3:
		m.Seq += 1 + uint64(d)%5
	case 4:
		m.Value[int(d)%len(m.Value)] ^= 1 << (d % 8)
	case 5:
		change()
	case 6:
		change()
		sign(hs.sk)
	case 7: // filed under another feed than the own
		dr.Pub = hs.pk
		change()
		sign(hs.sk)
		m.Feed = w.feeds[d%2].pk
	case 8:
		m.Sig[int(d)%len(m.Sig)] ^= 1
	case 9:
		m.Sig = cipher.Sig{}
	case 10:
		m.Value = m.Value[:int(d)%len(m.Value)]
	case 11:
		m.Value = append(m.Value, make([]byte, 1+d%9)...)
	case 12: // signature of another root
		m.Sig = l[int(d)%len(l)].sig
	case 13: // another root in the place
		o := l[int(d)%len(l)]
		m.Value, m.Sig = o.val, o.sig
	case 14: // own feed: a valid new root
		dr.Pub = hs.pk
		change()
		sign(hs.sk)
		m.Feed = hs.pk
	case 15: // own feed, an encoding with something behind
		dr.Pub = hs.pk
		change()
		m.Value = append(m.Value, make([]byte, 1+d%9)...)
		h := cipher.SumSHA256(m.Value)
		m.Sig, _ = cipher.SignHash(h, hs.sk)
		m.Feed = hs.pk
	}
	w.note("hostile %d pushes root %d of feed %d changed by %d/%d", x.i, i%len(l), f, mut, d%6)
	x.rc.send(0, wRoot, m)
}

// answer a request for an object.
func (x *hPeer) object(rc *rConn, m wMsg) {
	w := x.hWorld
	v, ok := w.objs[m.key()]
	bad := 0
	if w.evil && x.r.N(100) < int(w.p.Cfg["bad"]) {
		bad = 1 + x.r.N(9)
	}
	other := w.objs[w.keys[x.r.N(len(w.keys))]]
	send := func(b []byte) { rc.send(m.seq, wObject, wObjMsg{b}) }
	switch {
	case bad == 2:
		send(nil)
	case bad == 3 || !ok && x.policy%3 == 1 && w.evil:
		send(other)
	case !ok && x.policy%3 == 2 && w.evil:
	case !ok || bad == 6:
		rc.send(m.seq, wErr, wErrMsg{"not found"})
	case bad == 0:
		send(v)
	case bad == 1:
		b := append([]byte{}, v...)
		if len(b) > 0 {
			b[x.r.N(len(b))] ^= 1
		}
		send(b)
	case bad == 4:
		send(v[:len(v)/2])
	case bad == 5:
		send(append(append([]byte{}, v...), 0))
	case bad == 7: // nothing
	case bad == 8:
		rc.later(w.rt+time.Second, func() { send(v) })
	case bad == 9:
		send(v)
		send(other)
	}
}

func (x *hPeer) see(rc *rConn, m wMsg) {
	switch m.typ {
	case wSyn:
		rc.send(m.seq, wAck, wFeedMsg{x.raw.pk})
	case wSub:
		rc.send(m.seq, wOk, nil)
	case wRqList:
		rc.send(m.seq, wErr, wErrMsg{"no"})
	case wRqPreview:
		rc.send(m.seq, wErr, wErrMsg{"no"})
	case wRqObject:
		x.object(rc, m)
	}
}

// open connects and subscribes.
func (x *hPeer) open() bool {
	if x.rc != nil {
		x.rc.close()
	}
	why := ""
	for i := 0; i < 1500; i++ { // a slow node first handles everything the last connection left
		rc := x.raw.dial(x.v.tcp(), false, x.see)
		if rc == nil {
			why = "refused"
			time.Sleep(100 * time.Millisecond)
			continue
		}
		x.rc = rc
		x.all = append(x.all, rc)
		if rc.hello(x.raw.pk) {
			for _, f := range x.feeds {
				rc.send(0, wSub, wFeedMsg{f.pk})
			}
			time.Sleep(x.slow())
			return true
		}
		if len(rc.in) > 0 {
			why = fmt.Sprintf("answered %v %q", rc.in[0].typ, rc.in[0].raw)
		} else {
			why = fmt.Sprintf("no answer, closed %v", rc.closed)
		}
		rc.close()
		time.Sleep(200 * time.Millisecond)
	}
	x.fail("connect", "peer %d can't connect: %s", x.i, why)
	return false
}

// hStart brings up the world; nil when something is wrong.
func hStart(p *core.Prog) (w *hWorld, base int) {
	w = &hWorld{nWorld: newNodes(p, int(p.Cfg["nodes"]), 3), honest: map[int]map[cipher.SHA256]bool{0: {}, 1: {}},
		objs: map[cipher.SHA256][]byte{}, asked: map[[2]int]cipher.SHA256{}}
	w.v = w.nodes[0]
	simrt.Calm() // it starts well
	w.net.Quiet = true
	w.feeds[0].owner = 1
	w.watch = w.see
	core.Phase("roots")
	for f := 1; f < 3; f++ {
		for nonce := uint64(1); nonce < 3; nonce++ {
			l := w.makeRoots(w.feeds[f].pk, w.feeds[f].sk, nonce, int(p.Cfg["roots"]), int64(f), p.Cfg["bseed"]+int64(f)*10+int64(nonce))
			if l == nil {
				return nil, 0
			}
			w.addRoots(f, l)
		}
	}
	core.Phase("start")
	for _, nd := range w.nodes {
		nd := nd
		nd.conf = func(c *node.Config) {
			c.Public = true
		}
		nd.onEvent = func(e nEvent) error {
			switch e.kind {
			case "received", "filled", "breaks":
				w.note("node %d: %s feed %d %d/%d", nd.i, e.kind, w.feedOf(e.feed), e.nonce, e.seq)
				if e.kind == "breaks" {
					return nil
				}
				if why := w.genuine(e.feed, e.nonce, e.seq, e.hash, e.sig, nil); why != "" {
					w.fail("forged-"+e.kind, "node %d reports a root %d/%d of feed %d as %s, %s", nd.i, e.nonce, e.seq, w.feedOf(e.feed), e.kind, why)
				}
			case "disconnect":
				if j := w.byID(e.c.PeerID()); j >= 0 && w.begun && !nd.closing && !w.nodes[j].closing {
					w.fail("honest-closed", "node %d lost its connection to node %d: %v", nd.i, j, e.err)
				}
			}
			return nil
		}
		if !nd.start() {
			return nil, 0
		}
		nd.do("share", func(n *node.Node) { n.Share(w.feeds[0].pk) })
	}
	for i := 1; i < len(w.nodes); i++ {
		var c *node.Conn
		if !again(func() (err error) { c, err = w.nodes[i].connect(0, p.Cfg["salt"]%4 == 0); return }) {
			w.fail("connect", "node %d can't connect", i)
			return nil, 0
		}
		w.nodes[i].subscribe(c, w.feeds[0].pk)
	}
	for i := 0; w.nodes[1].publish(0, 1, p.Cfg["bseed"]) == nil || wait(2*time.Minute, func() bool {
		for _, nd := range w.nodes {
			if nd.holds(0, w.feeds[0].last(1)) != "" {
				return false
			}
		}
		return true
	}) == false; i++ {
		if i > 10 || core.Failed() {
			w.fail("start", "the first root does not arrive")
			return nil, 0
		}
	}
	time.Sleep(time.Second + w.slow())
	base = len(w.v.pr.D.Live())
	for i, nd := range w.nodes {
		nd.do("share", func(n *node.Node) {
			n.Share(w.feeds[1].pk)
			n.Share(w.feeds[2].pk)
		})
		if i < 2 {
			continue
		}
		nd.do("sub", func(n *node.Node) {
			c := nd.connTo(0)
			for f := 1; f < 3 && c != nil; f++ {
				nd.subscribe(c, w.feeds[f].pk)
			}
		})
	}
	for i := 0; i < int(p.Cfg["hostile"]); i++ {
		x := &hPeer{hWorld: w, i: i, raw: w.newRaw(i), r: simrt.NewRng(uint64(p.Cfg["salt"]) + uint64(i)*977)}
		w.peers = append(w.peers, x)
		if !x.open() {
			return nil, 0
		}
	}
	w.evil, w.begun, w.net.Quiet = true, true, false
	simrt.Uncalm()
	return w, base
}

// again and again, because of slow machines
func again(f func() error) bool {
	for i := 0; i < 20; i++ {
		if f() == nil {
			return true
		}
		time.Sleep(500 * time.Millisecond)
	}
	return false
}

func (nd *nNode) subscribe(c *node.Conn, pk cipher.PubKey) {
	if !again(func() (err error) {
		nd.do("sub", func(n *node.Node) { err = c.Subscribe(pk) })
		return
	}) {
		nd.w.fail("subscribe", "node %d can't subscribe to feed %d", nd.i, nd.w.feedOf(pk))
	}
}

// reach: a new root of feed 0 gets to all nodes.
func (w *hWorld) reach(max time.Duration) bool {
	r := w.nodes[1].publish(0, 1, int64(len(w.feeds[0].roots))+w.p.Cfg["bseed"])
	if r == nil {
		w.fail("publish", "publishing fails")
		return false
	}
	why := make([]string, len(w.nodes))
	if !wait(max, func() bool {
		ok := true
		for i, nd := range w.nodes {
			why[i] = nd.holds(0, r)
			ok = ok && why[i] == ""
		}
		return ok
	}) {
		var l []string
		for _, nd := range w.nodes {
			l = append(l, nd.show())
		}
		w.fail("honest-stuck", "root %d of the honest feed does not reach all nodes in %v: %v\n%s", r.seq, max, why, strings.Join(l, "\n"))
		return false
	}
	return true
}

// settle: the hostile peers go away, everything works.
func (w *hWorld) settle(base int) bool {
	core.Phase("calm")
	w.calm()
	w.evil = false
	for _, x := range w.peers {
		for _, rc := range x.all {
			rc.close()
		}
	}
	time.Sleep(2*time.Second + 2*w.slow())
	if !w.reach(time.Minute + 10*w.rt) {
		return false
	}
	// an honest peer brings the newest root of feed 1
	if f := w.feeds[1]; w.p.Cfg["salt"]%2 == 0 {
		g := &hPeer{hWorld: w, i: 100, raw: w.newRaw(100), r: simrt.NewRng(1)}
		if !g.open() {
			return false
		}
		var top *tRemote
		for _, t := range w.pool[1] {
			if t.seq == uint64(w.p.Cfg["roots"])-1 {
				top = t // of the greatest nonce
			}
		}
		dr, _ := registry.DecodeRoot(top.val)
		r := &nRoot{nonce: dr.Nonce, seq: top.seq, hash: top.hash}
		why, next := "", int64(0)
		if !wait(time.Minute+10*w.rt, func() bool {
			if simrt.SimNow() > next {
				g.rc.send(0, wRoot, wRootMsg{Feed: f.pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: top.val, Sig: top.sig})
				next = simrt.SimNow() + int64(3*w.rt)
			}
			if why = w.v.holds(1, r); why == "" && len(w.nodes) > 2 {
				why = w.nodes[2].holds(1, r)
			}
			return why == ""
		}) {
			w.fail("honest-stuck", "root %d/%d of feed 1 of an honest peer does not arrive: %s\n%s\n%s", r.nonce, r.seq, why, w.v.show(), w.nodes[len(w.nodes)-1].show())
			return false
		}
		g.rc.close()
	}
	for _, nd := range w.nodes {
		w.store(nd)
	}
	// nothing is left of the hostile peers
	w.v.do("dontshare", func(n *node.Node) {
		n.DontShare(w.feeds[1].pk)
		n.DontShare(w.feeds[2].pk)
	})
	if !wait(10*time.Second+2*w.rt, func() bool { return len(w.v.pr.D.Live()) <= base }) {
		l := w.v.pr.D.Live()
		sort.Strings(l)
		w.fail("residue", "%d goroutines of the node remain instead of %d:\n  %s", len(l), base, strings.Join(l, "\n  "))
	}
	w.v.do("conns", func(n *node.Node) {
		for _, c := range n.Connections() {
			if w.byID(c.PeerID()) < 0 {
				w.fail("residue", "a connection of a peer that is away is still there")
			}
		}
	})
	return !core.Failed()
}

// honestOp is what honest users do meanwhile.
func (w *hWorld) honestOp(o core.Op) {
	switch o.K {
	case "publish":
		w.nodes[1].publish(0, 1, o.Arg(0))
	case "ask":
		nd := w.nodes[len(w.nodes)-1]
		nd.do("ask", func(n *node.Node) {
			c := nd.connTo(0)
			if c == nil {
				w.fail("honest-closed", "node %d is not connected any more", nd.i)
				return
			}
			if _, err := c.RemoteFeeds(); err != nil && simrt.Stalled() == 0 {
				w.fail("honest-request", "a request of an honest node: %v", err)
			}
		})
	}
}

func n05Body(p *core.Prog) {
	w, base := hStart(p)
	if w == nil || core.Failed() {
		return
	}
	core.Phase("work")
	w.clients(func(cl int, o core.Op) {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		if cl >= len(w.peers) {
			w.honestOp(o)
			return
		}
		x := w.peers[cl]
		if x.rc.closed && !x.open() {
			return
		}
		f, i, mut, d := int(o.Arg(0)), int(o.Arg(1)), int(o.Arg(2)), o.Arg(3)
		switch o.K {
		case "root":
			x.push(f, i, mut, d)
		case "object": // nobody asked for
			v := w.objs[w.keys[int(d)%len(w.keys)]]
			x.rc.send(uint32(i)*uint32(mut), wObject, wObjMsg{v})
		case "policy":
			x.policy = i
		case "resub":
			x.rc.send(0, wUnsub, wFeedMsg{w.feeds[f].pk})
			x.rc.send(0, wSub, wFeedMsg{w.feeds[f].pk})
		case "redial":
			x.open()
		case "want": // the victim's objects
			x.rc.send(0, wRqObject, wKeyMsg{w.keys[int(d)%len(w.keys)]})
		case "preview":
			x.rc.send(0, wRqPreview, wFeedMsg{w.feeds[f].pk})
		case "store":
			w.store(w.v)
		}
	})
	if core.Failed() || !w.settle(base) {
		return
	}
	core.Phase("close")
	w.stop()
}

func init() {
	real := []string{"node", "node/msg", "skyobject", "data (memory)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "hostile peers (scripts)"}
	kinds := []string{"root", "root", "root", "root", "root", "root", "object", "policy", "resub", "redial", "want", "preview", "store"}
	core.Register(&core.Scenario{Prop: "N04", Name: "hostile", Quick: 3000, Thor: 30000, Gen: hGen(kinds), Body: n05Body, Real: real, Stubs: stubs,
		Rule: "hostile peers push forged, genuine and replayed roots and do not serve the objects; the honest publisher's roots and those of an honest peer that comes later reach all nodes", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "N05", Name: "forge", Quick: 6000, Thor: 60000, Gen: hGen(kinds), Body: n05Body, Real: real, Stubs: stubs,
		Rule: "1-2 hostile peers, subscribed to everything, push roots forged in 15 ways next to genuine and replayed ones and answer requests for objects with wrong, late, missing and repeated bytes; callbacks, index, stored objects and everything the node sends on are checked against what the feeds' owners signed; honest feeds arrive at the end", Needed: []string{"preempt"}})
}
