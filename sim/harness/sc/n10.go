package sc

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// N10: node 0 provides the feeds 0 and 1, node 1 previews; it shares feed 1 only. A scripted peer provides feed 2.

func n10Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, r.N(2) == 0)}
	c := p.Cfg
	c["rt"] = pick(r, int64(2), 5, 20)
	c["stallmax"] = pick(r, int64(50), 300, 1000)
	c["bseed"] = int64(r.N(300))
	c["roots"] = int64(1 + r.N(3))
	c["busy"] = int64(r.N(2)) // feed 1 goes on
	c["lie"] = pick(r, int64(0), 30, 80)
	c["window"] = pick(r, int64(0), 0, 4)
	for i := r.N(3); i >= 0; i-- {
		p.Ops = append(p.Ops, core.Op{C: 0, K: "publish", A: []int64{0, int64(1 + r.N(2)), int64(r.N(1000))}})
	}
	if r.N(4) > 0 {
		p.Ops = append(p.Ops, core.Op{C: 0, K: "publish", A: []int64{1, 1, int64(r.N(1000))}})
	}
	for i := r.N(8); i > 0; i-- {
		k := pick(r, "publish", "publish", "sleep")
		o := core.Op{C: 1, K: k, A: []int64{int64(r.N(1 + int(c["busy"]))), int64(1 + r.N(2)), int64(r.N(1000))}}
		if k == "sleep" {
			o.A = []int64{int64(r.N(pick(r, 5, 50, 500)))}
		}
		p.Ops = append(p.Ops, o)
	}
	for cl := 2; cl < 3+r.N(4); cl++ {
		for i := 1 + r.N(6); i > 0; i-- {
			k := pick(r, "prev", "prev", "prev", "prev", "hprev", "hprev", "hprev", "drop", "sleep", "sleep")
			if r.N(30) == 0 {
				k = "prevsub"
			}
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(3)), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 5, 50, 500)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// content of the store of a node.
func (nd *nNode) content() string {
	var l []string
	nd.do("content", func(n *node.Node) {
		var keys []cipher.SHA256
		nd.db.CXDS().Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
			keys = append(keys, k)
			return nil
		})
		for _, k := range keys { // the cache writes reference counts back late
			v, rc, err := n.Container().Get(k, 0)
			l = append(l, fmt.Sprintf("object %s rc %d, %d bytes, %v", k.Hex()[:12], rc, len(v), err))
		}
		nd.db.IdxDB().Tx(func(fs data.Feeds) error {
			return fs.Iterate(func(pk cipher.PubKey) error {
				l = append(l, "feed "+pk.Hex()[:8])
				hs, err := fs.Heads(pk)
				if err != nil {
					return err
				}
				return hs.Iterate(func(nonce uint64) error {
					rs, err := hs.Roots(nonce)
					if err != nil {
						return err
					}
					return rs.Ascend(func(r *data.Root) error {
						l = append(l, fmt.Sprintf("root %s %d/%d %s", pk.Hex()[:8], nonce, r.Seq, r.Hash.Hex()[:12]))
						return nil
					})
				})
			})
		})
		for _, pk := range n.Feeds() {
			l = append(l, "shares "+pk.Hex()[:8])
		}
	})
	sort.Strings(l)
	return strings.Join(l, "\n  ")
}

type n10Seen struct {
	feed  int
	hash  cipher.SHA256
	begin int64
}

func n10Body(p *core.Prog) {
	w := newNodes(p, 2, 3)
	w.feeds[1].owner, w.feeds[2].owner = 0, 9
	core.Phase("start")
	simrt.Calm()
	h := w.newRaw(0)
	g := simrt.NewRng(uint64(p.Cfg["salt"])*31 + 5)
	fd2 := w.feeds[2]
	pool := w.makeRoots(fd2.pk, fd2.sk, 1, int(p.Cfg["roots"]), fd2.base, p.Cfg["bseed"])
	pool = append(pool, w.makeRoots(fd2.pk, fd2.sk, 2, int(p.Cfg["roots"]), fd2.base, p.Cfg["bseed"]+7)...)
	if len(pool) == 0 || core.Failed() {
		return
	}
	objs := map[cipher.SHA256][]byte{}
	var keys []cipher.SHA256
	for _, t := range pool {
		for k, v := range t.objs {
			if objs[k] == nil {
				keys = append(keys, k)
			}
			objs[k] = v
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Hex() < keys[j].Hex() })
	lies := 0
	mess := 0 // the peer answers late or not at all
	addr := h.serve(8870, false, func(rc *rConn, m wMsg) {
		lie := int64(g.N(100)) < p.Cfg["lie"]
		if lie {
			lies++
		}
		switch m.typ {
		case wSyn:
			rc.send(m.seq, wAck, wFeedMsg{h.pk})
		case wSub:
			rc.send(m.seq, wErr, wErrMsg{"no"})
		case wRqPreview:
			t := pool[g.N(len(pool))]
			dr, _ := registry.DecodeRoot(t.val)
			x := wRootMsg{Feed: fd2.pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: t.val, Sig: t.sig}
			if m.feed() != fd2.pk { // somebody else's feed
				dr.Pub = m.feed()
				v := dr.Encode()
				sig, _ := cipher.SignHash(cipher.SumSHA256(v), fd2.sk)
				x = wRootMsg{Feed: m.feed(), Nonce: dr.Nonce, Seq: dr.Seq, Value: v, Sig: sig}
			}
			if lie {
				resign := func() {
					x.Value = dr.Encode()
					x.Sig, _ = cipher.SignHash(cipher.SumSHA256(x.Value), fd2.sk)
				}
				switch g.N(12) {
				case 0:
					x.Sig[g.N(len(x.Sig))] ^= 1
				case 1:
					x.Value = append([]byte{}, x.Value...)
					x.Value[g.N(len(x.Value))] ^= 1
				case 2:
					x.Feed = w.feeds[g.N(2)].pk
				case 3: // of another feed, signed by this one
					dr.Pub = w.feeds[g.N(2)].pk
					resign()
				case 4:
					x.Value = append(append([]byte{}, x.Value...), 0)
				case 5:
					x.Value = append(append([]byte{}, x.Value...), 0)
					x.Sig, _ = cipher.SignHash(cipher.SumSHA256(x.Value), fd2.sk)
				case 6:
					x.Value = x.Value[:g.N(len(x.Value))]
				case 7:
					rc.send(m.seq, wErr, wErrMsg{"no"})
					return
				case 8:
					mess++
					return
				case 9:
					rc.send(m.seq, wOk, nil)
					return
				case 11: // a good one of another feed
					k := g.N(3)
					if w.feeds[k].pk == m.feed() {
						k = (k + 1) % 3
					}
					dr.Pub = w.feeds[k].pk
					x.Feed, x.Value = dr.Pub, dr.Encode()
					x.Sig, _ = cipher.SignHash(cipher.SumSHA256(x.Value), w.feeds[k].sk)
				case 10:
					mess++
					rc.later(w.rt+time.Second, func() { rc.send(m.seq, wRoot, x) })
					return
				}
			}
			rc.send(m.seq, wRoot, x)
			if lie {
				rc.send(m.seq, wRoot, x)
			}
		case wRqObject:
			v, ok := objs[m.key()]
			if !ok {
				rc.send(m.seq, wErr, wErrMsg{"not found"})
				return
			}
			if lie {
				switch g.N(7) {
				case 0:
					v = objs[keys[g.N(len(keys))]]
				case 1:
					v = append([]byte{}, v...)
					if len(v) > 0 {
						v[g.N(len(v))] ^= 1
					}
				case 2:
					v = v[:len(v)/2]
				case 3:
					v = nil
				case 4:
					rc.send(m.seq, wErr, wErrMsg{"no"})
					return
				case 5:
					mess++
					return
				case 6:
					rc.send(m.seq, wObject, wObjMsg{v})
				}
			}
			rc.send(m.seq, wObject, wObjMsg{v})
		}
	})
	for _, nd := range w.nodes {
		if !nd.start() {
			return
		}
	}
	a, v := w.nodes[0], w.nodes[1]
	for f := 0; f < 2; f++ {
		a.do("share", func(n *node.Node) { n.Share(w.feeds[f].pk) })
	}
	for _, o := range p.Of(0) {
		a.publish(int(o.Arg(0)), uint64(o.Arg(1)), o.Arg(2))
	}
	link := func(id cipher.PubKey, addr string) (c *node.Conn) {
		v.do("connect", func(n *node.Node) {
			for _, x := range n.Connections() {
				if x.PeerID() == id {
					c = x
					return
				}
			}
			var err error
			c, err = n.TCP().Connect(addr)
			if err != nil {
				c = nil
			}
		})
		return
	}
	if !wait(time.Minute, func() bool {
		c := link(a.pk, a.tcp())
		if c == nil {
			return false
		}
		var err error
		v.do("sub", func(n *node.Node) { err = c.Subscribe(w.feeds[1].pk) })
		l := w.feeds[1].last(1)
		return err == nil && (l == nil || wait(15*time.Second, func() bool { return v.holds(1, l) == "" }))
	}) {
		simrt.Count("no start")
		return
	}
	before := v.content()
	simrt.Uncalm()
	core.Phase("work")
	changed := false
	var seen []n10Seen
	bad := map[string]int{}
	preview := func(to *node.Conn, f int, honest bool, cl int, sub bool) {
		begin := simrt.SimNow()
		calls := 0
		var got error
		var err error
		st0 := simrt.Stalled()
		_ = st0
		var root *registry.Root
		ok := v.do("preview", func(n *node.Node) {
			err = to.Preview(w.feeds[f].pk, func(pack registry.Pack, r *registry.Root) bool {
				calls++
				root = r
				if r == nil || r.Pub != w.feeds[f].pk {
					w.fail("wrong-root", "the root of feed %d in the function is %v", f, r)
					return false
				}
				if cipher.SumSHA256(r.Encode()) != r.Hash || cipher.VerifyPubKeySignedHash(r.Pub, r.Sig, r.Hash) != nil {
					w.fail("wrong-root", "the root %d/%d of feed %d in the function is not signed", r.Nonce, r.Seq, f)
					return false
				}
				if f < 2 {
					seen = append(seen, n10Seen{f, r.Hash, begin})
				}
				get := func(k cipher.SHA256) []byte {
					if got != nil { // one error is enough
						return nil
					}
					var b []byte
					var e error
					w.timed("Get", w.rt+2*time.Second+2*w.slow(), func() { b, e = pack.Get(k) })
					if e != nil {
						got = e
						return nil
					}
					if cipher.SumSHA256(b) != k {
						w.fail("wrong-object", "Get of %s gives %d other bytes", k.Hex()[:7], len(b))
						return nil
					}
					return b
				}
				// the root itself is given
				wk := newWalk(w.types, func(k cipher.SHA256) []byte {
					if k == r.Hash {
						return r.Encode()
					}
					return get(k)
				})
				wk.Root(r.Hash)
				if wk.bad != "" && got == nil {
					w.fail("broken-tree", "the preview of root %d/%d of feed %d: %s", r.Nonce, r.Seq, f, wk.bad)
				}
				if cl%2 == 0 {
					r.Tree(pack)
				}
				if cl%3 == 0 {
					k := cipher.SumSHA256([]byte{byte(cl), 200})
					if b, e := pack.Get(k); e == nil {
						w.fail("wrong-object", "Get of an object nobody has gives %d bytes", len(b))
					}
				}
				return sub
			})
		})
		if !ok {
			return
		}
		w.note("client %d previews feed %d (honest %v): %v %v", cl, f, honest, err, got)
		if calls > 1 || calls == 0 && err == nil || calls == 1 && !sub && err != nil {
			w.fail("calls", "Preview of feed %d called the function %d times and returned %v", f, calls, err)
		}
		if sub && calls > 0 { // a Subscribe that fails leaves the feed
			changed = true
			if err == nil {
				v.do("feeds", func(n *node.Node) {
					for _, pk := range n.Feeds() {
						if pk == w.feeds[f].pk {
							return
						}
					}
					w.fail("subscribe", "the function wants feed %d, but the node doesn't share it", f)
				})
			}
		}
		// an error of an honest peer needs a reason
		for _, e := range []error{err, got} {
			if e == nil || sub && e == err {
				continue
			}
			if honest && f < 2 && len(w.feeds[f].roots) > 0 && w.feeds[f].roots[0].at < begin && e != node.ErrTimeout && e != node.ErrClosed {
				w.fail("error", "a preview of feed %d of an honest peer fails: %v", f, e)
			}
			bad[e.Error()]++
		}
		if f == 2 && root != nil {
			found := false
			for _, t := range pool {
				found = found || t.hash == root.Hash
			}
			if !found {
				w.fail("forged-root", "the preview shows root %d/%d %s that the feed's owner never made", root.Nonce, root.Seq, root.Hash.Hex()[:7])
			}
		}
	}
	drops := 0
	w.clients(func(cl int, o core.Op) {
		if cl == 0 {
			return
		}
		switch o.K {
		case "sleep":
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
		case "publish":
			a.publish(int(o.Arg(0)), uint64(o.Arg(1)), o.Arg(2))
		case "drop":
			id := a.pk
			if o.Arg(0) > 0 {
				id = h.pk
			}
			v.do("drop", func(n *node.Node) {
				for _, c := range n.Connections() {
					if c.PeerID() == id && (id != a.pk || o.Arg(1)%4 == 0) {
						drops++
						c.Close()
					}
				}
			})
		case "prev", "prevsub":
			if c := link(a.pk, a.tcp()); c != nil {
				f := int(o.Arg(0)) % 2
				preview(c, f, true, cl, o.K == "prevsub")
			}
		case "hprev":
			if c := link(h.pk, addr); c != nil {
				f := 2
				if o.Arg(1)%6 == 0 {
					f = int(o.Arg(0)) % 3
				}
				if f < 2 { // it can't have it
					var err error
					v.do("preview", func(n *node.Node) {
						err = c.Preview(w.feeds[f].pk, func(pack registry.Pack, r *registry.Root) bool {
							w.fail("forged-root", "the preview shows a root of feed %d that the feed's owner never made", f)
							return false
						})
					})
					if err == nil {
						w.fail("forged-root", "Preview of a forged root gives no error")
					}
					return
				}
				preview(c, f, false, cl, false)
			}
		}
	})
	if core.Failed() {
		return
	}
	core.Phase("rest")
	w.calm()
	time.Sleep(2*w.rt + 5*time.Second)
	for _, s := range seen {
		fd := w.feeds[s.feed]
		var x *nRoot
		for _, r := range fd.roots {
			if r.hash == s.hash {
				x = r
			}
		}
		if x == nil {
			w.fail("forged-root", "a preview showed root %s of feed %d, which was never published", s.hash.Hex()[:7], s.feed)
			return
		}
		for _, r := range fd.roots {
			if r.at < s.begin && (r.time > x.time || r.nonce == x.nonce && r.seq > x.seq) {
				w.fail("old-root", "a preview that began at %.3f showed root %d/%d of feed %d, but %d/%d was there already", float64(s.begin)/1e9, x.nonce, x.seq, s.feed, r.nonce, r.seq)
				return
			}
		}
	}
	if !changed {
		after := v.content()
		if p.Cfg["busy"] == 0 && after != before {
			w.fail("changed", "previews changed the node; it had\n  %s\nand has\n  %s", before, after)
			return
		}
		v.do("busy", func(n *node.Node) {
			mine := map[cipher.SHA256]bool{}
			for _, r := range w.feeds[1].roots {
				wk := newWalk(w.types, func(h cipher.SHA256) []byte {
					b, _, _ := a.db.CXDS().Get(h, 0)
					return b
				})
				wk.Root(r.hash)
				for k := range wk.all {
					mine[k] = true
				}
			}
			v.db.CXDS().Iterate(func(k cipher.SHA256, rc uint32, b []byte) error {
				if !mine[k] {
					w.fail("kept", "the node keeps an object %s (%d bytes, rc %d) of a feed it only previewed", k.Hex()[:7], len(b), rc)
				}
				return nil
			})
			if l := n.Container().Feeds(); len(l) != 1 || l[0] != w.feeds[1].pk {
				w.fail("changed", "the node has %d feeds after previews", len(l))
			}
		})
	}
	for s := range bad {
		simrt.Count("preview error: " + strings.SplitN(s, ":", 2)[0])
	}
	if core.Failed() {
		return
	}
	core.Phase("close")
	w.stop()
}

func init() {
	real := []string{"node", "node/msg", "skyobject (container, preview)", "data (memory)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "lying peer (script)"}
	core.Register(&core.Scenario{Prop: "N10", Name: "preview", Quick: 8000, Thor: 80000, Gen: n10Gen, Body: n10Body, Real: real, Stubs: stubs,
		Rule: "a node previews feeds of an honest node that publishes at the same time and of a peer that lies, delays and fails, from several clients, with connections closing; roots shown are the owner's, current and of the feed, bytes match hashes, errors of honest peers need a reason, store, index and feeds do not change", Needed: []string{"preempt"}})
}
