package sc

import (
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"simrt"
)

// nWire follows every conversation between nodes and checks who may say what.
type nWire struct {
	w     *nWorld
	conns map[int]*nTalk
	share []map[cipher.PubKey]*nShare // by node
	order bool                        // check the order of roots
	agree bool                        // check subscriptions
	list  bool                        // check lists and previews
	// decisions of OnSubscribeRemote: node, peer, feed
	yes   map[string]bool
	roots int
}

// nShare: does the node share the feed?
type nShare struct {
	st    int // 0 no, 1 maybe, 2 yes
	since int64
	stall int64
}

type nTalk struct{ dirs map[int]*nDir }

// nDir is what one end of a connection said.
type nDir struct {
	subs  map[uint32]cipher.PubKey
	prevs map[uint32]cipher.PubKey
	asks  map[uint32]int64
	on    map[cipher.PubKey]bool  // may send roots, as far as this end knows exactly
	off   map[cipher.PubKey]int64 // the other end unsubscribed
	offst map[cipher.PubKey]int64
	ever  map[cipher.PubKey]bool
	last  map[string]uint64 // roots sent
}

func newWire(w *nWorld) *nWire {
	x := &nWire{w: w, conns: map[int]*nTalk{}, yes: map[string]bool{}}
	for range w.nodes {
		x.share = append(x.share, map[cipher.PubKey]*nShare{})
	}
	w.watch = x.see
	return x
}

func (x *nWire) dir(t *nTalk, i int) *nDir {
	d := t.dirs[i]
	if d == nil {
		d = &nDir{subs: map[uint32]cipher.PubKey{}, prevs: map[uint32]cipher.PubKey{}, asks: map[uint32]int64{}, on: map[cipher.PubKey]bool{},
			off: map[cipher.PubKey]int64{}, offst: map[cipher.PubKey]int64{}, ever: map[cipher.PubKey]bool{}, last: map[string]uint64{}}
		t.dirs[i] = d
	}
	return d
}

func (x *nWire) shares(i int, f cipher.PubKey) *nShare {
	s := x.share[i][f]
	if s == nil {
		s = &nShare{}
		x.share[i][f] = s
	}
	return s
}

func (x *nWire) setShare(i int, f cipher.PubKey, st int) {
	*x.shares(i, f) = nShare{st, simrt.SimNow(), int64(simrt.Stalled())}
}

// grace is what a message on its way inside of a node may take.
func (x *nWire) grace(st int64) int64 {
	return int64(100*time.Millisecond) + 2*(int64(simrt.Stalled())-st)
}

// unshared tells if the node does not share the feed for sure, for some time.
func (x *nWire) unshared(i int, f cipher.PubKey, since int64) bool {
	s := x.shares(i, f)
	if s.st != 0 {
		return false
	}
	return since > s.since+x.grace(s.stall)
}

func (x *nWire) name(m wMsg) string {
	return fmt.Sprintf("on connection %d from node %d to node %d", m.conn, m.from, m.to)
}

func (x *nWire) see(m wMsg) {
	if m.from < 0 || m.to < 0 {
		return
	}
	w := x.w
	t := x.conns[m.conn]
	if t == nil {
		t = &nTalk{dirs: map[int]*nDir{}}
		x.conns[m.conn] = t
	}
	d, e := x.dir(t, m.from), x.dir(t, m.to)
	if d == e {
		return
	}
	switch m.typ {
	case wSub:
		d.subs[m.seq] = m.feed()
	case wRqPreview:
		d.prevs[m.seq] = m.feed()
		d.asks[m.seq] = m.t
	case wRqList:
		d.asks[m.seq] = m.t
	case wOk:
		f, ok := e.subs[m.rseq]
		if !ok || m.rseq == 0 {
			if x.agree {
				w.fail("ok-for-nothing", "a confirmation of nothing %s", x.name(m))
			}
			return
		}
		if x.agree {
			if x.unshared(m.from, f, m.t) {
				w.fail("ok-not-shared", "%s a subscription to feed %d is confirmed, but the node does not share it", x.name(m), w.feedOf(f))
			}
			if !d.ever[f] && !x.yes[yesKey(m.from, m.to, f)] {
				w.fail("ok-rejected", "%s a subscription to feed %d is confirmed, but the callback did not agree", x.name(m), w.feedOf(f))
			}
		}
		if !d.on[f] || d.off[f] != 0 {
			x.forget(d, f)
		}
		if !e.on[f] || e.off[f] != 0 {
			x.forget(e, f)
		}
		d.on[f], e.on[f] = true, true
		d.ever[f], e.ever[f] = true, true
		d.off[f], e.off[f] = 0, 0
	case wUnsub:
		f := m.feed()
		d.on[f], d.ever[f] = false, false
		if e.off[f] == 0 {
			e.off[f], e.offst[f] = m.t, int64(simrt.Stalled())
		}
	case wList:
		if x.list && e.asks[m.rseq] != 0 {
			x.checkList(m, e.asks[m.rseq])
		}
	case wRoot:
		r, ok := m.root()
		if !ok {
			w.fail("wire", "a broken root %s", x.name(m))
			return
		}
		if m.rseq != 0 {
			f, ok := e.prevs[m.rseq]
			if !x.list {
				return
			}
			if !ok || f != r.Feed {
				w.fail("preview", "%s a preview of feed %d nobody asked for", x.name(m), w.feedOf(r.Feed))
			}
			s := x.shares(m.from, f)
			if s.st == 0 && e.asks[m.rseq] > s.since+x.grace(s.stall)+int64(w.slow()) {
				w.fail("preview-not-shared", "%s a preview of feed %d is shown, but the node does not share it", x.name(m), w.feedOf(f))
			}
			return
		}
		x.root(m, r, d)
	}
}

func yesKey(i, j int, f cipher.PubKey) string { return fmt.Sprint(i, " ", j, " ", f.Hex()) }

func (x *nWire) forget(d *nDir, f cipher.PubKey) {
	for k := range d.last {
		if k[:66] == f.Hex() {
			delete(d.last, k)
		}
	}
}

func (x *nWire) root(m wMsg, r wRootMsg, d *nDir) {
	w := x.w
	x.roots++
	f := w.feedOf(r.Feed)
	what := fmt.Sprintf("root %d/%d of feed %d %s", r.Nonce, r.Seq, f, x.name(m))
	if x.agree {
		if !d.on[r.Feed] {
			w.fail("root-no-subscription", "%s, but there is no subscription", what)
		}
		if o := d.off[r.Feed]; o != 0 && m.t > o+int64(w.slow())+x.grace(d.offst[r.Feed]) {
			w.fail("root-after-unsubscribe", "%s, but the receiver unsubscribed at %.3f", what, float64(o)/1e9)
		}
	}
	if x.order && f >= 0 {
		k := r.Feed.Hex() + fmt.Sprint(r.Nonce)
		last, ok := d.last[k]
		if ok && r.Seq < last {
			w.fail("sent-older", "%s, but %d was sent before", what, last)
		}
		d.last[k] = r.Seq
	}
}

func (x *nWire) checkList(m wMsg, asked int64) {
	w := x.w
	if w.p.Cfg["public"]>>uint(m.from)&1 == 0 {
		w.fail("list-private", "%s a list of feeds, but the node is not public", x.name(m))
	}
	n := 0
	if len(m.raw) >= 4 {
		n = int(m.raw[0]) | int(m.raw[1])<<8
	}
	if len(m.raw) != 4+33*n {
		w.fail("wire", "a broken list %s", x.name(m))
		return
	}
	in := map[cipher.PubKey]bool{}
	for i := 0; i < n; i++ {
		var pk cipher.PubKey
		copy(pk[:], m.raw[4+33*i:])
		if in[pk] {
			w.fail("list-twice", "%s feed %d is listed twice", x.name(m), w.feedOf(pk))
		}
		in[pk] = true
		s := x.shares(m.from, pk)
		if s.st == 0 && asked > s.since+x.grace(s.stall) {
			w.fail("list-not-shared", "%s feed %d is listed, but not shared", x.name(m), w.feedOf(pk))
		}
	}
	for i, f := range w.feeds {
		s := x.shares(m.from, f.pk)
		if s.st == 2 && s.since < asked && !in[f.pk] {
			w.fail("list-missing", "%s feed %d is shared, but not listed", x.name(m), i)
		}
	}
}
