package sc

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// plans of the scripted server
const (
	planOk = iota
	planErr
	planSlow
	planLate
	planNever
	planTwice
	planType
	planNoise
	planEdge
	planClose
	plans
)

// n03Call is a request of the node.
type n03Call struct {
	id    int64
	what  string
	feed  cipher.PubKey
	val   []byte // object
	plan  int64
	delay time.Duration
	seq   uint32
	asked bool
	sent  []n03Answer
}

type n03Answer struct {
	t    int64
	kind string // ok, err, type
}

type n03World struct {
	*nWorld
	raw    *nRaw
	rc     *rConn
	c      *node.Conn
	feeds  map[cipher.PubKey]*n03Call
	objs   map[cipher.SHA256]*n03Call
	okay   map[cipher.PubKey]bool
	lists  []*n03Call // answers of RqList in the order of requests
	listN  int
	killed int64 // when somebody closed the connection
}

func n03Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["resetp"], c["dialerr"], c["stallmax"] = 0, 0, pick(r, int64(50), 300)
	c["lat0"] = int64(r.N(3) / 2)
	c["incoming"], c["udp"] = int64(r.N(2)), int64(r.N(2))
	plan := func() int64 {
		x := int64(r.N(plans - 1))
		if r.N(40) == 0 {
			x = planClose
		}
		return x
	}
	kinds := swarm(r, []string{"sub", "list", "prev", "prevsub", "sleep"})
	for cl := 0; cl < 1+r.N(4); cl++ {
		for i := 1 + r.N(6); i > 0; i-- {
			k := pick(r, kinds...)
			o := core.Op{C: cl, K: k, A: []int64{plan(), int64(r.N(1000)), plan(), int64(r.N(1000)), plan(), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 10, 1000, 8000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if r.N(3) == 0 {
		p.Ops = append(p.Ops, core.Op{C: 5, K: "sleep", A: []int64{int64(r.N(pick(r, 100, 10000)))}}, core.Op{C: 5, K: pick(r, "close", "rclose", "reset")})
	}
	return p
}

func (w *n03World) kill(who string) {
	if w.killed == 0 {
		w.killed = simrt.SimNow()
		w.note("%s closes the connection", who)
	}
}

// answer the request by its plan.
func (w *n03World) answer(rc *rConn, q *n03Call, m wMsg, typ byte, body interface{}) {
	if q.asked {
		w.fail("asked-twice", "the request %d (%s) came twice", q.id, q.what)
	}
	q.asked, q.seq = true, m.seq
	reply := func(kind string) {
		if rc.closed {
			return
		}
		q.sent = append(q.sent, n03Answer{simrt.SimNow(), kind})
		switch kind {
		case "ok":
			rc.send(m.seq, typ, body)
		case "err":
			rc.send(m.seq, wErr, wErrMsg{q.err()})
		case "type":
			switch typ {
			case wOk:
				rc.send(m.seq, wList, wListMsg{})
			case wList:
				rc.send(m.seq, wObject, wObjMsg{[]byte("x")})
			default:
				rc.send(m.seq, wOk, nil)
			}
		}
	}
	w.note("request %d %s: plan %d", q.id, q.what, q.plan)
	switch q.plan {
	case planOk:
		reply("ok")
	case planErr:
		reply("err")
	case planType:
		reply("type")
	case planSlow:
		rc.later(q.delay*w.rt/2000, func() { reply("ok") })
	case planLate:
		rc.later(w.rt+q.delay*time.Millisecond, func() { reply("ok") })
	case planNever:
	case planTwice:
		reply("ok")
		reply(pick(simrt.NewRng(uint64(q.id)), "ok", "err", "type"))
		rc.later(q.delay*w.rt/700, func() { reply("ok") })
	case planNoise:
		// responses nobody asked for
		rc.send(0, wOk, nil)
		rc.send(1<<30+m.seq, wOk, nil)
		rc.send(0, wList, wListMsg{})
		rc.send(1<<30+m.seq, wErr, wErrMsg{"noise"})
		for i := range rc.in { // earlier answered or given up
			x := rc.in[i]
			if x.seq != m.seq && x.rseq == 0 && x.typ != wSyn && w.over(x.seq) {
				rc.send(x.seq, wErr, wErrMsg{"noise"})
			}
		}
		reply("ok")
	case planEdge: // just when the caller gives up
		d := w.rt - 2*time.Duration(w.net.MinLat)
		if w.net.Jitter > 0 {
			d -= time.Duration(int64(q.delay) % 32 * w.net.Jitter / 16)
		}
		rc.later(d, func() {
			reply("ok")
			if q.delay%2 == 0 {
				reply("ok")
			}
		})
	case planClose:
		w.kill("the server")
		rc.c.Close()
	}
}

// over tells if the request has had an answer before.
func (w *n03World) over(seq uint32) bool {
	for _, q := range w.feeds {
		if q.asked && q.seq == seq {
			return len(q.sent) > 0
		}
	}
	return false
}

func (q *n03Call) err() string { return fmt.Sprintf("err-%d", q.id) }

func (w *n03World) serve(rc *rConn, m wMsg) {
	switch m.typ {
	case wSyn:
		w.rc = rc
		rc.send(m.seq, wAck, wFeedMsg{w.raw.pk})
	case wSub:
		if w.okay[m.feed()] {
			rc.send(m.seq, wOk, nil)
			return
		}
		if q := w.feeds[m.feed()]; q != nil {
			w.answer(rc, q, m, wOk, nil)
		}
	case wRqPreview:
		q := w.feeds[m.feed()]
		if q == nil {
			w.fail("unknown-request", "a preview of a feed nobody asked for")
			return
		}
		r := &registry.Root{Pub: q.feed, Nonce: 1, Seq: uint64(q.id), Reg: w.types.reg[0].Reference(), Descriptor: []byte(fmt.Sprint(q.id))}
		v := r.Encode()
		_, sk := n03Key(q.id)
		sig, err := cipher.SignHash(cipher.SumSHA256(v), sk)
		if err != nil {
			w.fail("sign", "%v", err)
		}
		w.answer(rc, q, m, wRoot, wRootMsg{Feed: q.feed, Nonce: 1, Seq: r.Seq, Value: v, Sig: sig})
	case wRqObject:
		k := m.key()
		if k == cipher.SHA256(w.types.reg[0].Reference()) {
			rc.send(m.seq, wObject, wObjMsg{w.types.reg[0].Encode()})
			return
		}
		q := w.objs[k]
		if q == nil {
			w.fail("unknown-request", "a request of an object nobody asked for")
			return
		}
		w.answer(rc, q, m, wObject, wObjMsg{q.val})
	case wRqList:
		if w.listN >= len(w.lists) {
			w.fail("unknown-request", "more requests of the list than calls")
			return
		}
		q := w.lists[w.listN]
		w.listN++
		w.answer(rc, q, m, wList, wListMsg{[]cipher.PubKey{q.feed}})
	}
}

func n03Key(id int64) (cipher.PubKey, cipher.SecKey) {
	return cipher.GenerateDeterministicKeyPair([]byte{byte(id), byte(id >> 8), 33})
}

func (w *n03World) call(what string, o core.Op, i int, id int64) *n03Call {
	q := &n03Call{id: id, what: what, plan: o.Arg(i), delay: time.Duration(o.Arg(i + 1))}
	q.feed, _ = n03Key(id)
	return q
}

// check the outcome of a call.
func (w *n03World) check(q *n03Call, err error, t0, st0 int64) {
	t1 := simrt.SimNow()
	slack := int64(time.Second) + 2*int64(w.slow()) + 2*(int64(simrt.Stalled())-st0)
	got := ""
	text := ""
	if err != nil {
		text = strings.TrimPrefix(err.Error(), "error: ")
	}
	switch {
	case err == nil:
		got = "ok"
	case err == node.ErrTimeout:
		got = "timeout"
	case err == node.ErrClosed:
		got = "closed"
	case text == q.err():
		got = "err"
	case strings.Contains(text, "invalid"):
		got = "type"
	case q.what == "sub" && text == "do not share the feed":
		got = "notshared"
	default:
		got = "other"
	}
	show := func() string {
		return fmt.Sprintf("request %d (%s, plan %d, delay %d, seq %d) asked at %.3f returned at %.3f %s (%v); answers %v", q.id, q.what, q.plan, q.delay, q.seq, float64(t0)/1e9, float64(t1)/1e9, got, err, q.sent)
	}
	if t1-t0 > int64(w.rt)+slack {
		w.fail("too-long", "%s", show())
	}
	if w.killed != 0 && t1 > max(t0, w.killed)+slack+int64(w.slow()) {
		w.fail("pending-after-close", "the connection was closed at %.3f but the call ended only at %.3f: %s", float64(w.killed)/1e9, float64(t1)/1e9, show())
	}
	switch got {
	case "ok", "err", "type":
		for _, a := range q.sent {
			if a.kind == got {
				return
			}
		}
		w.fail("wrong-answer", "nobody sent this answer: %s", show())
	case "timeout":
		if t1-t0 < int64(w.rt) {
			w.fail("early-timeout", "%s", show())
		}
		for _, a := range q.sent {
			if a.t+slack < t0+int64(w.rt) {
				w.fail("lost-answer", "the answer was there in time: %s", show())
			}
		}
	case "closed":
		if w.killed == 0 {
			w.fail("closed", "nobody closed the connection: %s", show())
		}
	case "notshared":
		// the positive answer met a connection that left its feeds
		if w.killed == 0 {
			w.fail("not-shared", "the feed is shared and nobody closed the connection: %s", show())
		}
	default:
		w.fail("other-error", "%s", show())
	}
}

func n03Body(p *core.Prog) {
	w := &n03World{nWorld: newNodes(p, 1, 0), feeds: map[cipher.PubKey]*n03Call{}, objs: map[cipher.SHA256]*n03Call{}, okay: map[cipher.PubKey]bool{}}
	nd := w.nodes[0]
	if p.Cfg["lat0"] == 1 {
		w.net.MinLat, w.net.Jitter = 1000, 0
	}
	nd.onEvent = func(e nEvent) error {
		if e.kind == "received" {
			w.fail("late-root", "a response that came too late was taken for a published root")
		}
		return nil
	}
	w.raw = w.newRaw(0)
	if !nd.ready() {
		return
	}
	udp := p.Cfg["udp"] == 1
	core.Phase("connect")
	if p.Cfg["incoming"] == 1 {
		a := nd.tcp()
		if udp {
			a = nd.udp()
		}
		for i := 0; i < 10 && (w.rc == nil || !w.rc.hello(w.raw.pk)); i++ {
			w.rc = w.raw.dial(a, udp, w.serve)
		}
	} else {
		a := w.raw.serve(9000, udp, w.serve)
		nd.do("connect", func(n *node.Node) {
			for i := 0; i < 10; i++ { // the machine can stand still longer than the timeout
				w.rc = nil
				var err error
				if udp {
					_, err = n.UDP().Connect(a)
				} else {
					_, err = n.TCP().Connect(a)
				}
				if err == nil {
					return
				}
				w.note("connect: %v", err)
			}
		})
	}
	find := func() bool {
		for _, c := range nd.n.Connections() {
			if c.PeerID() == w.raw.pk {
				w.c = c
				return true
			}
		}
		return false
	}
	if !wait(5*time.Second, find) {
		w.fail("connect", "the connection is not there")
		return
	}
	core.Phase("work")
	id := int64(0)
	w.clients(func(_ int, o core.Op) {
		nd.do("op", func(n *node.Node) { w.op(n, o, &id) })
	})
	if core.Failed() {
		return
	}
	core.Phase("after")
	w.calm()
	nd.do("after", func(n *node.Node) {
		if w.killed == 0 {
			if !find() {
				w.fail("lost-connection", "the connection is gone")
				return
			}
			for _, k := range []string{"list", "sub", "prev"} {
				w.op(n, core.Op{K: k, A: []int64{0, 0, 0, 0, 0, 0}}, &id)
			}
		} else if !wait(10*time.Second, func() bool { return !find() }) {
			w.fail("dead-connection", "the closed connection stays in the list")
		}
	})
	core.Phase("close")
	w.stop()
}

func (w *n03World) op(n *node.Node, o core.Op, id *int64) {
	*id++
	t0, st0 := simrt.SimNow(), int64(simrt.Stalled())
	switch o.K {
	case "sub":
		q := w.call("sub", o, 0, *id)
		w.feeds[q.feed] = q
		err := w.c.Subscribe(q.feed)
		w.check(q, err, t0, st0)
	case "list":
		q := w.call("list", o, 0, *id)
		w.lists = append(w.lists, q)
		fs, err := w.c.RemoteFeeds()
		w.list(fs, err, t0, st0)
	case "prev", "prevsub":
		q := w.call("preview", o, 0, *id)
		w.feeds[q.feed] = q
		var objs []*n03Call
		for i := int64(0); i < 1+o.Arg(3)%3; i++ {
			*id++
			x := w.call("object", o, 2, *id)
			if i > 0 {
				x.plan = int64(simrt.NewRng(uint64(o.Arg(5) + i)).N(plans - 1))
			}
			x.val = payload(*id, 20)
			w.objs[cipher.SumSHA256(x.val)] = x
			objs = append(objs, x)
		}
		if o.K == "prevsub" {
			defer func() {
				w.okay[q.feed] = true
				err := w.c.Subscribe(q.feed)
				if err != nil && w.killed == 0 && !w.stalled() {
					w.fail("subscribe", "Subscribe: %v", err)
				}
			}()
		}
		inside := false
		err := w.c.Preview(q.feed, func(pack registry.Pack, r *registry.Root) bool {
			inside = true
			w.check(q, nil, t0, st0)
			if r.Pub != q.feed || r.Seq != uint64(q.id) {
				w.fail("wrong-preview", "the preview of feed %d shows the root of another feed (%d)", q.id, r.Seq)
			}
			for _, x := range objs {
				t0, st0 := simrt.SimNow(), int64(simrt.Stalled())
				v, err := pack.Get(cipher.SumSHA256(x.val))
				if err == nil && string(v) != string(x.val) {
					w.fail("wrong-object", "object %d has other bytes", x.id)
				}
				w.check(x, err, t0, st0)
			}
			return false
		})
		if !inside {
			if err == nil {
				w.fail("preview", "Preview returned no error and did not call the function")
				return
			}
			if q.asked && len(q.sent) > 0 && q.sent[0].kind == "ok" && err != node.ErrClosed && (err != node.ErrTimeout || w.stalled()) {
				// the registry could not be received
			} else {
				w.check(q, err, t0, st0)
			}
		} else if err != nil {
			w.fail("preview", "Preview failed after the function: %v", err)
		}
	case "sleep":
		time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
	case "close":
		w.kill("the node")
		w.c.Close()
	case "rclose":
		w.kill("the peer")
		w.rc.close()
	case "reset":
		w.kill("the network")
		w.net.ResetBetween(w.nodes[0].host, w.raw.host)
	}
}

func (w *n03World) stalled() bool { return simrt.Stalled() > 0 }

// list finds the request by its answer; requests of the list look all the same.
func (w *n03World) list(fs []cipher.PubKey, err error, t0, st0 int64) {
	t1 := simrt.SimNow()
	var fit *n03Call
	for _, q := range w.lists {
		if err == nil && len(fs) == 1 && fs[0] == q.feed || err != nil && err.Error() == q.err() {
			fit = q
		}
	}
	switch {
	case fit != nil:
		if fit.plan < 0 {
			w.fail("answer-twice", "the answer of request %d was given to two calls", fit.id)
		}
		w.check(fit, err, t0, st0)
		fit.plan = -1
	case err == nil:
		w.fail("wrong-answer", "RemoteFeeds returned %v, nobody sent this", fs)
	default:
		q := &n03Call{what: "list", plan: -2}
		if err != node.ErrTimeout && err != node.ErrClosed {
			q.sent = []n03Answer{{t1, "type"}}
		}
		w.check(q, err, t0, st0)
	}
}

func init() {
	real := []string{"node (connections, requests, transports)", "node/msg", "skyobject (preview, container)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network"}
	core.Register(&core.Scenario{Prop: "N03", Name: "client", Quick: 40000, Thor: 400000, Gen: n03Gen, Body: n03Body, Real: real, Stubs: stubs,
		Rule: "1-4 concurrent callers ask a scripted peer for subscriptions, feed lists, previews and objects; the peer answers at once, slowly, too late, never, twice, with errors, with another type, with responses nobody asked for, or closes; every call gets its own answer or the right error in time", Needed: []string{"preempt"}})
}
