package sc

import (
	"errors"
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node"
)

// nAsk is a request of a scripted client.
type nAsk struct {
	kind   string
	seq    uint32
	f      int
	key    cipher.SHA256
	at, st int64
	before int // last seq at the time of the request
	have   bool
}

func n03sGen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: nCfg(r, true)}
	c := p.Cfg
	c["resetp"], c["dialerr"], c["stallmax"] = 0, 0, pick(r, int64(50), 300)
	c["udp"], c["public"], c["feeds"] = int64(r.N(2)), int64(r.N(2)), int64(1+r.N(3))
	c["raws"] = int64(1 + r.N(3))
	kinds := swarm(r, []string{"sub", "unsub", "list", "obj", "obj", "miss", "prev", "peers", "sleep"})
	for cl := 0; cl < int(c["raws"]); cl++ {
		for i := 1 + r.N(12); i > 0; i-- {
			k := pick(r, kinds...)
			o := core.Op{C: cl, K: k, A: []int64{int64(r.N(100)), int64(r.N(1000))}}
			if k == "sleep" {
				o.A = []int64{int64(r.N(pick(r, 10, 1000, 8000)))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	for i := r.N(6); i > 0; i-- {
		p.Ops = append(p.Ops, core.Op{C: 4, K: pick(r, "publish", "publish", "store", "sleep"), A: []int64{int64(r.N(100)), int64(r.N(1000))}})
	}
	return p
}

const n03Late = 8 // objects that are not there at first

func n03sBody(p *core.Prog) {
	w := newNodes(p, 1, int(p.Cfg["feeds"]))
	nd := w.nodes[0]
	for _, f := range w.feeds {
		f.owner = 0
	}
	// the last feed is shared but nobody may subscribe to it
	closed := len(w.feeds) - 1
	nd.conf = func(c *node.Config) { c.Public = p.Cfg["public"] == 1 }
	nd.onEvent = func(e nEvent) error {
		if e.kind == "sub" && closed > 0 && w.feedOf(e.feed) == closed {
			return errors.New("rejected")
		}
		return nil
	}
	if !nd.ready() {
		return
	}
	stored := map[cipher.SHA256]int64{}
	pk, _ := cipher.GenerateDeterministicKeyPair([]byte{1, 2, 3}) // a feed the node does not have
	last := func(f int) int {
		if l := w.feeds[f].last(1); l != nil {
			return int(l.seq)
		}
		return -1
	}
	for i := range w.feeds {
		if (p.Cfg["salt"]+int64(i))%3 > 0 {
			nd.publish(i, 1, p.Cfg["salt"]+int64(i))
		}
	}
	type client struct {
		rc   *rConn
		asks []*nAsk
	}
	var cs []*client
	core.Phase("connect")
	for i := 0; i < int(p.Cfg["raws"]); i++ {
		c := &client{}
		h := w.newRaw(i)
		a := nd.tcp()
		if p.Cfg["udp"] == 1 {
			a = nd.udp()
		}
		for j := 0; j < 10; j++ {
			if c.rc = h.dial(a, p.Cfg["udp"] == 1, nil); c.rc != nil && c.rc.hello(h.pk) {
				break
			}
		}
		cs = append(cs, c)
	}
	if core.Failed() {
		return
	}
	core.Phase("work")
	busy := map[int]bool{}
	lateKey := func(n int64) ([]byte, cipher.SHA256) {
		v := payload(5000+n%n03Late, 24)
		return v, cipher.SumSHA256(v)
	}
	w.clients(func(cl int, o core.Op) {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		f := int(o.Arg(0)) % len(w.feeds)
		if cl == 4 {
			switch o.K {
			case "publish":
				if !busy[f] {
					busy[f] = true
					nd.publish(f, 1, o.Arg(1))
					busy[f] = false
				}
			case "store":
				v, k := lateKey(o.Arg(0))
				nd.do("store", func(n *node.Node) {
					if _, err := n.Container().Set(k, v, 1); err != nil {
						w.fail("set", "%v", err)
					}
				})
				if stored[k] == 0 {
					stored[k] = simrt.SimNow()
				}
			}
			return
		}
		c := cs[cl]
		q := &nAsk{kind: o.K, f: f, at: simrt.SimNow(), st: int64(simrt.Stalled()), before: last(f)}
		feed := w.feeds[f].pk
		if o.Arg(1)%5 == 0 {
			feed, q.f = pk, -1
		}
		switch o.K {
		case "sub":
			q.seq = c.rc.send(0, wSub, wFeedMsg{feed})
		case "unsub":
			c.rc.send(0, wUnsub, wFeedMsg{feed})
			return
		case "list":
			q.seq = c.rc.send(0, wRqList, nil)
		case "prev":
			q.seq = c.rc.send(0, wRqPreview, wFeedMsg{feed})
		case "peers":
			q.seq = c.rc.send(0, wRqPeers, wFeedMsg{feed})
		case "miss":
			_, q.key = lateKey(o.Arg(0))
			q.seq = c.rc.send(0, wRqObject, wKeyMsg{q.key})
		case "obj":
			if l := w.feeds[f].last(1); l != nil {
				q.key, q.have = l.hash, true
			} else {
				_, q.key = lateKey(o.Arg(1))
			}
			q.seq = c.rc.send(0, wRqObject, wKeyMsg{q.key})
		}
		c.asks = append(c.asks, q)
	})
	if core.Failed() {
		return
	}
	core.Phase("answers")
	w.calm()
	time.Sleep(w.rt + 3*time.Second + 4*w.slow())
	for i, c := range cs {
		if c.rc.closed {
			w.fail("lost-connection", "the node closed the connection of client %d", i)
			return
		}
		left := map[uint32]*nAsk{}
		for _, q := range c.asks {
			left[q.seq] = q
		}
		for _, m := range c.rc.in {
			if m.rseq == 0 {
				if m.typ != wRoot && m.typ != wUnsub {
					w.fail("unasked", "client %d got message %d nobody asked for", i, m.typ)
				}
				continue
			}
			if m.typ == wAck {
				continue
			}
			q := left[m.rseq]
			if q == nil {
				w.fail("answer-twice", "client %d got answer %d to request %d, which is answered already or never existed", i, m.typ, m.rseq)
				return
			}
			delete(left, m.rseq)
			d := m.t - q.at
			slack := int64(time.Second) + 3*int64(w.slow()) + 2*(int64(simrt.Stalled())-q.st)
			what := fmt.Sprintf("client %d: %s (feed %d), asked at %.3f, answered at %.3f with %d %q", i, q.kind, q.f, float64(q.at)/1e9, float64(m.t)/1e9, m.typ, m.err())
			max := slack
			okay := false
			switch q.kind {
			case "sub":
				if q.f < 0 || closed > 0 && q.f == closed {
					okay = m.typ == wErr
				} else {
					okay = m.typ == wOk
				}
			case "list":
				if p.Cfg["public"] == 1 {
					okay = m.typ == wList && len(m.raw) == 4+33*len(w.feeds)
				} else {
					okay = m.typ == wErr && m.err() == node.ErrNotPublic.Error()
				}
			case "prev":
				if m.typ == wErr {
					okay = q.f < 0 || q.before < 0
				} else if r, ok := m.root(); ok && q.f >= 0 {
					fd := w.feeds[q.f]
					x := fd.find(cipher.SumSHA256(r.Value))
					okay = r.Feed == fd.pk && x != nil && r.Sig == x.sig && r.Seq == x.seq && int(r.Seq) >= q.before
				}
			case "peers":
				okay = m.typ == wErr
			case "obj", "miss":
				max += int64(w.rt)
				switch m.typ {
				case wErr:
					okay = !q.have && m.err() == node.ErrTimeout.Error()
					if okay && d < int64(w.rt) {
						w.fail("early-error", "%s", what)
					}
					if s := stored[q.key]; s != 0 && s+slack < q.at+int64(w.rt) {
						w.fail("missed-object", "the object came at %.3f: %s", float64(s)/1e9, what)
					}
				case wObject:
					var v wObjMsg
					okay = objBody(m.raw, &v) && cipher.SumSHA256(v.Value) == q.key
				}
			}
			if !okay {
				w.fail("wrong-answer", "%s", what)
				return
			}
			if d > max {
				w.fail("late-answer", "%s", what)
				return
			}
		}
		for _, q := range left {
			w.fail("no-answer", "client %d: %s (feed %d), asked at %.3f, was never answered", i, q.kind, q.f, float64(q.at)/1e9)
			return
		}
	}
	core.Phase("close")
	w.stop()
}

func objBody(raw []byte, v *wObjMsg) bool {
	if len(raw) < 4 {
		return false
	}
	n := int(raw[0]) | int(raw[1])<<8 | int(raw[2])<<16 | int(raw[3])<<24
	if n != len(raw)-4 {
		return false
	}
	v.Value = raw[4:]
	return true
}

func init() {
	real := []string{"node (connections, requests, subscriptions, transports)", "node/msg", "skyobject (container, cache)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network"}
	core.Register(&core.Scenario{Prop: "N03", Name: "server", Quick: 25000, Thor: 300000, Gen: n03sGen, Body: n03sBody, Real: real, Stubs: stubs,
		Rule: "1-3 scripted clients send requests of all kinds without waiting while the node publishes and stores objects; every request gets exactly one answer, the right one, in time", Needed: []string{"preempt"}})
}
