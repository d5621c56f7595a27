package sc

import (
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"simrt"
	"simrt/simnet"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

// nRaw is a machine that speaks the protocol by script instead of running a node.
type nRaw struct {
	w    *nWorld
	i    int
	host string
	pr   *Proc
	pk   cipher.PubKey
	sk   cipher.SecKey
}

// newRaw makes a scripted machine.
func (w *nWorld) newRaw(i int) *nRaw {
	h := &nRaw{w: w, i: i, host: fmt.Sprintf("10.2.0.%d", i+1), pr: newProc(fmt.Sprintf("raw%d", i))}
	w.net.SetHost(h.pr.D, h.host)
	h.pk, h.sk = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 55})
	return h
}

// rConn is a connection of a scripted machine.
type rConn struct {
	h      *nRaw
	c      *simnet.Conn
	seq    uint32
	in     []wMsg
	closed bool
	deaf   bool     // does not read any more
	batch  []uint32 // requests to be answered together
	// every received message
	on func(m wMsg)
}

func (h *nRaw) conn(c *simnet.Conn, on func(r *rConn, m wMsg)) *rConn {
	r := &rConn{h: h, c: c}
	if on != nil {
		r.on = func(m wMsg) { on(r, m) }
	}
	simrt.GoIn(h.pr.D, "rawread", func() {
		for {
			if r.deaf {
				return
			}
			b, ok := c.Recv()
			if !ok {
				r.closed = true
				return
			}
			m, ok := wDec(b)
			if !ok {
				h.w.fail("wire", "a message of %d bytes from a node", len(b))
				continue
			}
			m.t = simrt.SimNow()
			m.raw = append([]byte{}, m.raw...)
			r.in = append(r.in, m)
			if r.on != nil {
				r.on(m)
			}
		}
	})
	return r
}

// dial a node.
func (h *nRaw) dial(addr string, udp bool, on func(r *rConn, m wMsg)) (r *rConn) {
	h.pr.Do("dial", func() {
		c, err := simnet.Dial(addr, udp)
		if err != nil {
			return
		}
		r = h.conn(c, on)
	})
	return
}

// serve the port.
func (h *nRaw) serve(port int, udp bool, on func(r *rConn, m wMsg)) (addr string) {
	addr = fmt.Sprintf("%s:%d", h.host, port)
	h.pr.Do("listen", func() {
		l, err := simnet.Listen(addr, udp)
		if err != nil {
			h.w.fail("listen", "%v", err)
			return
		}
		simrt.GoIn(h.pr.D, "rawserve", func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				h.conn(c, on)
			}
		})
	})
	return
}

// send a message; its seq.
func (r *rConn) send(rseq uint32, typ byte, body interface{}) uint32 {
	r.seq++
	seq := r.seq
	b := wEnc(seq, rseq, typ, body)
	r.raw(b)
	return seq
}

func (r *rConn) raw(b []byte) {
	r.h.pr.Do("rawsend", func() { r.c.Send(b) })
}

func (r *rConn) close() {
	r.h.pr.Do("rawclose", func() { r.c.Close() })
	r.closed = true
}

// later does something after the delay.
func (r *rConn) later(d time.Duration, f func()) {
	go func() {
		time.Sleep(d)
		f()
	}()
}

// reply to the request, nil when there is none yet.
func (r *rConn) reply(seq uint32) *wMsg {
	for i := range r.in {
		if r.in[i].rseq == seq {
			return &r.in[i]
		}
	}
	return nil
}

// hello makes the handshake of an outgoing connection.
func (r *rConn) hello(pk cipher.PubKey) bool {
	seq := r.send(0, wSyn, wSynMsg{3, pk})
	wait(r.h.w.rt+5*time.Second+3*r.h.w.slow(), func() bool { return r.closed || r.reply(seq) != nil })
	m := r.reply(seq)
	return m != nil && m.typ == wAck
}

// wire bodies
type wFeedMsg struct{ Feed cipher.PubKey }
type wKeyMsg struct{ Key cipher.SHA256 }
type wErrMsg struct{ Err string }
type wObjMsg struct{ Value []byte }
type wListMsg struct{ Feeds []cipher.PubKey }

func (m wMsg) key() (k cipher.SHA256) {
	if len(m.raw) >= len(k) {
		copy(k[:], m.raw)
	}
	return
}

// makeRoots builds n roots of a feed with all their objects, outside of any node.
func (w *nWorld) makeRoots(pk cipher.PubKey, sk cipher.SecKey, nonce uint64, n int, base, seed int64) (l []*tRemote) {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.Degree = registry.Degree(2 + seed%4)
	conf.DB = data.NewDB(cxds.NewMemoryCXDS(), idxdb.NewMemeoryDB())
	src, err := skyobject.NewContainer(conf)
	if err != nil {
		w.fail("open", "%v", err)
		return nil
	}
	defer src.Close()
	src.AddFeed(pk)
	r := simrt.NewRng(uint64(seed))
	root := &registry.Root{Pub: pk, Nonce: nonce, Descriptor: []byte("raw")}
	for i := 0; i < n; i++ {
		up, err := src.Unpack(sk, w.types.reg[seed%tRegs])
		if err != nil {
			w.fail("unpack", "%v", err)
			return nil
		}
		b := &tBuild{pack: up, r: r, base: base, left: 2 + r.N(6)}
		if root.Refs, err = b.dyns(root.Refs); err != nil {
			w.fail("build", "%v", err)
			return nil
		}
		if err = src.Save(up, root); err != nil {
			w.fail("save", "%v", err)
			return nil
		}
		up.Close()
		wk := newWalk(w.types, func(h cipher.SHA256) []byte {
			v, _, err := src.Get(h, 0)
			if err != nil {
				return nil
			}
			return v
		})
		wk.Root(root.Hash)
		if wk.bad != "" {
			w.fail("missing-after-save", "%s", wk.bad)
			return nil
		}
		l = append(l, &tRemote{pk: pk, sig: root.Sig, val: root.Encode(), hash: root.Hash, seq: root.Seq, objs: wk.all})
	}
	return
}
