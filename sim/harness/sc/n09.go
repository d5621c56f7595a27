package sc

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simnet"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"
)

// spoil changes some bytes.
func spoil(r *simrt.Rng, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.N(3); n > 0; n-- {
		switch r.N(6) {
		case 0:
			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << r.N(8)
			}
		case 1:
			if len(b) > 0 {
				b = b[:r.N(len(b))]
			}
		case 2:
			for i := r.N(12); i >= 0; i-- {
				b = append(b, byte(r.N(256)))
			}
		case 3: // a length or a number
			if len(b) >= 4 {
				i := r.N(len(b) - 3)
				v := pick(r, uint32(0), 1, 2, 255, 1<<16, 1<<31, 1<<32-1, 1<<31-1)
				b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
			}
		case 4:
			if len(b) > 0 {
				i := r.N(len(b))
				j := i + r.N(len(b)-i)
				b = append(b[:i:i], b[j:]...)
			}
		case 5:
			if len(b) > 0 {
				i := r.N(len(b))
				j := i + r.N(len(b)-i)
				b = append(b[:j:j], b[i:]...)
			}
		}
	}
	return b
}

func randMsg(r *simrt.Rng) msg.Msg {
	pk := func() (k cipher.PubKey) {
		if r.N(5) > 0 {
			for i := range k {
				k[i] = byte(r.N(256))
			}
		}
		return
	}
	bs := func() []byte {
		n := pick(r, 0, 1, 5, 40, 300)
		if n == 0 && r.N(2) == 0 {
			return nil
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	}
	u64 := func() uint64 { return pick(r, uint64(0), 1, 1<<63, 1<<64-1, uint64(r.N(1<<62))) }
	switch 1 + r.N(16) {
	case 1:
		return &msg.Ping{}
	case 2:
		return &msg.Pong{}
	case 3:
		return &msg.Syn{Protocol: uint16(u64()), NodeID: pk()}
	case 4:
		return &msg.Ack{NodeID: pk()}
	case 5:
		return &msg.Ok{}
	case 6:
		return &msg.Err{Err: string(bs())}
	case 7:
		return &msg.Sub{Feed: pk()}
	case 8:
		return &msg.Unsub{Feed: pk()}
	case 9:
		return &msg.RqList{}
	case 10:
		m := &msg.List{}
		for i := r.N(5); i > 0; i-- {
			m.Feeds = append(m.Feeds, pk())
		}
		return m
	case 11:
		m := &msg.Root{Feed: pk(), Nonce: u64(), Seq: u64(), Value: bs()}
		for i := range m.Sig {
			m.Sig[i] = byte(r.N(256))
		}
		return m
	case 12:
		m := &msg.RqObject{}
		for i := range m.Key {
			m.Key[i] = byte(r.N(256))
		}
		return m
	case 13:
		return &msg.Object{Value: bs()}
	case 14:
		return &msg.RqPreview{Feed: pk()}
	case 15:
		return &msg.RqPeers{Feed: pk()}
	}
	m := &msg.Peers{Feed: pk()}
	for i := r.N(4); i > 0; i-- {
		m.List = append(m.List, msg.PeerInfo{PubKey: pk(), Metadata: bs(), TCPAddr: string(bs()), UDPAddr: string(bs())})
	}
	return m
}

// same, but nil and empty are the same
func sameMsg(a, b msg.Msg) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && fmt.Sprintf("%#v", norm(reflect.ValueOf(a))) == fmt.Sprintf("%#v", norm(reflect.ValueOf(b)))
}

func norm(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr:
		return norm(v.Elem())
	case reflect.Struct:
		var l []any
		for i := 0; i < v.NumField(); i++ {
			l = append(l, norm(v.Field(i)))
		}
		return l
	case reflect.Slice, reflect.Array:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, norm(v.Index(i)))
		}
		return l
	}
	return v.Interface()
}

func codecGen(r *simrt.Rng) *core.Prog {
	return &core.Prog{Cfg: map[string]int64{"seed": int64(r.N(1 << 40))}}
}

func codecBody(p *core.Prog) {
	r := simrt.NewRng(uint64(p.Cfg["seed"]))
	for i := 0; i < 40; i++ {
		m := randMsg(r)
		b := m.Encode()
		if len(b) == 0 || b[0] != byte(m.Type()) {
			fail("encode", "the encoding of %T does not start with its type", m)
			return
		}
		x, err := msg.Decode(b)
		if err != nil || !sameMsg(m, x) {
			fail("round-trip", "%#v\nbecomes %#v, %v", m, x, err)
			return
		}
		// whatever comes, a message or an error
		c := spoil(r, b)
		if r.N(10) == 0 {
			c = []byte{byte(r.N(256))}
		}
		x, err = msg.Decode(c)
		if (x == nil) == (err == nil) {
			fail("decode", "Decode of %x gives %v, %v", c, x, err)
			return
		}
		if err == nil {
			if len(c) == 0 || c[0] != byte(x.Type()) {
				fail("decode-type", "Decode of %x gives a message of type %v", c, x.Type())
				return
			}
			if y, err := msg.Decode(x.Encode()); err != nil || !sameMsg(x, y) {
				fail("round-trip", "%#v\nbecomes %#v, %v", x, y, err)
				return
			}
		}
	}
}

// badTree makes a valid root of feed 2 with spoilt content.
func (x *hPeer) badTree(d int64) {
	w := x.hWorld
	r := simrt.NewRng(uint64(d))
	l := w.pool[2]
	t := l[int(d)%len(l)]
	for i := 0; t.objs == nil; i++ {
		t = l[i%len(l)]
	}
	var keys []cipher.SHA256
	for k := range t.objs {
		if k != t.hash {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	if len(keys) == 0 {
		return
	}
	target := keys[r.N(len(keys))]
	dr, err := registry.DecodeRoot(t.val)
	if err != nil {
		return
	}
	if r.N(3) == 0 {
		target = cipher.SHA256(dr.Reg)
	}
	done := map[cipher.SHA256]cipher.SHA256{}
	var fresh func(k cipher.SHA256) cipher.SHA256
	change := func(b []byte) []byte {
		for _, k := range keys {
			if bytes.Contains(b, k[:]) {
				n := fresh(k)
				b = bytes.ReplaceAll(b, k[:], n[:])
			}
		}
		return b
	}
	fresh = func(k cipher.SHA256) cipher.SHA256 {
		if n, ok := done[k]; ok {
			return n
		}
		b := t.objs[k]
		if k == target {
			b = spoil(r, b)
		} else {
			b = change(b)
		}
		n := cipher.SumSHA256(b)
		done[k] = n
		w.addObj(n, b)
		return n
	}
	dr.Seq += uint64(1 + r.N(3))
	dr.Prev = t.hash
	v := dr.Encode()
	v = change(v)
	switch r.N(5) {
	case 0:
		v = spoil(r, v)
	case 1: // a registry that is something else
		if o, err := registry.DecodeRoot(v); err == nil {
			o.Reg = registry.RegistryRef(keys[r.N(len(keys))])
			v = o.Encode()
		}
	}
	if r.N(4) == 0 { // what it refers to is something else
		if o, err := registry.DecodeRoot(v); err == nil && len(o.Refs) > 0 {
			i := r.N(len(o.Refs))
			switch r.N(3) {
			case 0:
				o.Refs[i].Hash = keys[r.N(len(keys))]
			case 1:
				o.Refs[i].Schema = registry.SchemaRef(keys[r.N(len(keys))])
			case 2:
				o.Refs[i].Schema = registry.SchemaRef{}
			}
			v = o.Encode()
		}
	}
	h := cipher.SumSHA256(v)
	sig, _ := cipher.SignHash(h, w.feeds[2].sk)
	w.note("hostile %d pushes a spoilt tree %d", x.i, d)
	x.rc.send(0, wRoot, wRootMsg{Feed: w.feeds[2].pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: v, Sig: sig})
}

func n09Body(p *core.Prog) {
	w, base := hStart(p)
	if w == nil || core.Failed() {
		return
	}
	for _, x := range w.peers { // no answers beside the ones to requests
		x := x
		x.rc.on = func(m wMsg) { x.answer(x.rc, m) }
	}
	core.Phase("work")
	w.clients(func(cl int, o core.Op) {
		if o.K == "sleep" {
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			return
		}
		if cl >= len(w.peers) {
			w.honestOp(o)
			return
		}
		x := w.peers[cl]
		if x.rc.closed {
			if !x.open() {
				return
			}
		}
		f, i, mut, d := int(o.Arg(0)), int(o.Arg(1)), int(o.Arg(2)), o.Arg(3)
		r := simrt.NewRng(uint64(d))
		hdr := func(rseq uint32, body []byte) []byte {
			x.rc.seq++
			return append(wEnc(x.rc.seq, rseq, 0, nil)[:8], body...)
		}
		w.note("hostile %d: %s %v", x.i, o.K, o.A)
		switch o.K {
		case "bytes":
			b := make([]byte, r.N(60))
			for i := range b {
				b[i] = byte(r.N(256))
			}
			x.rc.raw(b)
		case "fuzz", "spoil", "odd":
			m := randMsg(r)
			// of the feeds and objects that matter
			switch y := m.(type) {
			case *msg.Sub:
				y.Feed = w.feeds[f].pk
			case *msg.Unsub:
				y.Feed = w.feeds[f].pk
			case *msg.RqPreview:
				y.Feed = w.feeds[f].pk
			case *msg.RqPeers:
				y.Feed = w.feeds[f].pk
			case *msg.Peers:
				y.Feed = w.feeds[f].pk
			case *msg.Root:
				y.Feed = w.feeds[f].pk
			case *msg.RqObject:
				y.Key = w.keys[i%len(w.keys)]
			}
			b := m.Encode()
			rseq := uint32(pick(r, 0, 0, 1, 2, 5, 1<<31, r.N(40)))
			switch o.K {
			case "spoil":
				b = spoil(r, b)
			case "fuzz":
				b = b[:1]
				for j := r.N(80); j > 0; j-- {
					b = append(b, byte(r.N(256)))
				}
			}
			x.rc.raw(hdr(rseq, b))
		case "pre": // before the handshake
			rc := x.raw.dial(w.v.tcp(), false, nil)
			if rc == nil {
				return
			}
			x.all = append(x.all, rc)
			other, _ := cipher.GenerateDeterministicKeyPair([]byte{byte(cl), byte(len(x.all)), 45})
			for j := 1 + r.N(3); j > 0; j-- {
				switch r.N(3) {
				case 0:
					rc.raw(hdr(0, randMsg(r).Encode()))
				case 1:
					b := make([]byte, r.N(60))
					rc.raw(b)
				case 2:
					rc.raw(hdr(0, spoil(r, (&msg.Syn{Protocol: 3, NodeID: other}).Encode())))
				}
			}
		case "flood":
			for j := 20 + r.N(200); j > 0 && !x.rc.closed; j-- {
				switch mut % 6 {
				case 0:
					x.rc.send(0, wRqList, nil)
				case 1:
					x.rc.send(0, wRqObject, wKeyMsg{w.keys[j%len(w.keys)]})
				case 2:
					x.rc.send(0, wRqPreview, wFeedMsg{w.feeds[j%3].pk})
				case 3:
					x.rc.send(0, wSub, wFeedMsg{w.feeds[j%3].pk})
				case 4:
					x.rc.send(0, wUnsub, wFeedMsg{w.feeds[j%3].pk})
					x.rc.send(0, wSub, wFeedMsg{w.feeds[j%3].pk})
				case 5: // objects nobody has
					x.rc.send(0, wRqObject, wKeyMsg{cipher.SumSHA256([]byte{byte(j), byte(d)})})
				}
			}
		case "deaf": // never reads
			var c *simnet.Conn
			var err error
			few := r.N(150)
			typ, body := byte(wRqObject), any(nil)
			if r.N(12) == 0 {
				few, typ = 4300, wRqList
			}
			pk, _ := cipher.GenerateDeterministicKeyPair([]byte{byte(cl), byte(len(x.all)), 44})
			x.raw.pr.Do("dial", func() {
				if c, err = simnet.Dial(w.v.tcp(), false); err != nil {
					return
				}
				c.Send(wEnc(1, 0, wSyn, wSynMsg{3, pk}))
				time.Sleep(w.slow())
				c.Send(wEnc(2, 0, wSub, wFeedMsg{w.feeds[0].pk}))
				go func() {
					for j := few; j > 0; j-- {
						if typ == wRqObject {
							body = wKeyMsg{w.keys[j%len(w.keys)]}
						}
						if c.Send(wEnc(uint32(j+3), 0, typ, body)) != nil {
							return
						}
					}
				}()
			})
			if err == nil {
				x.all = append(x.all, &rConn{h: x.raw, c: c})
			}
		case "tree":
			x.badTree(d)
		case "root":
			x.push(f, i, mut, d)
		case "vask":
			x.vask(f, i)
		case "policy":
			x.policy = i
		case "redial":
			x.open()
		case "leave":
			x.rc.close()
		}
	})
	if core.Failed() || !w.settle(base) {
		return
	}
	core.Phase("close")
	w.stop()
}

// answer is see without answers to subscriptions.
func (x *hPeer) answer(rc *rConn, m wMsg) {
	switch m.typ {
	case wRqObject:
		x.object(rc, m)
	case wSub, wRqList, wRqPreview:
		x.odd(rc, m)
	}
}

// odd answers a request of the victim with anything, at any time.
func (x *hPeer) odd(rc *rConn, m wMsg) {
	w := x.hWorld
	good := func() {
		switch m.typ {
		case wSub:
			rc.send(m.seq, wOk, nil)
		case wRqList:
			rc.send(m.seq, wList, wListMsg{[]cipher.PubKey{w.feeds[0].pk, w.feeds[2].pk, {}}})
		case wRqPreview:
			t := w.pool[2][x.r.N(len(w.pool[2]))]
			dr, _ := registry.DecodeRoot(t.val)
			rc.send(m.seq, wRoot, wRootMsg{Feed: w.feeds[2].pk, Nonce: dr.Nonce, Seq: dr.Seq, Value: t.val, Sig: t.sig})
		}
	}
	other := func() {
		b := randMsg(x.r).Encode()
		if x.r.N(4) == 0 {
			b = spoil(x.r, b)
		}
		rc.seq++
		rc.raw(append(wEnc(rc.seq, m.seq, 0, nil)[:8], b...))
	}
	switch x.r.N(9) {
	case 0, 1, 2:
		good()
	case 3: // nothing
	case 4:
		good()
		good()
		good()
	case 5:
		rc.later(w.rt+time.Duration(x.r.N(1000))*time.Millisecond, good)
	case 6:
		other()
	case 7:
		other()
		good()
		other()
	case 8:
		rc.send(m.seq, wErr, wErrMsg{"no"})
		good()
	}
}

// vask makes the victim ask the peer.
func (x *hPeer) vask(f, how int) {
	w := x.hWorld
	simrt.GoIn(w.v.pr.D, "vask", func() {
		for _, c := range w.v.n.Connections() {
			if c.PeerID() != x.raw.pk {
				continue
			}
			switch how % 6 {
			case 0, 1:
				c.Subscribe(w.feeds[f].pk)
			case 2:
				c.Subscribe(w.feeds[f].pk)
				c.Unsubscribe(w.feeds[f].pk)
			case 3:
				c.RemoteFeeds()
			case 4, 5:
				c.Preview(w.feeds[f].pk, func(pack registry.Pack, r *registry.Root) bool {
					r.Tree(pack)
					r.Walk(pack, func(hash cipher.SHA256, depth int) (bool, error) { return true, nil })
					return how == 5
				})
			}
		}
	})
}

func init() {
	real := []string{"node", "node/msg", "skyobject", "data (memory)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "hostile peers (scripts)"}
	kinds := []string{"bytes", "fuzz", "spoil", "odd", "odd", "pre", "flood", "deaf", "tree", "tree", "root", "vask", "vask", "policy", "redial", "leave"}
	gen := hGen(kinds)
	core.Register(&core.Scenario{Prop: "N09", Name: "codec", Quick: 20000, Thor: 1000000, Gen: codecGen, Body: codecBody, Real: []string{"node/msg"}, Stubs: []string{"encoder", "cipher"},
		Rule: "random messages of all types survive encoding and decoding; spoilt encodings give a message, which again survives, or an error"})
	core.Register(&core.Scenario{Prop: "N09", Name: "garbage", Quick: 6000, Thor: 60000, Gen: func(r *simrt.Rng) *core.Prog {
		p := gen(r)
		p.Cfg["window"] = pick(r, int64(0), 0, 4, 16)
		return p
	}, Body: n09Body, Real: real, Stubs: stubs,
		Rule: "1-2 hostile peers send random bytes, spoilt and odd messages in any state, garbage before the handshake, floods of requests, do not read, push validly signed roots with spoilt registries and trees and answer requests with anything, while honest nodes publish and ask; nothing crashes or wedges, honest connections and feeds go on, no goroutine or connection is left over", Needed: []string{"preempt"}})
}
