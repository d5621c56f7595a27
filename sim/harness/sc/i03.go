package sc

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

const (
	twClients = 3
	twHeads   = 2
)

// tRemote is a root made elsewhere with all its objects.
type tRemote struct {
	pk   cipher.PubKey
	sig  cipher.Sig
	val  []byte
	hash cipher.SHA256
	seq  uint64
	big  bool // has an object that is too large for the container
	objs map[cipher.SHA256][]byte
}

// tWorld is a container with its users.
type tWorld struct {
	p     *core.Prog
	types *tTypes
	pb    *probe
	px    *probeIdx
	c     *skyobject.Container
	conf  *skyobject.Config
	// feeds: one per client, then the remote feed of each client
	pk  [2 * twClients]cipher.PubKey
	sk  [2 * twClients]cipher.SecKey
	rem [twClients][]*tRemote
	par bool // several clients
	log []string
	dir string   // files are kept here
	sig string   // of a failure to open
	m   *twModel // what was acknowledged
}

func (w *tWorld) note(f string, a ...any) {
	if len(w.log) < 200 {
		w.log = append(w.log, fmt.Sprintf(f, a...))
	}
}

func (w *tWorld) fail(sig, f string, a ...any) {
	fail(sig, "%s\n  %s", fmt.Sprintf(f, a...), strings.Join(w.log, "\n  "))
}

func (w *tWorld) nonce(h int64) uint64 { return uint64(1 + h%twHeads) }

// base of the contents of a client
func (w *tWorld) base(c int, remote bool) int64 {
	if w.p.Cfg["share"] == 1 {
		return 1
	}
	if remote {
		return int64(10 + c)
	}
	return int64(1 + c)
}

func (w *tWorld) feed(c int, f int64) int {
	if w.p.Cfg["share"] == 1 {
		return int(f) % twClients
	}
	if w.par {
		return c
	}
	return int(f) % 2
}

func twConf(p *core.Prog) *skyobject.Config {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.MaxObjectSize = 8192
	conf.Degree = registry.Degree(2 + p.Cfg["degree"]%4)
	switch p.Cfg["cache"] {
	case 0:
		conf.CacheMaxAmount = 0
	case 1:
		conf.CacheMaxAmount = 1 + int(p.Cfg["amount"])
		conf.CacheMaxVolume = 600
		conf.CacheMaxItemSize = 200
		conf.CacheCleaning = 0.5
	}
	if p.Cfg["lfu"] == 1 {
		conf.CachePolicy = skyobject.LFU
	}
	conf.CacheRegistries = int(p.Cfg["regs"])
	return conf
}

func (w *tWorld) open() bool {
	conf := twConf(w.p)
	if w.dir == "" {
		conf.DB = data.NewDB(w.pb, w.px)
	} else {
		conf.DataDir = w.dir
	}
	var err error
	if w.c, err = skyobject.NewContainer(conf); err != nil {
		if w.sig == "" {
			w.sig = "open"
		}
		w.fail(w.sig, "NewContainer: %v", err)
		w.c = nil
		return false
	}
	w.conf = conf
	if w.dir != "" {
		w.pb = newProbe(w.c.DB().CXDS(), true)
		w.px = &probeIdx{IdxDB: w.c.DB().IdxDB(), keep: true}
	}
	return true
}

func (w *tWorld) start() bool {
	w.types = newTypes()
	w.pb = newProbe(cxds.NewMemoryCXDS(), true)
	w.px = &probeIdx{IdxDB: idxdb.NewMemeoryDB(), keep: true}
	for i := range w.pk {
		w.pk[i], w.sk[i] = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 9})
	}
	if !w.open() {
		return false
	}
	for i := range w.pk {
		if err := w.c.AddFeed(w.pk[i]); err != nil {
			w.fail("add-feed", "%v", err)
		}
	}
	return true
}

// makeRemotes builds roots in another container.
func (w *tWorld) makeRemotes(c int, n int) bool {
	pb := newProbe(cxds.NewMemoryCXDS(), true)
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.Degree = registry.Degree(2 + w.p.Cfg["degree"]%4)
	conf.DB = data.NewDB(pb, idxdb.NewMemeoryDB())
	src, err := skyobject.NewContainer(conf)
	if err != nil {
		w.fail("open", "%v", err)
		return false
	}
	defer src.Close()
	f := twClients + c
	src.AddFeed(w.pk[f])
	r := simrt.NewRng(uint64(w.p.Cfg["salt"]*10 + int64(c)))
	var root *registry.Root
	for i := 0; i < n; i++ {
		up, err := src.Unpack(w.sk[f], w.types.reg[w.p.Cfg["salt"]%tRegs])
		if err != nil {
			w.fail("unpack", "%v", err)
			return false
		}
		if root == nil {
			root = &registry.Root{Pub: w.pk[f], Nonce: w.nonce(0), Descriptor: []byte("remote")}
		}
		b := &tBuild{pack: up, r: r, base: w.base(c, true), left: 8}
		if root.Refs, err = b.dyns(root.Refs); err != nil {
			w.fail("build", "%v", err)
			return false
		}
		big := i == n-1 && w.p.Cfg["big"] == 1
		if big {
			var d registry.Dynamic
			d.Schema = w.types.schema(up.Registry(), "TLeaf")
			if err = d.SetValue(up, &TLeaf{N: 0xFEED7777, Pad: make([]byte, 9000)}); err != nil {
				w.fail("build", "%v", err)
				return false
			}
			root.Refs = append(root.Refs, d)
		}
		if err = src.Save(up, root); err != nil {
			w.fail("save", "%v", err)
			return false
		}
		up.Close()
		wk := newWalk(w.types, func(h cipher.SHA256) []byte {
			v, _, err := src.Get(h, 0)
			if err != nil {
				return nil
			}
			return v
		})
		wk.Root(root.Hash)
		if wk.bad != "" {
			w.fail("missing-after-save", "%s", wk.bad)
			return false
		}
		w.rem[c] = append(w.rem[c], &tRemote{pk: w.pk[f], sig: root.Sig, val: root.Encode(), hash: root.Hash, seq: root.Seq, objs: wk.all, big: big})
	}
	return true
}

// dyns makes or changes the references of a root.
func (b *tBuild) dyns(l []registry.Dynamic) (out []registry.Dynamic, err error) {
	out = append(out, l...)
	if len(out) == 0 || b.r.N(3) == 0 {
		var d registry.Dynamic
		if d, err = b.dyn(2); err != nil {
			return
		}
		if len(out) >= 3 {
			out[b.r.N(len(out))] = d
		} else {
			out = append(out, d)
		}
		return
	}
	if b.r.N(4) == 0 {
		return out[1:], nil
	}
	i := b.r.N(len(out))
	var n TNode
	s, e := b.pack.Registry().SchemaByName("TNode")
	if e != nil {
		return nil, e
	}
	if out[i].Schema != s.Reference() || out[i].Hash == (cipher.SHA256{}) {
		out[i], err = b.dyn(2)
		return
	}
	if err = out[i].Value(b.pack, &n); err != nil {
		return
	}
	for k := 1 + b.r.N(2); k > 0 && err == nil; k-- {
		err = b.change(&n)
	}
	if err == nil {
		err = out[i].SetValue(b.pack, &n)
	}
	return
}

func (w *tWorld) save(c int, o core.Op) {
	f := w.feed(c, o.Arg(0))
	nonce := w.nonce(o.Arg(1))
	mode := o.Arg(3)
	r := simrt.NewRng(uint64(o.Arg(2)))
	var x *registry.Root
	var err error
	reg := w.types.reg[o.Arg(4)%tRegs]
	if mode != 1 {
		if x, err = w.c.LastRoot(w.pk[f], nonce); err != nil {
			x = nil
		}
	}
	if x == nil {
		x = &registry.Root{Pub: w.pk[f], Nonce: nonce}
	} else {
		for _, rg := range w.types.reg {
			if rg.Reference() == x.Reg {
				reg = rg
			}
		}
	}
	up, err := w.c.Unpack(w.sk[f], reg)
	if err != nil {
		w.fail("unpack", "%v", err)
		return
	}
	defer func() {
		if err := up.Close(); err != nil {
			w.fail("unpack-close", "closing an Unpack: %v", err)
		}
	}()
	b := &tBuild{pack: up, r: r, base: w.base(c, false), left: 8}
	was := x.Hash
	for k := 1 + r.N(2); k > 0; k-- {
		if x.Refs, err = b.dyns(x.Refs); err != nil {
			w.note("client %d: %v: building: %v", c, o, err)
			if !w.par || err != data.ErrNotFound {
				w.fail("build", "making the objects of a root: %v", err)
			}
			return
		}
	}
	if r.N(4) == 0 && len(x.Refs) > 0 { // twice the same
		x.Refs = append(x.Refs, x.Refs[0])
	}
	if r.N(3) == 0 { // not used
		if _, err = up.Add([]byte(fmt.Sprintf("unused %d", r.N(3)))); err != nil {
			w.fail("build", "Add: %v", err)
		}
	}
	switch mode {
	case 3:
		if o.Arg(5)%2 == 0 {
			time.Sleep(time.Duration(r.N(3000)) * time.Millisecond)
		}
		w.note("client %d: built on %s and closed without saving", c, was.Hex()[:7])
		return
	case 4:
		x.Refs = append(x.Refs, registry.Dynamic{Schema: w.types.schema(reg, "TLeaf"), Hash: cipher.SumSHA256([]byte("missing"))})
	}
	if w.m != nil {
		w.m.begin(f, twPend{kind: "save", nonce: nonce, seq: w.m.f[f].next(nonce)})
	}
	err = w.c.Save(up, x)
	w.saved(f, x, err)
	w.note("client %d: saved %s head %d on %s: %s %v", c, x.Short(), nonce, was.Hex()[:7], x.Hash.Hex()[:7], err)
	switch {
	case mode == 4 && err == nil:
		w.fail("save-of-missing", "Save succeeded though an object of the root does not exist")
	case mode == 4:
	case err != nil && (!w.par || err != data.ErrNotFound && err != data.ErrNoSuchFeed):
		w.fail("save", "Save: %v", err)
	case err == nil && o.Arg(5)%3 == 0: // one more with the same Unpack
		x.Descriptor = []byte("again")
		if w.m != nil {
			w.m.begin(f, twPend{kind: "save", nonce: nonce, seq: w.m.f[f].next(nonce)})
		}
		err = w.c.Save(up, x)
		w.saved(f, x, err)
		w.note("client %d: saved again %s: %s %v", c, x.Short(), x.Hash.Hex()[:7], err)
		if err != nil && !w.par {
			w.fail("save", "Save: %v", err)
		}
	}
}

func (w *tWorld) saved(f int, x *registry.Root, err error) {
	if w.m == nil {
		return
	}
	if err == nil && x.Seq != w.m.pend[f].seq {
		w.fail("seq", "saved root has seq %d, must be %d", x.Seq, w.m.pend[f].seq)
	}
	w.m.pend[f].hash = x.Hash
	w.m.end(f, err == nil)
}

// fill a remote root; what peers do is decided by the mode.
func (w *tWorld) fill(c int, o core.Op) {
	l := w.rem[c]
	if w.p.Cfg["share"] == 1 {
		l = w.rem[0]
	}
	if len(l) == 0 {
		return
	}
	rm := l[int(o.Arg(0))%len(l)]
	mode := o.Arg(1)
	max := int(o.Arg(2))
	rg := simrt.NewRng(uint64(o.Arg(3)))
	had := false
	if x, err := w.c.Root(rm.pk, w.nonce(0), rm.seq); err == nil && x.Hash == rm.hash {
		had = true
	}
	r, err := w.c.ReceivedRoot(rm.pk, rm.sig, rm.val)
	if err != nil {
		w.note("client %d: ReceivedRoot: %v", c, err)
		if !w.par || err != data.ErrNoSuchFeed {
			w.fail("received-root", "ReceivedRoot of a valid root: %v", err)
		}
		return
	}
	if r.IsFull != had && !w.par {
		w.fail("received-root", "ReceivedRoot: IsFull is %v, in the index: %v", r.IsFull, had)
	}
	if r.IsFull && o.Arg(4)%2 == 0 {
		return // as nodes do
	}
	r.IsFull = false
	lost := map[cipher.SHA256]bool{}
	if mode == 1 {
		var keys []string
		for h := range rm.objs {
			keys = append(keys, h.Hex())
		}
		sort.Strings(keys)
		for i := 1 + rg.N(2); i > 0; i-- {
			h, _ := cipher.SHA256FromHex(keys[rg.N(len(keys))])
			lost[h] = true
		}
	}
	rq := make(chan cipher.SHA256, rg.N(3))
	buf := cap(rq)
	rf := twClients + c
	w.m.begin(rf, twPend{kind: "fill", nonce: w.nonce(0), seq: rm.seq, hash: rm.hash})
	f := w.c.Fill(r, rq, max)
	over := make(chan struct{})
	removed := false
	var ended bool
	var ret error
	go func() {
		ret = f.Run()
		ended = true
		close(over)
	}()
	failing := rm.big && w.par      // can fail before it asks for the large object
	out := map[cipher.SHA256]bool{} // requested, not delivered
	lat := 1 + rg.N(2000)
	now := make(chan struct{}, 1) // close now
	nth := -1
	var failedAt time.Time
	var failStalled time.Duration
	deliver := func(h cipher.SHA256, d int) {
		val, ok := rm.objs[h]
		if !ok {
			w.fail("strange-request", "the filler asks for %s, which is no part of the root", h.Hex()[:7])
			return
		}
		time.Sleep(time.Duration(d) * time.Millisecond)
		if nth--; nth == 0 {
			now <- struct{}{}
			if rg.N(2) == 0 {
				simrt.Gosched()
			}
		}
		if _, err := w.c.SetWanted(h, append([]byte{}, val...)); err != nil {
			if failedAt.IsZero() {
				failedAt, failStalled = time.Now(), simrt.Stalled()
			}
			if _, ok := err.(*skyobject.ObjectIsTooLargeError); !ok || len(val) <= w.conf.MaxObjectSize {
				w.fail("set-wanted", "SetWanted: %v", err)
			}
		}
		delete(out, h)
	}
	var closed time.Time
	var stalled time.Duration
	since := func() time.Duration { return time.Since(closed) - (simrt.Stalled() - stalled) }
	var stop <-chan time.Time
	switch mode {
	case 1:
		stop = time.After(60 * time.Second)
	case 2:
		if o.Arg(5)%2 == 0 {
			stop = time.After(time.Duration(rg.N(4000)) * time.Millisecond)
		} else {
			nth = 1 + rg.N(8)
		}
	}
	// the feed goes away
	if o.Arg(5) >= 6 && w.p.Cfg["share"] == 0 && w.m == nil {
		if hs, err := w.c.Heads(rm.pk); err == nil && len(hs) == 0 {
			gone := make(chan struct{})
			defer func() {
				<-gone
				w.c.AddFeed(rm.pk)
			}()
			removed = true
			d := time.Duration(rg.N(4000)) * time.Millisecond
			go func() {
				defer close(gone)
				time.Sleep(d)
				err := w.c.DelFeed(rm.pk)
				w.note("client %d: deletes the feed while it is filled: %v", c, err)
				if err != nil {
					w.fail("delfeed", "DelFeed: %v", err)
				}
			}()
		}
	}
	stopped, after := false, make(chan struct{})
	stopIt := func() {
		if stopped {
			return
		}
		stopped = true
		closed, stalled = time.Now(), simrt.Stalled()
		go func() {
			f.Close()
			if d := since(); d > time.Second {
				w.fail("fill-close-slow", "Close of a filler took %v", d)
			}
			close(after)
		}()
	}
loop:
	for {
		select {
		case h := <-rq:
			out[h] = true
			if len(rm.objs[h]) > w.conf.MaxObjectSize {
				failing = true // the other requests are withdrawn
			}
			if n := len(out); max > 0 && n > max && !failing && !stopped {
				var xs []cipher.SHA256
				for x := range out {
					xs = append(xs, x)
				}
				sort.Slice(xs, func(i, j int) bool { return bytes.Compare(xs[i][:], xs[j][:]) < 0 })
				for _, x := range xs { // others could have stored some of them
					if !out[x] {
						n--
					} else if _, _, err := w.pb.CXDS.Get(x, 0); err == nil {
						n--
					}
				}
				if n > max+buf {
					w.fail("fill-limit", "%d objects are requested at once, the limit is %d", n, max)
				}
			}
			if lost[h] {
				continue
			}
			d := rg.N(lat)
			twice := rg.N(6) == 0
			go func() {
				deliver(h, d)
				if twice {
					deliver(h, d)
				}
			}()
		case <-over:
			break loop
		case <-stop:
			stop = nil
			stopIt()
		case <-now:
			stopIt()
		}
	}
	if stopped {
		<-after
	}
	if stopped && since() > time.Second {
		w.fail("fill-close-slow", "Run returned %v after Close", since())
	}
	if !failedAt.IsZero() && ret != nil {
		if d := time.Since(failedAt) - (simrt.Stalled() - failStalled); d > 2*time.Second {
			w.fail("fill-fail-slow", "Run returned %v after an object of the root was refused: %v", d, ret)
		}
	}
	f.Close()
	w.m.end(rf, ret == nil)
	w.note("client %d: filled %s (mode %d, limit %d): %v", c, rm.hash.Hex()[:7], mode, max, ret)
	_ = ended
	switch {
	case ret == nil && removed:
		return // the feed can be deleted again
	case ret == nil && !w.par:
		if x, err := w.c.Root(rm.pk, w.nonce(0), rm.seq); err != nil || x.Hash != rm.hash || !bytes.Equal(x.Encode(), rm.val) {
			w.fail("fill-not-recorded", "the root is filled but not recorded: %v", err)
		}
		if !r.IsFull {
			w.fail("fill-not-full", "the root is filled but not marked as full")
		}
	case ret == nil:
	default:
		if mode == 0 && !rm.big && (!removed || ret != data.ErrNoSuchFeed) && (!w.par || ret != data.ErrNoSuchFeed) {
			w.fail("fill-failed", "all objects of the root arrived, still: %v", ret)
		}
		if r.IsFull {
			w.fail("fill-full", "the root is not filled but marked as full")
		}
		if _, err := w.c.Root(rm.pk, w.nonce(0), rm.seq); err == nil && !had && !w.par {
			w.fail("fill-recorded", "the root is not filled but recorded")
		}
	}
	if ret == nil && w.p.Cfg["share"] == 0 {
		w.present(rm, "after filling it")
	}
	time.Sleep(3 * time.Second) // late deliveries
}

// present: all objects of the root are there
func (w *tWorld) present(rm *tRemote, when string) {
	wk := newWalk(w.types, w.get)
	wk.Root(rm.hash)
	if wk.bad != "" {
		w.fail("missing", "%s: %s", when, wk.bad)
	}
}

func (w *tWorld) get(h cipher.SHA256) []byte {
	v, _, err := w.c.Get(h, 0)
	if err != nil {
		return nil
	}
	return v
}

type twRoot struct {
	f     int
	nonce uint64
	seq   uint64
	hash  cipher.SHA256
}

// roots in the index, in order
func (w *tWorld) roots() (l []twRoot) {
	err := w.px.IdxDB.Tx(func(fs data.Feeds) error {
		for f, pk := range w.pk {
			hs, err := fs.Heads(pk)
			if err == data.ErrNoSuchFeed {
				continue
			}
			if err != nil {
				return err
			}
			for h := int64(0); h < twHeads; h++ {
				rs, err := hs.Roots(w.nonce(h))
				if err == data.ErrNoSuchHead {
					continue
				}
				if err != nil {
					return err
				}
				if err = rs.Ascend(func(r *data.Root) error {
					l = append(l, twRoot{f, w.nonce(h), r.Seq, r.Hash})
					return nil
				}); err != nil {
					return err
				}
			}
		}
		return nil
	})
	if err != nil {
		w.fail("index", "%v", err)
	}
	return
}

// walk all recorded roots
func (w *tWorld) walk(get func(h cipher.SHA256) []byte, when string) *tWalk {
	wk := newWalk(w.types, get)
	for _, r := range w.roots() {
		wk.Root(r.hash)
		if wk.bad != "" {
			w.fail("missing", "%s: root %d/%d/%d of the index: %s", when, r.f, r.nonce, r.seq, wk.bad)
			return nil
		}
	}
	return wk
}

// compare the counts of the store with the references.
func (w *tWorld) compare(wk *tWalk, when string, rcOf func(h cipher.SHA256, rc uint32) int) {
	var low, high []string
	total := 0
	var keys []cipher.SHA256
	rcs := map[cipher.SHA256]uint32{}
	vals := map[cipher.SHA256][]byte{}
	w.pb.CXDS.Iterate(func(h cipher.SHA256, rc uint32, val []byte) error {
		keys = append(keys, h)
		rcs[h], vals[h] = rc, val
		return nil
	})
	for _, h := range keys {
		total++
		rc := rcOf(h, rcs[h])
		if e := wk.rc[h]; rc != e {
			s := fmt.Sprintf("%s %s has %d, is referenced %d times", h.Hex()[:7], wk.describe(vals[h]), rc, e)
			if rc < e {
				low = append(low, s)
			} else {
				high = append(high, s)
			}
		}
	}
	if len(low) > 0 {
		w.fail("count-too-low", "%s: of %d objects:\n  %s", when, total, strings.Join(low, "\n  "))
	}
	if len(high) > 0 && !(w.p.Cfg["share"] == 1 && w.par && w.p.Cfg["leaks"] == 1) {
		sig := "count-too-high"
		if w.p.Cfg["share"] == 1 && w.par {
			sig = "shared-new-subtree-counted-twice"
		}
		w.fail(sig, "%s: of %d objects:\n  %s", when, total, strings.Join(high, "\n  "))
	}
}

func (w *tWorld) live(h cipher.SHA256, _ uint32) int {
	rc, err := w.c.Inc(h, 0)
	if err != nil {
		w.fail("inc", "Inc(0): %v", err)
	}
	return rc
}

func (w *tWorld) do(c int, o core.Op) {
	f := w.feed(c, o.Arg(0))
	if o.Arg(0)%4 == 3 {
		f = twClients
		if w.par && w.p.Cfg["share"] == 0 {
			f += c
		}
	}
	pk := w.pk[f]
	nonce := w.nonce(o.Arg(1))
	ok := func(err error) bool {
		w.note("client %d: %v: %v", c, o, err)
		return err == nil || err == data.ErrNoSuchFeed || err == data.ErrNoSuchHead || err == data.ErrNotFound && o.K == "delroot"
	}
	var err error
	switch o.K {
	case "save":
		w.save(c, o)
	case "abandon":
		o.A[3] = 3
		w.save(c, o)
	case "fill":
		w.fill(c, o)
	case "delroot":
		var seq uint64
		if seq, err = w.c.LastRootSeq(pk, nonce); err != nil {
			return
		}
		if k := uint64(o.Arg(2)); k <= seq {
			seq -= k
		}
		w.m.begin(f, twPend{kind: "delroot", nonce: nonce, seq: seq})
		err = w.c.DelRoot(pk, nonce, seq)
		w.m.end(f, err == nil)
		if !ok(err) {
			w.fail("delroot", "DelRoot: %v", err)
		}
	case "delhead":
		w.m.begin(f, twPend{kind: "delhead", nonce: nonce})
		err = w.c.DelHead(pk, nonce)
		w.m.end(f, err == nil)
		if !ok(err) {
			w.fail("delhead", "DelHead: %v", err)
		}
	case "delfeed":
		w.m.begin(f, twPend{kind: "delfeed"})
		err = w.c.DelFeed(pk)
		w.m.end(f, err == nil)
		if !ok(err) {
			w.fail("delfeed", "DelFeed: %v", err)
		}
		w.m.begin(f, twPend{kind: "addfeed"})
		if err = w.c.AddFeed(pk); err != nil {
			w.fail("addfeed", "AddFeed: %v", err)
		}
		w.m.end(f, err == nil)
	case "clean":
		var cached map[cipher.SHA256]bool
		if !w.par {
			cached = map[cipher.SHA256]bool{}
			w.pb.CXDS.Iterate(func(h cipher.SHA256, _ uint32, _ []byte) error {
				cached[h] = w.c.IsCached(h)
				return nil
			})
		}
		if err = cxoutils.RemoveObjects(w.c); !ok(err) {
			w.fail("clean", "RemoveObjects: %v", err)
		}
		if !w.par {
			if wk := w.walk(w.get, "after RemoveObjects"); wk != nil {
				w.pb.CXDS.Iterate(func(h cipher.SHA256, rc uint32, val []byte) error {
					if wk.rc[h] == 0 && rc == 0 && !cached[h] {
						w.fail("not-cleaned", "RemoveObjects left %s %s, which has no references and is not in use", h.Hex()[:7], wk.describe(val))
					}
					return nil
				})
			}
		}
	case "trim":
		keep := int(o.Arg(2))
		before := w.roots()
		for i := range w.pk {
			w.m.begin(i, twPend{kind: "trim", keep: keep})
		}
		err = cxoutils.RemoveRootObjects(w.c, keep)
		for i := range w.pk {
			w.m.end(i, err == nil)
		}
		if !ok(err) {
			w.fail("trim", "RemoveRootObjects: %v", err)
		}
		if !w.par {
			n := map[[2]uint64]int{}
			var exp []twRoot
			for i := len(before) - 1; i >= 0; i-- {
				r := before[i]
				k := [2]uint64{uint64(r.f), r.nonce}
				if n[k]++; n[k] <= keep {
					exp = append([]twRoot{r}, exp...)
				}
			}
			if after := w.roots(); fmt.Sprint(after) != fmt.Sprint(exp) {
				w.fail("trim-wrong", "RemoveRootObjects(%d) of %v left %v", keep, before, after)
			}
		}
	case "check":
		if !w.par {
			if wk := w.walk(w.get, "with one client, between its operations"); wk != nil {
				w.compare(wk, "with one client, between its operations", w.live)
			}
		}
	case "reopen":
		if !w.par {
			w.note("reopen")
			if err := w.c.Close(); err != nil {
				w.fail("close", "%v", err)
			}
			w.open()
		}
	}
}

func twGen(share int64, kinds []string, clients func(r *simrt.Rng) int) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		n := clients(r)
		p := &core.Prog{Cfg: map[string]int64{"salt": int64(r.N(100000)), "cache": int64(r.N(3)), "amount": int64(r.N(6)), "lfu": int64(r.N(2)), "degree": int64(r.N(4)),
			"regs": int64(r.N(3)), "share": share, "big": b2i(r.N(6) == 0)}}
		if n == 1 {
			p.Cfg["share"] = int64(r.N(2))
		}
		ks := swarm(r, kinds)
		if r.N(3) > 0 {
			ks = append(ks, kinds[0])
		}
		for i := 0; i < 3+r.N(5*n+5); i++ {
			o := core.Op{C: r.N(n), K: pick(r, ks...)}
			switch o.K {
			case "save", "abandon":
				o.A = []int64{int64(r.N(3)), int64(r.N(twHeads)), int64(r.N(1000000)), pick[int64](r, 0, 0, 0, 0, 1, 1, 3, 4), int64(r.N(tRegs)), int64(r.N(12))}
			case "fill":
				o.A = []int64{int64(r.N(3)), pick[int64](r, 0, 0, 0, 1, 2), int64(r.N(5)), int64(r.N(1000000)), int64(r.N(3)), int64(r.N(8))}
			case "trim":
				if n > 1 && share == 0 {
					continue // deletes what others are just using
				}
				o.A = []int64{0, 0, int64(r.N(3))}
			default:
				o.A = []int64{int64(r.N(4)), int64(r.N(twHeads)), int64(r.N(3))}
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}
}

func twBody(p *core.Prog) {
	pr := newProc("container")
	w := &tWorld{p: p, par: p.Clients() > 1}
	core.Phase("open")
	good := false
	pr.Do("open", func() {
		if !w.start() {
			return
		}
		for c := 0; c < p.Clients() && c < twClients; c++ {
			n := 0
			for _, o := range p.Ops {
				if o.K == "fill" && (o.C == c || c == 0) {
					n = 3
				}
			}
			if n > 0 && !w.makeRemotes(c, n) {
				return
			}
		}
		good = true
	})
	if !good || !pr.alive() {
		return
	}
	core.Phase("operations")
	if !pr.Par(p.Clients(), func(c int) {
		for _, o := range p.Of(c) {
			if w.c == nil {
				return
			}
			w.do(c, o)
		}
	}) {
		return
	}
	if w.c == nil {
		return
	}
	core.Phase("final")
	raw := func(h cipher.SHA256) []byte {
		v, _, err := w.pb.CXDS.Get(h, 0)
		if err != nil {
			return nil
		}
		return v
	}
	stored := func(h cipher.SHA256, rc uint32) int { return int(rc) }
	pr.Do("final", func() {
		if wk := w.walk(w.get, "at the end"); wk == nil {
			return
		}
		// nothing may be left of objects nobody has
		for c := range w.rem {
			for _, rm := range w.rem[c] {
				for h := range rm.objs {
					if raw(h) == nil && w.c.IsCached(h) {
						w.fail("residue", "object %s does not exist and nobody waits for it, but it is still marked as cached", h.Hex()[:7])
						return
					}
				}
			}
		}
		if err := w.c.Close(); err != nil {
			w.fail("close", "%v", err)
			return
		}
		if wk := w.walk(raw, "after Close"); wk != nil {
			w.compare(wk, "after Close", stored)
		}
		core.Phase("delete everything")
		if !w.open() {
			return
		}
		for i := range w.pk {
			if err := w.c.DelFeed(w.pk[i]); err != nil && err != data.ErrNoSuchFeed {
				w.fail("delfeed", "DelFeed at the end: %v", err)
				return
			}
		}
		w.note("all feeds are deleted")
		if err := w.c.Close(); err != nil {
			w.fail("close", "%v", err)
			return
		}
		w.compare(newWalk(w.types, raw), "after deleting everything", stored)
		if !w.open() {
			return
		}
		if err := cxoutils.RemoveObjects(w.c); err != nil {
			w.fail("clean", "RemoveObjects at the end: %v", err)
		}
		w.c.Close()
		n, cnt := 0, 0
		w.pb.CXDS.Iterate(func(_ cipher.SHA256, rc uint32, _ []byte) error {
			if n++; rc > 0 {
				cnt++
			}
			return nil
		})
		if n > cnt {
			w.fail("not-cleaned", "RemoveObjects left %d objects without references in a store nobody uses", n-cnt)
		}
		for i := 0; i < 50 && len(pr.D.Live()) > 0; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		if l := pr.D.Live(); len(l) > 0 {
			w.fail("leaked-goroutines", "after everything is closed these goroutines are left: %v", l)
		}
	})
}

// leaky programs reach the known finding I03 shared-new-subtree-counted-twice often, it is left to I03
func leaky(g func(r *simrt.Rng) *core.Prog) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := g(r)
		p.Cfg["leaks"] = 1
		return p
	}
}

func init() {
	real := []string{"skyobject (container, cache, index, unpack, filler, deletion)", "skyobject/registry", "cxoutils", "data/cxds (memory)", "data/idxdb (memory)"}
	stubs := []string{"cipher", "encoder", "remote peers"}
	one := func(r *simrt.Rng) int { return 1 }
	n13 := func(r *simrt.Rng) int { return 1 + r.N(3) }
	n23 := func(r *simrt.Rng) int { return 2 + r.N(2) }
	all := []string{"save", "save", "save", "save", "fill", "delroot", "delroot", "delhead", "delfeed", "clean", "trim", "check", "reopen"}
	conc := []string{"save", "save", "save", "save", "fill", "fill", "delroot", "delroot", "delhead", "delfeed", "clean"}
	fills := []string{"fill", "fill", "fill", "fill", "save", "delroot", "delfeed", "clean", "check", "reopen"}
	core.Register(&core.Scenario{Prop: "I03", Name: "one-user", Quick: 20000, Thor: 100000, Gen: twGen(1, all, one), Body: twBody, Real: real, Stubs: stubs,
		Rule: "one client saves, abandons, fills, deletes, trims, cleans and reopens; counts are compared with an independent walk over all recorded roots between operations, after Close and after deleting everything"})
	core.Register(&core.Scenario{Prop: "I03", Name: "many-users", Quick: 20000, Thor: 100000, Gen: twGen(0, conc, n23), Body: twBody, Real: real, Stubs: stubs,
		Rule: "2-3 concurrent clients with feeds of their own and common leaf objects; exact counts when nothing is in progress", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "I03", Name: "sharing", Quick: 12000, Thor: 60000, Gen: twGen(1, all, n23), Body: twBody, Real: real, Stubs: stubs,
		Rule: "2-3 concurrent clients share feeds, heads and new subtrees; counts may not be too low and no live object may be missing", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "F01", Name: "fill", Quick: 30000, Thor: 150000, Gen: twGen(0, fills, n13), Body: twBody, Real: real, Stubs: stubs,
		Rule: "roots made elsewhere are filled from peers that are slow, repeat themselves, never answer or send too large objects; a filled root is recorded with all objects present, a failed one leaves no record, count or trace"})
	core.Register(&core.Scenario{Prop: "F01", Name: "fill-and-save", Quick: 15000, Thor: 80000, Gen: leaky(twGen(1, []string{"fill", "fill", "save", "abandon"}, n23)), Body: twBody, Real: real, Stubs: stubs,
		Rule: "fills run while others save or abandon the same objects; what is recorded is complete", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "F02", Name: "fill-limit", Quick: 30000, Thor: 150000, Gen: twGen(0, []string{"fill", "fill", "fill", "save"}, n13), Body: twBody, Real: real, Stubs: stubs,
		Rule: "fills with limits 0-4 and closes at random times; requests outstanding never exceed the limit, fills whose objects arrive finish, Close and Run return at once after a close, nothing is left running"})
}
