package sc

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/cxo/skyobject/statutil"
)

var errInjected = errors.New("injected failure of the index")

// probeIdx wraps an index: it can fail transactions, before they start or just before they are committed, and survive
// Close.
type probeIdx struct {
	data.IdxDB
	keep   bool
	on     bool
	failP  float64
	onFail func()
}

func (p *probeIdx) Tx(fn func(data.Feeds) error) error {
	if p.on && simrt.Chance("idxfail", p.failP) {
		hit := func() error {
			simrt.Count("idx-failed-tx")
			p.onFail()
			return errInjected
		}
		if simrt.Chance("idxfailbefore", 0.3) {
			return hit()
		}
		return p.IdxDB.Tx(func(fs data.Feeds) error {
			if err := fn(fs); err != nil {
				return err
			}
			return hit()
		})
	}
	return p.IdxDB.Tx(fn)
}

func (p *probeIdx) Close() error {
	if p.keep {
		return nil
	}
	return p.IdxDB.Close()
}

const (
	idFeeds = 2
	idSeqs  = 32
)

var idNonces = []uint64{1, 2, math.MaxUint64}

type idRec struct {
	id int // 0: none
	t  int64
}

type idHead struct {
	on bool
	r  [idSeqs]idRec
}

type idFeed struct {
	on bool
	h  [3]idHead
}

type idState struct {
	f [idFeeds]idFeed
}

func (h *idHead) last() (seq int, rec idRec) {
	for q := idSeqs - 1; q >= 0; q-- {
		if h.r[q].id != 0 {
			return q, h.r[q]
		}
	}
	return -1, idRec{}
}

type idIn struct {
	k       string
	f, h, q int
	id      int
	t       int64
}

type idOut struct {
	err  string
	id   int
	n    uint64
	has  bool
	q    int
	prev int
	t    int64
	s    string
}

// stat of a feed for comparison.
type idStat struct {
	n           int
	first, last idStatRoot
}

type idStatRoot struct {
	id, q int
	t     int64
}

func (s *idState) stat() string {
	var l []string
	for f := range s.f {
		if !s.f[f].on {
			continue
		}
		l = append(l, fmt.Sprintf("feed %d", f))
		for h := range s.f[f].h {
			if hd := &s.f[f].h[h]; hd.on {
				var x idStat
				for q, r := range hd.r {
					if r.id != 0 {
						if x.n++; x.n == 1 {
							x.first = idStatRoot{r.id, q, r.t}
						}
						x.last = idStatRoot{r.id, q, r.t}
					}
				}
				l = append(l, fmt.Sprintf("f%d h%d %v", f, h, x))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// statOf the container in the form of idState.stat.
func (r *idRun) statOf(st *skyobject.Stat) string {
	var l []string
	for pk, sf := range st.Feeds {
		f := 0
		for f < idFeeds && r.pk[f] != pk {
			f++
		}
		l = append(l, fmt.Sprintf("feed %d", f))
		for nonce, sh := range sf.Heads {
			h := 0
			for h < len(idNonces) && idNonces[h] != nonce {
				h++
			}
			x := idStat{n: sh.Len}
			conv := func(rs skyobject.RootStat) idStatRoot {
				if rs == (skyobject.RootStat{}) {
					return idStatRoot{}
				}
				return idStatRoot{r.num(rs.Hash), seqIdx(rs.Seq), rs.Time.UnixNano()}
			}
			x.first, x.last = conv(sh.First), conv(sh.Last)
			l = append(l, fmt.Sprintf("f%d h%d %v", f, h, x))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func idModel() model {
	return model{
		init: func() any { return idState{} },
		step: func(state, in, out any) (bool, any) {
			s := state.(idState)
			i := in.(idIn)
			o := out.(idOut)
			f := &s.f[i.f]
			h := &f.h[i.h]
			where := func(needRoot bool) string {
				switch {
				case !f.on:
					return data.ErrNoSuchFeed.Error()
				case !h.on:
					return data.ErrNoSuchHead.Error()
				}
				if q, _ := h.last(); needRoot && q < 0 {
					return data.ErrNotFound.Error()
				}
				return ""
			}
			e := idOut{}
			switch i.k {
			case "addfeed":
				f.on = true
			case "delfeed":
				if !f.on {
					e.err = data.ErrNoSuchFeed.Error()
				}
				*f = idFeed{}
			case "addhead":
				if !f.on {
					e.err = data.ErrNoSuchFeed.Error()
				} else {
					h.on = true
				}
			case "delhead":
				if e.err = where(false); e.err == "" {
					*h = idHead{}
				}
			case "delroot":
				if e.err = where(false); e.err == "" {
					if h.r[i.q].id == 0 {
						e.err = data.ErrNotFound.Error()
					}
					h.r[i.q] = idRec{}
				}
			case "addroot":
				if !f.on {
					e.err = data.ErrNoSuchFeed.Error()
				} else if h.on = true; h.r[i.q].id != 0 {
					e.has = true
				} else {
					h.r[i.q] = idRec{i.id, i.t}
				}
			case "save":
				if !f.on {
					e.err = data.ErrNoSuchFeed.Error()
					break
				}
				h.on = true
				q, rec := h.last()
				if q == idSeqs-1 { // no greater number
					return o.err != "" && o.err != errInjected.Error(), s
				}
				if o.err != "" || o.q != q+1 || o.prev != rec.id || q >= 0 && o.t < rec.t || o.id == 0 {
					return false, s
				}
				h.r[o.q] = idRec{o.id, o.t}
				return true, s
			case "lastroot":
				if e.err = where(true); e.err == "" {
					_, rec := h.last()
					e.id = rec.id
				}
			case "lastseq":
				if e.err = where(true); e.err == "" {
					e.q, _ = h.last()
				}
			case "active":
				any := false
				var max int64
				for x := range f.h {
					if q, rec := f.h[x].last(); q >= 0 && (!any || rec.t > max) {
						any, max = true, rec.t
					}
				}
				if !any {
					break
				}
				for x := range f.h {
					if q, rec := f.h[x].last(); q >= 0 && rec.t == max && o.n == idNonces[x] {
						return o.err == "", s
					}
				}
				return false, s
			case "heads":
				if !f.on {
					e.err = data.ErrNoSuchFeed.Error()
				}
				for x := range f.h {
					if f.h[x].on {
						e.n |= 1 << x
					}
				}
			case "feeds":
				for x := range s.f {
					if s.f[x].on {
						e.n |= 1 << x
					}
				}
			case "root":
				if e.err = where(false); e.err == "" {
					if e.id = h.r[i.q].id; e.id == 0 {
						e.err = data.ErrNotFound.Error()
					}
				}
			case "byhash":
				e.has = h.r[i.q].id == i.id
			case "stat":
				e.s = s.stat()
			case "hasfeed":
				e.has = f.on
			case "hashead":
				e.has = f.on && h.on
			}
			return e == o, s
		},
		show: func(in, out any) string {
			i := in.(idIn)
			s := fmt.Sprintf("%s f%d", i.k, i.f)
			switch i.k {
			case "addfeed", "delfeed", "heads", "active", "hasfeed":
			case "feeds", "stat":
				s = i.k
			case "delroot", "root":
				s += fmt.Sprintf(" h%d seq %d", i.h, i.q)
			case "addroot", "byhash":
				s += fmt.Sprintf(" h%d seq %d #%d time %d", i.h, i.q, i.id, i.t-simrt.Epoch*1e9)
			default:
				s += fmt.Sprintf(" h%d", i.h)
			}
			if out == nil {
				return s
			}
			o := out.(idOut)
			if o.err != "" {
				return s + " -> " + o.err
			}
			switch i.k {
			case "save":
				s += fmt.Sprintf(" -> #%d seq %d prev #%d time %d", o.id, o.q, o.prev, o.t-simrt.Epoch*1e9)
			case "lastroot", "root":
				s += fmt.Sprintf(" -> #%d", o.id)
			case "lastseq":
				s += fmt.Sprintf(" -> %d", o.q)
			case "active":
				s += fmt.Sprintf(" -> %x", o.n)
			case "heads", "feeds":
				s += fmt.Sprintf(" -> set %b", o.n)
			case "stat":
				s += " -> " + o.s
			case "addroot", "hasfeed", "hashead", "byhash":
				s += fmt.Sprintf(" -> %v", o.has)
			default:
				s += " -> ok"
			}
			return s
		},
	}
}

type T0 struct {
	A uint32
	B []byte
}

// idRun is a container used by several clients.
type idRun struct {
	c    *skyobject.Container
	reg  *registry.Registry
	pk   [idFeeds]cipher.PubKey
	sk   [idFeeds]cipher.SecKey
	id   map[cipher.SHA256]int
	h    *hist
	fail bool // a transaction of the running client was failed
	cl   [5]idClient
	list []idList
	n    int
	pb   *probe
	px   *probeIdx
	conf *skyobject.Config
	news int // roots added or saved
	lead int // of them became the last of their head
}

// statNums checks what must be so at any moment.
func (r *idRun) statNums(st *skyobject.Stat) {
	if st.CacheObjects.Amount < 0 || st.CacheObjects.Amount > statutil.Amount(r.conf.CacheMaxAmount) || st.CacheObjects.Volume > statutil.Volume(r.conf.CacheMaxVolume) {
		fail("stat", "the statistics show %d objects of %d bytes in a cache of %d objects and %d bytes", st.CacheObjects.Amount, st.CacheObjects.Volume, r.conf.CacheMaxAmount, r.conf.CacheMaxVolume)
	}
	for _, x := range []float64{st.CXDS.RPS, st.CXDS.WPS, st.Cache.RPS, st.Cache.WPS, st.RootsPerSecond, float64(st.CacheCleaning)} {
		if !(x >= 0 && x < 1e18) {
			fail("stat", "a rate or pause of %v", x)
		}
	}
}

// statRest checks the numbers while nothing else goes on.
func (r *idRun) statRest() {
	st := r.c.Stat()
	var n, un, v, uv int
	r.pb.CXDS.Iterate(func(_ cipher.SHA256, rc uint32, b []byte) error {
		n++
		v += len(b)
		if rc > 0 {
			un++
			uv += len(b)
		}
		return nil
	})
	if g, w := fmt.Sprint(int(st.AllObjects.Amount), int(st.AllObjects.Volume), int(st.UsedObjects.Amount), int(st.UsedObjects.Volume)), fmt.Sprint(n, v, un, uv); g != w {
		fail("stat-objects", "the statistics show all and used objects (amount, volume) %s, the store has %s", g, w)
	}
	// a new object changes the numbers by itself
	val := []byte(fmt.Sprintf("new object %d", simrt.Seq()))
	if _, err := r.c.Set(cipher.SumSHA256(val), val, 1); err != nil {
		fail("set", "%v", err)
		return
	}
	s2 := r.c.Stat()
	if s2.AllObjects.Amount != st.AllObjects.Amount+1 || s2.AllObjects.Volume != st.AllObjects.Volume+statutil.Volume(len(val)) || s2.UsedObjects.Amount != st.UsedObjects.Amount+1 {
		fail("stat-objects", "the statistics before and after a new object of %d bytes: %v, %v and %v, %v", len(val), st.AllObjects, st.UsedObjects, s2.AllObjects, s2.UsedObjects)
	}
	kept := int(s2.CacheObjects.Amount - st.CacheObjects.Amount)
	if r.conf.CacheMaxAmount == 0 && s2.CacheObjects != (skyobject.ObjectsStat{}) || r.conf.CacheMaxAmount > 1000 && (kept != 1 || s2.CacheObjects.Volume != st.CacheObjects.Volume+statutil.Volume(len(val))) {
		fail("stat-cache", "the statistics of the cache (at most %d) before and after a new object of %d bytes: %v and %v", r.conf.CacheMaxAmount, len(val), st.CacheObjects, s2.CacheObjects)
	}
	if _, err := r.c.Inc(cipher.SumSHA256(val), -1); err != nil {
		fail("inc", "%v", err)
		return
	}
	s3 := r.c.Stat()
	if s3.UsedObjects != st.UsedObjects || r.conf.CacheMaxAmount > 1000 && s3.CacheObjects != st.CacheObjects {
		fail("stat-cache", "the statistics before an object was added and after it lost its reference: used %v, cached %v and used %v, cached %v", st.UsedObjects, st.CacheObjects, s3.UsedObjects, s3.CacheObjects)
	}
}

// statRate waits until every second is over and compares the number of roots.
func (r *idRun) statRate(start int64) {
	wait := int64(time.Second) + int64(50*time.Millisecond)
	time.Sleep(time.Duration(wait * (1 + simrt.SimNow()%3)))
	st := r.c.Stat()
	secs := (simrt.SimNow() - start) / int64(time.Second)
	if secs < 1 || simrt.Stalled() > 0 || secs >= int64(r.conf.RollAvgSamples) {
		return
	}
	simrt.Count("rates")
	if n := st.RootsPerSecond * float64(secs); n < float64(r.lead)-0.01 || n > float64(r.news)+0.01 {
		fail("stat-roots", "%d roots were added (%d of them became the last ones) in %d s, the average is %v per second", r.news, r.lead, secs, st.RootsPerSecond)
	}
}

type idList struct {
	got, was []cipher.PubKey
}

type idClient struct {
	up   [idFeeds]*skyobject.Unpack
	root [idFeeds][3]*registry.Root
	inj  bool
}

func (r *idRun) num(h cipher.SHA256) int {
	if h == (cipher.SHA256{}) {
		return 0
	}
	if r.id[h] == 0 {
		r.n++
		r.id[h] = r.n
	}
	return r.id[h]
}

// seqOf the place in the model; the last place is the greatest number there is
func seqOf(q int) uint64 {
	if q == idSeqs-1 {
		return math.MaxUint64
	}
	return uint64(q)
}

func seqIdx(s uint64) int {
	if s == math.MaxUint64 {
		return idSeqs - 1
	}
	if s >= idSeqs-1 {
		return idSeqs
	}
	return int(s)
}

func idErr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func (r *idRun) check(x *registry.Root, f, h int, what string) {
	val := x.Encode()
	switch {
	case cipher.SumSHA256(val) != x.Hash:
		fail("root-hash", "%s: the hash of the root is not the hash of its encoding", what)
	case x.Pub != r.pk[f] || x.Nonce != idNonces[h]:
		fail("root-place", "%s: the root belongs to another feed or head: %s", what, x.Short())
	case !x.IsFull:
		fail("root-full", "%s: the root is not marked as full", what)
	}
	if err := cipher.VerifyPubKeySignedHash(r.pk[f], x.Sig, x.Hash); err != nil {
		fail("root-signature", "%s: the signature of the root is not valid: %v", what, err)
	}
}

func (r *idRun) makeRoot(f, h, q int, t int64, variant int64) *registry.Root {
	x := &registry.Root{Descriptor: []byte{byte(variant)}, Reg: r.reg.Reference(), Pub: r.pk[f], Nonce: idNonces[h], Seq: seqOf(q), Time: t, IsFull: true}
	if q > 0 {
		x.Prev = cipher.SumSHA256([]byte{byte(variant), byte(q)})
	}
	x.Hash = cipher.SumSHA256(x.Encode())
	var err error
	if x.Sig, err = cipher.SignHash(x.Hash, r.sk[f]); err != nil {
		core.Broken("sign: %v", err)
	}
	return x
}

func (r *idRun) do(c int, op core.Op) {
	cl := &r.cl[c]
	f, h, q := int(op.Arg(0))%idFeeds, int(op.Arg(1))%len(idNonces), int(op.Arg(2))
	i := idIn{k: op.K, f: f, h: h, q: q}
	pk, nonce := r.pk[f], idNonces[h]
	var out idOut
	var err error
	var x *registry.Root
	var up *skyobject.Unpack
	bad := false // must be refused
	switch op.K {
	case "addroot":
		i.t = simrt.Epoch*1e9 + op.Arg(3)*1e9
		x = r.makeRoot(f, h, q, i.t, op.Arg(4))
		i.id = r.num(x.Hash)
		if _, err = r.c.Set(x.Hash, x.Encode(), 1); err == nil {
			_, err = r.c.Set(cipher.SHA256(x.Reg), r.reg.Encode(), 1)
		}
		if err != nil {
			fail("set", "%v", err)
			return
		}
	case "save":
		switch x = cl.root[f][h]; op.Arg(3) % 3 {
		case 0:
			if x, err = r.c.LastRoot(pk, nonce); err != nil {
				x = nil
			}
		case 1: // the root this client saw last time
		default:
			x = nil
		}
		if x == nil {
			x = &registry.Root{Pub: pk, Nonce: nonce, Seq: uint64(op.Arg(2)), Time: 5, Prev: cipher.SumSHA256([]byte("stale")), Hash: cipher.SumSHA256([]byte("stale"))}
		}
		sk := r.sk[f]
		switch op.Arg(4) {
		case 1:
			sk, bad = r.sk[1-f], true
		case 2:
			bad = true
		}
		up = cl.up[f]
		if up == nil || bad || op.Arg(5)%2 == 0 {
			if up, err = r.c.Unpack(sk, r.reg); err != nil {
				fail("unpack", "%v", err)
				return
			}
			if !bad {
				cl.up[f] = up
			}
		}
		x.Descriptor = []byte{byte(c), byte(op.Arg(5))}
		sch, _ := r.reg.SchemaByName("T0")
		if n := op.Arg(5) % 4; n == 3 && len(x.Refs) < 3 {
			d := registry.Dynamic{Schema: sch.Reference()}
			if err = d.SetValue(up, &T0{A: uint32(op.Arg(5) % 3)}); err != nil {
				fail("set-value", "%v", err)
				return
			}
			x.Refs = append(x.Refs, d)
		}
		if op.Arg(4) == 2 { // an object that does not exist
			y := *x
			y.Refs = append(append([]registry.Dynamic{}, x.Refs...), registry.Dynamic{Schema: sch.Reference(), Hash: cipher.SumSHA256([]byte("missing"))})
			x = &y
		}
	}
	if op.K == "byhash" {
		x = r.makeRoot(f, h, q, simrt.Epoch*1e9+op.Arg(3)*1e9, op.Arg(4))
		i.id = r.num(x.Hash)
	}
	cl.inj = false
	o := r.h.call(c, i)
	switch op.K {
	case "addfeed":
		err = r.c.AddFeed(pk)
	case "delfeed":
		err = r.c.DelFeed(pk)
	case "addhead":
		err = r.c.AddHead(pk, nonce)
	case "delhead":
		err = r.c.DelHead(pk, nonce)
	case "delroot":
		err = r.c.DelRoot(pk, nonce, seqOf(q))
	case "addroot":
		out.has, err = r.c.AddRoot(x)
	case "save":
		err = r.c.Save(up, x)
	case "lastroot":
		if x, err = r.c.LastRoot(pk, nonce); err == nil {
			out.id = r.num(x.Hash)
			r.check(x, f, h, "LastRoot")
		}
	case "lastseq":
		var s uint64
		s, err = r.c.LastRootSeq(pk, nonce)
		out.q = seqIdx(s)
	case "active":
		out.n = r.c.ActiveHead(pk)
	case "heads":
		var l []uint64
		l, err = r.c.Heads(pk)
		for _, n := range l {
			k := sort.Search(len(idNonces), func(i int) bool { return idNonces[i] >= n })
			if k == len(idNonces) || idNonces[k] != n || out.n>>k&1 == 1 {
				fail("heads", "Heads returned %d, which is no head or twice in the list %v", n, l)
				return
			}
			out.n |= 1 << k
		}
	case "feeds":
		l := r.c.Feeds()
		r.list = append(r.list, idList{l, append([]cipher.PubKey{}, l...)})
		for _, n := range l {
			k := 0
			for k < idFeeds && r.pk[k] != n {
				k++
			}
			if k == idFeeds || out.n>>k&1 == 1 {
				fail("feeds", "Feeds returned a feed that was never added, or one twice")
				return
			}
			out.n |= 1 << k
		}
	case "root":
		if x, err = r.c.Root(pk, nonce, seqOf(q)); err == nil {
			out.id = r.num(x.Hash)
			r.check(x, f, h, "Root")
			if x.Seq != seqOf(q) {
				fail("root-seq", "Root %d returned root %d", q, x.Seq)
			}
		}
	case "byhash":
		var y *registry.Root
		if y, err = r.c.RootByHash(x.Hash); err == nil {
			out.has = true
			r.check(y, f, h, "RootByHash")
		} else if err != errInjected {
			err = nil
		}
	case "stat":
		t := simrt.SimNow()
		st := r.c.Stat()
		if st == nil {
			fail("stat", "Stat returned nothing")
			return
		}
		if d := simrt.SimNow() - t; d > int64(time.Second)+int64(simrt.Stalled()) {
			fail("stat", "Stat took %.3f s", float64(d)/1e9)
		}
		out.s = r.statOf(st)
		r.statNums(st)
		if cl.inj { // nothing to report an error with
			o.never()
			return
		}
	case "hasfeed":
		out.has = r.c.HasFeed(pk)
	case "hashead":
		out.has = r.c.HasHead(pk, nonce)
	}
	out.err = idErr(err)
	if (op.K == "save" || op.K == "addroot" && !out.has) && err == nil {
		r.news++
		if op.K == "save" {
			r.lead++
		}
	}
	if op.K == "save" && err == nil {
		out.id, out.q, out.prev, out.t = r.num(x.Hash), seqIdx(x.Seq), r.num(x.Prev), x.Time
	}
	switch {
	case cl.inj && err == errInjected:
		o.never()
	case cl.inj && err == nil && op.K != "lastroot":
		fail("swallowed-error", "%s succeeded though a transaction of it failed", op)
		o.never()
	case bad && err == nil:
		fail("save-not-refused", "Save with %s succeeded", []string{"", "another feed's key", "a missing object"}[op.Arg(4)])
		o.never()
	case bad:
		o.never()
	default:
		o.done(out)
	}
	switch op.K {
	case "root":
		if err != nil {
			break
		}
		if y, err := r.c.RootByHash(x.Hash); err == nil {
			r.check(y, f, h, "RootByHash")
			if y.Hash != x.Hash {
				fail("root-by-hash", "RootByHash returned another root")
			}
		}
	case "addroot":
		if err != nil || out.has {
			r.c.Inc(x.Hash, -1)
			r.c.Inc(cipher.SHA256(x.Reg), -1)
		}
	case "save":
		if bad {
			up.Close()
			return
		}
		if err != nil {
			if op.Arg(5)%3 == 0 {
				up.Close()
				cl.up[f] = nil
			}
			return
		}
		r.check(x, f, h, "Save")
		y := *x
		cl.root[f][h] = &y
		if y, err := r.c.RootByHash(x.Hash); err == nil {
			r.check(y, f, h, "RootByHash after Save")
		}
	}
}

func statGen(r *simrt.Rng) *core.Prog {
	p := idGen(r.N(3) == 0)(r)
	var l []core.Op
	for _, o := range p.Ops {
		for o.C < 4 && r.N(3) == 0 {
			l = append(l, core.Op{C: r.N(4), K: "stat"})
		}
		l = append(l, o)
	}
	p.Ops = l
	p.Cfg["stat"] = 1 + int64(r.N(2))
	p.Cfg["cache"] = int64(r.N(4))
	return p
}

func idGen(saves bool) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := &core.Prog{Cfg: map[string]int64{"fail": pick[int64](r, 0, 0, 0, 10, 30), "reopen": int64(r.N(2)), "drive": b2i(r.N(10) == 0),
			"cache": int64(r.N(3)), "skew": int64(r.N(3))}}
		n := 1 + r.N(4)
		nf, nh := 1+r.N(idFeeds), 1+r.N(3)
		kinds := []string{"addfeed", "delfeed", "addhead", "delhead", "delroot", "addroot", "addroot", "addroot", "addroot", "save", "lastroot", "lastroot", "lastseq", "active", "active", "heads", "feeds", "root", "hasfeed", "hashead", "byhash"}
		if saves {
			kinds = []string{"save", "save", "save", "save", "save", "save", "addroot", "delroot", "lastroot", "root", "delhead", "delfeed", "addfeed"}
		}
		if kinds = swarm(r, kinds); saves {
			kinds = append(kinds, "save", "save")
		}
		for f := 0; f < nf; f++ {
			if r.N(6) > 0 {
				p.Ops = append(p.Ops, core.Op{C: 4, K: "addfeed", A: []int64{int64(f)}})
			}
		}
		ns := 0
		for i := 0; i < 4+r.N(22); i++ {
			k := pick(r, kinds...)
			f, h := int64(r.N(nf)), int64(r.N(nh))
			o := core.Op{C: r.N(n), K: k, A: []int64{f, h, int64(r.N(6))}}
			if r.N(40) == 0 {
				o.A[2] = idSeqs - 1
			}
			switch k {
			case "addroot", "byhash":
				o.A = append(o.A, pick[int64](r, -100, -5, 0, 1, 1, 2, 3, 50, 4000), int64(r.N(3)))
			case "save":
				if ns++; ns > 12 {
					continue
				}
				o.A = append(o.A, int64(r.N(3)), pick[int64](r, 0, 0, 0, 0, 0, 0, 1, 2), int64(r.N(100)))
			case "delfeed", "delhead":
				if r.N(2) == 0 {
					continue
				}
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}
}

func idBody(p *core.Prog) {
	pr := newProc("container")
	var disk *simos.Disk
	if p.Cfg["drive"] == 1 {
		disk = simos.NewDisk("d")
		simos.Mount(pr.D, disk)
	}
	r := &idRun{id: map[cipher.SHA256]int{}, h: &hist{}}
	for i := range r.pk {
		r.pk[i], r.sk[i] = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 7})
	}
	var px *probeIdx
	var pb *probe
	var began int64
	open := func() {
		var ids data.IdxDB
		var err error
		if disk != nil {
			if ids, err = idxdb.NewDriveIdxDB(ixFile); err != nil {
				fail("open", "%v", err)
				return
			}
		} else if px != nil {
			ids = px.IdxDB
		} else {
			ids = idxdb.NewMemeoryDB()
		}
		if pb == nil {
			pb = newProbe(cxds.NewMemoryCXDS(), true)
		}
		px = &probeIdx{IdxDB: ids, keep: disk == nil, failP: float64(p.Cfg["fail"]) / 100}
		conf := skyobject.NewConfig()
		conf.DataDir = ""
		conf.DB = data.NewDB(pb, px)
		if p.Cfg["cache"] == 0 {
			conf.CacheMaxAmount = 0
		}
		if p.Cfg["cache"] == 3 {
			conf.CacheMaxAmount = 3
		}
		if p.Cfg["stat"] > 0 {
			conf.RollAvgSamples = 100
		}
		r.pb, r.px, r.conf = pb, px, conf
		began = simrt.SimNow()
		if r.c, err = skyobject.NewContainer(conf); err != nil {
			fail("open", "%v", err)
			return
		}
		px.onFail = func() { r.cl[simrt.Tag()].inj = true }
	}
	core.Phase("open")
	pr.Do("open", func() {
		r.reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("T0", T0{}) })
		open()
	})
	if r.c == nil || !pr.alive() {
		return
	}
	core.Phase("operations")
	pr.Do("setup", func() {
		for _, o := range p.Of(4) {
			r.do(4, o)
		}
	})
	px.on = p.Cfg["fail"] > 0
	if !pr.Par(4, func(c int) {
		simrt.SetTag(c)
		for _, o := range p.Of(c) {
			if p.Cfg["skew"] > 0 && simrt.Chance("skew", 0.2) {
				pr.D.Skew = int64(simrt.Choose("skewby", 5)-2) * int64(7*time.Second)
				simrt.Count("clock-jump")
			}
			r.do(c, o)
		}
	}) {
		return
	}
	px.on = false
	core.Phase("final")
	look := func() {
		r.do(4, core.Op{K: "feeds"})
		if p.Cfg["stat"] > 0 {
			r.do(4, core.Op{K: "stat"})
			r.statRest()
		}
		for f := int64(0); f < idFeeds; f++ {
			r.do(4, core.Op{K: "heads", A: []int64{f}})
			r.do(4, core.Op{K: "active", A: []int64{f}})
			for h := int64(0); h < int64(len(idNonces)); h++ {
				if !r.c.HasHead(r.pk[f], idNonces[h]) {
					continue
				}
				r.do(4, core.Op{K: "lastroot", A: []int64{f, h}})
				for q := int64(0); q < idSeqs; q++ {
					if q < 6 || q < int64(len(p.Ops)) || q == idSeqs-1 {
						r.do(4, core.Op{K: "root", A: []int64{f, h, q}})
					}
				}
			}
		}
	}
	pr.Do("final", func() {
		look()
		if p.Cfg["stat"] == 2 {
			r.statRate(began)
		}
		for _, l := range r.list {
			for i := range l.was {
				if i >= len(l.got) || l.got[i] != l.was[i] {
					fail("feeds-list-changed", "a list returned by Feeds was changed later")
					break
				}
			}
		}
		if err := r.c.Close(); err != nil {
			fail("close", "%v", err)
			return
		}
		if p.Cfg["stat"] > 0 && r.c.Stat() == nil {
			fail("stat", "Stat of a closed container returned nothing")
		}
		if p.Cfg["reopen"] == 1 {
			if open(); r.c != nil {
				look()
				r.c.Close()
			}
		}
	})
	if !pr.alive() {
		return
	}
	if m := idModel(); !r.h.linearizable(m) {
		var b strings.Builder
		fmt.Fprint(&b, r.h.show(m))
		fail("not-linearizable", "no order of these operations agrees with one atomic index (fail %d%%, drive %d):\n%s", p.Cfg["fail"], p.Cfg["drive"], b.String())
	}
}

func init() {
	real := []string{"skyobject (container, index, unpack, cache)", "skyobject/registry", "data/idxdb", "data/cxds (memory)", "bolt v1.3.1"}
	core.Register(&core.Scenario{Prop: "I01", Name: "index", Quick: 80000, Thor: 300000, Gen: idGen(false), Body: idBody, Real: real, Stubs: []string{"cipher"},
		Rule: "1-4 clients add, save and delete feeds, heads and roots in any order while others look; index transactions fail before or at commit; the history, including what a reopened container reports, is linearizable against nested maps with the newest root per head", Needed: []string{"preempt", "idx-failed-tx"}})
	core.Register(&core.Scenario{Prop: "U01", Name: "chain", Quick: 80000, Thor: 300000, Gen: idGen(true), Body: idBody, Real: real, Stubs: []string{"cipher"},
		Rule: "1-4 clients save new and stale roots of the same heads while roots are received and deleted, the clock jumps and index transactions fail; the history is linearizable with every save extending the chain by one", Needed: []string{"preempt", "idx-failed-tx", "clock-jump"}})
	core.Register(&core.Scenario{Prop: "S01", Name: "stat", Quick: 60000, Thor: 300000, Gen: statGen, Body: idBody, Real: real, Stubs: []string{"cipher"},
		Rule: "1-4 clients ask for statistics while they change feeds, heads and roots and index transactions fail; the history with every reported table of feeds, heads, first and last roots is linearizable, object numbers agree with the store and the cache whenever nothing goes on, rates add up", Needed: []string{"preempt", "idx-failed-tx", "rates"}})
}
