package sc

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
)

const ixFeeds = 3

var (
	ixNonces = []uint64{0, 1, 256, math.MaxUint64}
	ixSeqs   = []uint64{0, 1, 2, 255, 256, math.MaxUint64 - 1, math.MaxUint64}
	errTx    = errors.New("transaction says no")
)

type ixRec struct {
	variant  int64
	clo, chi int64 // creation time
	alo, ahi int64 // access time
}

type (
	ixRoots map[uint64]ixRec
	ixHeads map[uint64]ixRoots
	ixState map[int]ixHeads
)

func (s ixState) clone() ixState {
	c := ixState{}
	for f, hs := range s {
		ch := ixHeads{}
		for n, rs := range hs {
			cr := ixRoots{}
			for q, r := range rs {
				cr[q] = r
			}
			ch[n] = cr
		}
		c[f] = ch
	}
	return c
}

func ixEqual(a, b any) bool {
	x, y := a.(ixState), b.(ixState)
	if len(x) != len(y) {
		return false
	}
	for f, hx := range x {
		hy, ok := y[f]
		if !ok || len(hx) != len(hy) {
			return false
		}
		for n, rx := range hx {
			ry, ok := hy[n]
			if !ok || len(rx) != len(ry) {
				return false
			}
			for q, r := range rx {
				if s, ok := ry[q]; !ok || s != r {
					return false
				}
			}
		}
	}
	return true
}

type ixSub struct {
	k       string
	f       int
	n, q    uint64
	variant int64
	at      int64
	mode    int64 // iterations: 0 stop, 1 error; feeds: 2.. mutate
}

type ixOut struct {
	err            string
	ok             bool
	n              int
	seen           []uint64
	recs           []ixRec // per seen root (clo create, alo access)
	create, access int64
	variant        int64 // content read
	t0, t1         int64
}

type ixTx struct {
	subs []ixSub
	end  string // "", err, panic
}

type ixTxOut struct {
	outs []ixOut
	err  string
}

func ixKeys(high bool) (pks [ixFeeds]cipher.PubKey) {
	for i := range pks {
		pks[i], _ = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 7})
	}
	if high {
		for i := range pks[2] {
			pks[2][i] = 0xff
		}
	}
	return
}

func ixRoot(f int, n, q uint64, variant int64) *data.Root {
	r := &data.Root{Seq: q, Time: 1000 + variant}
	id := fmt.Sprint(f, " ", n, " ", q, " ", variant)
	r.Hash = cipher.SumSHA256([]byte("h" + id))
	if q > 0 {
		r.Prev = cipher.SumSHA256([]byte("p" + id))
	}
	r.Sig[0], r.Sig[1] = 1, byte(variant)
	switch variant {
	case 10:
		r.Hash = cipher.SHA256{}
	case 11:
		r.Sig = cipher.Sig{}
	case 12:
		r.Time = 0
	case 13:
		if q > 0 {
			r.Prev = cipher.SHA256{}
		} else {
			r.Prev = r.Hash
		}
	}
	return r
}

// ixVariant tells which variant the record is, -1 when it is damaged.
func ixVariant(r *data.Root, f int, n uint64) int64 {
	v := r.Time - 1000
	if v < 0 || v > 3 {
		return -1
	}
	w := ixRoot(f, n, r.Seq, v)
	if w.Hash != r.Hash || w.Prev != r.Prev || w.Sig != r.Sig {
		return -1
	}
	return v
}

func within(x, lo, hi int64) bool { return x >= lo && x <= hi }

func sortedU(m map[uint64]bool) (l []uint64) {
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

// ixApply runs one operation on the model; o nil means the outcome is unknown.
func ixApply(s ixState, i ixSub, o *ixOut) bool {
	hs, okf := s[i.f]
	needF := strings.HasPrefix(i.k, "h") || strings.HasPrefix(i.k, "r")
	if needF && !okf {
		return o == nil || o.err == data.ErrNoSuchFeed.Error()
	}
	rs, okh := hs[i.n]
	if strings.HasPrefix(i.k, "r") && !okh {
		return o == nil || o.err == data.ErrNoSuchHead.Error()
	}
	clean := func() bool { return o == nil || o.err == "" }
	now := func() (int64, int64) {
		if o == nil {
			return math.MinInt64, math.MaxInt64
		}
		return o.t0, o.t1
	}
	switch i.k {
	case "fadd":
		if !okf {
			s[i.f] = ixHeads{}
		}
		return clean()
	case "fdel":
		if !okf {
			return o == nil || o.err == data.ErrNoSuchFeed.Error()
		}
		delete(s, i.f)
		return clean()
	case "fhas":
		return clean() && (o == nil || o.ok == okf)
	case "flen":
		return clean() && (o == nil || o.n == len(s))
	case "hadd":
		if !okh {
			hs[i.n] = ixRoots{}
		}
		return clean()
	case "hdel":
		if !okh {
			return o == nil || o.err == data.ErrNoSuchHead.Error()
		}
		delete(hs, i.n)
		return clean()
	case "hhas":
		return clean() && (o == nil || o.ok == okh)
	case "hlen":
		return clean() && (o == nil || o.n == len(hs))
	case "rlen":
		return clean() && (o == nil || o.n == len(rs))
	case "rhas":
		_, ok := rs[i.q]
		return clean() && (o == nil || o.ok == ok)
	case "rdel":
		delete(rs, i.q)
		return clean()
	case "rset":
		if i.variant >= 10 {
			return o == nil || o.err != ""
		}
		t0, t1 := now()
		r, ok := rs[i.q]
		if !ok {
			if o != nil && (o.create != o.access || !within(o.create, t0, t1)) {
				return false
			}
			if o != nil {
				t0, t1 = o.create, o.create
			}
			rs[i.q] = ixRec{i.variant, t0, t1, t0, t1}
			return clean()
		}
		if o != nil && (!within(o.create, r.clo, r.chi) || !within(o.access, r.alo, r.ahi)) {
			return false
		}
		r.alo, r.ahi = t0, t1
		rs[i.q] = r
		return clean()
	case "rget":
		r, ok := rs[i.q]
		if !ok {
			return o == nil || o.err == data.ErrNotFound.Error()
		}
		t0, t1 := now()
		if o != nil && (o.variant != r.variant || !within(o.create, r.clo, r.chi) || !within(o.access, r.alo, r.ahi)) {
			return false
		}
		r.alo, r.ahi = t0, t1
		rs[i.q] = r
		return clean()
	case "hiter", "rasc", "rdesc":
		if o == nil {
			return true
		}
		want := map[uint64]bool{}
		if i.k == "hiter" {
			for n := range hs {
				want[n] = true
			}
		} else {
			for q := range rs {
				want[q] = true
			}
		}
		l := sortedU(want)
		if i.k == "rdesc" {
			for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
				l[a], l[b] = l[b], l[a]
			}
		}
		broken := i.at >= 0 && i.at < int64(len(l))
		num := len(l)
		if broken {
			num = int(i.at) + 1
		}
		if len(o.seen) != num {
			return false
		}
		if i.k == "hiter" {
			had := map[uint64]bool{}
			for _, n := range o.seen {
				if !want[n] || had[n] {
					return false
				}
				had[n] = true
			}
		} else {
			for x, q := range o.seen {
				r := rs[l[x]]
				if q != l[x] || o.recs[x].variant != r.variant || !within(o.recs[x].clo, r.clo, r.chi) || !within(o.recs[x].alo, r.alo, r.ahi) {
					return false
				}
			}
		}
		if broken && i.mode == 1 {
			return o.err == errIter.Error()
		}
		return o.err == ""
	case "fiter":
		if o == nil {
			return true
		}
		num := len(s)
		broken := i.at >= 0 && i.at < int64(num)
		had := map[uint64]bool{}
		start := len(s)
		must := map[uint64]bool{}
		for f := range s {
			must[uint64(f)] = true
		}
		for x, f := range o.seen {
			if had[f] {
				return false
			}
			had[f] = true
			if _, ok := s[int(f)]; !ok {
				return false // not there (any more)
			}
			if broken && int64(x) == i.at {
				switch i.mode {
				case 0, 1: // stop, error
					if x != len(o.seen)-1 {
						return false
					}
				case 2: // delete the visited feed
					delete(s, int(f))
				case 3: // delete feed q
					delete(s, int(i.q))
					delete(must, i.q)
				case 4: // add feed q
					if _, ok := s[int(i.q)]; !ok {
						s[int(i.q)] = ixHeads{}
					}
				}
			}
		}
		if broken && i.mode < 2 {
			if len(o.seen) != int(i.at)+1 {
				return false
			}
			if i.mode == 1 {
				return o.err == errIter.Error()
			}
			return o.err == ""
		}
		_ = start
		for f := range must {
			if !had[f] {
				return false
			}
		}
		return o.err == ""
	}
	panic("model: " + i.k)
}

func ixModel() model {
	return model{init: func() any { return ixState{} }, equal: ixEqual,
		step: func(state, in, out any) (bool, any) {
			s := state.(ixState)
			t := in.(ixTx)
			n := s.clone()
			if out == nil {
				for _, i := range t.subs {
					ixApply(n, i, nil)
				}
				if t.end != "" {
					return true, s
				}
				return true, n
			}
			o := out.(ixTxOut)
			for x, i := range t.subs {
				if !ixApply(n, i, &o.outs[x]) {
					return false, s
				}
			}
			if t.end != "" {
				return true, s
			}
			return o.err == "", n
		},
		show: func(in, out any) string {
			t := in.(ixTx)
			var b strings.Builder
			fmt.Fprintf(&b, "tx end=%q", t.end)
			o, _ := out.(ixTxOut)
			for i, s := range t.subs {
				fmt.Fprintf(&b, "\n      %+v", s)
				if i < len(o.outs) {
					fmt.Fprintf(&b, " -> %+v", o.outs[i])
				}
			}
			return b.String()
		}}
}

func ixWall() int64 { return time.Now().UnixNano() }

// ixDo performs one operation inside a transaction.
func ixDo(fs data.Feeds, pks [ixFeeds]cipher.PubKey, i ixSub) (o ixOut) {
	var err error
	defer func() {
		if err != nil {
			o.err = err.Error()
		}
		o.t1 = ixWall()
	}()
	o.t0 = ixWall()
	pk := pks[i.f]
	idx := func(pk cipher.PubKey) uint64 {
		for x := range pks {
			if pks[x] == pk {
				return uint64(x)
			}
		}
		return 99
	}
	endless := func() bool {
		if len(o.seen) > 40 {
			fail("endless-iteration", "%s visits more than there is", i.k)
			return true
		}
		return false
	}
	switch i.k {
	case "fadd":
		err = fs.Add(pk)
		return
	case "fdel":
		err = fs.Del(pk)
		return
	case "fhas":
		o.ok, err = fs.Has(pk)
		return
	case "flen":
		o.n = fs.Len()
		return
	case "fiter":
		err = fs.Iterate(func(pk cipher.PubKey) error {
			o.seen = append(o.seen, idx(pk))
			if endless() {
				return data.ErrStopIteration
			}
			if i.at == int64(len(o.seen))-1 {
				switch i.mode {
				case 0:
					return data.ErrStopIteration
				case 1:
					return errIter
				case 2:
					if e := fs.Del(pk); e != nil {
						return e
					}
				case 3:
					if e := fs.Del(pks[i.q]); e != nil && e != data.ErrNoSuchFeed {
						return e
					}
				case 4:
					if e := fs.Add(pks[i.q]); e != nil {
						return e
					}
				}
			}
			return nil
		})
		return
	}
	var hs data.Heads
	if hs, err = fs.Heads(pk); err != nil {
		return
	}
	switch i.k {
	case "hadd":
		_, err = hs.Add(i.n)
		return
	case "hdel":
		err = hs.Del(i.n)
		return
	case "hhas":
		o.ok, err = hs.Has(i.n)
		return
	case "hlen":
		o.n = hs.Len()
		return
	case "hiter":
		err = hs.Iterate(func(n uint64) error {
			o.seen = append(o.seen, n)
			if endless() {
				return data.ErrStopIteration
			}
			if i.at == int64(len(o.seen))-1 {
				if i.mode == 1 {
					return errIter
				}
				return data.ErrStopIteration
			}
			return nil
		})
		return
	}
	var rs data.Roots
	if rs, err = hs.Roots(i.n); err != nil {
		return
	}
	switch i.k {
	case "rset":
		r := ixRoot(i.f, i.n, i.q, i.variant)
		err = rs.Set(r)
		o.create, o.access = r.Create, r.Access
	case "rdel":
		err = rs.Del(i.q)
	case "rget":
		var r *data.Root
		if r, err = rs.Get(i.q); err == nil {
			o.create, o.access, o.variant = r.Create, r.Access, ixVariant(r, i.f, i.n)
			if r.Seq != i.q {
				o.variant = -1
			}
		}
	case "rhas":
		o.ok, err = rs.Has(i.q)
	case "rlen":
		o.n = rs.Len()
	case "rasc", "rdesc":
		f := func(r *data.Root) error {
			o.seen = append(o.seen, r.Seq)
			o.recs = append(o.recs, ixRec{variant: ixVariant(r, i.f, i.n), clo: r.Create, alo: r.Access})
			if endless() {
				return data.ErrStopIteration
			}
			if i.at == int64(len(o.seen))-1 {
				if i.mode == 1 {
					return errIter
				}
				return data.ErrStopIteration
			}
			return nil
		}
		if i.k == "rasc" {
			err = rs.Ascend(f)
		} else {
			err = rs.Descend(f)
		}
	}
	return
}

// ixRun runs one transaction.
func ixRun(h *hist, db data.IdxDB, pks [ixFeeds]cipher.PubKey, c int, t ixTx, slow bool) {
	if h.unknown() >= 7 {
		return
	}
	r := h.call(c, t)
	var out ixTxOut
	var err error
	panicked := false
	calls := 0
	func() {
		defer func() {
			if t.end != "panic" {
				return
			}
			if e := recover(); e != nil {
				if e == any(errTx) {
					panicked = true
				} else {
					panic(e)
				}
			}
		}()
		err = db.Tx(func(fs data.Feeds) error {
			calls++
			for _, i := range t.subs {
				out.outs = append(out.outs, ixDo(fs, pks, i))
				if slow {
					time.Sleep(time.Millisecond)
				}
			}
			switch t.end {
			case "err":
				return errTx
			case "panic":
				panic(errTx)
			}
			return nil
		})
	}()
	if calls > 1 {
		fail("tx-called-twice", "the function of a transaction was called %d times", calls)
	}
	switch {
	case t.end == "panic" && calls > 0:
		if !panicked {
			fail("tx-panic-swallowed", "the panic of a transaction was swallowed; Tx returned %v", err)
		}
	case t.end == "err" && calls > 0:
		if err != errTx {
			fail("tx-error", "the transaction returned %v, the caller got %v", errTx, err)
		}
	case err != nil:
		if dsIO(err) {
			simrt.Count("op-io-error")
			r.never()
			return
		}
		out.err = err.Error()
	}
	if len(out.outs) != len(t.subs) {
		r.never()
		return
	}
	r.done(out)
}

// ixTxs groups the operations of a client into transactions.
func ixTxs(ops []core.Op) (l []ixTx) {
	for _, o := range ops {
		if o.K == "tx" {
			l = append(l, ixTx{end: []string{"", "err", "panic"}[o.Arg(0)%3]})
			continue
		}
		if len(l) == 0 {
			l = append(l, ixTx{})
		}
		t := &l[len(l)-1]
		t.subs = append(t.subs, ixSub{k: o.K, f: int(o.Arg(0)) % ixFeeds, n: ixNonces[o.Arg(1)%int64(len(ixNonces))],
			q: ixSeqs[o.Arg(2)%int64(len(ixSeqs))], variant: o.Arg(3), at: o.Arg(4) - 1, mode: o.Arg(5)})
		if s := &t.subs[len(t.subs)-1]; s.k == "fiter" {
			s.q = uint64(o.Arg(2) % ixFeeds)
		}
	}
	return
}

// ixAll reads everything.
func ixAll() (t ixTx) {
	t.subs = append(t.subs, ixSub{k: "fiter", at: -1}, ixSub{k: "flen"})
	for f := 0; f < ixFeeds; f++ {
		t.subs = append(t.subs, ixSub{k: "fhas", f: f}, ixSub{k: "hiter", f: f, at: -1}, ixSub{k: "hlen", f: f})
		for _, n := range ixNonces {
			t.subs = append(t.subs, ixSub{k: "rasc", f: f, n: n, at: -1}, ixSub{k: "rdesc", f: f, n: n, at: -1}, ixSub{k: "rlen", f: f, n: n})
		}
	}
	return
}

func ixGenOps(r *simrt.Rng, clients, txs int, mutIter bool, extra int64) (ops []core.Op) {
	// a small working set makes collisions likely
	fs := []int64{int64(r.N(ixFeeds)), int64(r.N(ixFeeds))}
	ns := []int64{int64(r.N(len(ixNonces))), int64(r.N(len(ixNonces)))}
	kinds := swarm(r, []string{"fadd", "fadd", "hadd", "hadd", "hadd", "rset", "rset", "rset", "rset", "rget", "rget", "fdel", "hdel", "rdel", "rdel", "fhas", "hhas", "rhas",
		"flen", "hlen", "rlen", "fiter", "hiter", "rasc", "rdesc"})
	for x := 0; x < txs; x++ {
		c := r.N(clients)
		end := int64(pick(r, 0, 0, 0, 0, 1, 2))
		add := func(k string, a ...int64) {
			if extra >= 0 {
				for len(a) < 6 {
					a = append(a, 0)
				}
				a = append(a, extra)
			}
			ops = append(ops, core.Op{C: c, K: k, A: a})
		}
		add("tx", end)
		for k := 1 + r.N(7); k > 0; k-- {
			kind := pick(r, kinds...)
			if kind == "fdel" && r.N(2) == 0 {
				kind = "rasc"
			}
			f, n := fs[r.N(2)], ns[r.N(2)]
			at, mode := int64(0), int64(0)
			if r.N(3) == 0 {
				at = int64(1 + r.N(3))
				mode = int64(r.N(2))
				if kind == "fiter" && mutIter {
					mode = int64(r.N(5))
				}
			}
			v := int64(r.N(4))
			if kind == "rset" && r.N(8) == 0 {
				v = int64(10 + r.N(4))
			}
			if kind == "rset" && r.N(2) == 0 {
				add("fadd", f)
				add("hadd", f, n)
			}
			add(kind, f, n, int64(r.N(len(ixSeqs))), v, at, mode)
		}
	}
	return
}

func d03Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"high": b2i(r.N(4) == 0), "mem": b2i(r.N(3) == 0), "slow": b2i(r.N(4) == 0), "lat": int64(pick(r, 0, 0, 20))}}
	p.Ops = ixGenOps(r, 1+r.N(4), 2+r.N(7), true, -1)
	return p
}

func d03FaultGen(r *simrt.Rng) *core.Prog {
	p := d03Gen(r)
	p.Cfg["mem"] = 0
	if r.N(3) == 0 {
		p.Cfg["full"] = int64(16384 + r.N(40000))
	} else {
		p.Cfg["err"] = int64(pick(r, 10, 30, 60))
	}
	return p
}

const ixFile = "/db/x.idx"

func d03Body(p *core.Prog) {
	pks := ixKeys(p.Cfg["high"] == 1)
	disk := simos.NewDisk("d")
	disk.LatP = float64(p.Cfg["lat"]) / 100
	pr := newProc("idx")
	simos.Mount(pr.D, disk)
	h := &hist{}
	var db data.IdxDB
	var err error
	core.Phase("open")
	pr.Do("open", func() {
		if p.Cfg["mem"] == 1 {
			db = idxdb.NewMemeoryDB()
		} else {
			db, err = idxdb.NewDriveIdxDB(ixFile)
		}
	})
	if !pr.alive() {
		return
	}
	if err != nil {
		fail("open", "creating the index: %v", err)
		return
	}
	disk.SafeHead = 8192
	disk.ErrP = float64(p.Cfg["err"]) / 1000
	disk.FullAt = p.Cfg["full"]
	core.Phase("transactions")
	if !pr.Par(p.Clients(), func(c int) {
		for _, t := range ixTxs(p.Of(c)) {
			ixRun(h, db, pks, c, t, p.Cfg["slow"] == 1)
		}
	}) {
		return
	}
	disk.ErrP, disk.FullAt = 0, 0
	core.Phase("final")
	pr.Do("final", func() {
		ixRun(h, db, pks, 90, ixAll(), false)
		if err := db.Close(); err != nil {
			fail("close", "closing the index: %v", err)
		}
		if p.Cfg["mem"] == 1 {
			if l := disk.Files(); len(l) > 0 {
				for _, n := range l {
					if strings.HasPrefix(n, "/tmp/") && n != "/tmp" {
						fail("memory-leftover", "the memory index left %s behind", n)
					}
				}
			}
			return
		}
		core.Phase("reopen")
		db, err := idxdb.NewDriveIdxDB(ixFile)
		if err != nil {
			fail("reopen", "opening the closed index: %v", err)
			return
		}
		ixRun(h, db, pks, 91, ixAll(), false)
		db.Close()
	})
	if pr.alive() {
		ixCheck(h)
	}
}

func ixCheck(h *hist) {
	m := ixModel()
	if !h.linearizable(m) {
		fail("not-serializable", "no order of these transactions agrees with nested ordered maps:\n%s", h.show(m))
	}
}

func d04Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"rounds": int64(1 + r.N(3)), "lat": int64(pick(r, 0, 0, 20))}}
	n := 1 + r.N(3)
	for round := int64(0); round < p.Cfg["rounds"]; round++ {
		p.Cfg[fmt.Sprintf("crash%d", round)] = int64(1 + r.N(pick(r, 6, 12, 40)))
		p.Ops = append(p.Ops, ixGenOps(r, n, 1+r.N(5), false, round)...)
	}
	return p
}

func d04Body(p *core.Prog) {
	pks := ixKeys(false)
	disk := simos.NewDisk("d")
	disk.LatP = float64(p.Cfg["lat"]) / 100
	h := &hist{}
	boltInit(disk)
	for round := int64(0); round <= p.Cfg["rounds"]; round++ {
		last := round == p.Cfg["rounds"]
		n := p.Cfg[fmt.Sprintf("crash%d", round)]
		if last {
			n = 0
		}
		var db data.IdxDB
		var err error
		var proc *Proc
		failed, crashed := false, false
		crashed = crashable(disk, fmt.Sprintf("idx%d", round), n, func(pr *Proc) {
			proc = pr
			core.Phase("open")
			if !pr.Do("open", func() { db, err = idxdb.NewDriveIdxDB(ixFile) }) {
				return
			}
			if err != nil {
				failed = true
				fail(openSig(disk), "round %d: the index does not open after the crash: %v", round, err)
				return
			}
			if round > 0 {
				core.Phase("check")
				pr.Do("check", func() { ixRun(h, db, pks, 100+int(round), ixAll(), false) })
			}
			if last {
				pr.Do("close", func() { db.Close() })
				return
			}
			core.Phase("transactions")
			pr.Par(p.Clients(), func(c int) {
				var ops []core.Op
				for _, o := range p.Of(c) {
					if o.Arg(6) == round {
						ops = append(ops, o)
					}
				}
				for _, t := range ixTxs(ops) {
					ixRun(h, db, pks, c, t, false)
				}
			})
			if pr.alive() {
				simrt.Count("crash-idle")
				disk.CrashIn = 0
				pr.D.Crash()
				simrt.Count("crash")
				disk.Crash()
				crashed = true
			}
		}) || crashed
		if failed || !crashed && !proc.alive() {
			return
		}
		h.cut()
	}
	ixCheck(h)
}

func init() {
	real := []string{"data/idxdb", "bolt v1.3.1"}
	core.Register(&core.Scenario{Prop: "D03", Name: "tx", Quick: 80000, Thor: 300000, Gen: d03Gen, Body: d03Body, Real: real,
		Stubs: []string{"disk (simulated)"}, Needed: []string{"preempt"},
		Rule: "1-4 clients run transactions of 1-7 operations that commit, return an error or panic, on the drive and the memory index; the history is checked for serializability against nested ordered maps"})
	core.Register(&core.Scenario{Prop: "D03", Name: "diskfaults", Quick: 40000, Thor: 200000, Gen: d03FaultGen, Body: d03Body, Real: real,
		Stubs: []string{"disk (simulated: I/O errors, full disk)"}, Needed: []string{"op-io-error"},
		Rule: "the same with I/O errors or a full disk; a transaction that reports such an error must have changed nothing"})
	core.Register(&core.Scenario{Prop: "D04", Name: "crash", Quick: 80000, Thor: 300000, Gen: d04Gen, Body: d04Body, Real: real,
		Stubs: []string{"disk (simulated: lost, torn and reordered unsynced writes)"}, Needed: []string{"crash", "disk-lost-write"},
		Rule: "1-3 crashes at random disk operations or between transactions, each followed by a reopen that reads everything; one history over all rounds"})
}
