package sc

import (
	"fmt"
	"sort"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
)

// twFeed is what the container acknowledged about a feed.
type twFeed struct {
	present bool
	heads   map[uint64]map[uint64]cipher.SHA256
}

// twPend is a change that is not acknowledged yet.
type twPend struct {
	kind  string
	nonce uint64
	seq   uint64
	hash  cipher.SHA256
	keep  int
}

type twModel struct {
	f    [2 * twClients]twFeed
	pend [2 * twClients]*twPend
}

func (m *twModel) begin(f int, p twPend) {
	if m != nil {
		m.pend[f] = &p
	}
}

// end of the change; good tells that it was acknowledged
func (m *twModel) end(f int, good bool) {
	if m == nil || m.pend[f] == nil {
		return
	}
	p := m.pend[f]
	m.pend[f] = nil
	if !good {
		return
	}
	x := &m.f[f]
	switch p.kind {
	case "save", "fill":
		x.set(p.nonce, p.seq, p.hash)
	case "delroot":
		delete(x.heads[p.nonce], p.seq)
	case "delhead":
		delete(x.heads, p.nonce)
	case "delfeed":
		*x = twFeed{}
	case "addfeed":
		x.present = true
	case "trim":
		for n := range x.heads {
			for _, s := range x.old(n, p.keep) {
				delete(x.heads[n], s)
			}
		}
	}
}

func (x *twFeed) set(nonce, seq uint64, h cipher.SHA256) {
	if x.heads == nil {
		x.heads = map[uint64]map[uint64]cipher.SHA256{}
	}
	if x.heads[nonce] == nil {
		x.heads[nonce] = map[uint64]cipher.SHA256{}
	}
	x.heads[nonce][seq] = h
}

// old roots of a head
func (x *twFeed) old(nonce uint64, keep int) []uint64 {
	var l []uint64
	for s := range x.heads[nonce] {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] > l[j] })
	if len(l) <= keep {
		return nil
	}
	return l[keep:]
}

func (x *twFeed) clone() twFeed {
	y := twFeed{present: x.present, heads: map[uint64]map[uint64]cipher.SHA256{}}
	for n, h := range x.heads {
		y.heads[n] = map[uint64]cipher.SHA256{}
		for s, v := range h {
			y.heads[n][s] = v
		}
	}
	return y
}

func (x *twFeed) String() string {
	if !x.present {
		return "no feed"
	}
	var l []string
	for n, h := range x.heads {
		var t []string
		for s, v := range h {
			t = append(t, fmt.Sprintf("%03d:%s", s, v.Hex()[:7]))
		}
		sort.Strings(t)
		l = append(l, fmt.Sprintf("head %d %v", n, t))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// allowed states of a feed after a crash
func (m *twModel) allowed(f int, o *twFeed) bool {
	x := &m.f[f]
	got := o.String()
	if got == x.String() {
		return true
	}
	p := m.pend[f]
	if p == nil {
		return false
	}
	y := x.clone()
	switch p.kind {
	case "save":
		h := p.hash
		if h == (cipher.SHA256{}) {
			h = o.heads[p.nonce][p.seq]
		}
		y.set(p.nonce, p.seq, h)
	case "fill":
		y.set(p.nonce, p.seq, p.hash)
	case "delroot":
		delete(y.heads[p.nonce], p.seq)
	case "delhead":
		delete(y.heads, p.nonce)
	case "delfeed":
		y = twFeed{}
	case "addfeed":
		y.present = true
	case "trim":
		for n := range y.heads {
			for _, s := range y.old(n, p.keep) {
				if _, ok := o.heads[n][s]; !ok {
					delete(y.heads[n], s)
				}
			}
		}
	}
	return got == y.String()
}

// next seq of a head
func (x *twFeed) next(nonce uint64) uint64 {
	var n uint64
	for s := range x.heads[nonce] {
		if s+1 > n {
			n = s + 1
		}
	}
	return n
}

// observe the feeds through the container and its index.
func (w *tWorld) observe() (l [2 * twClients]twFeed, ok bool) {
	has := map[cipher.PubKey]bool{}
	for _, pk := range w.c.Feeds() {
		if has[pk] {
			w.fail("feed-twice", "Feeds lists a feed twice")
			return
		}
		has[pk] = true
	}
	n := 0
	for f, pk := range w.pk {
		if w.c.HasFeed(pk) != has[pk] {
			w.fail("feeds", "HasFeed and Feeds disagree")
			return
		}
		if !has[pk] {
			continue
		}
		n++
		l[f] = twFeed{present: true, heads: map[uint64]map[uint64]cipher.SHA256{}}
		hs, err := w.c.Heads(pk)
		if err != nil {
			w.fail("heads", "Heads: %v", err)
			return
		}
		for _, h := range hs {
			l[f].heads[h] = map[uint64]cipher.SHA256{}
		}
	}
	if n != len(has) {
		w.fail("feeds", "there are feeds nobody added")
		return
	}
	for _, r := range w.roots() {
		if l[r.f].heads[r.nonce] == nil {
			w.fail("heads", "the index has a root %d/%d/%d of a head the container does not list", r.f, r.nonce, r.seq)
			return
		}
		l[r.f].heads[r.nonce][r.seq] = r.hash
		x, err := w.c.Root(w.pk[r.f], r.nonce, r.seq)
		if err != nil || x.Hash != r.hash || x.Seq != r.seq || x.Pub != w.pk[r.f] || x.Nonce != r.nonce || !x.IsFull {
			w.fail("root", "Root %d/%d/%d: %v", r.f, r.nonce, r.seq, err)
			return
		}
		if err := cipher.VerifyPubKeySignedHash(x.Pub, x.Sig, x.Hash); err != nil {
			w.fail("root", "Root %d/%d/%d: the signature is wrong: %v", r.f, r.nonce, r.seq, err)
			return
		}
		if _, err = w.c.Registry(x.Reg); err != nil {
			w.fail("registry", "the registry of root %d/%d/%d: %v", r.f, r.nonce, r.seq, err)
			return
		}
	}
	for f := range l {
		var newest int64
		for n, h := range l[f].heads {
			x, err := w.c.LastRoot(w.pk[f], n)
			if len(h) == 0 {
				if err == nil {
					w.fail("last-root", "LastRoot of a blank head is %d", x.Seq)
					return
				}
				continue
			}
			if last := l[f].next(n) - 1; err != nil || x.Seq != last || x.Hash != h[last] {
				w.fail("last-root", "LastRoot of head %d/%d: %v %v, must be %d", f, n, x, err, last)
				return
			}
			if x.Time > newest {
				newest = x.Time
			}
		}
		if newest > 0 {
			n := w.c.ActiveHead(w.pk[f])
			if x, err := w.c.LastRoot(w.pk[f], n); err != nil || x.Time != newest {
				w.fail("active-head", "the active head of feed %d is %d, which does not have the newest root", f, n)
				return
			}
		}
	}
	return l, true
}

func i02Gen(n func(r *simrt.Rng) int) func(r *simrt.Rng) *core.Prog {
	g := twGen(0, []string{"save", "save", "save", "fill", "fill", "delroot", "delroot", "delhead", "delfeed", "clean", "trim"}, n)
	return func(r *simrt.Rng) *core.Prog {
		p := g(r)
		p.Cfg["share"] = 0
		p.Cfg["rounds"] = int64(1 + r.N(4))
		for i := int64(0); i < p.Cfg["rounds"]; i++ {
			p.Cfg[fmt.Sprintf("crash%d", i)] = int64(pick(r, 0, 1, 1, 1) * (1 + r.N(pick(r, 30, 100, 300, 1000))))
		}
		for i := range p.Ops {
			o := &p.Ops[i]
			for len(o.A) < 6 {
				o.A = append(o.A, 0)
			}
			o.A = append(o.A, int64(r.N(int(p.Cfg["rounds"]))))
		}
		return p
	}
}

func i02Body(p *core.Prog) {
	disk := simos.NewDisk("d")
	boltInit(disk)
	w := &tWorld{p: p, par: p.Clients() > 1, m: &twModel{}, dir: "/db"}
	w.types = newTypes()
	for i := range w.pk {
		w.pk[i], w.sk[i] = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 9})
	}
	core.Phase("make remote roots")
	good := true
	newProc("remote").Do("make", func() {
		for c := 0; c < p.Clients() && c < twClients; c++ {
			good = good && w.makeRemotes(c, 3)
		}
	})
	if !good {
		return
	}
	for round := int64(0); round <= p.Cfg["rounds"]; round++ {
		last := round == p.Cfg["rounds"]
		n := p.Cfg[fmt.Sprintf("crash%d", round)]
		if last {
			n = 0
		}
		bad := false
		crashed := crashable(disk, fmt.Sprintf("container%d", round), n, func(pr *Proc) {
			core.Phase("open")
			ok := false
			if !pr.Do("open", func() {
				w.sig = openSig(disk)
				if !w.open() {
					return
				}
				w.note("opened")
				ok = true
			}) {
				w.note("crashed while opening")
				return
			}
			if !ok {
				bad = true
				return
			}
			core.Phase("check")
			if !pr.Do("check", func() {
				w.reopened(round)
				bad = bad || core.Failed()
				for i := range w.pk {
					if w.m.f[i].present {
						continue
					}
					w.m.begin(i, twPend{kind: "addfeed"})
					if err := w.c.AddFeed(w.pk[i]); err != nil {
						w.fail("addfeed", "AddFeed: %v", err)
					}
					w.m.end(i, true)
				}
			}) || bad {
				return
			}
			if last {
				pr.Do("final", func() { w.final02() })
				return
			}
			core.Phase("operations")
			pr.Par(p.Clients(), func(c int) {
				for _, o := range p.Of(c) {
					if o.Arg(6) == round {
						w.do(c, o)
					}
				}
			})
			if !pr.alive() {
				w.note("crashed")
				return
			}
			if n == 0 {
				core.Phase("close")
				pr.Do("close", func() {
					if err := w.c.Close(); err != nil {
						w.fail("close", "Close: %v", err)
						bad = true
					}
					w.note("closed")
				})
				return
			}
			// no crash point was reached: crash now
			disk.CrashIn = 0
			w.note("crashed with nothing in progress")
			simrt.Count("crash-idle")
			simrt.Count("crash")
			pr.D.Crash()
			disk.Crash()
		})
		_ = crashed
		if bad || core.Failed() {
			return
		}
	}
}

// reopened compares everything with what was acknowledged.
func (w *tWorld) reopened(round int64) {
	got, ok := w.observe()
	if !ok {
		return
	}
	for f := range got {
		if !w.m.allowed(f, &got[f]) {
			p := ""
			if x := w.m.pend[f]; x != nil {
				p = fmt.Sprintf(" (%s %d/%d in progress)", x.kind, x.nonce, x.seq)
			}
			w.fail("lost", "opened for the %d. time, feed %d is\n  %v, acknowledged was%s\n  %v", round+1, f, &got[f], p, &w.m.f[f])
			return
		}
		w.m.f[f] = got[f].clone()
		w.m.pend[f] = nil
	}
	when := fmt.Sprintf("opened for the %d. time", round+1)
	if wk := w.walk(w.get, when); wk != nil {
		w.compare(wk, when, w.live)
	}
}

// final02 deletes the roots one by one.
func (w *tWorld) final02() {
	core.Phase("delete everything")
	raw := func(h cipher.SHA256) []byte {
		v, _, err := w.pb.CXDS.Get(h, 0)
		if err != nil {
			return nil
		}
		return v
	}
	l := w.roots()
	rg := simrt.NewRng(uint64(w.p.Cfg["salt"]))
	for len(l) > 0 && !core.Failed() {
		i := rg.N(len(l))
		r := l[i]
		l = append(l[:i], l[i+1:]...)
		if err := w.c.DelRoot(w.pk[r.f], r.nonce, r.seq); err != nil {
			w.fail("delroot", "DelRoot %d/%d/%d at the end: %v", r.f, r.nonce, r.seq, err)
			return
		}
		w.note("deleted %d/%d/%d", r.f, r.nonce, r.seq)
		if wk := w.walk(w.get, "while deleting everything"); wk != nil {
			w.compare(wk, "while deleting everything", w.live)
		}
	}
	for i := range w.pk {
		if err := w.c.DelFeed(w.pk[i]); err != nil && err != data.ErrNoSuchFeed {
			w.fail("delfeed", "DelFeed at the end: %v", err)
			return
		}
	}
	if err := w.c.Close(); err != nil {
		w.fail("close", "%v", err)
		return
	}
	if !w.open() {
		return
	}
	w.compare(newWalk(w.types, raw), "after deleting everything", w.live)
	if len(w.c.Feeds()) > 0 {
		w.fail("feeds", "all feeds are deleted, the reopened container has some")
	}
	w.c.Close()
}

func init() {
	real := []string{"skyobject (container, cache, index, unpack, filler, deletion)", "skyobject/registry", "cxoutils", "data/cxds (drive)", "data/idxdb (drive)", "bolt"}
	stubs := []string{"cipher", "encoder", "remote peers", "disk"}
	core.Register(&core.Scenario{Prop: "I02", Name: "restart", Quick: 10000, Thor: 80000, Gen: i02Gen(func(r *simrt.Rng) int { return 1 }), Body: i02Body, Real: real, Stubs: stubs,
		Rule: "one client changes a container on a simulated disk over several process lives, each ends with Close or a crash at a random disk operation; every life starts with exactly the acknowledged feeds, heads and roots (the change in progress may be there), complete trees and correct counts; at the end roots are deleted one by one", Needed: []string{"crash", "crash-idle"}})
	core.Register(&core.Scenario{Prop: "I02", Name: "restart-many", Quick: 8000, Thor: 60000, Gen: i02Gen(func(r *simrt.Rng) int { return 2 + r.N(2) }), Body: i02Body, Real: real, Stubs: stubs,
		Rule: "the same with 2-3 concurrent clients on their own feeds, each of which can have a change in progress", Needed: []string{"crash", "preempt"}})
}
