package sc

import (
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
)

// rootOf the feed with the statistics.
func (fd *nFeed) rootOf(nonce uint64, rs skyobject.RootStat) *nRoot {
	for _, r := range fd.roots {
		if r.nonce == nonce && r.seq == rs.Seq && r.hash == rs.Hash && r.time == rs.Time.UnixNano() {
			return r
		}
	}
	return nil
}

// stat asks the node for its statistics and compares them with the index before and after.
func (nd *nNode) stat(rest bool) {
	w := nd.w
	gen := nd.gen
	nd.do("stat", func(n *node.Node) {
		c := n.Container()
		type hk struct {
			f     int
			nonce uint64
		}
		look := func() map[hk]uint64 {
			m := map[hk]uint64{}
			for f, fd := range w.feeds {
				for h := uint64(1); h <= 2; h++ {
					if s, err := c.LastRootSeq(fd.pk, h); err == nil {
						m[hk{f, h}] = s + 1
					}
				}
			}
			return m
		}
		bad := func(f string, a ...any) {
			if !nd.closing && nd.up && gen == nd.gen {
				w.fail("stat", "node %d: "+f, append([]any{nd.i}, a...)...)
			}
		}
		feeds := n.Feeds()
		before := look()
		var st *node.Stat
		w.timed("Stat", time.Second+2*w.slow(), func() { st = n.Stat() })
		after := look()
		simrt.Count("node-stat")
		if st == nil || st.Stat == nil {
			bad("Stat returned nothing")
			return
		}
		for _, pk := range feeds {
			if _, ok := st.Feeds[pk]; !ok {
				bad("the statistics have no feed %s", pk.Hex()[:8])
			}
		}
		for pk, sf := range st.Feeds {
			f := 0
			for f < len(w.feeds) && w.feeds[f].pk != pk {
				f++
			}
			if f == len(w.feeds) {
				bad("the statistics have an unknown feed %s", pk.Hex()[:8])
				return
			}
			for nonce, sh := range sf.Heads {
				a, b := before[hk{f, nonce}], after[hk{f, nonce}]
				if sh.Len == 0 && a == 0 {
					continue
				}
				first, last := w.feeds[f].rootOf(nonce, sh.First), w.feeds[f].rootOf(nonce, sh.Last)
				switch {
				case first == nil || last == nil:
					if rest && nd.db != nil { // a root is saved before the harness knows of it
						bad("head %d of feed %d has %d roots, first %v, last %v, which nobody published", nonce, f, sh.Len, sh.First, sh.Last)
					}
				case first.seq > last.seq || sh.Len < 1 || uint64(sh.Len) > last.seq-first.seq+1:
					bad("head %d of feed %d has %d roots, first %d, last %d", nonce, f, sh.Len, first.seq, last.seq)
				}
				if s := sh.Last.Seq + 1; s < a || s > b {
					bad("the statistics show last root %d of head %d of feed %d, it was %d before and %d after (-1: none)", sh.Last.Seq, nonce, f, int(a)-1, int(b)-1)
				}
			}
			for k := range before {
				if _, ok := sf.Heads[k.nonce]; k.f == f && !ok {
					bad("the statistics have no head %d of feed %d", k.nonce, f)
				}
			}
		}
		if st.Fillavg < 0 || float64(st.RootsPerSecond) < 0 {
			bad("Fillavg %v, RootsPerSecond %v", st.Fillavg, st.RootsPerSecond)
		}
		if !rest {
			return
		}
		if nd.db == nil {
			return
		}
		num, vol := 0, 0
		nd.db.CXDS().Iterate(func(_ cipher.SHA256, rc uint32, v []byte) error {
			num++
			vol += len(v)
			return nil
		})
		if int(st.AllObjects.Amount) != num || int(st.AllObjects.Volume) != vol || st.UsedObjects.Amount > st.AllObjects.Amount {
			bad("the statistics show all %v, used %v objects; the store has %d of %d bytes", st.AllObjects, st.UsedObjects, num, vol)
		}
	})
}

func s01Gen(r *simrt.Rng) *core.Prog {
	p := n04Gen(r.N(2) == 0)(r)
	n := p.Clients()
	for cl := n; cl < n+1+r.N(2); cl++ {
		for i := 3 + r.N(15); i > 0; i-- {
			p.Ops = append(p.Ops, core.Op{C: cl, K: "stat", A: []int64{int64(r.N(int(p.Cfg["nodes"])))}})
			if r.N(3) > 0 {
				p.Ops = append(p.Ops, core.Op{C: cl, K: "sleep", A: []int64{int64(r.N(pick(r, 5, 50, 500, 3000)))}})
			}
		}
	}
	return p
}

func s01Body(p *core.Prog) {
	w, _, ok := n04World(p, true, nil)
	if !ok {
		return
	}
	core.Phase("final")
	time.Sleep(2*w.rt + 2*time.Second)
	for _, nd := range w.nodes {
		nd.stat(true)
	}
	core.Phase("close")
	for _, nd := range w.nodes {
		n := nd.n
		pr := nd.pr
		if !nd.up {
			continue
		}
		closed := false
		for i := 0; i < int(p.Cfg["nodes"])%3; i++ {
			simrt.GoIn(pr.D, "stat", func() {
				for k := 0; k < 60 && !closed; k++ {
					if st := n.Stat(); st == nil || st.Stat == nil {
						w.fail("stat", "Stat of a closing node returned nothing")
						return
					}
					if k > 30 {
						time.Sleep(time.Duration(1+i) * 20 * time.Microsecond)
					}
				}
			})
		}
		simrt.Uncalm()
		nd.shut()
		closed = true
		if core.Failed() {
			return
		}
		pr.Do("stat", func() {
			if st := n.Stat(); st == nil {
				w.fail("stat", "Stat of a closed node returned nothing")
			}
		})
	}
}

func init() {
	real := []string{"node", "skyobject (container, cache, index, filler, unpack, statistics)", "data/cxds", "data/idxdb", "bolt (runs on disk)"}
	stubs := []string{"skycoin/net/factory (message transport)", "cipher", "encoder", "network", "disk"}
	core.Register(&core.Scenario{Prop: "S01", Name: "nodes", Quick: 2500, Thor: 20000, Gen: s01Gen, Body: s01Body, Real: real, Stubs: stubs,
		Rule: "clients ask 2-5 nodes for statistics while roots are published and filled and connections and nodes fail; what they show of feeds, heads and roots lies between the index before and after, objects agree with the store at rest, a closed node still answers", Needed: []string{"preempt", "node-stat"}})
}
