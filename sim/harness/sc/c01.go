package sc

import (
	"bytes"
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

// probe wraps an object store: it counts accesses and can survive Close.
type probe struct {
	data.CXDS
	keep  bool // Close does nothing
	gets  map[cipher.SHA256]int
	calls int
}

func newProbe(ds data.CXDS, keep bool) *probe {
	return &probe{CXDS: ds, keep: keep, gets: map[cipher.SHA256]int{}}
}

func (p *probe) Get(key cipher.SHA256, inc int) ([]byte, uint32, error) {
	p.gets[key]++
	p.calls++
	return p.CXDS.Get(key, inc)
}

func (p *probe) Close() error {
	if p.keep {
		return nil
	}
	return p.CXDS.Close()
}

const (
	ccKeys    = 6
	ccClients = 4
	ccBig     = ccKeys - 1 // larger than the greatest allowed object
)

var ccSizes = [ccKeys]int{1, 12, 40, 90, 400, 1500}

type ccObj struct {
	key [ccKeys]cipher.SHA256
	val [ccKeys][]byte
}

func ccData(salt, even int64) *ccObj {
	o := &ccObj{}
	for i := range o.key {
		n := ccSizes[i]
		if i != ccBig {
			n = ccSizes[(i+int(salt))%ccBig]
			if even > 0 {
				n = int(even) + (i+int(salt))%ccBig
			}
		}
		o.val[i] = payload(salt*100+int64(i), n)
		o.key[i] = cipher.SumSHA256(o.val[i])
	}
	return o
}

// state of one object in the reference model
type ccState struct {
	exists bool
	rc     int64 // all references
	fc     int64 // of them by those who fill
	wait   [ccClients]bool
	winc   [ccClients]int64
	slot   [ccClients]int64 // what lies in the channel of the client: 0 nothing, 1 an error, otherwise hard references+2
}

func (s *ccState) put(c int, v int64) {
	if s.slot[c] == 0 {
		s.slot[c] = v
	}
}

type ccIn struct {
	k   string
	key int
	c   int
	inc int64
}

type ccOut struct {
	err string
	rc  int64
	val bool // the right value came with it
	n   int64
}

const tooLarge = "too large"

func ccStep(key int) func(state, in, out any) (bool, any) {
	return func(state, in, out any) (bool, any) {
		s := state.(ccState)
		i := in.(ccIn)
		o := out.(ccOut)
		var e ccOut
		inc := func() {
			if s.rc += i.inc; s.rc < 0 {
				s.rc = 0
			}
		}
		arrive := func(inc int64) {
			var w int64
			for c := range s.wait {
				w += s.winc[c]
			}
			if inc+w > 0 {
				s.exists = true
				s.rc += inc + w
				s.fc += w
			}
			for c := range s.wait {
				if s.wait[c] {
					s.put(c, s.rc-s.fc+2)
				}
				s.wait[c], s.winc[c] = false, 0
			}
			e.rc = s.rc - s.fc
		}
		refuse := func() {
			for c := range s.wait {
				if s.wait[c] {
					s.put(c, 1)
				}
				s.wait[c], s.winc[c] = false, 0
			}
			e.err = tooLarge
		}
		switch i.k {
		case "get", "inc":
			if !s.exists {
				e.err = data.ErrNotFound.Error()
				break
			}
			inc()
			e.rc = s.rc - s.fc
			e.val = i.k == "get"
		case "set":
			switch {
			case s.exists:
				inc()
				e.rc = s.rc - s.fc
			case key == ccBig:
				refuse()
			default:
				arrive(i.inc)
			}
		case "setwanted":
			any := false
			for _, w := range s.wait {
				any = any || w
			}
			switch {
			case s.exists || !any:
			case key == ccBig:
				refuse()
			default:
				arrive(0)
			}
		case "want":
			if s.exists {
				s.rc += i.inc
				s.fc += i.inc
				s.put(i.c, s.rc-s.fc+2)
				break
			}
			s.wait[i.c] = true
			s.winc[i.c] += i.inc
		case "unwant":
			s.wait[i.c], s.winc[i.c] = false, 0
		case "recv":
			e.n = s.slot[i.c]
			e.val = e.n > 1
			s.slot[i.c] = 0
		case "finc":
			n := i.inc
			if n < 0 {
				n = -n
				s.rc -= n
			}
			s.fc -= n
		case "store": // what the object store holds after Close
			if !s.exists {
				e.err = data.ErrNotFound.Error()
				break
			}
			e.rc = s.rc - s.fc
			e.val = true
		}
		return o == e, s
	}
}

func ccModel(key int) model {
	return model{init: func() any { return ccState{} }, step: ccStep(key), equal: func(a, b any) bool { return a.(ccState) == b.(ccState) }}
}

// ccClient is one user of the cache.
type ccClient struct {
	gc   [ccKeys]chan skyobject.Object
	pend [ccKeys]int64 // increments that come with the object
	held [ccKeys]int64 // increments of a filler to be confirmed or rejected
	on   [ccKeys]bool  // waiting
}

type ccRun struct {
	obj *ccObj
	c   *skyobject.Container
	h   [ccKeys]*hist
	cl  [ccClients]*ccClient
}

func newCC(obj *ccObj) *ccRun {
	r := &ccRun{obj: obj}
	for i := range r.h {
		r.h[i] = &hist{}
	}
	for i := range r.cl {
		r.cl[i] = &ccClient{}
		for k := range r.cl[i].gc {
			r.cl[i].gc[k] = make(chan skyobject.Object, 1)
		}
	}
	return r
}

func ccErr(err error) string {
	if err == nil {
		return ""
	}
	if _, ok := err.(*skyobject.ObjectIsTooLargeError); ok {
		return tooLarge
	}
	return err.Error()
}

func (r *ccRun) recv(c, k int) {
	cl := r.cl[c]
	o := r.h[k].call(c, ccIn{k: "recv", key: k, c: c})
	var out ccOut
	select {
	case x := <-cl.gc[k]:
		cl.on[k] = false
		if x.Err != nil {
			out.n = 1
			if ccErr(x.Err) != tooLarge {
				out.err = x.Err.Error()
			}
		} else {
			out.n = int64(x.RC) + 2
			out.val = bytes.Equal(x.Val, r.obj.val[k]) && x.Key == r.obj.key[k]
			cl.held[k] += cl.pend[k]
		}
		cl.pend[k] = 0
	default:
	}
	o.done(out)
}

func (r *ccRun) do(c int, op core.Op) {
	k := int(op.Arg(0)) % ccKeys
	inc := op.Arg(1)
	cl := r.cl[c]
	key := r.obj.key[k]
	val := append([]byte{}, r.obj.val[k]...)
	switch op.K {
	case "recv":
		r.recv(c, k)
		return
	case "want":
		r.recv(c, k)
		if cl.on[k] {
			if k == ccBig {
				return // an error can come between the two, keep it simple
			}
			inc = 0 // the first can be served between the two, then it is unknown which was withdrawn later
		}
	case "finc":
		if cl.held[k] == 0 {
			return
		}
		if inc > 0 {
			inc = 1 + (inc-1)%cl.held[k]
		} else {
			inc = -(1 + -inc%cl.held[k])
		}
	}
	o := r.h[k].call(c, ccIn{op.K, k, c, inc})
	var out ccOut
	var err error
	var rc int
	switch op.K {
	case "get":
		var got []byte
		got, rc, err = r.c.Get(key, int(inc))
		out.val = err == nil && bytes.Equal(got, val)
	case "inc":
		rc, err = r.c.Inc(key, int(inc))
	case "set":
		rc, err = r.c.Set(key, val, int(inc))
	case "setwanted":
		rc, err = r.c.SetWanted(key, val)
	case "want":
		cl.pend[k] += inc
		cl.on[k] = true
		err = r.c.Want(key, cl.gc[k], int(inc))
	case "unwant":
		r.c.Unwant(key, cl.gc[k])
	case "finc":
		err = r.c.Finc(key, int(inc))
		if inc < 0 {
			inc = -inc
		}
		cl.held[k] -= inc
	}
	out.err = ccErr(err)
	if err == nil {
		out.rc = int64(rc)
	}
	o.done(out)
	if op.K == "unwant" {
		r.recv(c, k)
		cl.on[k], cl.pend[k] = false, 0
	}
}

// pinned objects may stay in memory beyond the limits.
func (r *ccRun) pinned(k int) bool {
	for _, cl := range r.cl {
		if cl.on[k] || cl.held[k] > 0 || cl.pend[k] > 0 {
			return true
		}
	}
	return false
}

func (r *ccRun) limits(conf *skyobject.Config, when string) {
	n, v := 0, 0
	for k := range r.obj.key {
		if r.pinned(k) || !r.c.IsCached(r.obj.key[k]) {
			continue
		}
		n++
		v += len(r.obj.val[k])
		if l := len(r.obj.val[k]); l > conf.CacheMaxItemSize {
			fail("item-too-big", "%s: an object of %d bytes is kept in memory, the greatest allowed is %d", when, l, conf.CacheMaxItemSize)
		}
	}
	st := r.c.Stat()
	if n > conf.CacheMaxAmount || v > conf.CacheMaxVolume || n > 0 && (conf.CacheMaxAmount == 0 || conf.CacheMaxVolume == 0) {
		fail("cache-limit", "%s: %d objects of %d bytes are kept in memory, the limits are %d and %d", when, n, v, conf.CacheMaxAmount, conf.CacheMaxVolume)
	}
	if a, v := int(st.CacheObjects.Amount), int(st.CacheObjects.Volume); a > conf.CacheMaxAmount || v > conf.CacheMaxVolume || a < 0 || v < 0 {
		fail("cache-limit-stat", "%s: the cache reports %d objects of %d bytes, the limits are %d and %d", when, a, v, conf.CacheMaxAmount, conf.CacheMaxVolume)
	}
}

func ccConfig(p *core.Prog, db *data.DB) *skyobject.Config {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.DB = db
	conf.MaxObjectSize = 1024
	conf.CacheMaxAmount = int(p.Cfg["amount"])
	conf.CacheMaxVolume = int(p.Cfg["volume"])
	conf.CacheMaxItemSize = int(p.Cfg["item"])
	conf.CacheCleaning = float64(p.Cfg["clean"]) / 10
	conf.CacheRegistries = int(p.Cfg["regs"])
	if p.Cfg["lfu"] == 1 {
		conf.CachePolicy = skyobject.LFU
	}
	return conf
}

func ccGenCfg(r *simrt.Rng) map[string]int64 {
	c := map[string]int64{"salt": int64(r.N(1000)), "amount": pick[int64](r, 0, 1, 2, 3, 4, 10), "clean": 5 + int64(r.N(5)), "lfu": int64(r.N(2)),
		"volume": pick[int64](r, 0, 60, 150, 500, 2000, 20000), "regs": int64(r.N(4)), "drive": b2i(r.N(8) == 0)}
	max := int64(float64(c["volume"]) * (1.0 - float64(c["clean"])/10))
	c["item"] = max
	if r.N(3) == 0 {
		c["item"] = int64(r.N(int(max) + 1))
	}
	if r.N(2) == 0 { // objects of about the same size
		c["even"] = 1 + c["item"]/int64(1+r.N(4))
		if c["even"] > 1000 {
			c["even"] = 1000
		}
	}
	return c
}

// ccGen makes a program; plain objects get arbitrary increments, objects that are waited for only matching ones.
func ccGen(want int, clients func(r *simrt.Rng) int) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := &core.Prog{Cfg: ccGenCfg(r)}
		n := clients(r)
		p.Cfg["release"] = int64(r.N(3))
		nk := 1 + r.N(ccKeys)
		keys := make([]int64, nk)
		mode := make([]bool, ccKeys)
		for i := range keys {
			keys[i] = int64(r.N(ccKeys))
		}
		for i := range mode {
			mode[i] = r.N(4) < want // may be waited for
		}
		fillKinds := swarm(r, []string{"want", "want", "want", "unwant", "setwanted", "setwanted", "set", "finc", "finc", "recv", "get", "inc"})
		plainKinds := swarm(r, []string{"set", "get", "get", "inc"})
		total := 4 + r.N(22)
		for i := 0; i < total; i++ {
			k := keys[r.N(nk)]
			kinds := plainKinds
			if mode[k] {
				kinds = fillKinds
			}
			o := core.Op{C: r.N(n), K: pick(r, kinds...)}
			inc := int64(r.N(7)) - 3
			if mode[k] && inc < 0 {
				inc = 0 // an object in use is not dereferenced by those who do not hold it
			}
			switch o.K {
			case "set":
				inc = int64(1 + r.N(3))
			case "want":
				inc = int64(r.N(3))
			case "finc":
				inc = pick[int64](r, 1, 2, 3, -1, -2, -3)
			}
			if r.N(5) == 0 {
				o.K, inc = "set", 1
			}
			o.A = []int64{k, inc}
			p.Ops = append(p.Ops, o)
		}
		return p
	}
}

func ccBody(prop string) func(p *core.Prog) {
	return func(p *core.Prog) {
		obj := ccData(p.Cfg["salt"], p.Cfg["even"])
		pr := newProc("container")
		var disk *simos.Disk
		if p.Cfg["drive"] == 1 {
			disk = simos.NewDisk("d")
			simos.Mount(pr.D, disk)
		}
		r := newCC(obj)
		var pb *probe
		var conf *skyobject.Config
		core.Phase("open")
		pr.Do("open", func() {
			var ds data.CXDS
			var err error
			if disk != nil {
				if ds, err = cxds.NewDriveCXDS(dsFile); err != nil {
					fail("open", "%v", err)
					return
				}
				pb = newProbe(ds, false)
			} else {
				pb = newProbe(cxds.NewMemoryCXDS(), true)
			}
			conf = ccConfig(p, data.NewDB(pb, idxdb.NewMemeoryDB()))
			if err = conf.Validate(); err != nil {
				core.Broken("config: %v", err)
				return
			}
			if r.c, err = skyobject.NewContainer(conf); err != nil {
				fail("open", "%v", err)
			}
		})
		if r.c == nil || !pr.alive() {
			return
		}
		core.Phase("operations")
		single := p.Clients() == 1
		if !pr.Par(p.Clients(), func(c int) {
			for _, o := range p.Of(c) {
				r.do(c, o)
				if single && prop == "C03" {
					r.limits(conf, "after "+o.String())
				}
			}
		}) {
			return
		}
		core.Phase("final")
		pr.Do("final", func() {
			if prop == "C03" {
				r.limits(conf, "after all operations")
			}
			for c := range r.cl {
				for k := range obj.key {
					// even one who got the object can still wait for it, when it asked twice
					r.do(c, core.Op{K: "unwant", A: []int64{int64(k)}})
					r.recv(c, k)
				}
			}
			for c := range r.cl {
				for k := range obj.key {
					if n := r.cl[c].held[k]; n > 0 && p.Cfg["release"] < 2 {
						if p.Cfg["release"] == 1 || (c+k)%2 == 0 {
							n = -n
						}
						o := r.h[k].call(c, ccIn{"finc", k, c, n})
						err := r.c.Finc(obj.key[k], int(n))
						o.done(ccOut{err: ccErr(err)})
						r.cl[c].held[k] = 0
					}
				}
			}
			if prop == "C03" {
				r.limits(conf, "at the end")
			}
			for k := range obj.key {
				o := r.h[k].call(0, ccIn{k: "get", key: k})
				got, rc, err := r.c.Get(obj.key[k], 0)
				o.done(ccOut{ccErr(err), int64(rc), err == nil && bytes.Equal(got, obj.val[k]), 0})
				// nobody waits: an object that does not exist must have left no trace
				held := int64(0)
				for c := range r.cl {
					held += r.cl[c].held[k]
				}
				if off := conf.CacheMaxAmount == 0 || conf.CacheMaxVolume == 0; held == 0 && (off || len(obj.val[k]) > conf.CacheMaxItemSize) && r.c.IsCached(obj.key[k]) {
					fail("residue", "object %d of %d bytes, which must not be kept in memory (limit %d, cache off: %v), is still marked as cached though nobody waits for it or holds it", k, len(obj.val[k]), conf.CacheMaxItemSize, off)
				}
				if err == data.ErrNotFound && r.c.IsCached(obj.key[k]) {
					fail("residue", "object %d does not exist and nobody waits for it, but it is still marked as cached", k)
				}
			}
			core.Phase("close")
			if err := r.c.Close(); err != nil {
				fail("close", "closing the container: %v", err)
			}
			ds := pb.CXDS
			if disk != nil {
				var err error
				if ds, err = cxds.NewDriveCXDS(dsFile); err != nil {
					fail("reopen", "%v", err)
					return
				}
				defer ds.Close()
			}
			for k := range obj.key {
				o := r.h[k].call(0, ccIn{k: "store", key: k})
				got, rc, err := ds.Get(obj.key[k], 0)
				o.done(ccOut{ccErr(err), int64(rc), err == nil && bytes.Equal(got, obj.val[k]), 0})
			}
		})
		if !pr.alive() {
			return
		}
		for k := range obj.key {
			if m := ccModel(k); !r.h[k].linearizable(m) {
				fail("not-linearizable", "object %d (%d bytes), cache %v: no order of these operations agrees with the plain store:\n%s", k, len(obj.val[k]), cfgString(p), r.h[k].show(m))
			}
		}
	}
}

func cfgString(p *core.Prog) string {
	return fmt.Sprintf("amount %d volume %d item %d cleaning 0.%d lfu %d drive %d", p.Cfg["amount"], p.Cfg["volume"], p.Cfg["item"], p.Cfg["clean"], p.Cfg["lfu"], p.Cfg["drive"])
}

// ---- registry cache

const rcRegs = 5

type RegT0 struct{ A uint32 }
type RegT1 struct{ A, B uint32 }
type RegT2 struct{ A, B, C uint32 }
type RegT3 struct{ A string }
type RegT4 struct{ A []byte }

func rcRegistries() (l []*registry.Registry) {
	for _, t := range []interface{}{RegT0{}, RegT1{}, RegT2{}, RegT3{}, RegT4{}} {
		t := t
		l = append(l, registry.NewRegistry(func(r *registry.Reg) { r.Register("T", t) }))
	}
	return
}

func rcGen(conc bool) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		p := &core.Prog{Cfg: map[string]int64{"regs": int64(r.N(5)), "clean": 5, "lfu": 0}}
		n := 1
		if conc {
			n = 2 + r.N(3)
			p.Cfg["lfu"] = int64(r.N(2))
		}
		kinds := swarm(r, []string{"registry", "registry", "add"})
		for i := 0; i < 4+r.N(24); i++ {
			p.Ops = append(p.Ops, core.Op{C: r.N(n), K: pick(r, kinds...), A: []int64{int64(r.N(rcRegs)), int64(r.N(4))}})
		}
		return p
	}
}

func rcBody(conc bool) func(p *core.Prog) {
	return func(p *core.Prog) {
		pr := newProc("container")
		var pb *probe
		var c *skyobject.Container
		var regs []*registry.Registry
		limit := int(p.Cfg["regs"])
		pr.Do("open", func() {
			regs = rcRegistries()
			pb = newProbe(cxds.NewMemoryCXDS(), true)
			var err error
			conf := ccConfig(p, data.NewDB(pb, idxdb.NewMemeoryDB()))
			if c, err = skyobject.NewContainer(conf); err != nil {
				fail("open", "%v", err)
				return
			}
			for _, r := range regs {
				pb.CXDS.Set(cipher.SHA256(r.Reference()), r.Encode(), 1)
			}
		})
		if c == nil || !pr.alive() {
			return
		}
		var lru []int // least recently used first
		use := func(i int) (hit bool) {
			for j, x := range lru {
				if x == i {
					lru = append(append([]int{}, lru[:j]...), lru[j+1:]...)
					hit = true
					break
				}
			}
			if limit == 0 {
				return false
			}
			if !hit && len(lru) == limit {
				lru = lru[1:]
			}
			lru = append(lru, i)
			return
		}
		get := func(i int) (hit bool) {
			ref := regs[i].Reference()
			was := pb.gets[cipher.SHA256(ref)]
			r, err := c.Registry(ref)
			if err != nil || r.Reference() != ref {
				fail("registry", "Registry %d: %v", i, err)
			}
			return pb.gets[cipher.SHA256(ref)] == was
		}
		core.Phase("operations")
		if !pr.Par(p.Clients(), func(cl int) {
			for _, o := range p.Of(cl) {
				i := int(o.Arg(0))
				if conc {
					if o.Arg(1) == 0 {
						time.Sleep(time.Second)
					}
					if o.K == "add" {
						c.AddRegistryToCache(regs[i])
					} else if r, err := c.Registry(regs[i].Reference()); err != nil || r.Reference() != regs[i].Reference() {
						fail("registry", "Registry %d: %v", i, err)
					}
					continue
				}
				time.Sleep(time.Duration(o.Arg(1)+1) * time.Second)
				if o.K == "add" {
					c.AddRegistryToCache(regs[i])
					use(i)
					continue
				}
				before := append([]int{}, lru...)
				exp := use(i)
				if got := get(i); got != exp {
					fail("registry-cache", "limit %d, kept (least recently used first) %v: registry %d: taken from memory: %v, expected %v", limit, before, i, got, exp)
				}
			}
		}) {
			return
		}
		pr.Do("final", func() {
			if conc {
				hits := 0
				for i := range regs {
					if get(i) {
						hits++
					}
				}
				if hits > limit {
					fail("registry-limit", "%d registries are kept, the limit is %d", hits, limit)
				}
			}
			c.Close()
		})
	}
}

func init() {
	real := []string{"skyobject (cache, container)", "data/cxds", "data/idxdb", "bolt v1.3.1"}
	n14 := func(r *simrt.Rng) int { return 1 + r.N(ccClients) }
	n24 := func(r *simrt.Rng) int { return 2 + r.N(ccClients-1) }
	n1 := func(r *simrt.Rng) int {
		if r.N(3) > 0 {
			return 1
		}
		return 1 + r.N(ccClients)
	}
	core.Register(&core.Scenario{Prop: "C01", Name: "cache", Quick: 120000, Thor: 400000, Gen: ccGen(2, n14), Body: ccBody("C01"), Real: real,
		Rule: "1-4 clients use the cache of a container with random limits, policy and cleaning; every object's history, including what the store holds after Close, is checked for linearizability against the plain store", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "C02", Name: "want", Quick: 120000, Thor: 400000, Gen: ccGen(4, n24), Body: ccBody("C02"), Real: real,
		Rule: "2-4 clients wait for, withdraw, store, confirm and reject objects; deliveries are part of the history; no trace may stay of objects that never came", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "C03", Name: "limits", Quick: 100000, Thor: 400000, Gen: ccGen(1, n1), Body: ccBody("C03"), Real: real,
		Rule: "limits are checked after every operation (one client) or when nothing is in progress (several)"})
	core.Register(&core.Scenario{Prop: "C03", Name: "registries", Quick: 30000, Thor: 100000, Gen: rcGen(false), Body: rcBody(false), Real: real,
		Rule: "which registry is decoded again is compared with a reference LRU cache of the configured size"})
	core.Register(&core.Scenario{Prop: "C03", Name: "registries-concurrent", Quick: 50000, Thor: 100000, Gen: rcGen(true), Body: rcBody(true), Real: real,
		Rule: "concurrent users, afterwards no more registries are kept than allowed", Needed: []string{"preempt"}})
}
