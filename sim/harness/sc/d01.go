package sc

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"harness/core"
	"simrt"
	"simrt/simos"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
)

// reference model of a CXDS: what is stored under each of a few keys.
type dsState struct {
	rc [dsKeys]int64 // -1: absent
}

const dsKeys = 5

var dsSizes = [dsKeys]int{1, 37, 700, 5000, 12000}

type dsKV struct {
	keys [dsKeys]cipher.SHA256
	vals [dsKeys][]byte
}

// dsData are the objects of a run; high replaces the last key by the greatest possible one.
func dsData(salt int64, high bool) (kv *dsKV) {
	kv = &dsKV{}
	for i := range kv.keys {
		kv.vals[i] = payload(salt*100+int64(i), dsSizes[(i+int(salt))%dsKeys])
		kv.keys[i] = cipher.SumSHA256(kv.vals[i])
	}
	if high {
		for i := range kv.keys[dsKeys-1] {
			kv.keys[dsKeys-1][i] = 0xff
		}
	}
	return
}

func (kv *dsKV) index(k cipher.SHA256) int {
	for i := range kv.keys {
		if kv.keys[i] == k {
			return i
		}
	}
	return -1
}

type dsIn struct {
	k    string
	key  int
	inc  int64
	mask int64 // IterateDel: keys to delete
	at   int64 // iterations: stop (or fail) at this call, -1 never
	fail bool
}

type dsOut struct {
	err    string
	rc     int64
	val    int // index of the value the call returned, -1 none, -2 wrong bytes
	seen   []dsSeen
	a, b   int64
	called int64
}

type dsSeen struct {
	key int
	rc  int64
	val bool
}

func dsInit() any {
	var s dsState
	for i := range s.rc {
		s.rc[i] = -1
	}
	return s
}

func dsInc(rc, inc int64) int64 {
	if rc += inc; rc < 0 {
		rc = 0
	}
	return rc
}

// dsStep is the reference model.
func dsStep(kv *dsKV) func(state, in, out any) (bool, any) {
	return func(state, in, out any) (bool, any) {
		s := state.(dsState)
		i := in.(dsIn)
		var o dsOut
		known := out != nil
		if known {
			o = out.(dsOut)
		}
		var exp dsOut
		exp.val = -1
		switch i.k {
		case "get", "inc":
			if s.rc[i.key] < 0 {
				exp.err = data.ErrNotFound.Error()
				break
			}
			s.rc[i.key] = dsInc(s.rc[i.key], i.inc)
			exp.rc = s.rc[i.key]
			if i.k == "get" {
				exp.val = i.key
			}
		case "set":
			if s.rc[i.key] < 0 {
				s.rc[i.key] = 0
			}
			s.rc[i.key] += i.inc
			exp.rc = s.rc[i.key]
		case "empty":
			exp.err = cxds.ErrEmptyValue.Error()
		case "del":
			s.rc[i.key] = -1
		case "amount", "volume":
			for k, rc := range s.rc {
				if rc >= 0 {
					n := int64(1)
					if i.k == "volume" {
						n = int64(len(kv.vals[k]))
					}
					exp.a += n
					if rc > 0 {
						exp.b += n
					}
				}
			}
		case "iter", "iterdel":
			if !known {
				// outcome unknown: only an unbroken deletion has a definite effect
				if i.k == "iterdel" && i.at < 0 {
					for k := range s.rc {
						if i.mask>>uint(k)&1 == 1 {
							s.rc[k] = -1
						}
					}
				}
				return true, s
			}
			total := int64(0)
			for _, rc := range s.rc {
				if rc >= 0 {
					total++
				}
			}
			want := total
			broken := false
			if i.at >= 0 && i.at < total {
				want = i.at + 1
				broken = true
			}
			if int64(len(o.seen)) != want {
				return false, s
			}
			had := map[int]bool{}
			for _, x := range o.seen {
				if x.key < 0 || had[x.key] || s.rc[x.key] != x.rc || !x.val {
					return false, s
				}
				had[x.key] = true
			}
			if broken && i.fail {
				return o.err == errIter.Error(), s
			}
			if i.k == "iterdel" {
				for n, x := range o.seen {
					if broken && n == len(o.seen)-1 {
						break // the call that stops deletes nothing
					}
					if i.mask>>uint(x.key)&1 == 1 {
						s.rc[x.key] = -1
					}
				}
			}
			return o.err == "", s
		}
		if !known {
			return true, s
		}
		return o.err == exp.err && o.rc == exp.rc && o.val == exp.val && o.a == exp.a && o.b == exp.b, s
	}
}

var errIter = errors.New("the callback says no")

func dsModel(kv *dsKV) model {
	return model{init: dsInit, step: dsStep(kv), equal: func(a, b any) bool { return a.(dsState) == b.(dsState) }}
}

// dsIO tells an injected failure of the disk from an answer of the store.
func dsIO(err error) bool {
	if err == nil || err == data.ErrNotFound || err == cxds.ErrEmptyValue || err == errIter {
		return false
	}
	s := err.Error()
	return strings.Contains(s, "input/output error") || strings.Contains(s, "no space left") || strings.Contains(s, "file too large")
}

// dsDo performs one operation on the store.
func dsDo(h *hist, kv *dsKV, ds data.CXDS, c int, o core.Op) {
	in := dsIn{k: o.K, key: int(o.Arg(0)) % dsKeys, inc: o.Arg(1), mask: o.Arg(2), at: o.Arg(3) - 1, fail: o.Arg(4) == 1}
	if h.unknown() >= 7 {
		return // every operation of unknown outcome doubles the work of the check
	}
	r := h.call(c, in)
	out := dsOut{val: -1}
	var err error
	key := kv.keys[in.key]
	switch o.K {
	case "get":
		var val []byte
		var rc uint32
		val, rc, err = ds.Get(key, int(in.inc))
		if err == nil {
			out.rc = int64(rc)
			out.val = -2
			if bytes.Equal(val, kv.vals[in.key]) {
				out.val = in.key
			}
		}
	case "inc":
		var rc uint32
		rc, err = ds.Inc(key, int(in.inc))
		out.rc = int64(rc)
	case "set":
		var rc uint32
		rc, err = ds.Set(key, append([]byte{}, kv.vals[in.key]...), int(in.inc))
		out.rc = int64(rc)
	case "empty":
		_, err = ds.Set(key, nil, 1)
	case "del":
		err = ds.Del(key)
	case "amount", "volume":
		var a, b int
		if o.K == "amount" {
			a, b = ds.Amount()
		} else {
			a, b = ds.Volume()
		}
		out.a, out.b = int64(a), int64(b)
	case "iter", "iterdel":
		f := func(k cipher.SHA256, rc uint32, val []byte) (bool, error) {
			i := kv.index(k)
			out.seen = append(out.seen, dsSeen{i, int64(rc), i >= 0 && bytes.Equal(val, kv.vals[i])})
			if len(out.seen) > 3*dsKeys {
				fail("endless-iteration", "%s visits more than there is", o.K)
				return false, data.ErrStopIteration
			}
			if in.at >= 0 && int64(len(out.seen))-1 == in.at {
				if in.fail {
					return i >= 0 && in.mask>>uint(i)&1 == 1, errIter
				}
				return i >= 0 && in.mask>>uint(i)&1 == 1, data.ErrStopIteration
			}
			return i >= 0 && in.mask>>uint(i)&1 == 1, nil
		}
		if o.K == "iter" {
			err = ds.Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
				_, e := f(k, rc, val)
				return e
			})
		} else {
			err = ds.IterateDel(f)
		}
	}
	if err != nil {
		if dsIO(err) {
			simrt.Count("op-io-error")
			r.never() // nothing of it reached the disk (see SafeHead)
			return
		}
		out.err = err.Error()
		if o.K != "iter" && o.K != "iterdel" {
			out.rc, out.val = 0, -1
		}
	}
	r.done(out)
}

func dsGenOps(r *simrt.Rng, clients, total int, iter bool) (ops []core.Op) {
	kinds := swarm(r, []string{"set", "get", "inc", "del", "amount", "volume", "iter", "iterdel"})
	hot := int64(r.N(dsKeys))
	for i := 0; i < total; i++ {
		k := pick(r, kinds...)
		if i < 2 || r.N(5) == 0 {
			k = "set"
		}
		if r.N(30) == 0 {
			k = "empty"
		}
		key := hot
		if r.N(3) == 0 {
			key = int64(r.N(dsKeys))
		}
		inc := int64(r.N(7)) - 3
		if k == "set" {
			inc = int64(1 + r.N(4))
		}
		if r.N(12) == 0 && k != "del" {
			inc = pick(r, int64(100), 65536, 1<<20)
		}
		at := int64(0)
		if r.N(3) == 0 && (iter || k != "iterdel") {
			at = int64(1 + r.N(3))
		}
		ops = append(ops, core.Op{C: r.N(clients), K: k, A: []int64{key, inc, int64(r.N(32)), at, int64(r.N(2))}})
	}
	return
}

func d01Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"salt": int64(r.N(1000)), "high": b2i(r.N(5) == 0)}}
	p.Ops = dsGenOps(r, 1+r.N(4), 4+r.N(12), true)
	return p
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func d01Check(h *hist, kv *dsKV, what string) {
	m := dsModel(kv)
	if !h.linearizable(m) {
		fail("not-linearizable", "%s: no order of these operations agrees with a reference-counted map (sizes %v):\n%s", what, sizes(kv), h.show(m))
	}
}

func sizes(kv *dsKV) (l []int) {
	for _, v := range kv.vals {
		l = append(l, len(v))
	}
	return
}

// dsFinal reads everything.
func dsFinal(h *hist, kv *dsKV, ds data.CXDS, c int) {
	for _, k := range []string{"iter", "amount", "volume"} {
		dsDo(h, kv, ds, c, core.Op{K: k})
	}
	for i := 0; i < dsKeys; i++ {
		dsDo(h, kv, ds, c, core.Op{K: "get", A: []int64{int64(i)}})
	}
}

func d01MemBody(p *core.Prog) {
	kv := dsData(p.Cfg["salt"], p.Cfg["high"] == 1)
	pr := newProc("mem")
	h := &hist{}
	var ds data.CXDS
	pr.Do("open", func() { ds = cxds.NewMemoryCXDS() })
	core.Phase("operations")
	pr.Par(p.Clients(), func(c int) {
		for _, o := range p.Of(c) {
			dsDo(h, kv, ds, c, o)
		}
	})
	pr.Do("final", func() { dsFinal(h, kv, ds, 90); ds.Close() })
	if pr.alive() {
		d01Check(h, kv, "memory")
	}
}

const dsFile = "/db/x.cxds"

func d01DriveBody(p *core.Prog) {
	kv := dsData(p.Cfg["salt"], p.Cfg["high"] == 1)
	disk := simos.NewDisk("d")
	pr := newProc("drive")
	simos.Mount(pr.D, disk)
	h := &hist{}
	var ds data.CXDS
	var err error
	core.Phase("open")
	pr.Do("open", func() { ds, err = cxds.NewDriveCXDS(dsFile) })
	if err != nil {
		fail("open", "creating the store: %v", err)
		return
	}
	if !pr.alive() {
		return
	}
	core.Phase("operations")
	disk.SafeHead = 8192
	disk.ErrP = float64(p.Cfg["err"]) / 1000
	disk.LatP = float64(p.Cfg["lat"]) / 100
	if n := p.Cfg["full"]; n > 0 {
		disk.FullAt = n
	}
	ok := pr.Par(p.Clients(), func(c int) {
		for _, o := range p.Of(c) {
			dsDo(h, kv, ds, c, o)
		}
	})
	if !ok {
		return
	}
	disk.ErrP, disk.FullAt = 0, 0
	core.Phase("final")
	pr.Do("final", func() {
		dsFinal(h, kv, ds, 90)
		if err := ds.Close(); err != nil {
			fail("close", "closing the store: %v", err)
		}
		core.Phase("reopen")
		ds, err := cxds.NewDriveCXDS(dsFile)
		if err != nil {
			fail("reopen", "opening the closed store: %v", err)
			return
		}
		dsFinal(h, kv, ds, 91)
		ds.Close()
	})
	if pr.alive() {
		d01Check(h, kv, "drive")
	}
}

func d01DriveGen(r *simrt.Rng) *core.Prog {
	p := d01Gen(r)
	p.Cfg["lat"] = int64(pick(r, 0, 0, 20))
	return p
}

func d01FaultGen(r *simrt.Rng) *core.Prog {
	p := d01Gen(r)
	p.Ops = dsGenOps(r, 1+r.N(4), 4+r.N(12), false)
	switch r.N(3) {
	case 0:
		p.Cfg["full"] = int64(16384 + r.N(60000))
	default:
		p.Cfg["err"] = int64(pick(r, 10, 30, 60))
	}
	return p
}

// d02: crash and restart.
func d02Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{"salt": int64(r.N(1000)), "rounds": int64(1 + r.N(3)), "lat": int64(pick(r, 0, 0, 20))}}
	n := 1 + r.N(3)
	for round := int64(0); round < p.Cfg["rounds"]; round++ {
		p.Cfg[fmt.Sprintf("crash%d", round)] = int64(1 + r.N(pick(r, 6, 12, 40)))
		for _, o := range dsGenOps(r, n, 2+r.N(6), false) {
			o.A = append(o.A, round)
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// crashable runs f in a fresh process over disk and crashes it at the n-th disk operation (0: never); it tells if the
// process survived.
func crashable(disk *simos.Disk, name string, n int64, f func(pr *Proc)) (crashed bool) {
	pr := newProc(name)
	simos.Mount(pr.D, disk)
	disk.CrashIn = int(n)
	dead := false
	disk.OnCrash = func() {
		dead = true
		pr.D.Crash()
	}
	f(pr)
	disk.CrashIn = 0
	if dead {
		simrt.Count("crash")
		disk.Crash()
	}
	return dead
}

// bolt itself writes and syncs the first pages of a new file; when the crash comes before that sync is over, the file
// can stay half-written and bolt refuses it or panics on it.
const boltInitSig = "reopen-after-crash-inside-bolt-creating-the-file"

func openSig(disk *simos.Disk) string {
	if disk.Syncs == 0 || disk.Fresh() {
		return boltInitSig
	}
	return "reopen"
}

func boltInit(disk *simos.Disk) {
	core.OnPanic(func(pn simrt.Panic) *core.Violation {
		v := core.PanicViolation(pn)
		if disk.Syncs == 0 || disk.Fresh() {
			v.Sig = boltInitSig
		}
		return v
	})
}

func d02Body(p *core.Prog) {
	kv := dsData(p.Cfg["salt"], false)
	disk := simos.NewDisk("d")
	disk.LatP = float64(p.Cfg["lat"]) / 100
	h := &hist{}
	boltInit(disk)
	for round := int64(0); round <= p.Cfg["rounds"]; round++ {
		last := round == p.Cfg["rounds"]
		n := p.Cfg[fmt.Sprintf("crash%d", round)]
		if last {
			n = 0
		}
		var ds data.CXDS
		var err error
		failed := false
		var proc *Proc
		crashed := false
		crashed = crashable(disk, fmt.Sprintf("drive%d", round), n, func(pr *Proc) {
			proc = pr
			core.Phase("open")
			if !pr.Do("open", func() { ds, err = cxds.NewDriveCXDS(dsFile) }) {
				return
			}
			if err != nil {
				failed = true
				fail(openSig(disk), "round %d: the store does not open after the crash: %v", round, err)
				return
			}
			if round > 0 {
				core.Phase("check")
				pr.Do("check", func() { dsFinal(h, kv, ds, 100+int(round)) })
			}
			if last {
				pr.Do("close", func() { ds.Close() })
				return
			}
			core.Phase("operations")
			pr.Par(p.Clients(), func(c int) {
				for _, o := range p.Of(c) {
					if o.Arg(5) == round {
						dsDo(h, kv, ds, c, o)
					}
				}
			})
			if pr.alive() && n > 0 {
				simrt.Count("crash-idle")
			}
			// no crash point was reached: crash now
			disk.CrashIn = 0
			if pr.alive() {
				pr.D.Crash()
				simrt.Count("crash")
				disk.Crash()
				crashed = true
			}
		}) || crashed
		if failed || !crashed && !proc.alive() {
			return
		}
		h.cut()
	}
	d01Check(h, kv, "after crashes")
}

func init() {
	real := []string{"data/cxds", "bolt v1.3.1"}
	core.Register(&core.Scenario{Prop: "D01", Name: "memory", Quick: 150000, Thor: 400000, Gen: d01Gen, Body: d01MemBody, Real: real[:1],
		Rule: "1-4 clients work on the memory store; the history is checked for linearizability against a reference-counted map", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "D01", Name: "drive", Quick: 50000, Thor: 200000, Gen: d01DriveGen, Body: d01DriveBody, Real: real,
		Stubs: []string{"disk (simulated: volatile and durable image, latency)"},
		Rule:  "the same on the drive store, closed and reopened at the end", Needed: []string{"preempt"}})
	core.Register(&core.Scenario{Prop: "D01", Name: "diskfaults", Quick: 50000, Thor: 200000, Gen: d01FaultGen, Body: d01DriveBody, Real: real,
		Stubs: []string{"disk (simulated: I/O errors, full disk)"},
		Rule:  "the same with I/O errors or a full disk; an operation that reports such an error must have changed nothing", Needed: []string{"op-io-error"}})
	core.Register(&core.Scenario{Prop: "D02", Name: "crash", Quick: 80000, Thor: 300000, Gen: d02Gen, Body: d02Body, Real: real,
		Stubs:  []string{"disk (simulated: lost, torn and reordered unsynced writes)"},
		Rule:   "1-3 crashes at random disk operations or between operations, each followed by a reopen that reads everything; one history over all rounds",
		Needed: []string{"crash", "disk-lost-write"}})
}
