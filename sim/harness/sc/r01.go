package sc

import (
	"errors"
	"fmt"
	"sort"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/skyobject/registry"
)

var errStorage = errors.New("injected failure of the storage")

// rPack is a storage of objects that fails now and then.
type rPack struct {
	reg    *registry.Registry
	vals   map[cipher.SHA256][]byte
	flags  registry.Flags
	degree registry.Degree
	on     bool
	failP  float64
	fails  int
}

func (p *rPack) bad(what string) bool {
	if p.on && simrt.Chance(what, p.failP) {
		p.fails++
		simrt.Count(what)
		return true
	}
	return false
}

func (p *rPack) Registry() *registry.Registry { return p.reg }

func (p *rPack) Get(k cipher.SHA256) ([]byte, error) {
	if p.bad("pack-get-error") {
		return nil, errStorage
	}
	v, ok := p.vals[k]
	if !ok {
		return nil, registry.ErrNotFound
	}
	return append([]byte{}, v...), nil
}

func (p *rPack) Set(k cipher.SHA256, v []byte) error {
	if cipher.SumSHA256(v) != k {
		fail("wrong-hash", "an object is stored with a hash that is not its own")
	}
	if p.bad("pack-set-error") {
		if simrt.Chance("packset", 0.5) { // stored all the same
			p.vals[k] = append([]byte{}, v...)
		}
		return errStorage
	}
	p.vals[k] = append([]byte{}, v...)
	return nil
}

func (p *rPack) Add(v []byte) (cipher.SHA256, error) {
	k := cipher.SumSHA256(v)
	return k, p.Set(k, v)
}

func (p *rPack) Degree() registry.Degree { return p.degree }

func (p *rPack) SetDegree(d registry.Degree) error {
	if err := d.Validate(); err != nil {
		return err
	}
	p.degree = d
	return nil
}

func (p *rPack) Flags() registry.Flags       { return p.flags }
func (p *rPack) AddFlags(f registry.Flags)   { p.flags |= f }
func (p *rPack) ClearFlags(f registry.Flags) { p.flags &^= f }

type rVal struct {
	A uint32
}

// rSlot is a collection and what it has to be.
type rSlot struct {
	refs  *registry.Refs
	list  []int
	flags registry.Flags
	vers  [][]int // what its hash can stand for, the last is the present list
	pure  bool    // only appended to
}

func (s *rSlot) lazy() bool { return s.flags&registry.LazyUpdating != 0 }

type rRun struct {
	pack  *rPack
	slot  [3]*rSlot
	hash  []cipher.SHA256 // of values; 0 is the blank one
	num   map[cipher.SHA256]int
	seen  map[cipher.SHA256]string
	trace []string
	deg   int
}

func (r *rRun) fail(sig, f string, a ...any) {
	t := r.trace
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	s := ""
	for _, x := range t {
		s += "\n  " + x
	}
	fail(sig, "%s\n(degree %d)%s", fmt.Sprintf(f, a...), r.deg, s)
}

func (r *rRun) note(f string, a ...any) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }

// quiet runs f without faults.
func (r *rRun) quiet(f func()) {
	on := r.pack.on
	r.pack.on = false
	f()
	r.pack.on = on
}

// content of the collection with the hash, read by another object.
func (r *rRun) content(h cipher.SHA256, flags registry.Flags, how int) (l []int, err error) {
	x := &registry.Refs{Hash: h}
	f := r.pack.flags
	r.pack.flags = flags
	defer func() { r.pack.flags = f }()
	r.quiet(func() { l, err = r.read(x, how) })
	return
}

func (r *rRun) read(x *registry.Refs, how int) (l []int, err error) {
	l = []int{}
	n := 0
	if n, err = x.Len(r.pack); err != nil {
		return
	}
	add := func(i int, h cipher.SHA256) error {
		v, ok := r.num[h]
		if !ok {
			return fmt.Errorf("element %d is %s, which was never in a list", i, h.Hex()[:7])
		}
		l = append(l, v)
		return nil
	}
	switch how % 3 {
	case 0:
		for i := 0; i < n && err == nil; i++ {
			var h cipher.SHA256
			if h, err = x.HashByIndex(r.pack, i); err == nil {
				err = add(i, h)
			}
		}
	case 1:
		err = x.Ascend(r.pack, func(i int, h cipher.SHA256) error {
			if i != len(l) {
				return fmt.Errorf("Ascend visits %d after %d elements", i, len(l))
			}
			return add(i, h)
		})
	case 2:
		err = x.Walk(r.pack, nil, func(h cipher.SHA256, depth int) (bool, error) {
			if depth == 0 {
				return false, add(len(l), h)
			}
			return true, nil
		})
	}
	if err == nil && n != len(l) {
		err = fmt.Errorf("the length is %d, but there are %d elements", n, len(l))
	}
	return
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cp(l []int) []int { return append([]int{}, l...) }

// changed records a new version of the list.
func (s *rSlot) changed(l []int) {
	s.list = l
	s.vers = append(s.vers, cp(l))
}

// after every operation that went well.
func (r *rRun) check(s *rSlot, how int64) {
	fl := []registry.Flags{0, registry.HashTableIndex, registry.EntireRefs, registry.HashTableIndex | registry.EntireRefs}[how%4]
	l, err := r.content(s.refs.Hash, fl, int(how/4))
	if err != nil {
		r.fail("reload", "the collection can't be read by its hash %s: %v", s.refs.Short(), err)
		return
	}
	if !s.lazy() {
		if !same(l, s.list) {
			r.fail("wrong-list", "the collection read by its hash is %v, it has to be %v", l, s.list)
			return
		}
		s.vers = [][]int{cp(l)}
	} else if !r.allowed(s, l) {
		r.fail("wrong-list", "the collection read by its hash is %v, it never was (now it is %v)", l, s.list)
		return
	}
	if a, b := fmt.Sprint(l), r.seen[s.refs.Hash]; b == "" {
		r.seen[s.refs.Hash] = a
	} else if a != b {
		r.fail("same-hash", "the hash %s stands for %s and for %s", s.refs.Short(), a, b)
	}
	if !s.lazy() && len(s.list) > 0 {
		r.quiet(func() {
			d, _ := s.refs.Degree(r.pack)
			pd := r.pack.degree
			r.pack.degree = 7
			x := &registry.Refs{Hash: s.refs.Hash}
			g, err := x.Degree(r.pack)
			r.pack.degree = pd
			if g != d || err != nil {
				r.fail("degree", "the degree is %d, read by the hash %d (%v)", d, g, err)
			}
		})
	}
	if s.pure && !s.lazy() && len(s.list) > 0 {
		r.quiet(func() {
			d, err := s.refs.Degree(r.pack)
			if err != nil {
				r.fail("degree", "Degree: %v", err)
				return
			}
			f, pd := r.pack.flags, r.pack.degree
			r.pack.flags, r.pack.degree = 0, d
			x := &registry.Refs{}
			x.AppendHashes(r.pack, r.hashes(s.list)...)
			r.pack.flags, r.pack.degree = f, pd
			if x.Hash != s.refs.Hash {
				r.fail("other-hash", "two lists %v built by appending with the degree %d have the hashes %s and %s", s.list, d, x.Short(), s.refs.Short())
			}
		})
	}
}

func (r *rRun) allowed(s *rSlot, l []int) bool {
	for _, v := range s.vers {
		if same(v, l) {
			return true
		}
	}
	return false
}

func (r *rRun) hashes(l []int) (hs []cipher.SHA256) {
	for _, v := range l {
		hs = append(hs, r.hash[v])
	}
	return
}

// broken brings the collection back after a failed operation.
func (r *rRun) broken(s *rSlot) {
	r.quiet(func() {
		r.pack.flags = s.flags
		if err := s.refs.Reset(); err != nil {
			r.fail("reset", "Reset after a failure: %v", err)
			return
		}
		l, err := r.read(s.refs, 0)
		if err != nil {
			r.fail("lost", "the collection can't be read after the storage recovered: %v", err)
			return
		}
		if !r.allowed(s, l) {
			r.fail("corrupted", "after a failed operation the collection is %v, which it never was; it was %v", l, s.vers)
			return
		}
		s.list, s.vers, s.pure = l, [][]int{cp(l)}, false
		r.note("reset: %v", l)
	})
}

// did judges the error of an operation; true means that it went well.
func (r *rRun) did(s *rSlot, fails int, err, want error, what string) bool {
	failed := r.pack.fails > fails
	switch {
	case failed && err == nil:
		r.fail("swallowed", "%s reports success, but the storage failed", what)
	case failed && !errors.Is(err, errStorage):
		r.fail("error", "%s fails with %v because the storage failed", what, err)
	case !failed && err != want:
		r.fail("error", "%s returns %v, it has to be %v (list %v)", what, err, want, s.list)
	}
	return !failed && err == nil && !core.Failed()
}

func delAt(l []int, i int) []int { return append(cp(l[:i]), l[i+1:]...) }

// one operation on the slot; depth is the nesting of iterations.
func (r *rRun) do(s *rSlot, o core.Op, depth int) (err error) {
	p := r.pack
	p.flags = s.flags
	n := len(s.list)
	a, b := int(o.Arg(1)), int(o.Arg(2))
	at := func(x int) int { // mostly a good index
		if x%17 == 16 {
			return n + x%3 - 1 - x%2*n
		}
		if n == 0 {
			return 0
		}
		return x % n
	}
	ok := func(i int) bool { return i >= 0 && i < n }
	val := func(x int) int { return x % len(r.hash) }
	rangeErr := func(i int) error {
		if ok(i) {
			return nil
		}
		return registry.ErrIndexOutOfRange
	}
	fails := p.fails
	x := s.refs
	what := ""
	mut := false
	var next []int
	var want error
	switch o.K {
	case "append", "appendv":
		var add []int
		g := simrt.NewRng(uint64(b))
		for i := 0; i < a; i++ {
			add = append(add, val(g.N(1000)))
		}
		what = fmt.Sprintf("append %v", add)
		next, mut = append(cp(s.list), add...), true
		if o.K == "append" {
			err = x.AppendHashes(p, r.hashes(add)...)
			break
		}
		var vs []interface{}
		for _, v := range add {
			if v == 0 {
				vs = append(vs, (*rVal)(nil))
			} else {
				vs = append(vs, &rVal{uint32(v)})
			}
		}
		err = x.AppendValues(p, vs...)
	case "appendrefs":
		y := r.slot[a%3]
		if y == s {
			return nil
		}
		what = fmt.Sprintf("append the list %v", y.list)
		next, mut = append(cp(s.list), y.list...), true
		r.quiet(func() { // with its own flags
			p.flags = y.flags
			y.refs.Init(p)
			p.flags = s.flags
		})
		err = x.Append(p, y.refs)
		if p.fails > fails {
			r.broken(y)
		}
	case "set", "setv":
		i := at(a)
		v := val(b)
		what = fmt.Sprintf("set %d to %d", i, v)
		if want = rangeErr(i); want == nil {
			next = cp(s.list)
			next[i] = v
		} else {
			next = s.list
		}
		mut = true
		if o.K == "set" {
			err = x.SetHashByIndex(p, i, r.hash[v])
		} else if v == 0 {
			err = x.SetValueByIndex(p, i, nil)
		} else {
			err = x.SetValueByIndex(p, i, rVal{uint32(v)})
		}
	case "del":
		i := at(a)
		what = fmt.Sprintf("delete %d", i)
		next, mut = s.list, true
		if want = rangeErr(i); want == nil {
			next = delAt(s.list, i)
		}
		err = x.DeleteByIndex(p, i)
	case "delhash":
		v := val(a)
		if n > 0 && b%4 > 0 {
			v = s.list[a%n]
		}
		what = fmt.Sprintf("delete every %d", v)
		want, mut, next = registry.ErrNotFound, true, cp(s.list)
		for i := n - 1; i >= 0; i-- {
			if next[i] == v {
				want = nil
				next = delAt(next, i)
				s.vers = append(s.vers, cp(next)) // one after another
			}
		}
		err = x.DeleteByHash(p, r.hash[v])
	case "clear":
		what = "clear"
		next, mut = []int{}, true
		x.Clear()
		s.flags = p.flags
	case "slice":
		i, j := at(a), at(b)
		if b%3 == 0 {
			j = n
		}
		what = fmt.Sprintf("slice %d:%d", i, j)
		if i < 0 || j < 0 || i > n || j > n {
			want = registry.ErrIndexOutOfRange
		} else if i > j {
			want = registry.ErrInvalidSliceIndex
		}
		var y *registry.Refs
		y, err = x.Slice(p, i, j)
		r.note("%s -> %v", what, err)
		if r.did(s, fails, err, want, what) {
			t := &rSlot{refs: y, list: cp(s.list[i:j]), flags: s.flags, pure: true}
			t.vers = [][]int{cp(t.list)}
			r.check(t, o.Arg(3))
			if depth == 0 {
				for k := range r.slot {
					if r.slot[k] != s && k == b%3 {
						r.slot[k] = t
					}
				}
			}
		}
		return
	case "degree":
		if depth > 0 {
			return nil
		}
		d := registry.Degree(a%9 + 1)
		what = fmt.Sprintf("set degree %d", d)
		want = d.Validate()
		next, mut = s.list, true
		err = x.SetDegree(p, d)
		if err == nil {
			var g registry.Degree
			r.quiet(func() { g, err = x.Degree(p) })
			if err != nil || g != d {
				r.fail("degree", "the degree is %d (%v) after SetDegree(%d)", g, err, d)
				return
			}
			s.pure = s.pure && n == 0
		}
	case "rebuild":
		what = "rebuild"
		next, mut = s.list, true
		if depth > 0 {
			want = registry.ErrRefsIterating
		}
		err = x.Rebuild(p)
	case "reset":
		if depth > 0 {
			if err := x.Reset(); err != registry.ErrRefsIterating {
				r.fail("error", "Reset inside an iteration returns %v", err)
			}
			return nil
		}
		r.note("reset, dirty versions %d", len(s.vers))
		r.broken(s)
		s.flags = registry.Flags(b % 8)
		s.refs = &registry.Refs{Hash: s.refs.Hash}
		return nil
	case "look":
		r.look(s, a, b, depth)
		return nil
	case "walk":
		return r.walk(s, o, depth)
	case "iter":
		return r.iter(s, o, depth)
	default:
		return nil
	}
	r.note("%s -> %v", what, err)
	if !r.did(s, fails, err, want, what) {
		if core.Failed() {
			return
		}
		if err != nil && p.fails > fails {
			if mut {
				s.vers = append(s.vers, cp(next))
			}
			if depth == 0 {
				r.broken(s)
			}
			return
		}
		return nil // refused
	}
	if mut {
		if o.K != "rebuild" && o.K != "degree" && o.K != "clear" && o.K != "append" && o.K != "appendv" && o.K != "appendrefs" {
			s.pure = false
		}
		s.changed(next)
		switch {
		case o.K == "clear":
			s.vers = [][]int{{}}
			s.pure = true
		case o.K == "rebuild":
			s.vers = [][]int{cp(next)}
			r.quiet(func() {
				g, _ := x.Degree(p)
				d, err := x.Depth(p)
				want, fit := 1, int(g)
				for fit < n {
					want, fit = want+1, fit*int(g)
				}
				if err != nil || d != want {
					r.fail("depth", "the depth is %d (%v) after a rebuild of %d elements with the degree %d", d, err, n, g)
				}
			})
		}
		r.check(s, o.Arg(3))
	}
	return nil
}

// look reads the collection in one way.
func (r *rRun) look(s *rSlot, a, b, depth int) {
	p, x, n := r.pack, s.refs, len(s.list)
	fails := p.fails
	i := a%(n+2) - 1
	if n > 0 && a%5 > 0 {
		i = a % n
	}
	v := b % len(r.hash)
	if n > 0 && b%3 > 0 {
		v = s.list[b%n]
	}
	var first = -1
	var all []int
	for k, e := range s.list {
		if e == v {
			if first < 0 {
				first = k
			}
			all = append(all, k)
		}
	}
	var err, want error
	what := ""
	good := true
	indexed := s.flags&registry.HashTableIndex != 0
	switch a % 9 {
	case 0:
		what = "Len"
		var l int
		l, err = x.Len(p)
		good = l == n
	case 1, 2:
		what = fmt.Sprintf("HashByIndex %d", i)
		if i < 0 || i >= n {
			want = registry.ErrIndexOutOfRange
		}
		var h cipher.SHA256
		h, err = x.HashByIndex(p, i)
		good = want != nil || h == r.hash[s.list[i]]
	case 3:
		what = fmt.Sprintf("HasHash %d", v)
		var ok bool
		ok, err = x.HasHash(p, r.hash[v])
		good = ok == (first >= 0)
	case 4:
		what = fmt.Sprintf("IndexOfHash %d", v)
		var k int
		if first < 0 {
			want = registry.ErrNotFound
		}
		k, err = x.IndexOfHash(p, r.hash[v])
		good = want != nil || k == first || indexed && k >= 0 && k < n && s.list[k] == v
	case 5:
		what = fmt.Sprintf("IndicesByHash %d", v)
		var l []int
		if first < 0 {
			want = registry.ErrNotFound
		}
		l, err = x.IndicesByHash(p, r.hash[v])
		l = cp(l)
		sort.Ints(l)
		good = want != nil || same(l, all)
	case 6:
		what = fmt.Sprintf("ValueByIndex %d", i)
		var o rVal
		switch {
		case i < 0 || i >= n:
			want = registry.ErrIndexOutOfRange
		case s.list[i] == 0:
			want = registry.ErrRefsElementIsNil
		}
		var h cipher.SHA256
		h, err = x.ValueByIndex(p, i, &o)
		good = want != nil || o.A == uint32(s.list[i]) && h == r.hash[s.list[i]]
	case 7:
		what = fmt.Sprintf("ValueByHash %d", v)
		var o rVal
		switch {
		case first < 0:
			want = registry.ErrNotFound
		case v == 0:
			want = registry.ErrRefsElementIsNil
		}
		err = x.ValueByHash(p, r.hash[v], &o)
		good = want != nil || o.A == uint32(v)
	case 8:
		what = "reading everything"
		var l []int
		l, err = r.read(x, b)
		good = same(l, s.list)
	}
	r.note("%s -> %v", what, err)
	if !r.did(s, fails, err, want, what) {
		if p.fails > fails && depth == 0 && b%2 == 0 && !core.Failed() {
			r.broken(s)
		}
		return
	}
	if !good {
		r.fail("wrong-answer", "%s of the list %v is wrong", what, s.list)
	}
}

var errUser = errors.New("stop with an error")

// iter goes over the collection, changing it meanwhile.
func (r *rRun) iter(s *rSlot, o core.Op, depth int) error {
	if depth > 2 {
		return nil
	}
	p, x := r.pack, s.refs
	g := simrt.NewRng(uint64(o.Arg(2)))
	up := o.Arg(1)%2 == 0
	n := len(s.list)
	from := 0
	all := o.Arg(1)%4 < 2
	if !up {
		from = n - 1
	}
	if !all && n > 0 {
		from = g.N(n)
		if g.N(12) == 0 {
			from = n
		}
	}
	steps := g.N(4) // how many times something is done inside
	fails := p.fails
	pos := from
	visits := 0
	var own error
	f := func(i int, h cipher.SHA256) error {
		if core.Failed() {
			return errUser
		}
		visits++
		if visits > 500 {
			r.fail("endless", "an iteration over %d elements goes on after 500 steps", n)
			return errUser
		}
		if i != pos || i < 0 || i >= len(s.list) || h != r.hash[s.list[i]] {
			r.fail("iteration", "an iteration (up %v, from %d, %d-th step) visits %d %v, the next one is %d of the list %v", up, from, visits, i, r.num[h], pos, s.list)
			return errUser
		}
		if up {
			pos++
		} else {
			pos--
		}
		if steps > 0 && g.N(3) == 0 {
			steps--
			k := pick(g, "append", "appendv", "appendrefs", "set", "set", "setv", "del", "del", "del", "delhash", "slice", "look", "iter", "iter", "rebuild", "reset", "clear", "walk")
			if k == "clear" && g.N(4) > 0 {
				k = "del"
			}
			q := core.Op{K: k, A: []int64{0, int64(g.N(1000)), int64(g.N(1000)), int64(g.N(100))}}
			if k == "append" || k == "appendv" {
				q.A[1] = int64(g.N(5))
			}
			before := p.fails
			if err := r.do(s, q, depth+1); p.fails > before { // other errors are the expected ones
				if !errors.Is(err, errStorage) {
					err = errStorage
				}
				return err
			}
			if core.Failed() {
				return errUser
			}
		}
		if g.N(25) == 0 {
			own = registry.ErrStopIteration
			return own
		}
		if g.N(40) == 0 {
			own = errUser
			return own
		}
		return nil
	}
	r.note("iteration up %v from %d {", up, from)
	var err error
	switch {
	case up && all:
		err = x.Ascend(p, f)
	case up:
		err = x.AscendFrom(p, from, f)
	case all:
		err = x.Descend(p, f)
	default:
		err = x.DescendFrom(p, from, f)
	}
	r.note("} after %d -> %v", visits, err)
	if core.Failed() {
		return nil
	}
	if p.fails > fails {
		if !errors.Is(err, errStorage) {
			r.fail("error", "the iteration returns %v because the storage failed", err)
		}
		if depth == 0 {
			r.broken(s)
		}
		return err
	}
	var want error
	over := up && pos >= len(s.list) || !up && pos < 0
	switch {
	case own == errUser:
		want = errUser
	case own != nil:
	case visits == 0 && !all && (from >= n) && !(up && from == 0):
		want = registry.ErrIndexOutOfRange
	case visits == 0 && !all && !up && from < 0:
		want = registry.ErrIndexOutOfRange
	case !up && pos >= len(s.list): // what remains is gone
		if err == registry.ErrIndexOutOfRange || err == nil {
			return nil
		}
	case !over:
		r.fail("iteration", "an iteration (up %v, from %d) ends with %v before %d of the list %v", up, from, err, pos, s.list)
		return nil
	}
	if err != want {
		r.fail("error", "an iteration (up %v, from %d of %d) returns %v, it has to be %v", up, from, n, err, want)
	}
	return nil
}

// walk goes through the tree the way the exchange of roots does.
func (r *rRun) walk(s *rSlot, o core.Op, depth int) error {
	p, x := r.pack, s.refs
	g := simrt.NewRng(uint64(o.Arg(2)))
	stopAt, skip := -1, 0
	var own error
	switch g.N(4) {
	case 0:
		stopAt, own = g.N(2*len(s.list)+3), registry.ErrStopIteration
	case 1:
		stopAt, own = g.N(2*len(s.list)+3), errUser
	case 2:
		skip = 3
	}
	fails, n, stopped := p.fails, 0, false
	var got []int
	var first cipher.SHA256
	var err error
	bad := ""
	say := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	path := []int{}
	type step struct {
		h cipher.SHA256
		d int
	}
	var steps []step
	skips := map[int]bool{}
	skipped := false
	err = x.Walk(p, nil, func(h cipher.SHA256, d int) (bool, error) {
		n++
		switch {
		case stopped:
			say("goes on after %v", own)
			return false, own
		case n > 2000:
			say("doesn't end")
			return false, errUser
		case n == 1:
			first = h
			if d < 1 {
				say("begins with depth %d", d)
			}
		case d == 0:
			v, ok := r.num[h]
			if !ok {
				say("visits the element %s, which was never in a list", h.Hex()[:7])
			}
			got = append(got, v)
		}
		if n > 1 && d >= path[0] || d < 0 {
			say("visits depth %d below %d", d, path[0])
		}
		path = append(path, d)
		steps = append(steps, step{h, d})
		if n-1 == stopAt {
			stopped = true
			return g.N(2) == 0, own
		}
		if d > 0 && skip > 0 && g.N(skip) == 0 {
			skipped, skips[n-1] = true, true
			return false, nil
		}
		return d > 0, nil
	})
	r.note("walk (stop at %d, skip %v) -> %v", stopAt, skipped, err)
	if core.Failed() {
		return nil
	}
	if bad != "" {
		r.fail("walk", "the walk of %v %s", s.list, bad)
		return nil
	}
	if p.fails > fails {
		if !errors.Is(err, errStorage) {
			r.fail("error", "the walk returns %v because the storage failed", err)
		}
		if depth == 0 {
			r.broken(s)
		}
		return err
	}
	var want error
	if stopped && own == errUser {
		want = own
	}
	if err != want {
		r.fail("error", "the walk returns %v, it has to be %v", err, want)
		return nil
	}
	if first != x.Hash {
		r.fail("walk", "the walk begins with %s, the collection is %s", first.Hex()[:7], x.Short())
		return nil
	}
	if !stopped && !skipped && !same(got, s.list) || len(got) > len(s.list) {
		r.fail("walk", "the walk visits %v of the list %v", got, s.list)
		return nil
	}
	if skipped { // it is the whole walk without what was skipped
		var all, exp []step
		r.quiet(func() {
			err = x.Walk(p, nil, func(h cipher.SHA256, d int) (bool, error) {
				all = append(all, step{h, d})
				return d > 0, nil
			})
		})
		for i := 0; i < len(all); i++ {
			exp = append(exp, all[i])
			if skips[len(exp)-1] {
				for d := all[i].d; i+1 < len(all) && all[i+1].d < d; {
					i++
				}
			}
		}
		good := err == nil && len(exp) == len(steps)
		for i := 0; good && i < len(exp); i++ {
			good = exp[i] == steps[i]
		}
		if !good {
			r.fail("walk", "the walk of %v that skips some branches visits %d nodes, it has to visit %d (%v)", s.list, len(steps), len(exp), err)
			return nil
		}
	}
	// the hash it begins with stands for the present list
	s.vers = [][]int{cp(s.list)}
	r.check(s, o.Arg(3))
	return nil
}

func r01Gen(faults bool) func(r *simrt.Rng) *core.Prog {
	return func(r *simrt.Rng) *core.Prog {
		c := map[string]int64{"degree": pick(r, int64(2), 2, 2, 3, 3, 4, 8, 16), "vals": int64(2 + r.N(8))}
		if faults {
			c["fail"] = pick(r, int64(1), 3, 10, 30)
		}
		p := &core.Prog{Cfg: c}
		for i := range 3 {
			c[fmt.Sprintf("flags%d", i)] = int64(pick(r, 0, 0, 0, 1, 2, 4, r.N(8)))
		}
		kinds := swarm(r, []string{"append", "append", "appendv", "appendrefs", "set", "setv", "del", "del", "delhash", "slice", "degree", "rebuild", "reset", "look", "look", "iter", "iter", "walk"})
		ns := 1 + r.N(3)
		big := pick(r, 2, 3, 6, 20)
		for i := 2 + r.N(30); i > 0; i-- {
			k := pick(r, kinds...)
			if r.N(5) == 0 {
				k = "append"
			}
			if r.N(8) == 0 {
				k = "look"
			}
			if r.N(60) == 0 {
				k = "clear"
			}
			o := core.Op{K: k, A: []int64{int64(r.N(ns)), int64(r.N(1000)), int64(r.N(1000)), int64(r.N(100))}}
			if k == "append" || k == "appendv" {
				o.A[1] = int64(r.N(big + 1))
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}
}

func r01Body(p *core.Prog) {
	r := &rRun{num: map[cipher.SHA256]int{}, seen: map[cipher.SHA256]string{}, deg: int(p.Cfg["degree"])}
	r.pack = &rPack{vals: map[cipher.SHA256][]byte{}, degree: registry.Degree(r.deg), failP: float64(p.Cfg["fail"]) / 100}
	pr := newProc("refs")
	core.Phase("operations")
	pr.Do("refs", func() {
		r.pack.reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("T0", T0{}) })
		r.hash = append(r.hash, cipher.SHA256{})
		for i := 1; i < int(p.Cfg["vals"]); i++ {
			v := encoder.Serialize(rVal{uint32(i)})
			h, _ := r.pack.Add(v)
			r.hash = append(r.hash, h)
		}
		for i, h := range r.hash {
			r.num[h] = i
		}
		for i := range r.slot {
			r.slot[i] = &rSlot{refs: &registry.Refs{}, list: []int{}, vers: [][]int{{}}, flags: registry.Flags(p.Cfg[fmt.Sprintf("flags%d", i)]), pure: true}
		}
		r.pack.on = p.Cfg["fail"] > 0
		for _, o := range p.Of(0) {
			r.note("slot %d (flags %d, %v):", o.Arg(0), r.slot[o.Arg(0)].flags, r.slot[o.Arg(0)].list)
			r.do(r.slot[o.Arg(0)], o, 0)
			if core.Failed() {
				return
			}
		}
		r.pack.on = false
		for i, s := range r.slot {
			r.note("end, slot %d (flags %d)", i, s.flags)
			r.pack.flags = s.flags
			l, err := r.read(s.refs, i)
			if err != nil || !same(l, s.list) {
				r.fail("wrong-list", "the list is %v (%v), it has to be %v", l, err, s.list)
				return
			}
			if err = s.refs.Rebuild(r.pack); err != nil {
				r.fail("error", "Rebuild: %v", err)
				return
			}
			s.vers = [][]int{cp(s.list)}
			r.check(s, int64(i))
			if core.Failed() {
				return
			}
		}
	})
}

func init() {
	real := []string{"skyobject/registry (Refs)"}
	stubs := []string{"storage (map that fails)", "cipher", "encoder"}
	core.Register(&core.Scenario{Prop: "R01", Name: "list", Quick: 120000, Thor: 1500000, Gen: r01Gen(false), Body: r01Body, Real: real, Stubs: stubs,
		Rule: "up to three collections of any degree and loading mode are appended to, changed, cut, rebuilt, sliced and iterated (with changes inside); after each operation the object and what its hash stands for are compared with a list"})
	core.Register(&core.Scenario{Prop: "R01", Name: "faults", Quick: 120000, Thor: 1500000, Gen: r01Gen(true), Body: r01Body, Real: real, Stubs: stubs,
		Rule: "the same with storage whose reads and writes fail; the operation reports it, and the collection reloaded from its hash is a list it was before or after", Needed: []string{"pack-get-error", "pack-set-error"}})
}

// Collections as a peer could make them: the stored nodes say whatever they like.

type (
	rTop struct {
		Depth, Degree, Length uint32
		Elements              []cipher.SHA256
	}
	rNode struct {
		Length   uint32
		Elements []cipher.SHA256
	}
)

func r01BadGen(r *simrt.Rng) *core.Prog {
	c := map[string]int64{"degree": pick(r, int64(2), 3, 4), "flags": int64(r.N(8)), "depth": int64(r.N(4)), "make": int64(r.N(1 << 30)), "bad": int64(1 + r.N(3)), "write": pick(r, int64(0), 0, 1)}
	p := &core.Prog{Cfg: c}
	for i := 1 + r.N(8); i > 0; i-- {
		p.Ops = append(p.Ops, core.Op{K: "op", A: []int64{0, int64(r.N(1000)), int64(r.N(1000))}})
	}
	return p
}

func r01BadBody(p *core.Prog) {
	r := &rRun{deg: int(p.Cfg["degree"])}
	r.pack = &rPack{vals: map[cipher.SHA256][]byte{}, degree: registry.Degree(r.deg), flags: registry.Flags(p.Cfg["flags"])}
	pr := newProc("refs")
	core.Phase("operations")
	pr.Do("refs", func() {
		pk := r.pack
		pk.reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("T0", T0{}) })
		g := simrt.NewRng(uint64(p.Cfg["make"]))
		bad := int(p.Cfg["bad"])
		wrong := func() bool {
			if bad > 0 && g.N(6) == 0 {
				bad--
				return true
			}
			return false
		}
		num := func(x int) uint32 {
			if !wrong() {
				return uint32(x)
			}
			return pick(g, 0, 1, uint32(x)+1, uint32(x)-1, uint32(g.N(40)), 1<<31, 1<<32-1, 1<<16)
		}
		elems := func(l []cipher.SHA256) []cipher.SHA256 {
			if !wrong() {
				return l
			}
			switch g.N(5) {
			case 0:
				return nil
			case 1:
				return append(l, l...)
			case 2:
				return l[:g.N(len(l)+1)]
			case 3:
				if len(l) > 0 {
					l[g.N(len(l))] = cipher.SHA256{}
				}
			case 4:
				if len(l) > 0 {
					l[g.N(len(l))] = cipher.SumSHA256([]byte("nothing"))
				}
			}
			return l
		}
		put := func(x any) cipher.SHA256 {
			v := encoder.Serialize(x)
			if wrong() && len(v) > 0 {
				v = v[:g.N(len(v))]
			}
			h := cipher.SumSHA256(v)
			pk.vals[h] = v
			return h
		}
		var build func(d int) (cipher.SHA256, int)
		level := func(d int) (l []cipher.SHA256, n int) {
			for i := 1 + g.N(r.deg); i > 0; i-- {
				if d == 0 {
					h, _ := pk.Add(encoder.Serialize(rVal{uint32(g.N(5))}))
					l, n = append(l, h), n+1
					continue
				}
				h, m := build(d - 1)
				l, n = append(l, h), n+m
			}
			return
		}
		build = func(d int) (cipher.SHA256, int) {
			l, n := level(d)
			return put(rNode{num(n), elems(l)}), n
		}
		d := int(p.Cfg["depth"])
		l, n := level(d)
		x := &registry.Refs{Hash: put(rTop{num(d), num(r.deg), num(n), elems(l)})}
		any := cipher.SumSHA256(encoder.Serialize(rVal{3}))
		for _, o := range p.Of(0) {
			a, b := int(o.Arg(1)), int(o.Arg(2))
			i, steps, what := b%(n+2), 0, ""
			count := func(int, cipher.SHA256) error {
				if steps++; steps > 20000 {
					r.fail("endless", "an iteration over a malformed collection goes on after %d steps", steps)
					return registry.ErrStopIteration
				}
				return nil
			}
			if b%7 == 0 {
				if v, err := x.Len(pk); err == nil {
					i = v - 1
				}
			}
			k := 13
			if p.Cfg["write"] > 0 {
				k = 20
			}
			var err error
			switch a % k {
			case 0:
				what = "Len"
				_, err = x.Len(pk)
			case 1, 2:
				what = fmt.Sprintf("HashByIndex %d", i)
				_, err = x.HashByIndex(pk, i)
			case 3:
				what = "HasHash"
				_, err = x.HasHash(pk, any)
			case 4:
				what = "IndexOfHash"
				_, err = x.IndexOfHash(pk, any)
			case 5:
				what = "IndicesByHash"
				_, err = x.IndicesByHash(pk, any)
			case 6:
				what = "Ascend"
				err = x.Ascend(pk, count)
			case 7:
				what = "Descend"
				err = x.Descend(pk, count)
			case 8:
				what = fmt.Sprintf("AscendFrom %d", i)
				err = x.AscendFrom(pk, i, count)
			case 9:
				what = fmt.Sprintf("DescendFrom %d", i)
				err = x.DescendFrom(pk, i, count)
			case 10:
				what = "Walk"
				err = x.Walk(pk, nil, func(h cipher.SHA256, d int) (bool, error) { return d > 0, count(0, h) })
			case 11:
				what = "Tree"
				_, err = x.Tree(pk, true)
			case 12:
				what = "ValueByIndex"
				var v rVal
				_, err = x.ValueByIndex(pk, i, &v)
			case 13:
				what = fmt.Sprintf("SetHashByIndex %d", i)
				err = x.SetHashByIndex(pk, i, any)
			case 14:
				what = fmt.Sprintf("DeleteByIndex %d", i)
				err = x.DeleteByIndex(pk, i)
			case 15:
				what = "DeleteByHash"
				err = x.DeleteByHash(pk, any)
			case 16:
				what = "AppendHashes"
				err = x.AppendHashes(pk, []cipher.SHA256{any, {}, any}[:1+b%3]...)
			case 17:
				j := i + a%5
				what = fmt.Sprintf("Slice %d:%d", i, j)
				_, err = x.Slice(pk, i, j)
			case 18:
				what = "Rebuild"
				err = x.Rebuild(pk)
			case 19:
				what = "SetDegree"
				err = x.SetDegree(pk, registry.Degree(2+b%4))
			}
			r.note("%s -> %v", what, err)
			if core.Failed() {
				return
			}
			if err != nil {
				simrt.Count("malformed-refused")
				if b%2 == 0 {
					x.Reset()
				}
			}
		}
	})
}

func init() {
	core.Register(&core.Scenario{Prop: "R01", Name: "malformed", Quick: 120000, Thor: 1500000, Gen: r01BadGen, Body: r01BadBody, Real: []string{"skyobject/registry (Refs)"}, Stubs: []string{"storage (map)", "cipher", "encoder"},
		Rule: "a collection whose stored nodes lie about their lengths, depths, degrees and children (as a peer could make it) is read in every way: each call returns", Needed: []string{"malformed-refused"}})
}
