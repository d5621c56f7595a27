package sc

import (
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"simrt"

	"github.com/skycoin/cxo/skyobject/registry"
)

// The objects of the simulated users.

type TLeaf struct {
	N   uint32
	Pad []byte
}

type TIn struct {
	R registry.Ref `skyobject:"schema=TLeaf"`
}

type TNode struct {
	Name string
	One  registry.Ref  `skyobject:"schema=TLeaf"`
	Sub  registry.Ref  `skyobject:"schema=TNode"`
	Many registry.Refs `skyobject:"schema=TLeaf"`
	Kids registry.Refs `skyobject:"schema=TNode"`
	Any  registry.Dynamic
	Arr  [2]TIn
	Sl   []TIn
	Dyns []registry.Dynamic
	In   TIn
}

type tExtra struct{ A uint8 }

const (
	tRegs  = 2
	tLeafs = 8
)

type tTypes struct {
	reg [tRegs]*registry.Registry
}

func newTypes() *tTypes {
	t := &tTypes{}
	for i := range t.reg {
		t.reg[i] = registry.NewRegistry(func(r *registry.Reg) {
			r.Register("TLeaf", TLeaf{})
			r.Register("TIn", TIn{})
			r.Register("TNode", TNode{})
			if i == 1 {
				r.Register("TExtra", tExtra{})
			}
		})
	}
	return t
}

func (t *tTypes) schema(reg *registry.Registry, name string) registry.SchemaRef {
	s, err := reg.SchemaByName(name)
	if err != nil {
		panic(err)
	}
	return s.Reference()
}

func tLeaf(n int64) *TLeaf {
	return &TLeaf{N: 0xFEED0000 + uint32(n), Pad: payload(n, int(n*7%40))}
}

// tBuild makes objects out of a small pool of contents, so that they are shared a lot. base selects the pool.
type tBuild struct {
	pack registry.Pack
	r    *simrt.Rng
	base int64
	left int // nodes left
}

func (b *tBuild) leafN() int64 { return b.base*100 + int64(b.r.N(tLeafs)) }

func (b *tBuild) ref(x *registry.Ref, p float64) error {
	if b.r.F() < p && b.r.N(3) == 0 {
		return x.SetValue(b.pack, tLeaf(7700+int64(b.r.N(3)))) // common to all
	}
	if b.r.F() < p {
		return x.SetValue(b.pack, tLeaf(b.leafN()))
	}
	return nil
}

func (b *tBuild) dyn(depth int) (d registry.Dynamic, err error) {
	reg := b.pack.Registry()
	name, obj := "TLeaf", any(tLeaf(b.leafN()))
	if b.r.N(3) > 0 {
		name = "TNode"
		if obj, err = b.node(depth); err != nil {
			return
		}
	} else if b.r.N(8) == 0 {
		return
	}
	s, err := reg.SchemaByName(name)
	if err != nil {
		return
	}
	d.Schema = s.Reference()
	err = d.SetValue(b.pack, obj)
	return
}

func (b *tBuild) many(x *registry.Refs) (err error) {
	for i := 1 + b.r.N(3); i > 0 && err == nil; i-- {
		var l []interface{}
		for j := b.r.N(5); j > 0; j-- {
			l = append(l, tLeaf(b.leafN()))
		}
		if len(l) > 0 {
			err = x.AppendValues(b.pack, l...)
		}
	}
	return
}

func (b *tBuild) node(depth int) (n *TNode, err error) {
	b.left--
	n = &TNode{Name: fmt.Sprintf("n%d-%d", b.base, b.r.N(3))}
	deep := depth > 0 && b.left > 0
	if err = b.ref(&n.One, 0.5); err != nil {
		return
	}
	if deep && b.r.N(3) == 0 {
		var s *TNode
		if s, err = b.node(depth - 1); err == nil {
			err = n.Sub.SetValue(b.pack, s)
		}
		if err != nil {
			return
		}
	}
	if b.r.N(3) == 0 {
		if err = b.many(&n.Many); err != nil {
			return
		}
	}
	if deep && b.r.N(3) == 0 {
		for i := 1 + b.r.N(3); i > 0; i-- {
			var s *TNode
			if s, err = b.node(depth - 1); err == nil {
				err = n.Kids.AppendValues(b.pack, s)
			}
			if err != nil {
				return
			}
		}
	}
	if deep && b.r.N(3) == 0 {
		if n.Any, err = b.dyn(depth - 1); err != nil {
			return
		}
	}
	if b.r.N(4) == 0 {
		for i := range n.Arr {
			if err = b.ref(&n.Arr[i].R, 0.6); err != nil {
				return
			}
		}
	}
	if b.r.N(4) == 0 {
		n.Sl = make([]TIn, 1+b.r.N(3))
		for i := range n.Sl {
			if err = b.ref(&n.Sl[i].R, 0.8); err != nil {
				return
			}
		}
	}
	if deep && b.r.N(5) == 0 {
		n.Dyns = make([]registry.Dynamic, 1+b.r.N(2))
		for i := range n.Dyns {
			if n.Dyns[i], err = b.dyn(depth - 1); err != nil {
				return
			}
		}
	}
	if b.r.N(4) == 0 {
		err = b.ref(&n.In.R, 1)
	}
	return
}

// change a node that was saved before.
func (b *tBuild) change(n *TNode) (err error) {
	switch b.r.N(7) {
	case 0:
		return b.ref(&n.One, 0.8)
	case 1:
		return b.many(&n.Many)
	case 2, 3:
		var ln int
		if ln, err = n.Many.Len(b.pack); err != nil {
			return
		}
		if ln == 0 {
			return b.many(&n.Many)
		}
		if b.r.N(2) == 0 {
			return n.Many.DeleteByIndex(b.pack, b.r.N(ln))
		}
		return n.Many.SetValueByIndex(b.pack, b.r.N(ln), tLeaf(b.leafN()))
	case 4:
		var s *TNode
		if s, err = b.node(0); err == nil {
			err = n.Kids.AppendValues(b.pack, s)
		}
	case 5:
		n.Sub.Clear()
	case 6:
		n.Name += "x"
	}
	return
}

// tWalk finds all references independently of the code under test.
type tWalk struct {
	types *tTypes
	get   func(h cipher.SHA256) []byte
	rc    map[cipher.SHA256]int
	bad   string
	path  []string
	all   map[cipher.SHA256][]byte
}

func newWalk(t *tTypes, get func(h cipher.SHA256) []byte) *tWalk {
	return &tWalk{types: t, get: get, rc: map[cipher.SHA256]int{}, all: map[cipher.SHA256][]byte{}}
}

type tRefs struct {
	Depth    uint32
	Degree   uint32
	Length   uint32
	Elements []cipher.SHA256
}

type tRefsNode struct {
	Length   uint32
	Elements []cipher.SHA256
}

func (w *tWalk) fail(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf("%v: ", w.path) + fmt.Sprintf(f, a...)
	}
}

// count a reference; ok for the first one to an object that is there
func (w *tWalk) count(h cipher.SHA256, what string) (val []byte, ok bool) {
	if h == (cipher.SHA256{}) {
		return
	}
	w.rc[h]++
	if w.rc[h] > 1 {
		return
	}
	if val = w.get(h); val == nil {
		w.fail("%s %s is not there", what, h.Hex()[:7])
		return nil, false
	}
	if cipher.SumSHA256(val) != h {
		w.fail("%s %s has other bytes", what, h.Hex()[:7])
	}
	w.all[h] = val
	return val, true
}

func (w *tWalk) dec(val []byte, x any) bool {
	if _, err := encoder.DeserializeRaw(val, x); err != nil {
		w.fail("%v", err)
		return false
	}
	return true
}

// Root and everything below; the registry counts as referenced by it.
func (w *tWalk) Root(h cipher.SHA256) (r *registry.Root) {
	w.path = []string{"root " + h.Hex()[:7]}
	val, ok := w.count(h, "root")
	if !ok {
		return
	}
	r = new(registry.Root)
	if !w.dec(val, r) {
		return
	}
	if r.Reg != (registry.RegistryRef{}) {
		w.count(cipher.SHA256(r.Reg), "registry")
	}
	for _, d := range r.Refs {
		w.dyn(d)
	}
	return
}

func (w *tWalk) dyn(d registry.Dynamic) {
	if d.Hash == (cipher.SHA256{}) {
		return
	}
	switch reg := w.types.reg[0]; d.Schema {
	case w.types.schema(reg, "TLeaf"):
		w.leaf(d.Hash)
	case w.types.schema(reg, "TNode"):
		w.node(d.Hash)
	default:
		w.fail("unknown schema")
	}
}

func (w *tWalk) leaf(h cipher.SHA256) {
	if val, ok := w.count(h, "leaf"); ok {
		w.dec(val, new(TLeaf))
	}
}

func (w *tWalk) node(h cipher.SHA256) {
	val, ok := w.count(h, "node")
	if !ok {
		return
	}
	var n TNode
	if !w.dec(val, &n) {
		return
	}
	w.path = append(w.path, h.Hex()[:7])
	w.leaf(n.One.Hash)
	w.node(n.Sub.Hash)
	w.refs(n.Many.Hash, w.leaf)
	w.refs(n.Kids.Hash, w.node)
	w.dyn(n.Any)
	for _, r := range n.Arr {
		w.leaf(r.R.Hash)
	}
	for _, r := range n.Sl {
		w.leaf(r.R.Hash)
	}
	for _, d := range n.Dyns {
		w.dyn(d)
	}
	w.leaf(n.In.R.Hash)
	w.path = w.path[:len(w.path)-1]
}

func (w *tWalk) refs(h cipher.SHA256, el func(h cipher.SHA256)) {
	val, ok := w.count(h, "refs")
	if !ok {
		return
	}
	var r tRefs
	if !w.dec(val, &r) {
		return
	}
	w.path = append(w.path, "refs "+h.Hex()[:7])
	for _, e := range r.Elements {
		w.refsNode(e, int(r.Depth), el)
	}
	w.path = w.path[:len(w.path)-1]
}

func (w *tWalk) refsNode(h cipher.SHA256, depth int, el func(h cipher.SHA256)) {
	if depth == 0 {
		el(h)
		return
	}
	val, ok := w.count(h, "refs node")
	if !ok {
		return
	}
	var n tRefsNode
	if !w.dec(val, &n) {
		return
	}
	for _, e := range n.Elements {
		w.refsNode(e, depth-1, el)
	}
}

// describe an object for messages.
func (w *tWalk) describe(val []byte) string {
	var l TLeaf
	if n, err := encoder.DeserializeRaw(val, &l); err == nil && int(n) == len(val) && l.N>>16 == 0xFEED {
		return fmt.Sprintf("leaf %d", l.N&0xffff)
	}
	var x TNode
	if n, err := encoder.DeserializeRaw(val, &x); err == nil && int(n) == len(val) && len(x.Name) > 1 && x.Name[0] == 'n' {
		return "node " + x.Name
	}
	var r tRefs
	if n, err := encoder.DeserializeRaw(val, &r); err == nil && int(n) == len(val) {
		return fmt.Sprintf("refs depth %d length %d", r.Depth, r.Length)
	}
	var rn tRefsNode
	if n, err := encoder.DeserializeRaw(val, &rn); err == nil && int(n) == len(val) {
		return fmt.Sprintf("refs node of %d", len(rn.Elements))
	}
	var rt registry.Root
	if n, err := encoder.DeserializeRaw(val, &rt); err == nil && int(n) == len(val) {
		return "root " + rt.Short()
	}
	return fmt.Sprintf("object of %d bytes", len(val))
}
