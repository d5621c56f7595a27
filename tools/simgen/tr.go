package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

// tr transforms the files of one package.
type tr struct {
	gen map[*ast.BlockStmt]bool // generated blocks that get no yield points

	p     *pkg
	yield bool
	base  int32
	repo  string
	sites []string
	n     int

	used map[string]bool // simulator packages used by the current file

	chanRange, mapRange map[*ast.RangeStmt]bool
	chanCall            map[*ast.CallExpr]string // len, cap, close, make on channels
	pkgRef              map[*ast.SelectorExpr]string
	recv2               map[ast.Node]bool
	shared              map[ast.Node]ast.Expr // assignment/incdec to split -> lhs
	mapIdx              map[ast.Node]bool     // the split lhs is a map element
	note                map[*ast.AssignStmt]ast.Expr
	goInline            map[*ast.GoStmt]bool
	goPlainFun          map[*ast.GoStmt]bool
	constArg            map[ast.Expr]bool
	funcName            []string
	chanSpec            map[*ast.TypeSpec]bool
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (t *tr) rt(name string) ast.Expr {
	t.used["simrt"] = true
	return &ast.SelectorExpr{X: id("simrt"), Sel: id(name)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func method(x ast.Expr, name string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: id(name)}, a...)
}

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

// replacements of package-level names
var swap = map[string]map[string]string{
	"sync": {"Mutex": "simrt.Mutex", "RWMutex": "simrt.RWMutex", "WaitGroup": "simrt.WaitGroup", "Once": "simrt.Once",
		"OnceFunc": "simrt.OnceFunc", "OnceValue": "simrt.OnceValue", "OnceValues": "simrt.OnceValues", "Cond": "simrt.Cond",
		"NewCond": "simrt.NewCond", "Pool": "simrt.Pool", "Map": "simrt.Map", "Locker": "simrt.Locker"},
	"time": {"Now": "simrt.TimeNow", "Since": "simrt.TimeSince", "Until": "simrt.TimeUntil", "Sleep": "simrt.Sleep",
		"Timer": "simrt.Timer", "NewTimer": "simrt.NewTimer", "AfterFunc": "simrt.AfterFunc", "After": "simrt.TimeAfter",
		"Ticker": "simrt.Ticker", "NewTicker": "simrt.NewTicker", "Tick": "simrt.Tick"},
	"math/rand": {"Int": "simrt.RandInt", "Intn": "simrt.RandIntn", "Int31": "simrt.RandInt31", "Int31n": "simrt.RandInt31n",
		"Int63": "simrt.RandInt63", "Int63n": "simrt.RandInt63n", "Uint32": "simrt.RandUint32", "Uint64": "simrt.RandUint64",
		"Float32": "simrt.RandFloat32", "Float64": "simrt.RandFloat64", "NormFloat64": "simrt.RandNormFloat64",
		"ExpFloat64": "simrt.RandExpFloat64", "Perm": "simrt.RandPerm", "Shuffle": "simrt.RandShuffle", "Seed": "simrt.RandSeed",
		"Read": "simrt.RandReadM"},
	"math/rand/v2": {"Int": "simrt.RandInt", "IntN": "simrt.RandIntN", "Int32": "simrt.RandInt31", "Int32N": "simrt.RandInt31n",
		"Int64": "simrt.RandInt63", "Int64N": "simrt.RandInt63n", "Uint32": "simrt.RandUint32", "Uint64": "simrt.RandUint64",
		"Float32": "simrt.RandFloat32", "Float64": "simrt.RandFloat64", "NormFloat64": "simrt.RandNormFloat64",
		"ExpFloat64": "simrt.RandExpFloat64", "Perm": "simrt.RandPerm", "Shuffle": "simrt.RandShuffle", "N": "simrt.RandN"},
	"crypto/rand": {"Read": "simrt.RandRead", "Reader": "simrt.RandReader", "Int": "simrt.RandBigInt"},
	"runtime":     {"Gosched": "simrt.Gosched", "NumGoroutine": "simrt.NumGoroutine"},
	"maps":        {"Keys": "simrt.RangeMapKeys", "Values": "simrt.RangeMapVals", "All": "simrt.RangeMap"},
	"os": {"Exit": "simrt.Exit", "OpenFile": "simos.OpenFile", "Open": "simos.Open", "Create": "simos.Create", "Stat": "simos.Stat",
		"Lstat": "simos.Lstat", "Remove": "simos.Remove", "RemoveAll": "simos.RemoveAll", "Rename": "simos.Rename",
		"MkdirAll": "simos.MkdirAll", "Mkdir": "simos.Mkdir", "ReadFile": "simos.ReadFile", "WriteFile": "simos.WriteFile",
		"TempDir": "simos.TempDir", "CreateTemp": "simos.CreateTemp", "MkdirTemp": "simos.MkdirTemp", "ReadDir": "simos.ReadDir",
		"File": "simos.File", "Stderr": "simos.Stderr", "Stdout": "simos.Stdout", "Stdin": "simos.Stdin"},
	"io/ioutil": {"TempFile": "simos.CreateTemp", "TempDir": "simos.MkdirTemp", "ReadFile": "simos.ReadFile",
		"WriteFile": "simos.WriteFile"},
}

var simPath = map[string]string{"simrt": "simrt", "simos": "simrt/simos", "simlog": "simrt/simlog"}

func isChan(tp types.Type) bool {
	if tp == nil {
		return false
	}
	_, ok := tp.Underlying().(*types.Chan)
	return ok
}

func hasPointers(tp types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := tp.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// pure expressions can be evaluated twice.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (t *tr) typ(e ast.Expr) types.Type {
	if tv, ok := t.p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := t.p.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := t.p.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (t *tr) pkgOf(x ast.Expr) string {
	if i, ok := x.(*ast.Ident); ok {
		if pn, ok := t.p.info.Uses[i].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

// isShared: memory another goroutine may reach.
func (t *tr) isShared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.isShared(x.X)
	case *ast.Ident:
		if v, ok := t.p.info.Uses[x].(*types.Var); ok {
			return v.Parent() == t.p.types.Scope()
		}
		return false
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if t.pkgOf(x.X) != "" {
			return true
		}
		if tp := t.typ(x.X); tp != nil {
			if _, ok := tp.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return t.isShared(x.X)
	case *ast.IndexExpr:
		if tp := t.typ(x.X); tp != nil {
			switch tp.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				return true
			}
		}
		return t.isShared(x.X)
	}
	return false
}

// collect looks at the untouched tree with its type information.
func (t *tr) collect(f *ast.File) {
	t.chanRange, t.mapRange = map[*ast.RangeStmt]bool{}, map[*ast.RangeStmt]bool{}
	t.chanCall = map[*ast.CallExpr]string{}
	t.pkgRef = map[*ast.SelectorExpr]string{}
	t.recv2 = map[ast.Node]bool{}
	t.shared = map[ast.Node]ast.Expr{}
	t.mapIdx = map[ast.Node]bool{}
	t.note = map[*ast.AssignStmt]ast.Expr{}
	t.goInline = map[*ast.GoStmt]bool{}
	t.goPlainFun = map[*ast.GoStmt]bool{}
	t.constArg = map[ast.Expr]bool{}
	t.chanSpec = map[*ast.TypeSpec]bool{}
	info := t.p.info
	isRecv := func(e ast.Expr) bool {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		u, ok := e.(*ast.UnaryExpr)
		return ok && u.Op == token.ARROW
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			tp := t.typ(x.X)
			if isChan(tp) {
				t.chanRange[x] = true
			} else if tp != nil {
				if _, ok := tp.Underlying().(*types.Map); ok {
					t.mapRange[x] = true
				}
			}
		case *ast.CallExpr:
			fn := x.Fun
			if p, ok := fn.(*ast.ParenExpr); ok {
				fn = p.X
			}
			if i, ok := fn.(*ast.Ident); ok {
				if b, ok := info.Uses[i].(*types.Builtin); ok && len(x.Args) > 0 {
					switch b.Name() {
					case "len", "cap", "close":
						if isChan(t.typ(x.Args[0])) {
							t.chanCall[x] = b.Name()
						}
					case "make":
						if isChan(t.typ(x.Args[0])) {
							t.chanCall[x] = "make"
						}
					}
				}
			}
			for _, a := range x.Args {
				if tv, ok := info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
					t.constArg[a] = true
				}
			}
		case *ast.GoStmt:
			fn := x.Call.Fun
			switch g := fn.(type) {
			case *ast.Ident:
				switch info.Uses[g].(type) {
				case *types.Builtin:
					t.goInline[x] = true
				case *types.Func:
					t.goPlainFun[x] = true
				}
			case *ast.SelectorExpr:
				if t.pkgOf(g.X) != "" {
					if _, ok := info.Uses[g.Sel].(*types.Func); ok {
						t.goPlainFun[x] = true
					}
				}
			case *ast.FuncLit:
				t.goPlainFun[x] = true
			}
			if tv, ok := info.Types[fn]; ok && tv.IsType() {
				t.goInline[x] = true
			}
		case *ast.SelectorExpr:
			if pp := t.pkgOf(x.X); pp != "" {
				if r, ok := swap[pp][x.Sel.Name]; ok {
					t.pkgRef[x] = r
				} else if pp == "log" {
					t.pkgRef[x] = "simlog." + x.Sel.Name
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && isRecv(x.Rhs[0]) {
				t.recv2[x] = true
			}
			if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && t.yield {
				t.split(x, x.Lhs[0])
			}
			for _, l := range x.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					if m, ok := t.typ(ix.X).Underlying().(*types.Map); ok && hasPointers(m.Key(), 0) {
						if !pure(ix.Index) {
							die("%s: map insert with an impure pointer-like key is not supported", fset.Position(ix.Pos()))
						}
						t.note[x] = ix.Index
					}
				}
			}
		case *ast.IncDecStmt:
			if t.yield {
				t.split(x, x.X)
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 && isRecv(x.Values[0]) {
				t.recv2[x] = true
			}
		case *ast.TypeSpec:
			if _, ok := x.Type.(*ast.ChanType); ok {
				t.chanSpec[x] = true
			}
		}
		return true
	})
}

func (t *tr) split(n ast.Node, lhs ast.Expr) {
	if !pure(lhs) || !t.isShared(lhs) {
		return
	}
	e := lhs
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if tp := t.typ(ix.X); tp != nil {
			if _, ok := tp.Underlying().(*types.Map); ok {
				t.mapIdx[n] = true
			}
		}
	}
	t.shared[n] = e
}

func (t *tr) tmp(p string) *ast.Ident {
	t.n++
	return id(fmt.Sprintf("_sim%s%d", p, t.n))
}

func (t *tr) y(pos token.Pos) ast.Stmt {
	p := fset.Position(pos)
	rel, err := filepath.Rel(t.repo, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	t.sites = append(t.sites, fmt.Sprintf("%s:%d", rel, p.Line))
	return &ast.ExprStmt{X: call(t.rt("Y"), intLit(int(t.base)+len(t.sites)-1))}
}

func define(l []ast.Expr, r []ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

// yields inserts yield points in a statement list (before the rewriting, original positions).
func (t *tr) yields(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt, *ast.CaseClause, *ast.CommClause:
		case *ast.BranchStmt:
			_ = x
		default:
			o = append(o, t.y(s.Pos()))
		}
		if lhs, ok := t.shared[s]; ok {
			o = append(o, t.splitStmt(s, lhs)...)
			continue
		}
		o = append(o, s)
	}
	return o
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (t *tr) splitStmt(s ast.Stmt, lhs ast.Expr) []ast.Stmt {
	var op token.Token
	var rhs ast.Expr
	switch x := s.(type) {
	case *ast.AssignStmt:
		op, rhs = opOf[x.Tok], &ast.ParenExpr{X: x.Rhs[0]}
	case *ast.IncDecStmt:
		op, rhs = token.ADD, intLit(1)
		if x.Tok == token.DEC {
			op = token.SUB
		}
	}
	v := t.tmp("v")
	var blk []ast.Stmt
	dst := lhs
	if !t.mapIdx[s] {
		p := t.tmp("p")
		blk = append(blk, define([]ast.Expr{p}, []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: lhs}}))
		dst = &ast.StarExpr{X: id(p.Name)}
	}
	blk = append(blk, define([]ast.Expr{v}, []ast.Expr{dst}), t.y(s.Pos()))
	var dst2 ast.Expr
	if se, ok := dst.(*ast.StarExpr); ok && !t.mapIdx[s] {
		dst2 = &ast.StarExpr{X: id(se.X.(*ast.Ident).Name)}
	} else {
		dst2 = dst
	}
	blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{dst2}, Tok: token.ASSIGN,
		Rhs: []ast.Expr{&ast.BinaryExpr{X: id(v.Name), Op: op, Y: rhs}}})
	b := &ast.BlockStmt{List: blk}
	t.gen[b] = true
	return []ast.Stmt{b}
}

// file rewrites one file.
func (t *tr) file(f *ast.File) {
	t.used = map[string]bool{}
	t.gen = map[*ast.BlockStmt]bool{}
	t.collect(f)
	f.Comments = nil
	f.Doc = nil
	if t.yield {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if !t.gen[x] {
					x.List = t.yields(x.List)
				}
			case *ast.CaseClause:
				x.Body = t.yields(x.Body)
			case *ast.CommClause:
				x.Body = t.yields(x.Body)
			}
			return true
		})
	}
	Apply(f, nil, t.post)
	t.imports(f)
}

func (t *tr) imports(f *ast.File) {
	// which imported packages are still referred to
	left := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok {
				if pn, ok := t.p.info.Uses[i].(*types.PkgName); ok {
					left[pn.Name()+" "+pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path := strings.Trim(is.Path.Value, `"`)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if name == "_" || name == "." {
				specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
				continue
			}
			keep := false
			for k := range left {
				n, p, _ := strings.Cut(k, " ")
				if p == path && (name == "" || n == name) {
					keep = true
				}
			}
			for n, p := range simPath {
				if p == path && (name == "" || name == n) {
					keep = false
					if left[n+" "+p] {
						t.used[n] = true
					}
				}
			}
			if keep {
				ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}
				if is.Name != nil {
					ns.Name = id(is.Name.Name)
				}
				specs = append(specs, ns)
			}
		}
	}
	for _, n := range []string{"simrt", "simos", "simlog"} {
		if t.used[n] {
			specs = append(specs, &ast.ImportSpec{Name: id(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath[n])}})
		}
	}
	f.Imports = nil
	var head []ast.Decl
	for _, s := range specs {
		head = append(head, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	f.Decls = append(head, decls...)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recvOf returns the channel of a receive expression that has already been rewritten to ch.Recv().
func recvOf(e ast.Expr) (ast.Expr, bool) {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 0 {
		return nil, false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Recv" {
		return nil, false
	}
	return s.X, true
}

func (t *tr) post(c *Cursor) bool {
	switch x := c.Node().(type) {
	case *ast.SelectorExpr:
		if r, ok := t.pkgRef[x]; ok {
			p, n, _ := strings.Cut(r, ".")
			t.used[p] = true
			c.Replace(&ast.SelectorExpr{X: id(p), Sel: id(n)})
		}
	case *ast.ChanType:
		c.Replace(&ast.StarExpr{X: &ast.IndexExpr{X: t.rt("Chan"), Index: x.Value}})
	case *ast.TypeSpec:
		if t.chanSpec[x] {
			x.Assign = x.Name.End()
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			c.Replace(method(x.X, "Recv"))
		}
	case *ast.SendStmt:
		c.Replace(&ast.ExprStmt{X: method(x.Chan, "Send", x.Value)})
	case *ast.CallExpr:
		switch t.chanCall[x] {
		case "len":
			c.Replace(method(x.Args[0], "Len"))
		case "cap":
			c.Replace(method(x.Args[0], "Cap"))
		case "close":
			c.Replace(method(x.Args[0], "Close"))
		case "make":
			el := x.Args[0]
			var n ast.Expr = intLit(0)
			if len(x.Args) > 1 {
				n = x.Args[1]
				n = call(id("int"), n)
			}
			if se, ok := unparen(el).(*ast.StarExpr); ok {
				if ix, ok := se.X.(*ast.IndexExpr); ok {
					c.Replace(call(&ast.IndexExpr{X: t.rt("MakeChan"), Index: ix.Index}, n))
					return true
				}
			}
			// a named channel type (now an alias)
			tp := t.p.info.Types[x.Args[0]].Type
			die("%s: make of named channel type %v is not supported", fset.Position(x.Pos()), tp)
		}
	case *ast.AssignStmt:
		if t.recv2[x] {
			if ch, ok := recvOf(x.Rhs[0]); ok {
				x.Rhs[0] = method(ch, "Recv2")
			}
		}
		if k, ok := t.note[x]; ok {
			if c.Index() >= 0 {
				c.InsertBefore(&ast.ExprStmt{X: call(t.rt("NoteKey"), k)})
			}
		}
	case *ast.ValueSpec:
		if t.recv2[x] {
			if ch, ok := recvOf(x.Values[0]); ok {
				x.Values[0] = method(ch, "Recv2")
			}
		}
	case *ast.RangeStmt:
		switch {
		case t.chanRange[x]:
			x.X = call(t.rt("RangeChan"), x.X)
		case t.mapRange[x]:
			if x.Value == nil {
				x.X = call(t.rt("RangeMapKeys"), x.X)
			} else {
				x.X = call(t.rt("RangeMap"), x.X)
			}
		}
	case *ast.GoStmt:
		t.goStmt(c, x)
	case *ast.SelectStmt:
		t.selectStmt(c, x)
	}
	return true
}

func (t *tr) goStmt(c *Cursor, x *ast.GoStmt) {
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			c.Replace(&ast.ExprStmt{X: call(t.rt("Go"), fl)})
			return
		}
	}
	wrap := func(e *ast.CallExpr) ast.Stmt {
		return &ast.ExprStmt{X: call(t.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	// builtins on channels became methods: their Fun is x.Close; inline is fine
	if t.goInline[x] {
		c.Replace(wrap(x.Call))
		return
	}
	var l, r []ast.Expr
	fun := x.Call.Fun
	if !t.goPlainFun[x] {
		v := t.tmp("f")
		l, r = append(l, v), append(r, fun)
		fun = id(v.Name)
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: x.Call.Ellipsis}
	for _, a := range x.Call.Args {
		if _, lit := a.(*ast.FuncLit); lit || t.constArg[a] {
			nc.Args = append(nc.Args, a)
			continue
		}
		v := t.tmp("a")
		l, r = append(l, v), append(r, a)
		nc.Args = append(nc.Args, id(v.Name))
	}
	if len(l) == 0 {
		c.Replace(wrap(nc))
		return
	}
	c.Replace(&ast.BlockStmt{List: []ast.Stmt{define(l, r), wrap(nc)}})
}

func (t *tr) selectStmt(c *Cursor, x *ast.SelectStmt) {
	var l, r, args []ast.Expr
	def := false
	var clauses []ast.Stmt
	panicStmt := func() ast.Stmt {
		return &ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}
	}
	n := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		v := t.tmp("c")
		body := cc.Body
		var pre []ast.Stmt
		switch k := cc.Comm.(type) {
		case *ast.ExprStmt:
			if ch, ok := recvOf(k.X); ok {
				r = append(r, method(ch, "RecvC"))
			} else if se, ok := k.X.(*ast.CallExpr); ok && len(se.Args) == 1 && se.Fun.(*ast.SelectorExpr).Sel.Name == "Send" {
				r = append(r, method(se.Fun.(*ast.SelectorExpr).X, "SendC", se.Args[0]))
			} else {
				die("%s: unsupported select case", fset.Position(cc.Pos()))
			}
		case *ast.AssignStmt:
			ch, ok := recvOf(k.Rhs[0])
			if !ok {
				// v, ok := <-ch was turned in to Recv2
				if c2, ok2 := unparen(k.Rhs[0]).(*ast.CallExpr); ok2 {
					if s2, ok3 := c2.Fun.(*ast.SelectorExpr); ok3 && s2.Sel.Name == "Recv2" {
						ch, ok = s2.X, true
					}
				}
			}
			if !ok {
				die("%s: unsupported select case", fset.Position(cc.Pos()))
			}
			r = append(r, method(ch, "RecvC"))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(v.Name), Sel: id("V")}}
			if len(k.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(v.Name), Sel: id("OK")})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: k.Lhs, Tok: k.Tok, Rhs: rhs})
		default:
			die("%s: unsupported select case", fset.Position(cc.Pos()))
		}
		l = append(l, v)
		args = append(args, id(v.Name))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(pre, body...)})
		n++
	}
	if !def {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{panicStmt()}})
	}
	d := "false"
	if def {
		d = "true"
	}
	sw := &ast.SwitchStmt{Tag: call(t.rt("Select"), append([]ast.Expr{id(d)}, args...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(l) > 0 {
		sw.Init = define(l, r)
	}
	c.Replace(sw)
}
