// simgen rewrites Go packages so that every source of nondeterminism goes through the simulator (package simrt):
// goroutines, channels, select, locks, clocks, timers, randomness, files, map iteration. Usage:
//
//	simgen -out DIR -repo /repo -verif /verif -root harness/run
//
// It loads the import closure of the root package with build tag "sim", type-checks it, rewrites it and writes a set of
// modules that build offline.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type module struct {
	path   string // module path
	dir    string // source directory
	out    string // directory name in the output
	mode   int    // see below
	copied bool
}

const (
	modeYield = iota // rewrite and insert yield points
	modePlain        // rewrite only
	modeCopy         // copy as is
)

type pkg struct {
	path    string
	m       *module
	dir     string
	files   []*ast.File
	names   []string
	imports []string
	types   *types.Package
	info    *types.Info
}

var (
	mods    []*module
	fset    = token.NewFileSet()
	pkgs    = map[string]*pkg{}
	order   []*pkg
	stdPkgs = map[string]bool{}
	ctx     build.Context
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func find(path string) *module {
	for _, m := range mods {
		if path == m.path || strings.HasPrefix(path, m.path+"/") {
			return m
		}
	}
	return nil
}

func load(path string, chain []string) *pkg {
	if p, ok := pkgs[path]; ok {
		if p == nil {
			die("import cycle: %v -> %s", chain, path)
		}
		return p
	}
	m := find(path)
	if m == nil {
		die("no module for package %s (needed by %v)", path, chain)
	}
	pkgs[path] = nil
	p := &pkg{path: path, m: m, dir: filepath.Join(m.dir, strings.TrimPrefix(path, m.path))}
	ents, err := os.ReadDir(p.dir)
	if err != nil {
		die("%v", err)
	}
	imps := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := ctx.MatchFile(p.dir, n)
		if err != nil {
			die("%v", err)
		}
		if !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		for _, s := range f.Imports {
			imps[strings.Trim(s.Path.Value, `"`)] = true
		}
	}
	if len(p.files) == 0 {
		die("no Go files in %s", p.dir)
	}
	for i := range imps {
		p.imports = append(p.imports, i)
	}
	sort.Strings(p.imports)
	for _, i := range p.imports {
		if i == "unsafe" {
			continue
		}
		if find(i) != nil {
			load(i, append(chain, path))
			continue
		}
		if strings.Contains(strings.Split(i, "/")[0], ".") {
			die("package %s imports %s, which is not available", path, i)
		}
		stdPkgs[i] = true
	}
	pkgs[path] = p
	order = append(order, p)
	return p
}

type imp struct{ std types.Importer }

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := pkgs[path]; p != nil {
		return p.types, nil
	}
	return i.std.Import(path)
}

func stdImporter(goCmd string) types.Importer {
	var l []string
	for s := range stdPkgs {
		l = append(l, s)
	}
	sort.Strings(l)
	cmd := exec.Command(goCmd, append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}, l...)...)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list -export: %v", err)
	}
	exp := map[string]string{}
	for _, ln := range strings.Split(string(out), "\n") {
		if k, v, ok := strings.Cut(ln, "="); ok {
			exp[k] = v
		}
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

func main() {
	out := flag.String("out", "", "output directory")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	root := flag.String("root", "harness/cmd/simrun", "root package")
	goCmd := flag.String("go", "go", "go command")
	flag.Parse()
	ctx = build.Default
	ctx.BuildTags = []string{"sim"}
	ctx.CgoEnabled = false
	mods = []*module{
		{path: "github.com/skycoin/cxo", dir: *repo, out: "cxo", mode: modeYield},
		{path: "github.com/skycoin/skycoin", dir: *verif + "/deps/skycoin", out: "skycoin", mode: modePlain},
		{path: "github.com/skycoin/net", dir: *verif + "/deps/net", out: "net", mode: modePlain},
		{path: "github.com/DiSiqueira/GoTree", dir: *verif + "/deps/gotree", out: "gotree", mode: modePlain},
		{path: "github.com/boltdb/bolt", dir: *verif + "/deps/bolt", out: "bolt", mode: modePlain},
		{path: "github.com/anishathalye/porcupine", dir: *verif + "/deps/porcupine", out: "porcupine", mode: modeCopy},
		{path: "harness/cmd", dir: *verif + "/sim/harness/cmd", out: "harness/cmd", mode: modeCopy},
		{path: "harness/core", dir: *verif + "/sim/harness/core", out: "harness/core", mode: modeCopy},
		{path: "harness", dir: *verif + "/sim/harness", out: "harness", mode: modePlain},
		{path: "simrt", dir: *verif + "/sim/simrt", out: "simrt", mode: modeCopy},
	}
	load(*root, nil)
	for _, p := range []string{"simrt", "simrt/simos", "simrt/simlog"} {
		load(p, nil)
	}
	im := imp{stdImporter(*goCmd)}
	for _, p := range order {
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: im, GoVersion: "go1.23", Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.path, fset, p.files, p.info)
		if err != nil {
			die("type check: %v", err)
		}
		p.types = tp
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	siteBase := int32(1)
	for _, p := range order {
		d := filepath.Join(*out, p.m.out, strings.TrimPrefix(p.path, p.m.path))
		if err := os.MkdirAll(d, 0o755); err != nil {
			die("%v", err)
		}
		var t *tr
		if p.m.mode != modeCopy {
			t = &tr{p: p, yield: p.m.mode == modeYield, base: siteBase, repo: *repo}
		}
		for i, f := range p.files {
			if t == nil {
				b, err := os.ReadFile(filepath.Join(p.dir, p.names[i]))
				if err != nil {
					die("%v", err)
				}
				write(filepath.Join(d, p.names[i]), b)
				continue
			}
			t.file(f)
			var b bytes.Buffer
			b.WriteString("//go:build sim\n\n")
			if err := format.Node(&b, fset, f); err != nil {
				die("print %s: %v", p.names[i], err)
			}
			write(filepath.Join(d, p.names[i]), b.Bytes())
		}
		if t != nil && len(t.sites) > 0 {
			var b bytes.Buffer
			fmt.Fprintf(&b, "package %s\n\nimport \"simrt\"\n\nfunc init() {\n\tsimrt.RegisterSites(%d, []string{\n", p.types.Name(), siteBase)
			for _, s := range t.sites {
				fmt.Fprintf(&b, "\t\t%q,\n", s)
			}
			b.WriteString("\t})\n}\n")
			write(filepath.Join(d, "zz_sites.go"), b.Bytes())
			siteBase += int32(len(t.sites))
		}
	}
	// modules
	var reps []string
	for _, m := range mods {
		if m.out == "harness/cmd" || m.out == "harness/core" {
			continue
		}
		reps = append(reps, m.path)
	}
	for _, m := range mods {
		if m.out == "harness/cmd" || m.out == "harness/core" {
			continue
		}
		d := filepath.Join(*out, m.out)
		if _, err := os.Stat(d); err != nil {
			os.MkdirAll(d, 0o755)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "module %s\n\ngo 1.23\n", m.path)
		if m.path == "harness" {
			b.WriteString("\nrequire (\n")
			for _, r := range reps {
				if r != "harness" {
					fmt.Fprintf(&b, "\t%s v0.0.0\n", r)
				}
			}
			b.WriteString(")\n\nreplace (\n")
			for _, x := range mods {
				if x.path == "harness" || x.out == "harness/cmd" || x.out == "harness/core" {
					continue
				}
				fmt.Fprintf(&b, "\t%s => ../%s\n", x.path, x.out)
			}
			b.WriteString(")\n")
		}
		write(filepath.Join(d, "go.mod"), b.Bytes())
	}
}

func write(name string, b []byte) {
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		die("%v", err)
	}
}
