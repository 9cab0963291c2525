// Command rewrite turns ordinary Go packages into packages whose every
// concurrency-relevant operation goes through the controlled runtime mcrt.
//
// usage: rewrite -root DIR -mcrt IMPORTPATH -pkgs a,b,c
//
// DIR is a scratch module (already holding a copy of the sources). The named
// packages (relative directories) are type-checked and rewritten in place.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	fset     = token.NewFileSet()
	mcrtPath string
	loop122  bool
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	root := flag.String("root", "", "module root")
	flag.StringVar(&mcrtPath, "mcrt", "", "import path of mcrt")
	pk := flag.String("pkgs", "", "comma separated package patterns to rewrite")
	noRewrite := flag.String("keep", "", "import paths typechecked but not rewritten")
	noMem := flag.String("nomem", "", "import paths whose memory accesses are not instrumented")
	l122 := flag.Bool("loop122", false, "use per-iteration loop variables")
	flag.Parse()
	loop122 = *l122

	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Imports,Standard,Module,Error"}, strings.Split(*pk, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *root
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	all := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("json: %v", err)
		}
		all[p.ImportPath] = p
		order = append(order, p)
	}
	nomem := map[string]bool{}
	for _, k := range strings.Split(*noMem, ",") {
		nomem[k] = true
	}
	keep := map[string]bool{mcrtPath: true}
	for _, k := range strings.Split(*noRewrite, ",") {
		keep[k] = true
	}
	modPath := ""
	for _, p := range order {
		if p.ImportPath == mcrtPath && p.Module != nil {
			modPath = p.Module.Path
		}
	}
	local := func(p *listPkg) bool { return p.Module != nil && p.Module.Path == modPath }

	gcimp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})
	done := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gcimp.Import(path)
	})

	type unit struct {
		p     *listPkg
		files []*ast.File
		names []string
		info  *types.Info
		pkg   *types.Package
	}
	var units []*unit
	// go list -deps prints dependencies first
	for _, p := range order {
		if !local(p) {
			continue
		}
		u := &unit{p: p, info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{},
		}}
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				die("parse: %v", err)
			}
			u.files = append(u.files, af)
			u.names = append(u.names, fn)
		}
		conf := types.Config{Importer: imp, GoVersion: "", Error: nil}
		u.pkg, err = conf.Check(p.ImportPath, fset, u.files, u.info)
		if err != nil {
			die("typecheck %s: %v", p.ImportPath, err)
		}
		done[p.ImportPath] = u.pkg
		units = append(units, u)
	}
	// pass 1: which fields / package vars / captured locals are assigned
	g := &global{mutField: map[*types.Var]bool{}, cls: map[types.Object]int{}}
	for _, u := range units {
		if keep[u.p.ImportPath] {
			continue
		}
		for _, f := range u.files {
			g.scanMutations(u.info, u.pkg, f)
		}
	}
	for _, u := range units {
		if keep[u.p.ImportPath] {
			continue
		}
		r := &rewriter{nomem: nomem[u.p.ImportPath], g: g, info: u.info, pkg: u.pkg}
		var resets []string
		initN := 0
		// source text of initialisers must be printed after rewriting
		for i, f := range u.files {
			r.file(f)
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					fd.Name = ast.NewIdent(fmt.Sprintf("mcInit%d_", initN))
					initN++
				}
			}
			_ = i
		}
		// package variable resets in initialisation order
		var rb bytes.Buffer
		inited := map[*types.Var]bool{}
		for _, in := range u.info.InitOrder {
			var lhs []string
			for _, v := range in.Lhs {
				inited[v] = true
				lhs = append(lhs, v.Name())
			}
			onlyBlank := true
			for _, n := range lhs {
				if n != "_" {
					onlyBlank = false
				}
			}
			if onlyBlank {
				continue
			}
			rhs := r.replacedExpr(in.Rhs)
			fmt.Fprintf(&rb, "\t%s = %s\n", strings.Join(lhs, ", "), nodeString(rhs))
		}
		_ = resets
		sc := u.pkg.Scope()
		names := sc.Names()
		sort.Strings(names)
		var zb bytes.Buffer
		for _, n := range names {
			if v, ok := sc.Lookup(n).(*types.Var); ok && !inited[v] {
				fmt.Fprintf(&zb, "\tmcrt_.Zero(&%s)\n", n)
			}
		}
		for i := 0; i < initN; i++ {
			fmt.Fprintf(&rb, "\tmcInit%d_()\n", i)
		}
		// the reset function may use package names of several files: put the
		// initialiser reset next to the initialiser, i.e. per file closures.
		r.emitResets(u.files, u.info, zb.String(), initN)
		for i, f := range u.files {
			src := r.print(f)
			if err := os.WriteFile(u.names[i], src, 0644); err != nil {
				die("%v", err)
			}
		}
	}
	// class names, for traces
	var cl bytes.Buffer
	names := make([]string, len(g.cls))
	for o, i := range g.cls {
		names[i] = g.name(o)
	}
	cl.WriteString("package mcrt\n\nfunc init() {\n\tClassNames = []string{\n")
	for _, n := range names {
		fmt.Fprintf(&cl, "\t\t%q,\n", n)
	}
	cl.WriteString("\t}\n}\n")
	md := all[mcrtPath].Dir
	if err := os.WriteFile(filepath.Join(md, "zz_classes.go"), cl.Bytes(), 0644); err != nil {
		die("%v", err)
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func nodeString(n ast.Node) string {
	var b bytes.Buffer
	if err := format.Node(&b, fset, n); err != nil {
		die("format: %v", err)
	}
	return b.String()
}

// ---------------------------------------------------------------- globals

type global struct {
	mutField map[*types.Var]bool // fields, package variables and captured locals that are assigned after creation
	cls      map[types.Object]int
	owner    map[types.Object]string
}

func (g *global) class(o types.Object) int {
	if i, ok := g.cls[o]; ok {
		return i
	}
	i := len(g.cls)
	g.cls[o] = i
	return i
}

func (g *global) name(o types.Object) string {
	p := ""
	if o.Pkg() != nil {
		p = o.Pkg().Name() + "."
	}
	if s, ok := g.owner[o]; ok {
		return p + s + "." + o.Name()
	}
	return p + o.Name()
}

func (g *global) scanMutations(info *types.Info, pkg *types.Package, f *ast.File) {
	if g.owner == nil {
		g.owner = map[types.Object]string{}
	}
	mark := func(e ast.Expr) {
		e = unparen(e)
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if s, ok := info.Selections[x]; ok && s.Kind() == types.FieldVal {
				v := s.Obj().(*types.Var)
				g.mutField[v] = true
				t := s.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if n, ok := t.(*types.Named); ok {
					g.owner[v] = n.Obj().Name()
				}
			} else if v, ok := info.Uses[x.Sel].(*types.Var); ok {
				g.mutField[v] = true // other package's variable
			}
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && v.Parent() != nil {
				g.mutField[v] = true // package var or local; locals filtered by capture analysis
			}
		case *ast.StarExpr:
			if t := info.TypeOf(x.X); t != nil {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					g.markStruct(p.Elem())
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				for _, l := range s.Lhs {
					mark(l)
				}
			} else {
				for _, l := range s.Lhs { // redeclared variables in :=
					if id, ok := l.(*ast.Ident); ok && info.Defs[id] == nil {
						mark(l)
					}
				}
			}
		case *ast.IncDecStmt:
			mark(s.X)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					mark(s.Key)
				}
				if s.Value != nil {
					mark(s.Value)
				}
			}
		}
		return true
	})
}

func (g *global) markStruct(t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		g.mutField[st.Field(i)] = true
		if n, ok := t.(*types.Named); ok {
			g.owner[st.Field(i)] = n.Obj().Name()
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
