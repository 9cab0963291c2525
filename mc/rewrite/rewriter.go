package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// package-qualified names replaced by the controlled runtime
var table = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Cond": "Cond",
		"NewCond": "NewCond", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues", "Locker": "Locker"},
	"sync/atomic": {
		"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64", "AddUintptr": "AddUintptr",
		"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64", "LoadUintptr": "LoadUintptr", "LoadPointer": "LoadPointer",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64", "StoreUintptr": "StoreUintptr", "StorePointer": "StorePointer",
		"SwapInt32": "SwapInt32", "SwapInt64": "SwapInt64", "SwapUint32": "SwapUint32", "SwapUint64": "SwapUint64", "SwapPointer": "SwapPointer",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64", "CompareAndSwapUint32": "CompareAndSwapUint32",
		"CompareAndSwapUint64": "CompareAndSwapUint64", "CompareAndSwapPointer": "CompareAndSwapPointer",
		"Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64", "Bool": "Bool", "Value": "Value", "Pointer": "Pointer", "Uintptr": "Uintptr",
		"AndInt32": "AndInt32", "AndInt64": "AndInt64", "AndUint32": "AndUint32", "AndUint64": "AndUint64",
		"OrInt32": "OrInt32", "OrInt64": "OrInt64", "OrUint32": "OrUint32", "OrUint64": "OrUint64",
		"SwapUintptr": "SwapUintptr", "CompareAndSwapUintptr": "CompareAndSwapUintptr",
	},
	"time": {"NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "After": "After", "Sleep": "Sleep", "Now": "Now", "Since": "Since", "Until": "Until",
		"Tick": "Tick", "NewTicker": "NewTicker", "Timer": "Timer", "Ticker": "Ticker"},
	"context": {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithCancelCause": "WithCancelCause",
		"WithTimeoutCause": "WithTimeoutCause", "WithDeadlineCause": "WithDeadlineCause",
		"AfterFunc": "CtxAfterFunc", "WithoutCancel": "WithoutCancel", "Cause": "Cause"},
	"runtime": {"Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
	"net":     {"Listen": "NetListen", "Dial": "NetDial", "DialTimeout": "NetDialTimeout"},
	"math/rand": {"Int": "RandInt", "Intn": "RandIntn", "Int31n": "RandInt31n", "Int63n": "RandInt63n", "Int63": "RandInt63", "Int31": "RandInt31",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Perm": "RandPerm", "Seed": "RandSeed", "Shuffle": "RandShuffle"},
}

type rewriter struct {
	nomem    bool // harness code: memory accesses are not instrumented
	g        *global
	info     *types.Info
	pkg      *types.Package
	captured map[*types.Var]bool
	raw      map[ast.Node]bool
	tmpN     int
	usesMC   map[*ast.File]bool
	extra    map[*ast.File][]string // extra declarations appended to the file text
	cur      *ast.File
	specOf   map[*types.Var]*ast.ValueSpec
	fileOf   map[*types.Var]*ast.File
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.tmpN++
	return ast.NewIdent(fmt.Sprintf("mc%s%d_", p, r.tmpN))
}

func mc(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("mcrt_"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func addrOf(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (r *rewriter) replacedExpr(e ast.Expr) ast.Expr { return e }

func (r *rewriter) file(f *ast.File) {
	if r.raw == nil {
		r.raw = map[ast.Node]bool{}
		r.usesMC = map[*ast.File]bool{}
		r.extra = map[*ast.File][]string{}
		r.specOf = map[*types.Var]*ast.ValueSpec{}
		r.fileOf = map[*types.Var]*ast.File{}
	}
	r.cur = f
	r.findCaptured(f)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, sp := range d.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && d.Tok == token.VAR {
					for _, n := range vs.Names {
						if v, ok := r.info.Defs[n].(*types.Var); ok {
							r.specOf[v] = vs
							r.fileOf[v] = f
						}
					}
				}
			}
			r.genDecl(d)
		case *ast.FuncDecl:
			if d.Recv != nil {
				r.fieldList(d.Recv)
			}
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		}
	}
}

// findCaptured finds local variables used in a function literal nested in
// the function that declares them.
func (r *rewriter) findCaptured(f *ast.File) {
	if r.captured == nil {
		r.captured = map[*types.Var]bool{}
	}
	declFn := map[*types.Var]ast.Node{}
	var stack []ast.Node
	var walk func(n ast.Node)
	cur := func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncDecl:
				if m != n {
					stack = append(stack, m)
					walk(m)
					stack = stack[:len(stack)-1]
					return false
				}
			case *ast.FuncLit:
				if m != n {
					stack = append(stack, m)
					walk(m)
					stack = stack[:len(stack)-1]
					return false
				}
			case *ast.RangeStmt:
				if x.Tok == token.DEFINE && !loop122 {
					for _, e := range []ast.Expr{x.Key, x.Value} {
						if id, ok := e.(*ast.Ident); ok {
							if v, ok := r.info.Defs[id].(*types.Var); ok {
								r.g.mutField[v] = true
							}
						}
					}
				}
			case *ast.Ident:
				if v, ok := r.info.Defs[x].(*types.Var); ok && !v.IsField() {
					declFn[v] = cur()
				} else if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() {
					if d, ok := declFn[v]; ok && d != cur() {
						r.captured[v] = true
					}
				}
			}
			return true
		})
	}
	walk(f)
}

// instrVar reports whether plain accesses to v are instrumented.
func (r *rewriter) instrVar(v *types.Var) bool {
	if r.nomem {
		return false
	}
	if !r.g.mutField[v] {
		return false
	}
	if v.IsField() {
		return true
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return true
	}
	return r.captured[v]
}

// target returns the variable denoted by an lvalue expression if it is
// instrumented, else nil.
func (r *rewriter) target(e ast.Expr) *types.Var {
	e = unparen(e)
	if r.raw[e] {
		return nil
	}
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return nil
		}
		v, _ := r.info.Uses[x].(*types.Var)
		if v == nil {
			v, _ = r.info.Defs[x].(*types.Var)
		}
		if v != nil && r.instrVar(v) {
			return v
		}
	case *ast.SelectorExpr:
		if s, ok := r.info.Selections[x]; ok {
			if s.Kind() == types.FieldVal {
				v := s.Obj().(*types.Var)
				if r.instrVar(v) {
					if tv, ok := r.info.Types[x]; ok && tv.Addressable() {
						return v
					}
				}
			}
			return nil
		}
		if v, ok := r.info.Uses[x.Sel].(*types.Var); ok && r.instrVar(v) {
			return v
		}
	}
	return nil
}

func (r *rewriter) pkgName(e ast.Expr) *types.PkgName {
	if id, ok := e.(*ast.Ident); ok {
		if p, ok := r.info.Uses[id].(*types.PkgName); ok {
			return p
		}
	}
	return nil
}

func (r *rewriter) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

// exprList rewrites in place.
func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil || r.raw[e] {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if v := r.target(x); v != nil && r.info.Uses[x] != nil {
			r.use()
			return call(mc("RV"), intLit(r.g.class(v)), addrOf(x))
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = r.expr(x.Elt)
		}
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		t := r.info.TypeOf(x)
		isStruct := false
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		if p := r.pkgName(x.X); p != nil {
			if m, ok := table[p.Imported().Path()]; ok {
				if n, ok := m[x.Sel.Name]; ok {
					r.use()
					return mc(n)
				}
			}
			if v := r.target(x); v != nil {
				r.use()
				return call(mc("RV"), intLit(r.g.class(v)), addrOf(x))
			}
			return x
		}
		s, ok := r.info.Selections[x]
		if !ok {
			return x
		}
		if s.Kind() == types.FieldVal {
			v := r.target(x)
			a := r.addr(x)
			if v != nil {
				r.use()
				return call(mc("RV"), intLit(r.g.class(v)), addrOf(a))
			}
			return a
		}
		if s.Kind() == types.MethodExpr {
			x.X = r.expr(x.X)
			return x
		}
		// method value / call
		ptrRecv := false
		if f, ok := s.Obj().(*types.Func); ok {
			if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
				_, ptrRecv = sig.Recv().Type().Underlying().(*types.Pointer)
			}
		}
		_, xIsPtr := r.info.TypeOf(x.X).Underlying().(*types.Pointer)
		// methods promoted through embedded fields access the embedded field by address
		if (ptrRecv || len(s.Index()) > 1) && !xIsPtr {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	case *ast.IndexExpr:
		if r.isType(x) || r.isType(x.Index) { // instantiation
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		t := r.info.TypeOf(x.X)
		switch t.Underlying().(type) {
		case *types.Map:
			x.X = r.mapRead(x.X)
		case *types.Array:
			if tv := r.info.Types[x.X]; tv.Addressable() {
				x.X = r.addr(x.X)
			} else {
				x.X = r.expr(x.X)
			}
		default:
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		if _, ok := r.info.TypeOf(x.X).Underlying().(*types.Array); ok {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = r.addr(x.X)
			return x
		case token.ARROW:
			r.use()
			return call(mc("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	}
	die("%v: unhandled expression %T", fset.Position(e.Pos()), e)
	return e
}

func (r *rewriter) mapFn(n string) string {
	if r.nomem {
		return n + "N"
	}
	return n
}

func (r *rewriter) use() { r.usesMC[r.cur] = true }

func (r *rewriter) mapRead(m ast.Expr) ast.Expr {
	r.use()
	return call(mc(r.mapFn("MR")), r.expr(m))
}

func (r *rewriter) mapWrite(m ast.Expr) ast.Expr {
	r.use()
	return call(mc(r.mapFn("MW")), r.expr(m))
}

// addr rewrites e as a location: the location itself is not read.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	if r.raw[e] {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.pkgName(x.X) != nil {
			return x
		}
		s, ok := r.info.Selections[x]
		if !ok || s.Kind() != types.FieldVal {
			return r.expr(x)
		}
		t := r.info.TypeOf(x.X)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			x.X = r.expr(x.X)
		} else if tv := r.info.Types[x.X]; tv.Addressable() {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	case *ast.IndexExpr:
		t := r.info.TypeOf(x.X)
		switch t.Underlying().(type) {
		case *types.Map:
			x.X = r.mapWrite(x.X)
		case *types.Array:
			x.X = r.addr(x.X)
		default:
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

func (r *rewriter) builtin(f ast.Expr) string {
	if id, ok := unparen(f).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := t.Underlying().(*types.Map); return ok }

func (r *rewriter) callExpr(x *ast.CallExpr) ast.Expr {
	switch r.builtin(x.Fun) {
	case "close":
		r.use()
		return call(mc("Close"), r.expr(x.Args[0]))
	case "len":
		t := r.info.TypeOf(x.Args[0])
		if isChan(t) {
			r.use()
			return call(mc("Len"), r.expr(x.Args[0]))
		}
		if isMap(t) {
			x.Args[0] = r.mapRead(x.Args[0])
			return x
		}
		if tv, ok := r.info.Types[x]; ok && tv.Value != nil {
			return x
		}
		x.Args[0] = r.expr(x.Args[0])
		return x
	case "delete":
		x.Args[0] = r.mapWrite(x.Args[0])
		x.Args[1] = r.expr(x.Args[1])
		return x
	case "clear":
		if isMap(r.info.TypeOf(x.Args[0])) {
			x.Args[0] = r.mapWrite(x.Args[0])
		} else {
			x.Args[0] = r.expr(x.Args[0])
		}
		return x
	case "":
	default:
		r.exprs(x.Args)
		return x
	}
	if r.isType(x.Fun) { // conversion
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		return x
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch s := sp.(type) {
		case *ast.ValueSpec:
			if d.Tok == token.CONST {
				continue
			}
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if len(s.Values) == 1 && len(s.Names) == 2 {
				s.Values[0] = r.commaOK(s.Values[0])
			} else {
				r.exprs(s.Values)
			}
		case *ast.TypeSpec:
			r.fieldList(s.TypeParams)
			s.Type = r.expr(s.Type)
		}
	}
}

// ---------------------------------------------------------------- statements

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func blk(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

// stmt returns the replacement statements. Statements that need temporaries
// are returned as one block, so that gotos never jump over declarations.
func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(x)
	case *ast.LabeledStmt:
		return r.labeled(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.RangeStmt:
		return r.rangeStmt(x, nil)
	case *ast.DeferStmt:
		e := r.expr(x.Call)
		c, ok := e.(*ast.CallExpr)
		if !ok {
			die("%v: defer", fset.Position(x.Pos()))
		}
		x.Call = c
	case *ast.IfStmt:
		pre := r.initStmt(&x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			l := r.stmt(x.Else)
			if len(l) == 1 {
				switch l[0].(type) {
				case *ast.IfStmt, *ast.BlockStmt:
					x.Else = l[0]
				default:
					x.Else = blk(l...)
				}
			} else {
				x.Else = blk(l...)
			}
		}
		if len(pre) > 0 {
			return []ast.Stmt{blk(append(pre, x)...)}
		}
	case *ast.ForStmt:
		pre := r.initStmt(&x.Init)
		x.Cond = r.expr(x.Cond)
		if x.Post != nil {
			x.Post = r.simple(x.Post)
		}
		r.block(x.Body)
		if len(pre) > 0 {
			return []ast.Stmt{blk(append(pre, x)...)}
		}
	case *ast.SwitchStmt:
		pre := r.initStmt(&x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		if len(pre) > 0 {
			return []ast.Stmt{blk(append(pre, x)...)}
		}
	case *ast.TypeSwitchStmt:
		pre := r.initStmt(&x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		case *ast.AssignStmt:
			a.Rhs[0] = r.expr(a.Rhs[0])
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		if len(pre) > 0 {
			return []ast.Stmt{blk(append(pre, x)...)}
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.SendStmt, *ast.IncDecStmt, *ast.AssignStmt, *ast.ExprStmt:
		l := r.simpleList(s)
		if len(l) == 1 {
			return l
		}
		// several statements: only blocks are safe for gotos, but a define
		// must stay in the enclosing scope
		for _, y := range l {
			if a, ok := y.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				return l
			}
		}
		return []ast.Stmt{blk(l...)}
	default:
		die("%v: unhandled statement %T", fset.Position(s.Pos()), s)
	}
	return []ast.Stmt{s}
}

// initStmt rewrites the init statement of if/for/switch; statements that do
// not fit are returned to be put before.
func (r *rewriter) initStmt(p *ast.Stmt) []ast.Stmt {
	if *p == nil {
		return nil
	}
	l := r.simpleList(*p)
	*p = l[len(l)-1]
	if len(l) > 1 {
		return l[:len(l)-1]
	}
	if _, ok := l[0].(*ast.BlockStmt); ok {
		*p = nil
		return l
	}
	return nil
}

// simple rewrites to exactly one simple statement.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	l := r.simpleList(s)
	if len(l) == 1 {
		if _, ok := l[0].(*ast.BlockStmt); !ok {
			return l[0]
		}
	}
	return exprStmt(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blk(l...)}))
}

// pure: evaluating e twice is harmless.
func pure(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

func (r *rewriter) simpleList(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return []ast.Stmt{x}
	case *ast.SendStmt:
		r.use()
		return []ast.Stmt{exprStmt(call(call(mc("SendTo"), r.expr(x.Chan)), r.expr(x.Value)))}
	case *ast.IncDecStmt:
		d := 1
		if x.Tok == token.DEC {
			d = -1
		}
		if v := r.target(x.X); v != nil {
			r.use()
			return []ast.Stmt{exprStmt(call(mc("Inc"), intLit(r.g.class(v)), addrOf(r.addr(x.X)), intLit(d)))}
		}
		if ix, ok := unparen(x.X).(*ast.IndexExpr); ok && isMap(r.info.TypeOf(ix.X)) {
			op := token.ADD
			if d < 0 {
				op = token.SUB
			}
			return r.mapOp(ix, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		x.X = r.addr(x.X)
		return []ast.Stmt{x}
	case *ast.AssignStmt:
		return r.assign(x)
	case nil:
		return nil
	}
	return r.stmt(s)
}

func (r *rewriter) mapOp(ix *ast.IndexExpr, op token.Token, val ast.Expr) []ast.Stmt {
	r.use()
	m, k := r.tmp("m"), r.tmp("k")
	// m, k := X, K ; MapSetter(m)(k, MR(m)[k] op val)
	return []ast.Stmt{blk(
		&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(ix.X)}},
		&ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{call(call(mc("MapKey"), m), r.expr(ix.Index))}},
		exprStmt(call(call(mc(r.mapFn("MapSetter")), m), k,
			&ast.BinaryExpr{X: &ast.IndexExpr{X: call(mc(r.mapFn("MR")), m), Index: k}, Op: op, Y: &ast.ParenExpr{X: val}})),
	)}
}

// commaOK rewrites the right-hand side of a two-value form.
func (r *rewriter) commaOK(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.use()
		return call(mc("Recv2"), r.expr(u.X))
	}
	return r.expr(e)
}

func (r *rewriter) assign(x *ast.AssignStmt) []ast.Stmt {
	switch x.Tok {
	case token.DEFINE:
		var pre []ast.Stmt
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); ok && r.info.Defs[id] == nil {
				if v := r.target(l); v != nil {
					r.use()
					pre = append(pre, exprStmt(call(mc("WN"), intLit(r.g.class(v)), addrOf(ast.NewIdent(id.Name)))))
				}
			}
		}
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			x.Rhs[0] = r.commaOK(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		return append(pre, x)
	case token.ASSIGN:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			l := x.Lhs[0]
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				x.Rhs[0] = r.expr(x.Rhs[0])
				return []ast.Stmt{x}
			}
			if v := r.target(l); v != nil {
				r.use()
				return []ast.Stmt{exprStmt(call(call(mc("SetP"), intLit(r.g.class(v)), addrOf(r.addr(l))), r.expr(x.Rhs[0])))}
			}
			if ix, ok := unparen(l).(*ast.IndexExpr); ok && isMap(r.info.TypeOf(ix.X)) {
				r.use()
				return []ast.Stmt{exprStmt(call(call(mc(r.mapFn("MapSetter")), r.expr(ix.X)), r.expr(ix.Index), r.expr(x.Rhs[0])))}
			}
			if st, ok := unparen(l).(*ast.StarExpr); ok {
				if pre, nl := r.starWrite(st); pre != nil {
					x.Lhs[0] = nl
					x.Rhs[0] = r.expr(x.Rhs[0])
					return []ast.Stmt{blk(append(pre, x)...)}
				}
			}
			x.Lhs[0] = r.addr(l)
			x.Rhs[0] = r.expr(x.Rhs[0])
			return []ast.Stmt{x}
		}
		var pre []ast.Stmt
		for i, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			v := r.target(l)
			wasPure := pure(l)
			x.Lhs[i] = r.addr(l)
			if v != nil && wasPure {
				r.use()
				pre = append(pre, exprStmt(call(mc("WN"), intLit(r.g.class(v)), addrOf(x.Lhs[i]))))
			}
		}
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			x.Rhs[0] = r.commaOK(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		return append(pre, x)
	default: // op=
		op := opOf(x.Tok)
		l := x.Lhs[0]
		if v := r.target(l); v != nil {
			r.use()
			c := intLit(r.g.class(v))
			if pure(l) {
				a := r.addr(l)
				rhs := &ast.BinaryExpr{X: call(mc("RV"), c, addrOf(a)), Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}}
				return []ast.Stmt{exprStmt(call(call(mc("SetP"), c, addrOf(a)), rhs))}
			}
			p := r.tmp("p")
			return []ast.Stmt{blk(
				&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{addrOf(r.addr(l))}},
				exprStmt(call(call(mc("SetP"), c, p), &ast.BinaryExpr{X: call(mc("RV"), c, p), Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}})),
			)}
		}
		if ix, ok := unparen(l).(*ast.IndexExpr); ok && isMap(r.info.TypeOf(ix.X)) {
			return r.mapOp(ix, op, r.expr(x.Rhs[0]))
		}
		x.Lhs[0] = r.addr(l)
		x.Rhs[0] = r.expr(x.Rhs[0])
		return []ast.Stmt{x}
	}
}

// starWrite: *p = v writes every instrumented field of the struct.
func (r *rewriter) starWrite(st *ast.StarExpr) ([]ast.Stmt, ast.Expr) {
	t := r.info.TypeOf(st.X)
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	var pre []ast.Stmt
	p := r.tmp("p")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "_" || (!f.Exported() && f.Pkg() != r.pkg) || !r.g.mutField[f] {
			continue
		}
		pre = append(pre, exprStmt(call(mc("WN"), intLit(r.g.class(f)), addrOf(&ast.SelectorExpr{X: p, Sel: ast.NewIdent(f.Name())}))))
	}
	if len(pre) == 0 {
		return nil, nil
	}
	r.use()
	pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(st.X)}}}, pre...)
	return pre, &ast.StarExpr{X: p}
}

func opOf(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	die("op %v", t)
	return t
}

func (r *rewriter) labeled(x *ast.LabeledStmt) []ast.Stmt {
	switch in := x.Stmt.(type) {
	case *ast.SelectStmt:
		return r.selectStmt(in, x.Label)
	case *ast.RangeStmt:
		return r.rangeStmt(in, x.Label)
	}
	l := r.stmt(x.Stmt)
	if len(l) == 0 {
		x.Stmt = &ast.EmptyStmt{}
		return []ast.Stmt{x}
	}
	if b, ok := l[0].(*ast.BlockStmt); ok && len(l) == 1 && len(b.List) > 0 {
		if _, was := x.Stmt.(*ast.BlockStmt); !was { // {pre...; stmt}: the label belongs to stmt
			last := len(b.List) - 1
			switch b.List[last].(type) {
			case *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
				return l
			}
		}
	}
	x.Stmt = l[0]
	l[0] = x
	return l
}

func (r *rewriter) lab(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (r *rewriter) isConstOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	if tv.Value != nil || tv.IsNil() || tv.IsType() {
		return true
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return true
	}
	return false
}

func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	r.use()
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return []ast.Stmt{exprStmt(call(mc("Go"), r.expr(c.Fun)))}
	}
	var pre []ast.Stmt
	inner := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if b := r.builtin(c.Fun); b != "" {
		body := r.stmt(exprStmt(c))
		return []ast.Stmt{exprStmt(call(mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blk(body...)}))}
	}
	// direct package-level function: keep (it may be generic)
	direct := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, direct = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if r.pkgName(f.X) != nil {
			_, direct = r.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	if direct {
		inner.Fun = r.expr(c.Fun)
	} else {
		f := r.tmp("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
		inner.Fun = f
	}
	for _, a := range c.Args {
		if r.isConstOrNil(a) {
			inner.Args = append(inner.Args, r.expr(a))
			continue
		}
		t := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		inner.Args = append(inner.Args, t)
	}
	g := exprStmt(call(mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blk(exprStmt(inner))}))
	if len(pre) == 0 {
		return []ast.Stmt{g}
	}
	return []ast.Stmt{blk(append(pre, g)...)}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	r.use()
	if len(x.Body.List) == 0 {
		return []ast.Stmt{r.lab(label, blk(exprStmt(call(mc("BlockForever"))), exprStmt(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))))}
	}
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	args := []ast.Expr{nil}
	n := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		s := r.tmp("s")
		var bodyPre []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(call(mc("SelSend"), r.expr(c.Chan)), r.expr(c.Value))}})
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s}, Tok: token.DEFINE, Rhs: []ast.Expr{call(mc("SelRecv"), r.expr(u.X))}})
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s}, Tok: token.DEFINE, Rhs: []ast.Expr{call(mc("SelRecv"), r.expr(u.X))}})
			vals := []ast.Expr{&ast.SelectorExpr{X: s, Sel: ast.NewIdent("V")}, &ast.SelectorExpr{X: s, Sel: ast.NewIdent("OK")}}
			for _, v := range vals {
				r.raw[v] = true
			}
			a := &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: vals[:len(c.Lhs)]}
			allBlank := true
			for _, l := range c.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				a.Tok = token.ASSIGN
			}
			bodyPre = r.assign(a)
		}
		args = append(args, s)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(bodyPre, r.stmts(cc.Body)...)})
		n++
	}
	args[0] = ast.NewIdent(fmt.Sprint(hasDef))
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{exprStmt(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}})
	}
	sw.Tag = call(mc("Select"), args...)
	return []ast.Stmt{blk(append(pre, r.lab(label, sw))...)}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	t := r.info.TypeOf(x.X)
	switch t.Underlying().(type) {
	case *types.Chan:
		r.use()
		ch, ok := r.tmp("c"), r.tmp("ok")
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}}
		var recv []ast.Stmt
		var lhs ast.Expr = ast.NewIdent("_")
		if !isBlank(x.Key) {
			if x.Tok == token.DEFINE && !loop122 {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{call(mc("ChanZero"), ch)}})
			}
			lhs = x.Key
		}
		v := r.tmp("v")
		recv = append(recv, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(mc("Recv2"), ch)}})
		recv = append(recv, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: blk(&ast.BranchStmt{Tok: token.BREAK})})
		tok := token.ASSIGN
		if x.Tok == token.DEFINE && loop122 && !isBlank(x.Key) {
			tok = token.DEFINE
		}
		r.raw[v] = true
		if tv := r.target(lhs); tv != nil && tok == token.ASSIGN {
			recv = append(recv, exprStmt(call(mc("WN"), intLit(r.g.class(tv)), addrOf(r.addr(lhs)))))
		}
		recv = append(recv, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: tok, Rhs: []ast.Expr{v}})
		r.block(x.Body)
		f := &ast.ForStmt{Body: blk(append(recv, x.Body.List...)...)}
		return []ast.Stmt{blk(append(pre, r.lab(label, f))...)}
	case *types.Map:
		r.use()
		m := r.tmp("m")
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}}
		k, v, ok := r.tmp("k"), r.tmp("v"), r.tmp("ok")
		def := x.Tok == token.DEFINE
		if def && !loop122 && (!isBlank(x.Key) || !isBlank(x.Value)) {
			kl, vl := x.Key, x.Value
			if kl == nil {
				kl = ast.NewIdent("_")
			}
			if vl == nil {
				vl = ast.NewIdent("_")
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{kl, vl}, Tok: token.DEFINE, Rhs: []ast.Expr{call(mc("MapZero"), m)}})
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(mc(r.mapFn("MR")), m), Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: blk(&ast.BranchStmt{Tok: token.CONTINUE})},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		for i, l := range []ast.Expr{x.Key, x.Value} {
			if isBlank(l) {
				continue
			}
			src := ast.Expr(k)
			if i == 1 {
				src = v
			}
			tok := token.ASSIGN
			if def && loop122 {
				tok = token.DEFINE
			} else if tv := r.target(l); tv != nil {
				body = append(body, exprStmt(call(mc("WN"), intLit(r.g.class(tv)), addrOf(l))))
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: tok, Rhs: []ast.Expr{src}})
		}
		r.block(x.Body)
		f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(mc(r.mapFn("MapKeys")), m), Body: blk(append(body, x.Body.List...)...)}
		return []ast.Stmt{blk(append(pre, r.lab(label, f))...)}
	}
	// slices, arrays, strings, ints, functions: the statement stays
	if _, ok := t.Underlying().(*types.Array); ok {
		x.X = r.addr(x.X)
	} else {
		x.X = r.expr(x.X)
	}
	r.block(x.Body)
	if x.Tok == token.DEFINE && !loop122 {
		var pre []ast.Stmt
		for _, l := range []ast.Expr{x.Key, x.Value} {
			if !isBlank(l) {
				if tv := r.target(l); tv != nil {
					r.use()
					pre = append(pre, exprStmt(call(mc("WN"), intLit(r.g.class(tv)), addrOf(l))))
				}
			}
		}
		x.Body.List = append(pre, x.Body.List...)
	}
	return []ast.Stmt{r.lab(label, x)}
}

// ---------------------------------------------------------------- output

// emitResets adds, next to each package variable, a function that runs its
// initialiser again, and one init function registering them in order.
func (r *rewriter) emitResets(files []*ast.File, info *types.Info, zero string, initN int) {
	if len(files) == 0 {
		return
	}
	var all bytes.Buffer
	n := 0
	for _, in := range info.InitOrder {
		blank := true
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		vs := r.specOf[in.Lhs[0]]
		f := r.fileOf[in.Lhs[0]]
		if vs == nil {
			die("no spec for %v", in.Lhs[0])
		}
		var rhs ast.Expr
		if len(in.Lhs) > 1 {
			rhs = vs.Values[0]
		} else {
			for i, nm := range vs.Names {
				if info.Defs[nm] == in.Lhs[0] {
					rhs = vs.Values[i]
				}
			}
		}
		fn := fmt.Sprintf("mcReset%d_", n)
		n++
		r.extra[f] = append(r.extra[f], fmt.Sprintf("func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), nodeString(rhs)))
		fmt.Fprintf(&all, "\t%s()\n", fn)
	}
	for i := 0; i < initN; i++ {
		fmt.Fprintf(&all, "\tmcInit%d_()\n", i)
	}
	f := files[0]
	r.usesMC[f] = true
	var once bytes.Buffer
	for i := 0; i < initN; i++ {
		fmt.Fprintf(&once, "\tmcInit%d_()\n", i)
	}
	r.extra[f] = append(r.extra[f], "func init() {\n\tmcrt_.RegisterReset(func() {\n"+zero+all.String()+"\t})\n"+once.String()+"}\n")
}

func (r *rewriter) print(f *ast.File) []byte {
	// rebuild the import list
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if p, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[p.Name()] = true
				}
			}
		}
		return true
	})
	var imps []string
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			var name string
			if is.Name != nil {
				name = is.Name.Name
			} else if p, ok := r.info.Implicits[is].(*types.PkgName); ok {
				name = p.Name()
			}
			if name == "_" || name == "." {
				imps = append(imps, name+" "+is.Path.Value)
			} else if used[name] {
				imps = append(imps, name+" "+is.Path.Value)
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n", f.Name.Name)
	for _, i := range imps {
		fmt.Fprintf(&b, "\t%s\n", i)
	}
	if r.usesMC[f] {
		fmt.Fprintf(&b, "\tmcrt_ %q\n", mcrtPath)
	}
	b.WriteString(")\n\n")
	for _, d := range decls {
		b.WriteString(nodeString(d))
		b.WriteString("\n\n")
	}
	for _, e := range r.extra[f] {
		b.WriteString(e)
		b.WriteString("\n")
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		fmt.Println(b.String())
		die("gofmt: %v", err)
	}
	return out
}
