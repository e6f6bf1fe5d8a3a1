package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
)

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	simos   map[string]bool
	total   map[string]int
	used    map[string]bool
	modPath string
	guest   bool
	n       int
}

func (r *rewriter) bad(n ast.Node, f string, a ...interface{}) {
	fatal("%s: unsupported: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used["simrt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsimrt"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) os(name string) ast.Expr {
	r.used["simos"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsimos"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) vp(name string) ast.Expr {
	r.used["simviper"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsimviper"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vsim%s%d", p, r.n))
}
func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
func nilE() ast.Expr           { return ast.NewIdent("nil") }

func (r *rewriter) fileDecls(f *ast.File) {
	for _, im := range f.Imports {
		if im.Name != nil && im.Name.Name == "." {
			r.bad(im, "dot import")
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				r.children(reflect.ValueOf(d.Recv))
			}
			r.children(reflect.ValueOf(d.Type))
			if d.Body != nil {
				r.block(d.Body)
			} else {
				r.bad(d, "function without body")
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d)
		}
	}
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u := recvOf(s.Values[0]); u != nil {
					s.Values[0] = call(r.rt("Recv2"), r.expr(u.X))
					r.total["recv"]++
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				r.children(reflect.ValueOf(s.TypeParams))
			}
			s.Type = r.expr(s.Type)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// children rewrites every expression and statement below a node pointer.
func (r *rewriter) children(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).Name == "Obj" || !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Type() == stmtT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if e := f.Index(j); !e.IsNil() {
					e.Set(reflect.ValueOf(r.expr(e.Interface().(ast.Expr))))
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == stmtT:
			l := f.Interface().([]ast.Stmt)
			f.Set(reflect.ValueOf(r.stmts(l)))
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr:
			for j := 0; j < f.Len(); j++ {
				r.child(f.Index(j))
			}
		case f.Kind() == reflect.Ptr && f.Type().Implements(nodeT):
			r.child(f)
		}
	}
}

func (r *rewriter) child(f reflect.Value) {
	if f.IsNil() {
		return
	}
	switch x := f.Interface().(type) {
	case *ast.Ident, *ast.CommentGroup, *ast.BasicLit:
	case *ast.BlockStmt:
		r.block(x)
	case *ast.CallExpr: // go/defer
		e := r.expr(x)
		c, ok := e.(*ast.CallExpr)
		if !ok {
			r.bad(x, "call rewritten to something else")
		}
		f.Set(reflect.ValueOf(c))
	default:
		r.children(f)
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) y() ast.Stmt { return &ast.ExprStmt{X: call(r.rt("Y"))} }

// stmts rewrites a statement list, with a yield point before each one.
func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch c := s.(type) {
		case *ast.CaseClause:
			for i := range c.List {
				c.List[i] = r.expr(c.List[i])
			}
			c.Body = r.stmts(c.Body)
			out = append(out, c)
			continue
		case *ast.CommClause:
			r.bad(c, "stray comm clause")
		case *ast.EmptyStmt:
			continue
		}
		out = append(out, r.y(), r.stmt(s))
	}
	return out
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = call(r.rt("Recv2"), r.expr(u.X))
				r.total["recv"]++
				return s
			}
		}
		r.children(reflect.ValueOf(s))
		if r.guest && s.Tok == token.DEFINE && len(s.Rhs) == 1 {
			// the length of a batch program's loops
			if l, ok := s.Rhs[0].(*ast.BasicLit); ok && l.Kind == token.INT {
				if n, err := strconv.Atoi(l.Value); err == nil && n >= 1000 {
					s.Rhs[0] = call(r.rt("Scaled"), l)
				}
			}
		}
		return s
	case *ast.SendStmt:
		r.total["send"]++
		return &ast.ExprStmt{X: call(call(r.rt("SendTo"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.GoStmt:
		r.total["go"]++
		return r.goStmt(s)
	case *ast.ForStmt:
		r.children(reflect.ValueOf(s))
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.y()}
		}
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
		return s
	default:
		r.children(reflect.ValueOf(s))
		return s
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			r.bad(s, "go with builtin")
		}
	}
	if tv := r.info.Types[c.Fun]; tv.IsType() {
		r.bad(s, "go with conversion")
	}
	ell := c.Ellipsis.IsValid()
	args := []ast.Expr{r.expr(c.Fun)}
	for _, a := range c.Args {
		args = append(args, r.expr(a))
	}
	fn := "Go"
	if ell {
		fn = "GoSlice"
	}
	return &ast.ExprStmt{X: call(r.rt(fn), args...)}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := typeUnder(r.info.TypeOf(s.X))
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		r.bad(s, "range over a type parameter")
	}
	x := r.expr(s.X)
	switch t.(type) {
	case *types.Map:
		r.total["maprange"]++
		it := r.tmp("It")
		kp, vp := nilE(), nilE()
		lhs := []ast.Expr{}
		fn := "MapRange"
		if s.Tok == token.DEFINE {
			if !isBlank(s.Key) {
				fn += "K"
				lhs = append(lhs, s.Key)
				kp = addr(ast.NewIdent(s.Key.(*ast.Ident).Name))
			}
			if !isBlank(s.Value) {
				fn += "V"
				lhs = append(lhs, s.Value)
				vp = addr(ast.NewIdent(s.Value.(*ast.Ident).Name))
			}
		} else {
			if !isBlank(s.Key) {
				kp = addr(r.expr(s.Key))
			}
			if !isBlank(s.Value) {
				vp = addr(r.expr(s.Value))
			}
		}
		lhs = append(lhs, it)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.y()}
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt(fn), x)}},
			Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, kp, vp), Body: s.Body}
	case *types.Chan:
		r.total["chanrange"]++
		it := r.tmp("It")
		kp := nilE()
		lhs := []ast.Expr{}
		fn := "Range"
		if s.Tok == token.DEFINE && !isBlank(s.Key) {
			fn = "RangeV"
			lhs = append(lhs, s.Key)
			kp = addr(ast.NewIdent(s.Key.(*ast.Ident).Name))
		} else if !isBlank(s.Key) {
			kp = addr(r.expr(s.Key))
		}
		lhs = append(lhs, it)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.y()}
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt(fn), x)}},
			Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, kp), Body: s.Body}
	case *types.Signature:
		r.bad(s, "range over func")
	}
	s.X = x
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	r.block(s.Body)
	if len(s.Body.List) == 0 {
		s.Body.List = []ast.Stmt{r.y()}
	}
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.total["select"]++
	var ids, vals []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		cc := &ast.CaseClause{}
		if c.Comm == nil {
			hasDef = true
			cc.Body = r.stmts(c.Body)
			sw.Body.List = append(sw.Body.List, cc)
			continue
		}
		id := r.tmp("C")
		var pre ast.Stmt
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, call(call(r.rt("CaseSendTo"), r.expr(m.Chan)), r.expr(m.Value)))
		case *ast.ExprStmt:
			u := recvOf(m.X)
			if u == nil {
				r.bad(m, "select case")
			}
			vals = append(vals, call(r.rt("CaseRecv"), r.expr(u.X)))
		case *ast.AssignStmt:
			u := recvOf(m.Rhs[0])
			if u == nil {
				r.bad(m, "select case")
			}
			vals = append(vals, call(r.rt("CaseRecv"), r.expr(u.X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("Val")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("OK")})
			}
			var lhs []ast.Expr
			for _, e := range m.Lhs {
				lhs = append(lhs, r.expr(e))
			}
			pre = &ast.AssignStmt{Lhs: lhs, Tok: m.Tok, Rhs: rhs}
		default:
			r.bad(c, "select case")
		}
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(ids))}}
		ids = append(ids, id)
		if pre != nil {
			cc.Body = append(cc.Body, pre)
		}
		cc.Body = append(cc.Body, r.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"select"`})}}})
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	args := []ast.Expr{ast.NewIdent(def)}
	for _, i := range ids {
		args = append(args, ast.NewIdent(i.(*ast.Ident).Name))
	}
	if len(ids) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = call(r.rt("Select"), args...)
	return sw
}

func namedIn(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

const viperPath = "github.com/spf13/viper"

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.children(reflect.ValueOf(e.Type))
		r.block(e.Body)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.total["recv"]++
			return call(r.rt("Recv"), r.expr(e.X))
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.pkgSel(e, pn.Imported().Path())
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.KeyValueExpr:
		// a field name key is not an expression to rewrite
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
		return e
	case *ast.CallExpr:
		return r.callExpr(e)
	}
	r.children(reflect.ValueOf(e))
	return e
}

func (r *rewriter) constInt(e ast.Expr) (int64, bool) {
	tv, ok := r.info.Types[e]
	if !ok || tv.Value == nil {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(tv.Value))
}

func (r *rewriter) callExpr(e *ast.CallExpr) ast.Expr {
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				r.total["close"]++
				return call(r.rt("Close"), r.expr(e.Args[0]))
			case "len":
				if _, ok := typeUnder(r.info.TypeOf(e.Args[0])).(*types.Chan); ok {
					return call(r.rt("Len"), r.expr(e.Args[0]))
				}
			case "make":
				switch typeUnder(r.info.TypeOf(e.Args[0])).(type) {
				case *types.Map:
					if len(e.Args) == 2 {
						if n, ok := r.constInt(e.Args[1]); ok && n > 256 {
							e.Args[0] = r.expr(e.Args[0])
							e.Args[1] = call(r.rt("Hint"), &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)})
							return e
						}
					}
				case *types.Slice:
					if len(e.Args) == 3 {
						l, ok1 := r.constInt(e.Args[1])
						n, ok2 := r.constInt(e.Args[2])
						if ok1 && ok2 && l == 0 && n > 256 {
							e.Args[0] = r.expr(e.Args[0])
							e.Args[2] = call(r.rt("Hint"), &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)})
							return e
						}
					}
				}
			}
		}
	}
	if sel, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
		if s := r.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
			if namedIn(s.Recv(), "reflect", "Value") {
				switch sel.Sel.Name {
				case "MapKeys":
					r.total["reflectmap"]++
					return call(r.rt("ReflectMapKeys"), r.expr(sel.X))
				case "MapRange":
					r.total["reflectmap"]++
					return call(r.rt("ReflectMapRange"), r.expr(sel.X))
				}
			}
			if namedIn(s.Recv(), viperPath, "Viper") && (sel.Sel.Name == "AddConfigPath" || sel.Sel.Name == "SetConfigFile") {
				sel.X = r.expr(sel.X)
				e.Args[0] = call(r.vp("Abs"), r.expr(e.Args[0]))
				return e
			}
		}
	}
	r.children(reflect.ValueOf(e))
	return e
}

var osPass = map[string]bool{"IsNotExist": true, "IsExist": true, "IsPermission": true, "IsTimeout": true, "NewSyscallError": true, "Expand": true, "Getpagesize": true, "IsPathSeparator": true, "Getuid": true, "Getgid": true, "Geteuid": true}
var timeMap = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "NewTimer": true, "After": true, "AfterFunc": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}
var syncMap = map[string]bool{"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true, "Locker": true}
var fpMap = map[string]bool{"Abs": true, "Glob": true, "Walk": true, "WalkDir": true, "EvalSymlinks": true}
var realWorld = map[string]bool{"net": true, "net/http": true, "os/exec": true, "os/signal": true, "syscall": true, "crypto/rand": true, "math/rand/v2": true, "os/user": true, "plugin": true, "unsafe": true, "io/fs": true}

func (r *rewriter) pkgSel(e *ast.SelectorExpr, path string) ast.Expr {
	n := e.Sel.Name
	obj := r.info.Uses[e.Sel]
	_, isFunc := obj.(*types.Func)
	sub := func(x ast.Expr) ast.Expr {
		r.total[path]++
		return x
	}
	switch path {
	case "os":
		if r.simos[n] && !osPass[n] {
			return sub(r.os(n))
		}
		if isFunc && !osPass[n] {
			r.bad(e, "os.%s", n)
		}
	case "io/ioutil":
		if r.simos["Ioutil"+n] {
			return sub(r.os("Ioutil" + n))
		}
		if n == "ReadDir" {
			return sub(r.os("IoutilReadDir"))
		}
	case "path/filepath":
		if fpMap[n] {
			return sub(r.os(n))
		}
	case "log":
		if r.simos["Log"+n] {
			return sub(r.os("Log" + n))
		}
	case "fmt":
		switch n {
		case "Print", "Printf", "Println":
			return sub(r.os(n))
		case "Scan", "Scanf", "Scanln":
			r.bad(e, "fmt.%s", n)
		}
	case "crypto/rand":
		if r.simos["Crypto"+n] || n == "Reader" {
			return sub(r.os("Crypto" + n))
		}
	case "math/rand":
		if r.simos["Rand"+n] {
			return sub(r.os("Rand" + n))
		}
	case "runtime/pprof":
		if r.simos[n] {
			return sub(r.os(n))
		}
		note("real runtime/pprof.%s", n)
	case "time":
		if timeMap[n] {
			return sub(r.rt(n))
		}
	case "sync":
		if syncMap[n] {
			return sub(r.rt(n))
		}
		note("real sync.%s", n)
	case "runtime":
		if n == "Gosched" {
			return sub(r.rt("Y"))
		}
		if n == "NumCPU" || n == "GOMAXPROCS" {
			return sub(r.rt(n))
		}
	case "reflect":
		if n == "MapIter" {
			return sub(r.rt("RMapIter"))
		}
	case viperPath:
		switch n {
		case "AddConfigPath", "SetConfigFile", "New", "Reset":
			return sub(r.vp(n))
		}
	default:
		if realWorld[path] {
			note("real %s.%s", path, n)
		}
	}
	return e
}

// fixImports removes imports no longer used and adds those of the runtime.
func (r *rewriter) fixImports(f *ast.File, modPath string) {
	live := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
						live[pn.Name()] = true
					}
				}
			}
			return true
		})
	}
	var specs []ast.Spec
	var rest []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			rest = append(rest, d)
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			var pn *types.PkgName
			if im.Name != nil {
				if im.Name.Name == "_" {
					specs = append(specs, im)
					continue
				}
				pn, _ = r.info.Defs[im.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[im].(*types.PkgName)
			}
			if pn != nil && live[pn.Name()] {
				specs = append(specs, im)
			}
		}
	}
	for _, k := range []string{"simrt", "simos", "simviper"} {
		if r.used[k] {
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("v" + k), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/verifsim/" + k)}})
		}
	}
	var out []ast.Decl
	for _, s := range specs { // one declaration each: positions do not matter
		im := s.(*ast.ImportSpec)
		n := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}}
		if im.Name != nil {
			n.Name = ast.NewIdent(im.Name.Name)
		}
		out = append(out, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{n}})
	}
	f.Decls = append(out, rest...)
	f.Imports = nil
}
