package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
)

const rt = "simrt_"

func rtFn(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}
}
func rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: rtFn(name), Args: args}
}
func stepStmt() ast.Stmt { return &ast.ExprStmt{X: rtCall("Step")} }
func intLit(n int64) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(n, 10)}
}

type ectx int

const (
	ctxRead ectx = iota
	ctxWrite
	ctxAddr
)

type rewriter struct {
	u        *unit
	captured map[types.Object]bool
}

func (u *unit) instrument(f *ast.File) {
	r := &rewriter{u: u, captured: map[types.Object]bool{}}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.findCaptured(fd)
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
				if u.isDep {
					d.Body.List = append([]ast.Stmt{stepStmt()}, d.Body.List...)
				}
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i], ctxRead)
					}
				}
			}
		}
	}
	u.need[u.cur]["btrsim/simrt"] = rt
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
		&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{rtFn("Step")}}}})
}

// findCaptured marks local variables that a nested function literal uses.
func (r *rewriter) findCaptured(fd *ast.FuncDecl) {
	type scope struct{ pos, end token.Pos }
	var stack []scope
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, scope{n.Pos(), n.End()})
			ast.Inspect(n.Body, walk)
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if len(stack) == 0 {
				return true
			}
			if v, ok := r.u.info.Uses[n].(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Parent() != r.u.pkg.Scope() && v.Pkg() == r.u.pkg {
				if s := stack[len(stack)-1]; v.Pos() < s.pos || v.Pos() >= s.end {
					r.captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(fd.Body, walk)
}

// ------------------------------------------------------------ statements

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	empty := len(b.List) == 0
	r.block(b)
	if empty || r.u.isDep {
		b.List = append([]ast.Stmt{stepStmt()}, b.List...)
	}
}

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		ns := r.stmt(s)
		if !r.u.isDep {
			out = append(out, stepStmt())
		}
		out = append(out, ns)
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	info := r.u.info
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X, ctxRead)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: rtCall("Send", r.expr(s.Chan, ctxRead), r.expr(s.Value, ctxRead))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X, ctxWrite)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if ue, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && ue.Op == token.ARROW {
				s.Rhs[0] = rtCall("RecvOK", r.expr(ue.X, ctxRead))
				r.lhs(s)
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i], ctxRead)
		}
		r.lhs(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.call(s.Call)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i], ctxRead)
		}
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond, ctxRead)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag, ctxRead)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i], ctxRead)
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X, ctxRead)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X, ctxRead)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond, ctxRead)
		}
		s.Post = r.stmt(s.Post)
		r.loopBody(s.Body)
	case *ast.RangeStmt:
		t := info.TypeOf(s.X)
		var ut types.Type
		if t != nil {
			ut = t.Underlying()
		}
		switch ut := ut.(type) {
		case *types.Map:
			return r.rangeMap(s)
		case *types.Chan:
			return r.rangeChan(s)
		case *types.Array:
			_ = ut
			s.X = r.expr(s.X, ctxAddr)
		default:
			s.X = r.expr(s.X, ctxRead)
		}
		r.loopBody(s.Body)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if ue, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && ue.Op == token.ARROW {
						vs.Values[0] = rtCall("RecvOK", r.expr(ue.X, ctxRead))
						continue
					}
				}
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i], ctxRead)
				}
			}
		}
	}
	return s
}

func (r *rewriter) lhs(s *ast.AssignStmt) {
	if s.Tok == token.DEFINE {
		return
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.expr(s.Lhs[i], ctxWrite)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) tmp(pfx string) string {
	r.u.nextID++
	return fmt.Sprintf("%s_%d_", pfx, r.u.nextID)
}

// goStmt: go f(a, b) -> evaluate f, a, b now, run the call as a new task.
func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	info := r.u.info
	orig := append([]ast.Expr{}, call.Args...)
	consts := make([]bool, len(orig))
	for i, a := range orig {
		tv := info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	isBuiltinOrConv := info.Types[call.Fun].IsType() || info.Types[call.Fun].IsBuiltin()
	fl, isLit := unparen(call.Fun).(*ast.FuncLit)
	nc := r.call(call)
	if isBuiltinOrConv {
		return &ast.ExprStmt{X: rtCall("Go", funcLit(&ast.ExprStmt{X: nc}))}
	}
	if isLit && len(nc.Args) == 0 {
		return &ast.ExprStmt{X: rtCall("Go", fl)}
	}
	var lhs, rhs []ast.Expr
	fun := r.tmp("simF")
	lhs = append(lhs, ast.NewIdent(fun))
	rhs = append(rhs, nc.Fun)
	nargs := make([]ast.Expr, len(nc.Args))
	for i, a := range nc.Args {
		if consts[i] {
			nargs[i] = a
			continue
		}
		n := r.tmp("simA")
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, a)
		nargs[i] = ast.NewIdent(n)
	}
	c2 := &ast.CallExpr{Fun: ast.NewIdent(fun), Args: nargs, Ellipsis: nc.Ellipsis}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		&ast.ExprStmt{X: rtCall("Go", funcLit(&ast.ExprStmt{X: c2}))},
	}}
}

func funcLit(body ...ast.Stmt) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		name := r.tmp("simC")
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, rtCall("CaseSend", r.expr(cm.Chan, ctxRead), r.expr(cm.Value, ctxRead)))
		case *ast.ExprStmt:
			ue := unparen(cm.X).(*ast.UnaryExpr)
			rhs = append(rhs, rtCall("CaseRecv", r.expr(ue.X, ctxRead)))
		case *ast.AssignStmt:
			ue := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, rtCall("CaseRecv", r.expr(ue.X, ctxRead)))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Val")}}
			if len(cm.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("OK")})
			}
			r.lhs(cm)
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: vals})
		}
		lhs = append(lhs, ast.NewIdent(name))
		args = append(args, ast.NewIdent(name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(int64(idx))}, Body: append(pre, body...)})
		idx++
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = rtCall("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...)
	return sw
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	m := r.tmp("simM")
	mx := r.expr(s.X, ctxRead)
	r.loopBody(s.Body)
	var pre []ast.Stmt
	key := s.Key
	var loopKey ast.Expr
	tok := token.DEFINE
	if !isBlank(key) && s.Tok == token.DEFINE {
		loopKey = ast.NewIdent(key.(*ast.Ident).Name)
	} else {
		loopKey = ast.NewIdent(r.tmp("simK"))
		if !isBlank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(key, ctxWrite)}, Tok: token.ASSIGN, Rhs: []ast.Expr{loopKey}})
		}
	}
	ok := r.tmp("simOK")
	val := r.tmp("simV")
	idx := &ast.IndexExpr{X: &ast.SelectorExpr{X: ast.NewIdent(m), Sel: ast.NewIdent("M")}, Index: loopKey}
	skip := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
	switch {
	case isBlank(s.Value):
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{idx}}, skip}, pre...)
	case s.Tok == token.DEFINE:
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Value, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{idx}}, skip}, pre...)
	default:
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(val), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{idx}}, skip}, pre...)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Value, ctxWrite)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(val)}})
	}
	_ = tok
	s.Body.List = append(pre, s.Body.List...)
	// for simM := MapIter(m); simM.Next(); { k := simM.K; ... }
	pre2 := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{loopKey}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(m), Sel: ast.NewIdent("K")}}}}
	s.Body.List = append(pre2, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtCall("MapIter", mx)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(m), Sel: ast.NewIdent("Next")}},
		Body: s.Body,
	}
}

func (r *rewriter) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch := r.tmp("simCh")
	x := r.expr(s.X, ctxRead)
	r.loopBody(s.Body)
	v, ok := r.tmp("simV"), r.tmp("simOK")
	vid := ast.NewIdent(v)
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{vid, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtCall("RecvOK", ast.NewIdent(ch))}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}},
	}
	if !isBlank(s.Key) {
		k := s.Key
		if s.Tok != token.DEFINE {
			k = r.expr(k, ctxWrite)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
	}
	s.Body.List = append(pre, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		Body: s.Body}
}

// ------------------------------------------------------------ expressions

func (r *rewriter) call(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c, ctxRead)
	if ce, ok := e.(*ast.CallExpr); ok {
		return ce
	}
	return &ast.CallExpr{Fun: funcLit(&ast.ExprStmt{X: e})}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i], ctxRead)
	}
}

func wrapPtr(fn string, addr ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: rtCall(fn, addr)}}
}

func (r *rewriter) mark(ctx ectx, e ast.Expr) ast.Expr {
	switch ctx {
	case ctxRead:
		return wrapPtr("R", &ast.UnaryExpr{Op: token.AND, X: e})
	case ctxWrite:
		return wrapPtr("W", &ast.UnaryExpr{Op: token.AND, X: e})
	}
	return e
}

var sizes = types.SizesFor("gc", "amd64")

func (r *rewriter) expr(e ast.Expr, ctx ectx) ast.Expr {
	if e == nil {
		return nil
	}
	info := r.u.info
	if tv, ok := info.Types[e]; ok && tv.IsType() {
		return e
	}
	race := !r.u.isDep
	switch e := e.(type) {
	case *ast.Ident:
		v, ok := info.Uses[e].(*types.Var)
		if !ok || !race || v.IsField() {
			return e
		}
		if v.Parent() == r.u.pkg.Scope() || r.captured[v] {
			return r.mark(ctx, e)
		}
		return e
	case *ast.BasicLit:
		return e
	case *ast.FuncLit:
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		t := info.TypeOf(e)
		_, isStruct := derefStruct(t)
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					if info.Types[kv.Key].Value == nil {
						kv.Key = r.expr(kv.Key, ctxRead)
					}
				}
				kv.Value = r.expr(kv.Value, ctxRead)
			} else {
				e.Elts[i] = r.expr(el, ctxRead)
			}
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X, ctx)
		return e
	case *ast.SelectorExpr:
		return r.selector(e, ctx)
	case *ast.IndexExpr:
		xt := info.TypeOf(e.X)
		if tv := info.Types[e.X]; tv.IsType() || xt == nil {
			return e
		}
		switch ut := xt.Underlying().(type) {
		case *types.Signature:
			return e // generic instantiation
		case *types.Map:
			x := r.expr(e.X, ctxRead)
			i := r.expr(e.Index, ctxRead)
			if race {
				if ctx == ctxWrite {
					x = rtCall("MapW", x)
				} else {
					x = rtCall("MapR", x)
				}
			}
			return &ast.IndexExpr{X: x, Index: i}
		case *types.Slice:
			_ = ut
			e.X = r.expr(e.X, ctxRead)
			e.Index = r.expr(e.Index, ctxRead)
			if race {
				return r.mark(ctx, e)
			}
			return e
		case *types.Array:
			if ctx == ctxRead {
				ctx = ctxRead
			}
			e.X = r.expr(e.X, passThrough(ctx))
			e.Index = r.expr(e.Index, ctxRead)
			return e
		default:
			e.X = r.expr(e.X, ctxRead)
			e.Index = r.expr(e.Index, ctxRead)
			return e
		}
	case *ast.IndexListExpr:
		return e
	case *ast.SliceExpr:
		if _, ok := info.TypeOf(e.X).Underlying().(*types.Array); ok {
			e.X = r.expr(e.X, ctxAddr)
		} else {
			e.X = r.expr(e.X, ctxRead)
		}
		e.Low, e.High, e.Max = r.expr(e.Low, ctxRead), r.expr(e.High, ctxRead), r.expr(e.Max, ctxRead)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X, ctxRead)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X, ctxRead)
		if race && ctx != ctxAddr {
			fn := "R"
			if ctx == ctxWrite {
				fn = "W"
			}
			return wrapPtr(fn, e.X)
		}
		return e
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			e.X = r.expr(e.X, ctxAddr)
			return e
		case token.ARROW:
			return rtCall("Recv", r.expr(e.X, ctxRead))
		}
		e.X = r.expr(e.X, ctxRead)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X, ctxRead)
		e.Y = r.expr(e.Y, ctxRead)
		return e
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value, ctxRead)
		return e
	case *ast.CallExpr:
		return r.callExpr(e)
	}
	return e
}

// passThrough: the operand of an array index or struct field selection is
// accessed at the address of the element, not as a whole.
func passThrough(ctx ectx) ectx { return ctxAddr }

func derefStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) selector(e *ast.SelectorExpr, ctx ectx) ast.Expr {
	info := r.u.info
	sel := info.Selections[e]
	if sel == nil {
		// qualified identifier
		if v, ok := info.Uses[e.Sel].(*types.Var); ok && !r.u.isDep && v.Pkg() != nil && r.isRepo(v.Pkg().Path()) {
			return r.mark(ctx, e)
		}
		return e
	}
	switch sel.Kind() {
	case types.FieldVal:
		xt := info.TypeOf(e.X)
		if isPtr(xt) {
			e.X = r.expr(e.X, ctxRead)
			if !r.u.isDep {
				return r.mark(ctx, e)
			}
			return e
		}
		shared := r.sharedBase(e.X)
		e.X = r.expr(e.X, ctxAddr)
		if shared && !r.u.isDep {
			return r.mark(ctx, e)
		}
		return e
	case types.MethodVal:
		xt := info.TypeOf(e.X)
		if !isPtr(xt) && !types.IsInterface(xt) {
			if fn, ok := sel.Obj().(*types.Func); ok {
				if rv := fn.Type().(*types.Signature).Recv(); rv != nil && isPtr(rv.Type()) {
					e.X = r.expr(e.X, ctxAddr)
					return e
				}
			}
		}
		e.X = r.expr(e.X, ctxRead)
		return e
	}
	return e
}

// sharedBase reports whether e is an addressable struct value that lives in
// shared memory: a field reached through a pointer, a package variable, a
// captured variable or a slice element.
func (r *rewriter) sharedBase(e ast.Expr) bool {
	info := r.u.info
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := info.Uses[e].(*types.Var)
		return ok && !v.IsField() && (v.Parent() == r.u.pkg.Scope() || r.captured[v])
	case *ast.SelectorExpr:
		sel := info.Selections[e]
		if sel == nil {
			v, ok := info.Uses[e.Sel].(*types.Var)
			return ok && v.Pkg() != nil && r.isRepo(v.Pkg().Path())
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return isPtr(info.TypeOf(e.X)) || r.sharedBase(e.X)
	case *ast.IndexExpr:
		t := info.TypeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.sharedBase(e.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rewriter) isRepo(path string) bool {
	return path == modPath || len(path) > len(modPath) && path[:len(modPath)+1] == modPath+"/"
}

func (r *rewriter) callExpr(c *ast.CallExpr) ast.Expr {
	info := r.u.info
	tv := info.Types[c.Fun]
	if tv.IsType() {
		r.exprs(c.Args)
		return c
	}
	if tv.IsBuiltin() {
		name := ""
		switch f := unparen(c.Fun).(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			return c // unsafe.X
		}
		switch name {
		case "close":
			return rtCall("CloseChan", r.expr(c.Args[0], ctxRead))
		case "delete":
			r.exprs(c.Args)
			if !r.u.isDep {
				c.Args[0] = rtCall("MapW", c.Args[0])
			}
			return c
		case "clear", "len":
			t := info.TypeOf(c.Args[0])
			if t != nil {
				switch t.Underlying().(type) {
				case *types.Map:
					c.Args[0] = r.expr(c.Args[0], ctxRead)
					if !r.u.isDep {
						fn := "MapR"
						if name == "clear" {
							fn = "MapW"
						}
						c.Args[0] = rtCall(fn, c.Args[0])
					}
					return c
				case *types.Chan:
					if name == "len" {
						return rtCall("ChanLen", r.expr(c.Args[0], ctxRead))
					}
				case *types.Array:
					return c
				}
			}
			if info.Types[ast.Expr(c)].Value != nil {
				return c
			}
			r.exprs(c.Args)
			return c
		case "make":
			t := info.TypeOf(c.Args[0])
			if sl, ok := t.Underlying().(*types.Slice); ok && len(c.Args) > 1 {
				sz := int64(8)
				func() {
					defer func() { recover() }()
					sz = sizes.Sizeof(sl.Elem())
				}()
				for i := 1; i < len(c.Args); i++ {
					if info.Types[c.Args[i]].Value != nil {
						continue
					}
					c.Args[i] = rtCall("MakeLen", r.expr(c.Args[i], ctxRead), intLit(sz))
				}
				return c
			}
			for i := 1; i < len(c.Args); i++ {
				c.Args[i] = r.expr(c.Args[i], ctxRead)
			}
			return c
		case "new":
			return c
		case "recover":
			return rtCall("Recovered", c)
		case "cap":
			if info.Types[ast.Expr(c)].Value != nil {
				return c
			}
		}
		r.exprs(c.Args)
		return c
	}
	c.Fun = r.expr(c.Fun, ctxRead)
	r.exprs(c.Args)
	return c
}

// ------------------------------------------------------------ cloning

func cloneNode(n ast.Node, info *types.Info) ast.Node {
	v := cloneValue(reflect.ValueOf(n), info)
	return v.Interface().(ast.Node)
}

var (
	objType   = reflect.TypeOf((*ast.Object)(nil))
	scopeType = reflect.TypeOf((*ast.Scope)(nil))
)

func cloneValue(v reflect.Value, info *types.Info) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == objType || v.Type() == scopeType {
			return reflect.Zero(v.Type())
		}
		nv := reflect.New(v.Type().Elem())
		nv.Elem().Set(cloneValue(v.Elem(), info))
		if e, ok := v.Interface().(ast.Expr); ok {
			ne := nv.Interface().(ast.Expr)
			if tv, ok := info.Types[e]; ok {
				info.Types[ne] = tv
			}
		}
		switch o := v.Interface().(type) {
		case *ast.Ident:
			n := nv.Interface().(*ast.Ident)
			if x, ok := info.Uses[o]; ok {
				info.Uses[n] = x
			}
			if x, ok := info.Defs[o]; ok {
				info.Defs[n] = x
			}
			if x, ok := info.Instances[o]; ok {
				info.Instances[n] = x
			}
		case *ast.SelectorExpr:
			if x, ok := info.Selections[o]; ok {
				info.Selections[nv.Interface().(*ast.SelectorExpr)] = x
			}
		}
		if o, ok := v.Interface().(ast.Node); ok {
			if x, ok := info.Implicits[o]; ok {
				info.Implicits[nv.Interface().(ast.Node)] = x
			}
		}
		return nv
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		nv := reflect.New(v.Type()).Elem()
		nv.Set(cloneValue(v.Elem(), info))
		return nv
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		nv := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			nv.Index(i).Set(cloneValue(v.Index(i), info))
		}
		return nv
	case reflect.Struct:
		nv := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if nv.Field(i).CanSet() {
				nv.Field(i).Set(cloneValue(v.Field(i), info))
			}
		}
		return nv
	}
	return v
}
