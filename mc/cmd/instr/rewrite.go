package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	site int
	tmp  int
	race bool
	used bool
}

var swapped = map[string]string{
	"sync":        "verifmc/vsched/vsync",
	"sync/atomic": "verifmc/vsched/vatomic",
	"context":     "verifmc/vsched/vcontext",
	"time":        "verifmc/vsched/vtime",
}

const vs = "vsched__"

func ident(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rewriter) fn(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ident(vs), Sel: ident(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) temp() string {
	r.tmp++
	return fmt.Sprintf("v__%d", r.tmp)
}

func (r *rewriter) file(f *ast.File) {
	r.used = false
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				r.body(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
					if d.Tok == token.VAR {
						// package initialisers: only function literals inside matter
						for _, v := range s.Values {
							r.literals(v)
						}
					}
				case *ast.TypeSpec:
					s.Doc, s.Comment = nil, nil
					stripFieldComments(s.Type)
				}
			}
		}
	}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		s.Doc, s.Comment = nil, nil
		if q, ok := swapped[p]; ok {
			if s.Name == nil {
				s.Name = ident(p[strings.LastIndex(p, "/")+1:])
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(q)}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ident(vs), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verifmc/vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func stripFieldComments(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		return true
	})
}

// literals rewrites the bodies of function literals in an expression evaluated at package
// initialisation.
func (r *rewriter) literals(e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			r.body(l.Body)
			return false
		}
		return true
	})
}

func (r *rewriter) body(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	r.body(b)
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.fn("Loop"))}}, b.List...)
}

func (r *rewriter) pt() ast.Stmt {
	r.site++
	return &ast.ExprStmt{X: call(r.fn("Pt"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(r.site)})}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.BranchStmt:
		default:
			out = append(out, r.pt())
		}
		out = append(out, r.stmt(s, "")...)
	}
	return out
}

func single(ss []ast.Stmt) ast.Stmt {
	switch len(ss) {
	case 0:
		return nil
	case 1:
		return ss[0]
	}
	return &ast.BlockStmt{List: ss}
}

// simple rewrites a statement in a position that takes no statement list (init, post).
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	save := r.race
	ss := r.stmt(s, "")
	r.race = save
	if len(ss) == 0 {
		return nil
	}
	return ss[0] // write records after it are dropped
}

// stmt rewrites one statement; label is the label in front of it, if any.
func (r *rewriter) stmt(s ast.Stmt, label string) []ast.Stmt {
	lab := func(s ast.Stmt) ast.Stmt {
		if label == "" {
			return s
		}
		return &ast.LabeledStmt{Label: ident(label), Stmt: s}
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		if c, ok := unparen(s.X).(*ast.CallExpr); ok {
			if pre, ok := r.builtinStmt(c); ok {
				return append(pre[:len(pre)-1:len(pre)-1], lab(pre[len(pre)-1]))
			}
		}
		s.X = r.expr(s.X)
		return []ast.Stmt{lab(s)}
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return []ast.Stmt{lab(&ast.ExprStmt{X: call(call(r.fn("Send"), ch), v)})}
	case *ast.IncDecStmt:
		w := r.writes([]ast.Expr{s.X}, nil)
		s.X = r.lhs(s.X)
		return append([]ast.Stmt{lab(s)}, w...)
	case *ast.AssignStmt:
		var w []ast.Stmt
		if s.Tok != token.DEFINE {
			w = r.writes(s.Lhs, s.Lhs)
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = call(r.fn("Recv2"), r.expr(u.X))
				if s.Tok != token.DEFINE {
					for i := range s.Lhs {
						s.Lhs[i] = r.lhs(s.Lhs[i])
					}
				}
				return append([]ast.Stmt{lab(s)}, w...)
			}
			// v, ok := m[k] and v, ok := x.(T) keep their shape: rewrite below the top
			if ix, ok := unparen(s.Rhs[0]).(*ast.IndexExpr); ok && r.isMap(ix.X) {
				ix.X = r.mapRead(ix.X)
				ix.Index = r.expr(ix.Index)
				for i := range s.Lhs {
					if s.Tok != token.DEFINE {
						s.Lhs[i] = r.lhs(s.Lhs[i])
					}
				}
				return append([]ast.Stmt{lab(s)}, w...)
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = r.lhs(s.Lhs[i])
			}
		}
		return append([]ast.Stmt{lab(s)}, w...)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				v.Doc, v.Comment = nil, nil
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						v.Values[0] = call(r.fn("Recv2"), r.expr(u.X))
						continue
					}
					if ix, ok := unparen(v.Values[0]).(*ast.IndexExpr); ok && r.isMap(ix.X) {
						ix.X = r.mapRead(ix.X)
						ix.Index = r.expr(ix.Index)
						continue
					}
				}
				for i := range v.Values {
					v.Values[i] = r.expr(v.Values[i])
				}
			}
		} else if ok {
			g.Doc = nil
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					sp.Doc, sp.Comment = nil, nil
				case *ast.TypeSpec:
					sp.Doc, sp.Comment = nil, nil
					stripFieldComments(sp.Type)
				}
			}
		}
		return []ast.Stmt{lab(s)}
	case *ast.GoStmt:
		return []ast.Stmt{lab(r.goStmt(s))}
	case *ast.DeferStmt:
		s.Call = r.deferred(s.Call)
		return []ast.Stmt{lab(s)}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
		return []ast.Stmt{lab(s)}
	case *ast.BranchStmt, *ast.EmptyStmt:
		return []ast.Stmt{lab(s)}
	case *ast.BlockStmt:
		r.body(s)
		return []ast.Stmt{lab(s)}
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.body(s.Body)
		if s.Else != nil {
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				r.body(e)
			default:
				ss := r.stmt(e, "")
				if len(ss) == 1 {
					s.Else = ss[0]
					if _, ok := ss[0].(*ast.IfStmt); ok {
						break
					}
				}
				s.Else = &ast.BlockStmt{List: ss}
			}
		}
		return []ast.Stmt{lab(s)}
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.loopBody(s.Body)
		return []ast.Stmt{lab(s)}
	case *ast.RangeStmt:
		return []ast.Stmt{lab(r.rangeStmt(s))}
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
		return []ast.Stmt{lab(s)}
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			if t, ok := unparen(a.X).(*ast.TypeAssertExpr); ok {
				t.X = r.expr(t.X)
			}
		case *ast.AssignStmt:
			if t, ok := unparen(a.Rhs[0]).(*ast.TypeAssertExpr); ok {
				t.X = r.expr(t.X)
			}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
		return []ast.Stmt{lab(s)}
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label.Name)
	}
	return []ast.Stmt{lab(s)}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Chan)
	return ok
}
func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if _, tp := t.(*types.TypeParam); tp {
		return false
	}
	_, ok := under(t).(*types.Map)
	return ok
}
func (r *rewriter) isSlice(e ast.Expr) bool {
	t := r.typeOf(e)
	if _, tp := t.(*types.TypeParam); tp {
		return false
	}
	_, ok := under(t).(*types.Slice)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) builtin(f ast.Expr) string {
	id, ok := unparen(f).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// pkgFunc names a function of an imported package: "runtime.Gosched".
func (r *rewriter) pkgFunc(f ast.Expr) string {
	s, ok := unparen(f).(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if p, ok := r.info.Uses[id].(*types.PkgName); ok {
		return p.Imported().Path() + "." + s.Sel.Name
	}
	return ""
}

func (r *rewriter) mapRead(e ast.Expr) ast.Expr {
	x := r.expr(e)
	if !r.race {
		return x
	}
	return call(r.fn("RM"), x)
}

// builtinStmt rewrites delete, clear, copy and close used as statements.
func (r *rewriter) builtinStmt(c *ast.CallExpr) ([]ast.Stmt, bool) {
	switch r.builtin(c.Fun) {
	case "delete", "clear":
		for i := range c.Args {
			isMap := r.isMap(c.Args[i])
			c.Args[i] = r.expr(c.Args[i])
			if i == 0 && isMap && r.race {
				c.Args[i] = call(r.fn("WM"), c.Args[i])
			}
		}
		return []ast.Stmt{&ast.ExprStmt{X: c}}, true
	}
	return nil, false
}

// literalFunc tells whether the call target needs no evaluation at the go statement.
func (r *rewriter) staticFunc(f ast.Expr) bool {
	switch f := unparen(f).(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			return true
		}
	case *ast.SelectorExpr:
		if r.pkgFunc(f) != "" {
			return true
		}
	case *ast.IndexExpr:
		return r.staticFunc(f.X)
	case *ast.IndexListExpr:
		return r.staticFunc(f.X)
	case *ast.FuncLit:
		return len(f.Type.Params.List) == 0
	}
	return false
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return e
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return r.expr(e)
		}
		t := r.temp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ident(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ident(t)
	}
	if lit, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		r.body(lit.Body)
		return &ast.ExprStmt{X: call(r.fn("Go"), lit)}
	}
	b := r.builtin(c.Fun)
	if b == "" && !r.staticFunc(c.Fun) {
		c.Fun = hoist(c.Fun)
	} else if b == "" {
		c.Fun = r.callee(c.Fun)
	}
	if b == "" || b == "close" || b == "panic" {
		for i := range c.Args {
			c.Args[i] = hoist(c.Args[i])
		}
		if b == "close" {
			c.Fun = r.fn("Close")
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	g := &ast.ExprStmt{X: call(r.fn("Go"), lit)}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

// deferred rewrites the call of a defer statement, which must stay a call.
func (r *rewriter) deferred(c *ast.CallExpr) *ast.CallExpr {
	switch r.builtin(c.Fun) {
	case "close":
		return call(r.fn("Close"), r.expr(c.Args[0]))
	case "":
	default:
		for i := range c.Args {
			c.Args[i] = r.expr(c.Args[i])
		}
		return c
	}
	e := r.expr(c)
	if x, ok := e.(*ast.CallExpr); ok {
		return x
	}
	return c
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	if r.isChan(s.X) {
		ch, v, ok := r.temp(), r.temp(), r.temp()
		x := r.expr(s.X)
		r.loopBody(s.Body)
		recv := &ast.AssignStmt{Lhs: []ast.Expr{ident(v), ident(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.fn("Recv2"), ident(ch))}}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		list := []ast.Stmt{recv, brk}
		if s.Key != nil {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ident(v)}})
			if s.Tok == token.DEFINE {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.Key}})
				if id, k := s.Key.(*ast.Ident); k && id.Name == "_" {
					list = list[:2]
					list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
				}
			}
		} else {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ident(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			Body: &ast.BlockStmt{List: append(list, s.Body.List...)},
		}
	}
	isMap, isSlice := r.isMap(s.X), r.isSlice(s.X)
	s.X = r.expr(s.X)
	if r.race && isMap {
		s.X = call(r.fn("RM"), s.X)
	}
	if r.race && isSlice && s.Value != nil {
		s.X = call(r.fn("RS"), s.X)
	}
	r.loopBody(s.Body)
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) []ast.Stmt {
	var pre []ast.Stmt
	var args []ast.Expr
	hasDef := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := []ast.Stmt{}
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.list(cc.Body)})
			continue
		}
		t := r.temp()
		def := func(e ast.Expr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ident(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		}
		method := func(m string) ast.Expr { return call(&ast.SelectorExpr{X: ident(t), Sel: ident(m)}) }
		switch k := cc.Comm.(type) {
		case *ast.SendStmt:
			def(call(call(r.fn("SendCase"), r.expr(k.Chan)), r.expr(k.Value)))
		case *ast.ExprStmt:
			def(call(r.fn("RecvCase"), r.expr(unparen(k.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			def(call(r.fn("RecvCase"), r.expr(unparen(k.Rhs[0]).(*ast.UnaryExpr).X)))
			m := "Val"
			if len(k.Lhs) == 2 {
				m = "Val2"
			}
			var w []ast.Stmt
			if k.Tok != token.DEFINE {
				w = r.writes(k.Lhs, k.Lhs)
				for i := range k.Lhs {
					k.Lhs[i] = r.lhs(k.Lhs[i])
				}
			}
			body = append(body, &ast.AssignStmt{Lhs: k.Lhs, Tok: k.Tok, Rhs: []ast.Expr{method(m)}})
			body = append(body, w...)
		}
		args = append(args, ident(t))
		body = append(body, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body})
		n++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	d := "false"
	if hasDef {
		d = "true"
	}
	sw.Tag = call(r.fn("Select"), append([]ast.Expr{ident(d)}, args...)...)
	var st ast.Stmt = sw
	if label != "" {
		st = &ast.LabeledStmt{Label: ident(label), Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

// ---- memory accesses ----

// syncType tells whether values of the type are synchronisation objects, whose fields are not data.
func syncType(t types.Type) bool {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			return false
		case *types.Alias:
			t = types.Unalias(x)
			continue
		case *types.Named:
			if p := x.Obj().Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
				return true
			}
			if st, ok := x.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if syncType(st.Field(i).Type()) {
						return true
					}
				}
			}
			return false
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if syncType(x.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Array:
			t = x.Elem()
			continue
		default:
			return false
		}
	}
}

func (r *rewriter) pkgVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil {
		return false
	}
	return v.Parent() == v.Pkg().Scope() && strings.HasPrefix(v.Pkg().Path(), mod)
}

// shared tells whether the addressable expression denotes memory that other goroutines may reach:
// a field through a pointer, a package variable, an element of a slice, or a part of one of these.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return r.pkgVar(e)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.pkgVar(e.Sel)
			}
		}
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := under(r.typeOf(e.X)).(*types.Pointer); ok {
			return pureAddr(e.X)
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		t := under(r.typeOf(e.X))
		if _, tp := r.typeOf(e.X).(*types.TypeParam); tp {
			return false
		}
		switch t := t.(type) {
		case *types.Slice:
			return pureAddr(e.X) && pureAddr(e.Index)
		case *types.Array:
			return r.shared(e.X) && pureAddr(e.Index)
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Array); ok {
				return pureAddr(e.X) && pureAddr(e.Index)
			}
		}
	case *ast.StarExpr:
		return pureAddr(e.X)
	}
	return false
}

// pureAddr tells whether the expression can be evaluated twice: no calls, no receives.
func pureAddr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// clone copies an expression made of identifiers, selectors, indexes, literals and operators. The
// copies lose their type information, so clone before rewriting and rewrite nothing in them.
func clone(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return ident(e.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(e.X), Sel: ident(e.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(e.X), Index: clone(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(e.X)}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: e.Op, X: clone(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(e.X), Op: e.Op, Y: clone(e.Y)}
	case *ast.SliceExpr:
		c := &ast.SliceExpr{X: clone(e.X), Slice3: e.Slice3}
		if e.Low != nil {
			c.Low = clone(e.Low)
		}
		if e.High != nil {
			c.High = clone(e.High)
		}
		if e.Max != nil {
			c.Max = clone(e.Max)
		}
		return c
	}
	return nil
}

func (r *rewriter) addressableType(e ast.Expr) bool {
	t := r.typeOf(e)
	return t != nil && !syncType(t)
}

// writes makes the records of writes to put after an assignment to lhs.
func (r *rewriter) writes(lhs, assigned []ast.Expr) []ast.Stmt {
	if !r.race {
		return nil
	}
	names := map[string]bool{}
	for _, a := range assigned {
		if id, ok := unparen(a).(*ast.Ident); ok {
			names[id.Name] = true
		}
	}
	var out []ast.Stmt
	for _, l := range lhs {
		l = unparen(l)
		if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
			if pureAddr(ix.X) && !mentions(ix.X, names) {
				if c := clone(ix.X); c != nil {
					out = append(out, &ast.ExprStmt{X: call(r.fn("WM"), c)})
				}
			}
			continue
		}
		if !r.shared(l) || !r.addressableType(l) || !pureAddr(l) {
			continue
		}
		if _, isID := l.(*ast.Ident); !isID && mentions(l, names) {
			continue
		}
		if c := clone(l); c != nil {
			out = append(out, &ast.ExprStmt{X: call(r.fn("W"), &ast.UnaryExpr{Op: token.AND, X: c})})
		}
	}
	return out
}

func mentions(e ast.Expr, names map[string]bool) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			found = true
		}
		return !found
	})
	return found
}

// lhs rewrites an assignment target: its operands are read, it is not.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
	case *ast.SelectorExpr:
		return r.place(x)
	case *ast.IndexExpr:
		return r.place(x)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	}
	return e
}

// place rewrites an addressable expression whose own value is not read (assigned, or its address
// taken): pointers, slices and indexes on the way are.
func (r *rewriter) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.place(x.X)
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return x
			}
		}
		if _, ok := under(r.typeOf(x.X)).(*types.Pointer); ok {
			x.X = r.expr(x.X)
		} else {
			x.X = r.place(x.X)
		}
		return x
	case *ast.IndexExpr:
		t := under(r.typeOf(x.X))
		if _, ok := t.(*types.Array); ok {
			x.X = r.place(x.X)
		} else if tv, ok := r.info.Types[x.X]; ok && tv.IsValue() {
			x.X = r.expr(x.X)
		} else {
			return x
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.Ident:
		return x
	}
	return r.expr(e)
}

// callee rewrites the function part of a call.
func (r *rewriter) callee(f ast.Expr) ast.Expr {
	switch x := f.(type) {
	case *ast.ParenExpr:
		x.X = r.callee(x.X)
		return x
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.MethodVal {
			x.X = r.receiver(x.X, sel)
			return x
		}
	case *ast.Ident:
		if _, ok := r.info.Uses[x].(*types.Func); ok {
			return x
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if r.staticFunc(f) {
			return f
		}
	}
	if tv, ok := r.info.Types[f]; ok && tv.IsType() {
		return f
	}
	return r.expr(f)
}

// receiver rewrites the receiver of a method call or method value: a pointer method on an
// addressable value takes its address, which is not a read.
func (r *rewriter) receiver(e ast.Expr, sel *types.Selection) ast.Expr {
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		return e // method expression
	}
	sig, ok := sel.Obj().Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return r.expr(e)
	}
	if r.race && mutable(r.typeOf(e)) && len(sel.Index()) == 1 {
		rec := "WP"
		switch sel.Obj().Name() {
		case "Len", "Cap", "Bytes", "String", "Available", "Size", "Buffered":
			rec = "RP"
		}
		if _, isPtr := under(r.typeOf(e)).(*types.Pointer); isPtr {
			return call(r.fn(rec), r.expr(e))
		}
		if r.addressable(e) {
			return call(r.fn(rec), &ast.UnaryExpr{Op: token.AND, X: r.place(e)})
		}
	}
	_, ptrRecv := sig.Recv().Type().(*types.Pointer)
	_, isPtr := under(r.typeOf(e)).(*types.Pointer)
	if _, iface := under(r.typeOf(e)).(*types.Interface); iface {
		return r.expr(e)
	}
	if isPtr {
		return r.expr(e)
	}
	if ptrRecv || len(sel.Index()) > 1 {
		return r.place(e)
	}
	return r.expr(e)
}

func (r *rewriter) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

// read wraps an addressable shared expression, already rewritten as a place, in a read record.
func (r *rewriter) read(orig ast.Expr, placed ast.Expr, record bool) ast.Expr {
	if !record {
		return placed
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.fn("RP"), &ast.UnaryExpr{Op: token.AND, X: placed})}}
}

// expr rewrites an expression whose value is used.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return e // types and constants
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.Ident:
		if r.race && r.pkgVar(x) && r.addressableType(x) {
			return r.read(x, x, true)
		}
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if r.race && r.pkgVar(x.Sel) && !syncType(r.info.Uses[x.Sel].Type()) {
					return r.read(x, x, true)
				}
				return x
			}
		}
		sel := r.info.Selections[x]
		if sel == nil {
			return x
		}
		if sel.Kind() == types.MethodVal {
			x.X = r.receiver(x.X, sel)
			return x
		}
		if sel.Kind() == types.MethodExpr {
			return x
		}
		rec := r.race && r.shared(x) && r.addressableType(x)
		if _, ok := under(r.typeOf(x.X)).(*types.Pointer); ok || r.shared(x.X) {
			return r.read(x, r.place(x), rec)
		}
		if r.addressable(x.X) {
			return r.place(x)
		}
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			x.X = r.mapRead(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		if tv, ok := r.info.Types[x.X]; !ok || !tv.IsValue() {
			return x // instantiation
		}
		if _, ok := r.typeOf(x.X).(*types.Signature); ok {
			return x
		}
		rec := r.race && r.shared(x) && r.addressableType(x)
		if rec || r.addressable(x.X) {
			return r.read(x, r.place(x), rec)
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		rec := r.race && pureAddr(x.X) && r.addressableType(x)
		x.X = r.expr(x.X)
		if rec {
			return r.read(x, x, true)
		}
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return call(r.fn("Recv"), r.expr(x.X))
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.place(x.X)
			}
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		return x
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.opt(x.Low), r.opt(x.High), r.opt(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.CompositeLit:
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if _, isStruct := under(r.typeOf(x)).(*types.Struct); !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.FuncLit:
		r.body(x.Body)
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	}
	return e
}

func (r *rewriter) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

// addressable tells whether the expression can have its address taken.
func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func (r *rewriter) callExpr(x *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
		r.exprs(x.Args) // conversion
		return x
	}
	switch b := r.builtin(x.Fun); b {
	case "":
	case "close":
		return call(r.fn("Close"), r.expr(x.Args[0]))
	case "len", "cap":
		if r.isChan(x.Args[0]) {
			if b == "len" {
				return call(r.fn("Len"), r.expr(x.Args[0]))
			}
			x.Args[0] = r.expr(x.Args[0])
			return x
		}
		isMap := r.isMap(x.Args[0])
		t := under(r.typeOf(x.Args[0]))
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if _, ok := t.(*types.Array); ok {
			return x
		}
		x.Args[0] = r.expr(x.Args[0])
		if isMap && r.race {
			x.Args[0] = call(r.fn("RM"), x.Args[0])
		}
		return x
	case "copy":
		s0, s1 := r.isSlice(x.Args[0]), r.isSlice(x.Args[1])
		r.exprs(x.Args)
		if r.race && s0 && s1 {
			x.Args = []ast.Expr{call(r.fn("C2"), x.Args...)}
		} else if r.race && s0 {
			x.Args[0] = call(r.fn("WS"), x.Args[0])
		}
		return x
	case "append":
		s1 := len(x.Args) == 2 && x.Ellipsis.IsValid() && r.isSlice(x.Args[1])
		el, _ := under(r.typeOf(x.Args[0])).(*types.Slice)
		same := el != nil && len(x.Args) > 1
		for _, a := range x.Args[1:] {
			t := r.typeOf(a)
			if s1 {
				sl, _ := under(t).(*types.Slice)
				same = same && sl != nil && types.Identical(sl.Elem(), el.Elem())
			} else {
				same = same && !x.Ellipsis.IsValid() && t != nil && types.Identical(t, el.Elem())
			}
		}
		r.exprs(x.Args)
		if r.race && s1 {
			x.Args[1] = call(r.fn("RS"), x.Args[1])
		}
		if r.race && same {
			x.Fun = r.fn("Append")
		}
		return x
	case "new", "make":
		for i := range x.Args {
			if i > 0 {
				x.Args[i] = r.expr(x.Args[i])
			}
		}
		return x
	case "delete", "clear":
		isMap := r.isMap(x.Args[0])
		r.exprs(x.Args)
		if isMap && r.race {
			x.Args[0] = call(r.fn("WM"), x.Args[0])
		}
		return x
	default:
		if strings.HasPrefix(b, "Offsetof") || b == "Sizeof" || b == "Alignof" {
			return x
		}
		r.exprs(x.Args)
		return x
	}
	switch r.pkgFunc(x.Fun) {
	case "runtime.Gosched":
		return call(r.fn("Gosched"), x.Fun)
	case "unsafe.Offsetof", "unsafe.Sizeof", "unsafe.Alignof":
		return x
	}
	fn, width := r.binaryFunc(x.Fun)
	pf := r.pkgFunc(x.Fun)
	rec := make([]string, len(x.Args))
	if r.race {
		for i, a := range x.Args {
			t := r.typeOf(a)
			_, isPtr := under(t).(*types.Pointer)
			switch {
			case isPtr && mutable(t) && pf != "" && !strings.HasPrefix(pf, "fmt."):
				rec[i] = "WP"
			case r.isSlice(a) && (pf == "io.ReadFull" || pf == "io.ReadAtLeast") && i == 1:
				rec[i] = "WS1"
			case isPtr && pf == "encoding/binary.Read" && i == 2:
				rec[i] = "WP"
			case isPtr && pf == "encoding/binary.Write" && i == 2:
				rec[i] = "RP"
			case r.isSlice(a) && pf == "encoding/binary.Read" && i == 2:
				rec[i] = "WS"
			case r.isSlice(a) && pf == "encoding/binary.Write" && i == 2, r.isSlice(a) && (pf == "bytes.NewReader" || pf == "bytes.NewBuffer"):
				rec[i] = "RS"
			}
		}
	}
	x.Fun = r.callee(x.Fun)
	r.exprs(x.Args)
	for i, f := range rec {
		if f != "" {
			x.Args[i] = call(r.fn(f), x.Args[i])
		}
	}
	if fn != "" && r.race {
		x.Args[0] = call(r.fn(fn), x.Args[0], &ast.BasicLit{Kind: token.INT, Value: width})
	}
	return x
}

// binaryFunc recognises the fixed width accessors of encoding/binary.
func (r *rewriter) binaryFunc(f ast.Expr) (rec, width string) {
	s, ok := unparen(f).(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	o, ok := r.info.Uses[s.Sel].(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != "encoding/binary" {
		return "", ""
	}
	switch o.Name() {
	case "Uint16":
		return "RSN", "2"
	case "Uint32":
		return "RSN", "4"
	case "Uint64":
		return "RSN", "8"
	case "PutUint16":
		return "WSN", "2"
	case "PutUint32":
		return "WSN", "4"
	case "PutUint64":
		return "WSN", "8"
	}
	return "", ""
}

// mutable tells whether t is (a pointer to) a type of the standard library whose methods change it.
func mutable(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.Reader", "bufio.Writer":
		return true
	}
	return false
}
