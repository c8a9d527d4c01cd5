package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := []ast.Stmt{}
	for _, s := range l {
		out = append(out, r.stmt(s, true)...)
	}
	return out
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b != nil {
		b.List = r.stmts(b.List)
	}
	return b
}

// one rewrites a statement in a place where exactly one statement may stand
// (init and post clauses).
func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, false)
	if len(l) == 1 {
		return l[0]
	}
	die(fmt.Sprintf("%s: statement does not fit in a clause", fset.Position(s.Pos())))
	return nil
}

func (r *rewriter) pre(s ast.Stmt, n ...ast.Node) []ast.Stmt {
	p, sy := false, false
	for _, x := range n {
		if x == nil {
			continue
		}
		a, b := shared(x)
		p, sy = p || a, sy || b
	}
	if writesPkgVar(s) {
		sy = true
	}
	if sy {
		return []ast.Stmt{r.point(true)}
	}
	if p {
		return []ast.Stmt{r.point(false)}
	}
	return nil
}

func nn(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}
func ns(e ast.Stmt) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

// stmt rewrites s; in list context scheduling points may precede it.
func (r *rewriter) stmt(s ast.Stmt, list bool) []ast.Stmt {
	var pre []ast.Stmt
	switch x := s.(type) {
	case nil, *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return []ast.Stmt{s}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			if list {
				pre = r.pre(s, g)
			}
			r.genDecl(g, false)
		}
		return append(pre, x)
	case *ast.LabeledStmt:
		l := r.stmt(x.Stmt, true)
		x.Stmt = l[len(l)-1]
		return append(l[:len(l)-1:len(l)-1], x)
	case *ast.ExprStmt:
		if list {
			pre = r.pre(s, x.X)
		}
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.X = method(r.expr(u.X), "Recv")
		} else {
			x.X = r.expr(x.X)
		}
		return append(pre, x)
	case *ast.SendStmt:
		if list {
			pre = r.pre(s, x.Chan, x.Value)
		}
		return append(pre, &ast.ExprStmt{X: method(r.expr(x.Chan), "Send", r.expr(x.Value))})
	case *ast.IncDecStmt:
		if list {
			pre = r.pre(s, x.X)
		}
		if isBlankOrLocal(x.X) || (hasCall(x.X) && !isMapIndex(x.X)) {
			x.X = r.lhs(x.X)
			return append(pre, x)
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return append(pre, r.rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}))
	case *ast.AssignStmt:
		if list {
			pre = r.pre(s, x)
		}
		return append(pre, r.assign(x, list)...)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if list {
			pre = r.pre(s, x.Call)
		}
		c := r.expr(x.Call)
		if ce, ok := c.(*ast.CallExpr); ok {
			x.Call = ce
		}
		return append(pre, x)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			pre = append(pre, r.pre(s, e)...)
		}
		if len(pre) > 1 {
			pre = pre[:1]
		}
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
		return append(pre, x)
	case *ast.BlockStmt:
		return []ast.Stmt{r.block(x)}
	case *ast.IfStmt:
		if list {
			pre = r.pre(s, ns(x.Init), nn(x.Cond))
		}
		if x.Init != nil {
			x.Init = r.one(x.Init)
		}
		if p, sy := shared(x.Cond); (p || sy) && !list && plainBool(x.Cond) { // else if
			x.Cond = r.then(r.expr(x.Cond))
		} else {
			x.Cond = r.expr(x.Cond)
		}
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.one(x.Else)
		}
		return append(pre, x)
	case *ast.SwitchStmt:
		if list {
			pre = r.pre(s, ns(x.Init), nn(x.Tag))
			if pre == nil {
				for _, c := range x.Body.List {
					for _, e := range c.(*ast.CaseClause).List {
						if pre == nil {
							pre = r.pre(s, e)
						}
					}
				}
			}
		}
		if x.Init != nil {
			x.Init = r.one(x.Init)
		}
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.cases(x.Body)
		return append(pre, x)
	case *ast.TypeSwitchStmt:
		if list {
			pre = r.pre(s, ns(x.Init), ns(x.Assign))
		}
		if x.Init != nil {
			x.Init = r.one(x.Init)
		}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.cases(x.Body)
		return append(pre, x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		if list {
			pre = r.pre(s, ns(x.Init))
		}
		var body []ast.Stmt
		if a, b := shared(nn(x.Cond)); a || b || !hasSharedStmt(x.Body) {
			body = append(body, r.point(false))
		}
		if x.Init != nil {
			x.Init = r.one(x.Init)
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = r.one(x.Post)
		}
		r.block(x.Body)
		x.Body.List = append(body, x.Body.List...)
		return append(pre, x)
	case *ast.RangeStmt:
		return r.rangeStmt(x, list)
	}
	die(fmt.Sprintf("%s: unhandled statement %T", fset.Position(s.Pos()), s))
	return nil
}

func hasSharedStmt(b *ast.BlockStmt) bool { return false }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}

// rmw writes L = L op Y with a yield between reading and writing.
func (r *rewriter) rmw(l ast.Expr, op token.Token, y ast.Expr) ast.Stmt {
	read := r.expr(cloneExpr(l))
	return &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("Y", &ast.BinaryExpr{X: read, Op: op, Y: &ast.ParenExpr{X: y}})}}
}

func (r *rewriter) assign(x *ast.AssignStmt, list bool) []ast.Stmt {
	// v, ok := <-c  /  v, ok := m[k]
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.Rhs[0] = method(r.expr(u.X), "Recv2")
			for i := range x.Lhs {
				x.Lhs[i] = r.lhs(x.Lhs[i])
			}
			return []ast.Stmt{x}
		}
	}
	if x.Tok == token.DEFINE {
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
		return []ast.Stmt{x}
	}
	if x.Tok != token.ASSIGN {
		// op=
		l := x.Lhs[0]
		if !isBlankOrLocal(l) && (!hasCall(l) || isMapIndex(l)) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
			return []ast.Stmt{r.rmw(l, op, r.expr(x.Rhs[0]))}
		}
		x.Lhs[0] = r.lhs(l)
		x.Rhs[0] = r.expr(x.Rhs[0])
		return []ast.Stmt{x}
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l, rh := x.Lhs[0], x.Rhs[0]
		if list && isMapIndex(l) && hasCall(rh) && !constant(rh) {
			// the store happens after the value has been computed
			id := r.fresh("t")
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(rh)}},
				&ast.AssignStmt{Lhs: []ast.Expr{r.lhs(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}},
			}}}
		}
		yield := !isBlankOrLocal(l) && !constant(rh)
		nr := r.expr(rh)
		if yield && !isMapIndex(l) {
			if p, _ := shared(rh); p || hasCall(rh) {
				// untyped results (comparisons, shifts) must keep their assigned type
				if t := typeOf(rh); t != nil {
					if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
						if !constantInt(rh) {
							nr = r.call("Y", nr)
						}
					}
				}
				if t, lt := typeOf(rh), typeOf(l); t != nil && lt != nil && !types.Identical(t, lt) {
					// assignability across types: leave the value as it was
					if c, ok := nr.(*ast.CallExpr); ok && len(c.Args) == 1 {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Y" {
							nr = c.Args[0]
						}
					}
				}
			}
		}
		x.Lhs[0] = r.lhs(l)
		x.Rhs[0] = nr
		return []ast.Stmt{x}
	}
	for i := range x.Rhs {
		x.Rhs[i] = r.expr(x.Rhs[i])
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.lhs(x.Lhs[i])
	}
	return []ast.Stmt{x}
}

func constantInt(e ast.Expr) bool { return constant(e) }

// cloneExpr copies an expression so that both copies can be rewritten; type
// information is carried over.
func cloneExpr(e ast.Expr) ast.Expr {
	var c ast.Expr
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		n := *x
		c = &n
		if o := info.Uses[x]; o != nil {
			info.Uses[&n] = o
		}
	case *ast.BasicLit:
		n := *x
		c = &n
	case *ast.SelectorExpr:
		n := *x
		n.X = cloneExpr(x.X)
		sel := *x.Sel
		n.Sel = &sel
		c = &n
		if s := info.Selections[x]; s != nil {
			info.Selections[&n] = s
		}
		if o := info.Uses[x.Sel]; o != nil {
			info.Uses[&sel] = o
		}
	case *ast.IndexExpr:
		n := *x
		n.X, n.Index = cloneExpr(x.X), cloneExpr(x.Index)
		c = &n
	case *ast.StarExpr:
		n := *x
		n.X = cloneExpr(x.X)
		c = &n
	case *ast.ParenExpr:
		n := *x
		n.X = cloneExpr(x.X)
		c = &n
	case *ast.CallExpr:
		n := *x
		n.Fun = cloneExpr(x.Fun)
		n.Args = nil
		for _, a := range x.Args {
			n.Args = append(n.Args, cloneExpr(a))
		}
		c = &n
	case *ast.BinaryExpr:
		n := *x
		n.X, n.Y = cloneExpr(x.X), cloneExpr(x.Y)
		c = &n
	case *ast.UnaryExpr:
		n := *x
		n.X = cloneExpr(x.X)
		c = &n
	case *ast.TypeAssertExpr:
		n := *x
		n.X = cloneExpr(x.X)
		c = &n
	default:
		c = e
	}
	if tv, ok := info.Types[e]; ok {
		info.Types[c] = tv
	}
	return c
}

// go f(a, b): the function value and arguments are evaluated first.
func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	out := r.pre(x, x.Call)
	if fl, ok := unparen(x.Call.Fun).(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		hasResults := fl.Type.Results != nil && len(fl.Type.Results.List) > 0
		f := r.expr(fl)
		if hasResults {
			f = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: f}}}}}
		}
		return append(out, &ast.ExprStmt{X: r.call("Go", f)})
	}
	var blk []ast.Stmt
	c := x.Call
	ell := c.Ellipsis
	bi := builtin(c.Fun)
	if bi == "" {
		if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok {
			id := r.fresh("f")
			blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(fl)}})
			c.Fun = ast.NewIdent(id.Name)
		} else if isPlainFunc(c.Fun) {
			c.Fun = r.expr(c.Fun)
		} else {
			id := r.fresh("f")
			blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
			c.Fun = ast.NewIdent(id.Name)
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		if constant(a) {
			args = append(args, r.expr(a))
			continue
		}
		id := r.fresh("a")
		blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args = append(args, ast.NewIdent(id.Name))
	}
	var inner ast.Expr
	if bi != "" {
		// builtins: rewrite the call itself on the temporaries
		nc := &ast.CallExpr{Fun: c.Fun, Args: c.Args, Ellipsis: ell}
		inner = r.callExpr(nc)
		blk = nil
	} else {
		inner = &ast.CallExpr{Fun: c.Fun, Args: args, Ellipsis: ell}
	}
	blk = append(blk, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return append(out, &ast.BlockStmt{List: blk})
}

func isPlainFunc(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	hasDef := "false"
	var lhs, rhs []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	type pend struct {
		cc   *ast.CaseClause
		body []ast.Stmt
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = "true"
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}
			nc.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		id := r.fresh("c")
		lhs = append(lhs, id)
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}}
		n++
		var first []ast.Stmt
		use := ast.NewIdent(id.Name)
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, r.call("SendCase", r.expr(cm.Chan), r.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("RecvCase", r.expr(u.X)))
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Val2"
			}
			as := &ast.AssignStmt{Tok: cm.Tok, Rhs: []ast.Expr{method(use, m)}}
			for _, l := range cm.Lhs {
				as.Lhs = append(as.Lhs, r.lhs(l))
			}
			first = append(first, as)
		default:
			die(fmt.Sprintf("%s: select clause", fset.Position(cc.Pos())))
		}
		nc.Body = append(first, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	call := r.call("Select", ast.NewIdent(hasDef))
	for _, l := range lhs {
		call.Args = append(call.Args, ast.NewIdent(l.(*ast.Ident).Name))
	}
	sw.Tag = call
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	// a select without default always takes a case: keep terminating statements terminating
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: nil, Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	} else {
		for _, c := range sw.Body.List {
			cc := c.(*ast.CaseClause)
			if bl, ok := cc.List[0].(*ast.BasicLit); ok && bl.Value == "-1" {
				cc.List = nil
			}
		}
	}
	return []ast.Stmt{sw}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, list bool) []ast.Stmt {
	t := typeOf(x.X)
	var pre []ast.Stmt
	if list {
		pre = r.pre(x, x.X)
	}
	switch {
	case isChan(t):
		v, ok := r.fresh("v"), r.fresh("k")
		x.X = r.expr(x.X)
		ch := r.fresh("c")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{method(ast.NewIdent(ch.Name), "Recv2")}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		if x.Key != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
			if x.Tok == token.DEFINE {
				body = append(body, use(x.Key))
			}
		}
		body = append(body, r.stmts(x.Body.List)...)
		return append(pre, &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, Body: &ast.BlockStmt{List: body}})
	case isMap(t):
		it := r.fresh("it")
		k, v, ok := r.fresh("k"), r.fresh("v"), r.fresh("ok")
		nx := method(ast.NewIdent(it.Name), "Next")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{k, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{nx}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(k.Name), ast.NewIdent(v.Name)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		add := func(l ast.Expr, val *ast.Ident) {
			if l == nil {
				return
			}
			if id, isID := l.(*ast.Ident); isID && id.Name == "_" {
				return
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(l)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(val.Name)}})
			if x.Tok == token.DEFINE {
				body = append(body, use(l))
			}
		}
		add(x.Key, k)
		add(x.Value, v)
		body = append(body, r.stmts(x.Body.List)...)
		return append(pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: it, Tok: token.DEFINE, X: r.call("Iter", r.expr(x.X)), Body: &ast.BlockStmt{List: body}})
	default:
		x.X = r.expr(x.X)
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = r.lhs(x.Key)
			}
			if x.Value != nil {
				x.Value = r.lhs(x.Value)
			}
		}
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.point(false)}, x.Body.List...)
		return append(pre, x)
	}
}

func use(e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(e.(*ast.Ident).Name)}}
}
