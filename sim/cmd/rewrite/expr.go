package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		if f.Type != nil {
			f.Type = r.typ(f.Type)
		}
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

// typ rewrites a type expression.
func (r *rewriter) typ(e ast.Expr) ast.Expr { return r.expr(e) }

func isType(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsType()
}

func typeOf(e ast.Expr) types.Type {
	if tv, ok := info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

func builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// expr rewrites an expression used as a value (or a type).
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit, *ast.Ident:
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		x.Body.List = r.stmts(x.Body.List)
		return x
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		_, isStruct := under(deref(typeOf(e))).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := info.Uses[id].(*types.PkgName); ok {
				p := pn.Imported().Path()
				if sh, ok := shims[p]; ok && sh[x.Sel.Name] {
					alias := "vs_" + shimP[p]
					r.need[alias] = "verifsim/" + shimP[p]
					return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: x.Sel}
				}
				r.real[p] = true
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		if t := typeOf(x.X); t != nil && !isType(x.X) && isMap(t) {
			x.X = r.call("MR", r.expr(x.X))
			x.Index = r.expr(x.Index)
			return x
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
		return x
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: paren(r.expr(x.X)), Sel: ast.NewIdent("Recv")}}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		wrap := false
		if (x.Op == token.LAND || x.Op == token.LOR) && plainBool(x.Y) {
			p, sy := shared(x.X)
			p2, sy2 := shared(x.Y)
			wrap = (p2 || sy2) && (p || sy || hasCall(x.X))
		}
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		if wrap {
			x.Y = r.then(x.Y)
		}
		return x
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = r.expr(x.Len)
		}
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("Chan"), Index: r.expr(x.Value)}}
	}
	die(fmt.Sprintf("%s: unhandled expression %T", fset.Position(e.Pos()), e))
	return nil
}

// then evaluates a condition after a scheduling point.
func (r *rewriter) then(e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.BinaryExpr{X: r.call("B"), Op: token.LAND, Y: &ast.ParenExpr{X: e}}}
}

// plainBool tells conditions of type bool that are not constant.
func plainBool(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Value != nil || tv.Type == nil {
		return false
	}
	b, ok := tv.Type.(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rewriter) callExpr(x *ast.CallExpr) ast.Expr {
	switch builtin(x.Fun) {
	case "make":
		t := typeOf(x)
		if isChan(t) {
			n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{r.expr(x.Args[1])}}
			}
			return r.call("MakeChanOf", &ast.CallExpr{Fun: &ast.ParenExpr{X: r.expr(x.Args[0])}, Args: []ast.Expr{ast.NewIdent("nil")}}, n)
		}
	case "close":
		return method(r.expr(x.Args[0]), "Close")
	case "len", "cap":
		if isChan(typeOf(x.Args[0])) {
			if builtin(x.Fun) == "len" {
				return method(r.expr(x.Args[0]), "Len")
			}
			return method(r.expr(x.Args[0]), "Cap")
		}
		if isMap(typeOf(x.Args[0])) {
			x.Args[0] = r.call("MR", r.expr(x.Args[0]))
			return x
		}
	case "delete":
		return r.call("MDel", r.expr(x.Args[0]), r.expr(x.Args[1]))
	case "print":
		c := r.call("Print")
		for _, a := range x.Args {
			c.Args = append(c.Args, r.expr(a))
		}
		return c
	case "println":
		c := r.call("Println")
		for _, a := range x.Args {
			c.Args = append(c.Args, r.expr(a))
		}
		return c
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange") {
		if t := typeOf(sel.X); t != nil && t.String() == "reflect.Value" {
			return r.call("Reflect"+sel.Sel.Name, r.expr(sel.X))
		}
	}
	x.Fun = r.expr(x.Fun)
	for i := range x.Args {
		x.Args[i] = r.expr(x.Args[i])
	}
	return x
}

// lhs rewrites an assignment target.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	case *ast.IndexExpr:
		if isMap(typeOf(x.X)) {
			wrap := addressKey(typeOf(x.X)) && !constant(x.Index) && !isNil(x.Index)
			x.X = r.call("MW", r.expr(x.X))
			x.Index = r.expr(x.Index)
			if wrap { // keys without an order of their own get one
				x.Index = r.call("PK", x.Index)
			}
			return x
		}
	}
	return r.expr(e)
}

// addressKey reports whether a map is keyed by addresses.
func addressKey(t types.Type) bool {
	switch under(under(t).(*types.Map).Key()).(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Basic:
		return under(under(t).(*types.Map).Key()).(*types.Basic).Kind() == types.UnsafePointer
	}
	return false
}

func isNil(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsNil()
}

func isMapIndex(e ast.Expr) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ix, ok := e.(*ast.IndexExpr)
	return ok && isMap(typeOf(ix.X))
}

func isBlankOrLocal(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	if id.Name == "_" {
		return true
	}
	if pkgVar(id) != nil {
		return false
	}
	if o := info.Uses[id]; o != nil && captured[o] {
		return false
	}
	return true
}

func constant(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := info.Types[n.Fun]; !ok || !tv.IsType() {
				found = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.IndexExpr:
			if isMap(typeOf(n.X)) {
				found = true
			}
		}
		return true
	})
	return found
}

// shared reports whether evaluating the node touches memory others can
// reach; sync when it touches mutable package state.
func shared(n ast.Node) (plain, sync bool) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			if sel := info.Selections[m]; sel != nil && sel.Kind() == types.FieldVal {
				plain = true
			}
		case *ast.StarExpr:
			if !isType(m) {
				plain = true
			}
		case *ast.IndexExpr:
			if t := under(typeOf(m.X)); t != nil {
				switch t.(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					plain = true
				}
			}
		case *ast.RangeStmt:
			plain = true
		case *ast.Ident:
			if o := pkgVar(m); o != nil && mutable[o] {
				plain = true
				if b, ok := under(o.Type()).(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
					sync = true
				}
			}
			if o := info.Uses[m]; o != nil && captured[o] {
				plain = true
			}
		}
		return true
	})
	return
}

func writesPkgVar(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if id := rootIdent(l); id != nil && pkgVar(id) != nil {
				return true
			}
		}
	case *ast.IncDecStmt:
		if id := rootIdent(s.X); id != nil && pkgVar(id) != nil {
			return true
		}
	}
	return false
}

var _ = strconv.Itoa
