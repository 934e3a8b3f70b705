package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func (f *fileRewriter) typeOf(e ast.Expr) types.Type {
	tv, ok := f.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := f.info.Uses[id]; o != nil {
				return o.Type()
			}
		}
		return types.Typ[types.Invalid]
	}
	return tv.Type
}

func (f *fileRewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := f.info.Uses[id].(*types.Builtin)
	return ok && (name == "" || b.Name() == name)
}

// walk rewrites the tree below n, inner nodes first.
func (f *fileRewriter) walk(n ast.Node) {
	// find parents we need before visiting: receive forms and select clauses
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					f.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					f.recv2[u] = true
				}
			}
		case *ast.SwitchStmt:
			f.skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			f.skip[x.Body] = true
		case *ast.SelectStmt:
			f.skip[x.Body] = true
		case *ast.LabeledStmt:
			f.label[x.Stmt] = x
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				f.skip[c] = true
			case *ast.ExprStmt:
				f.skip[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				f.skip[ast.Unparen(c.Rhs[0])] = true
			}
		}
		return true
	})
	var stack []ast.Node
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil {
			stack = append(stack, x)
			return true
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if !f.skip[top] {
			f.visit(top)
		}
		return true
	})
}

// yieldCall is put before a statement; the number names the place.
func (f *fileRewriter) yieldCall() string {
	f.stats.Yields++
	return "zsim_.Y(" + strconv.Itoa(f.stats.Yields) + "); "
}

func (f *fileRewriter) yields(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		f.before(s.Pos(), f.yieldCall())
	}
}

func (f *fileRewriter) next() int { f.site++; return f.site }

func (f *fileRewriter) visit(n ast.Node) {
	switch n := n.(type) {
	case *ast.BlockStmt:
		f.yields(n.List)
		if len(n.List) == 0 && n.Lbrace.IsValid() {
			f.after(n.Lbrace+1, " "+f.yieldCall())
		}
	case *ast.CaseClause:
		f.yields(n.Body)
	case *ast.CommClause:
		f.yields(n.Body)
	case *ast.SendStmt:
		f.before(n.Pos(), "zsim_.Send(")
		f.rep(n.Arrow, n.Arrow+2, ")(")
		f.after(n.End(), ")")
		f.stats.Sends++
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			fn := "zsim_.Recv("
			if f.recv2[n] {
				fn = "zsim_.Recv2("
			}
			f.rep(n.OpPos, n.OpPos+2, fn)
			f.after(n.End(), ")")
			f.stats.Recvs++
		}
	case *ast.CallExpr:
		if f.isBuiltin(n.Fun, "close") {
			f.rep(n.Fun.Pos(), n.Fun.End(), "zsim_.Close")
			f.stats.Closes++
		}
		if f.isBuiltin(n.Fun, "make") && len(n.Args) >= 2 {
			f.makeCall(n)
		}
	case *ast.GoStmt:
		f.goStmt(n)
	case *ast.RangeStmt:
		f.rangeStmt(n)
	case *ast.SelectStmt:
		f.selectStmt(n)
	}
}

func (f *fileRewriter) makeCall(n *ast.CallExpr) {
	sl, ok := f.typeOf(n).Underlying().(*types.Slice)
	if !ok {
		return
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
		return
	}
	at, ok := n.Args[0].(*ast.ArrayType)
	if !ok {
		return
	}
	elem := f.text(at.Elt.Pos(), at.Elt.End())
	args := ""
	for _, a := range n.Args[1:] {
		args += ", int(" + f.text(a.Pos(), a.End()) + ")"
	}
	f.cover(n.Pos(), n.End(), "zsim_.MakeSlice["+elem+"]("+strings.TrimPrefix(args, ", ")+")")
	f.stats.Makes++
}

func (f *fileRewriter) goStmt(n *ast.GoStmt) {
	f.stats.GoStmts++
	call := n.Call
	id := f.next()
	tv, isT := f.info.Types[call.Fun]
	if (isT && tv.IsType()) || f.isBuiltin(call.Fun, "") {
		f.cover(n.Pos(), n.End(), "zsim_.Go(func() { "+f.text(call.Pos(), call.End())+" })")
		return
	}
	var sb strings.Builder
	sb.WriteString("{ ")
	fv := fmt.Sprintf("zsf%d", id)
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		f.cover(n.Pos(), n.End(), "zsim_.Go("+f.text(lit.Pos(), lit.End())+")")
		return
	}
	fmt.Fprintf(&sb, "%s := %s; ", fv, f.text(call.Fun.Pos(), call.Fun.End()))
	var args []string
	for i, a := range call.Args {
		tv := f.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, f.text(a.Pos(), a.End()))
			continue
		}
		if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() > 1 {
			args = append(args, f.text(a.Pos(), a.End()))
			continue
		}
		v := fmt.Sprintf("zsa%d_%d", id, i)
		fmt.Fprintf(&sb, "%s := %s; ", v, f.text(a.Pos(), a.End()))
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&sb, "zsim_.Go(func() { %s(%s%s) }) }", fv, strings.Join(args, ", "), ell)
	f.cover(n.Pos(), n.End(), sb.String())
}

func (f *fileRewriter) rangeStmt(n *ast.RangeStmt) {
	id := f.next()
	var start, next string
	two := false
	switch f.typeOf(n.X).Underlying().(type) {
	case *types.Map:
		start, next, two = "zsim_.MapStart", "Next", true
		f.stats.MapRanges++
	case *types.Chan:
		start, next = "zsim_.ChanStart", "Next"
		f.stats.ChanRanges++
	default:
		return
	}
	it, ok := fmt.Sprintf("zsi%d", id), fmt.Sprintf("zso%d", id)
	x := f.text(n.X.Pos(), n.X.End())
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.text(e.Pos(), e.End())
	}
	k, v := name(n.Key), name(n.Value)
	pre := ""
	if n.Tok == token.ASSIGN {
		// assign inside the body
		if k != "_" {
			pre += fmt.Sprintf("%s = zsk%d; ", k, id)
			k = fmt.Sprintf("zsk%d", id)
		}
		if v != "_" {
			pre += fmt.Sprintf("%s = zsv%d; ", v, id)
			v = fmt.Sprintf("zsv%d", id)
		}
	}
	vars := k
	if two {
		vars = k + ", " + v
	}
	head := fmt.Sprintf("for %s, %s, %s := %s(%s); %s; %s, %s = %s.%s() ", it, vars, ok, start, x, ok, vars, ok, it, next)
	f.cover(n.For, n.Body.Lbrace, head)
	if pre != "" {
		f.after(n.Body.Lbrace+1, " "+pre)
	}
}

func (f *fileRewriter) selectStmt(n *ast.SelectStmt) {
	f.stats.Selects++
	if len(n.Body.List) == 0 {
		f.cover(n.Pos(), n.End(), "for { zsim_.BlockForever() }")
		return
	}
	id := f.next()
	var pre strings.Builder
	pre.WriteString("{ ")
	var names []string
	def := "false"
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = "true"
			f.cover(c.Pos(), c.Colon, "case -1")
			continue
		}
		v := fmt.Sprintf("zsc%d_%d", id, i)
		names = append(names, v)
		bind := ""
		switch st := c.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := zsim_.SendCase(%s)(%s); ", v, f.text(st.Chan.Pos(), st.Chan.End()), f.text(st.Value.Pos(), st.Value.End()))
		case *ast.ExprStmt:
			u := ast.Unparen(st.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := zsim_.RecvCase(%s); ", v, f.text(u.X.Pos(), u.X.End()))
		case *ast.AssignStmt:
			u := ast.Unparen(st.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := zsim_.RecvCase(%s); ", v, f.text(u.X.Pos(), u.X.End()))
			get := "V()"
			if len(st.Lhs) == 2 {
				get = "V2()"
			}
			bind = fmt.Sprintf(" %s %s %s.%s; ", f.text(st.Lhs[0].Pos(), st.Lhs[len(st.Lhs)-1].End()), st.Tok, v, get)
		}
		f.cover(c.Pos(), c.Colon, fmt.Sprintf("case %d", i))
		if bind != "" {
			f.after(c.Colon+1, bind)
		}
		i++
	}
	lab := ""
	if l := f.label[n]; l != nil {
		lab = l.Label.Name + ": "
		f.cover(l.Label.Pos(), l.Colon+1, "")
	}
	fmt.Fprintf(&pre, "%sswitch zsim_.Select(%s", lab, def)
	for _, v := range names {
		pre.WriteString(", " + v)
	}
	pre.WriteString(") ")
	f.cover(n.Select, n.Body.Lbrace, pre.String())
	f.rep(n.Body.Rbrace, n.Body.Rbrace+1, "default: panic(\"zsim: select\") } }")
}
