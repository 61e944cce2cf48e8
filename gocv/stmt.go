package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// terminates: control never falls through the list.
func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil {
			return false
		}
		if !terminates(s.Body.List) {
			return false
		}
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			return terminates(e.List)
		case *ast.IfStmt:
			return terminates([]ast.Stmt{e})
		}
	case *ast.ForStmt:
		if s.Cond == nil && !hasBreak(s.Body) {
			return true
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func hasBreak(b *ast.BlockStmt) bool {
	found := false
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt:
			return false
		case *ast.BranchStmt:
			if s.Tok == token.BREAK {
				found = true
			}
		}
		return true
	}
	for _, s := range b.List {
		ast.Inspect(s, walk)
	}
	return found
}

// jumps: the statement may transfer control past its end by a flag (break,
// continue, return of an inlined function).
func (g *Gen) jumps(s ast.Stmt) bool {
	j := false
	var walk func(n ast.Node, inLoop bool)
	walk = func(n ast.Node, inLoop bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true)
				return false
			case *ast.BranchStmt:
				if !inLoop {
					j = true
				}
			case *ast.ReturnStmt:
				_ = x
				if !g.fr.top {
					j = true
				}
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		walk(s, true)
	case *ast.BranchStmt:
		return true
	case *ast.ReturnStmt:
		return !g.fr.top
	default:
		walk(s, false)
	}
	return j
}

func (g *Gen) liveFlag() string {
	var fs []string
	if g.fr.ret != "" {
		fs = append(fs, "!"+g.fr.ret)
	}
	if n := len(g.fr.loops); n > 0 {
		l := g.fr.loops[n-1]
		fs = append(fs, "!"+l.brk, "!"+l.cont)
	}
	if len(fs) == 0 {
		return "true"
	}
	return strings.Join(fs, " && ")
}

func (g *Gen) block(l []ast.Stmt, i int) {
	if i == 0 && g.fr.top {
		g.depth++
		if g.depth > 1 {
			defer func(n int) { g.closeCuts(n) }(len(g.open))
		}
		defer func() { g.depth-- }()
	}
	for ; i < len(l); i++ {
		s := l[i]
		if is, ok := s.(*ast.IfStmt); ok && is.Else == nil && i+1 < len(l) && g.jumps(s) && terminates(is.Body.List) {
			// the rest runs only when the branch is not taken
			g.stmtAnchors(s, "before")
			g.p("{")
			g.ind++
			if is.Init != nil {
				g.stmt(is.Init)
			}
			c := g.cond(is.Cond)
			g.p("if %s {", c)
			g.ind++
			g.block(is.Body.List, 0)
			g.ind--
			g.p("} else {")
			g.ind++
			g.stmtAnchors(s, "after")
			g.block(l, i+1)
			g.ind--
			g.p("}")
			g.ind--
			g.p("}")
			return
		}
		g.stmtAnchors(s, "before")
		g.stmt(s)
		switch s.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			return
		}
		if terminates([]ast.Stmt{s}) && !g.jumps(s) {
			return
		}
		if i+1 < len(l) && g.jumps(s) {
			g.p("if %s {", g.liveFlag())
			g.ind++
			g.stmtAnchors(s, "after")
			g.block(l, i+1)
			g.ind--
			g.p("}")
			return
		}
		g.stmtAnchors(s, "after")
	}
}

func (g *Gen) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		g.p("{")
		g.ind++
		g.block(x.List, 0)
		g.ind--
		g.p("}")
	case *ast.ExprStmt:
		c, ok := unparen(x.X).(*ast.CallExpr)
		if !ok {
			g.fail(x.Pos(), "expression statement")
		}
		g.call(c)
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var vals []string
			if len(vs.Values) > 0 {
				vals = g.exprs(vs.Values, len(vs.Names))
			}
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				t := g.info().Defs[n].Type()
				v := g.zero(t)
				if vals != nil {
					v = vals[i]
				}
				g.p("let mut %s: %s = %s;", vname(n.Name), g.vtype(t), v)
			}
		}
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		lv := g.lvalue(x.X)
		lv.set(g.arith(op, lv.get(), "1int", g.typeOf(x.X), x.Pos()))
	case *ast.AssignStmt:
		g.assign(x)
	case *ast.IfStmt:
		g.ifStmt(x)
	case *ast.ReturnStmt:
		if g.fr.top {
			g.retTop(x.Results, x.Pos())
			return
		}
		if len(x.Results) > 0 {
			vals := g.exprs(x.Results, len(g.fr.res))
			sig := g.fr.fn.Obj.Type().(*types.Signature)
			for i, v := range vals {
				g.p("%s = %s;", g.fr.res[i], g.convTo(v, g.typeOfI(x.Results, i), sig.Results().At(i).Type()))
			}
		} else {
			for i, nv := range g.fr.named {
				g.p("%s = %s;", g.fr.res[i], vname(nv.Name()))
			}
		}
		g.p("%s = true;", g.fr.ret)
	case *ast.BranchStmt:
		if x.Label != nil || len(g.fr.loops) == 0 {
			g.fail(x.Pos(), "labelled jump")
		}
		l := g.fr.loops[len(g.fr.loops)-1]
		switch x.Tok {
		case token.BREAK:
			g.p("%s = true;", l.brk)
		case token.CONTINUE:
			g.p("%s = true;", l.cont)
		default:
			g.fail(x.Pos(), "goto")
		}
	case *ast.ForStmt:
		g.forStmt(x)
	case *ast.RangeStmt:
		g.rangeStmt(x)
	case *ast.SwitchStmt:
		g.switchStmt(x)
	default:
		g.fail(s.Pos(), "statement %T", s)
	}
}

func (g *Gen) typeOfI(es []ast.Expr, i int) types.Type {
	if len(es) == 1 {
		t := g.typeOf(es[0])
		if tp, ok := t.(*types.Tuple); ok {
			return tp.At(i).Type()
		}
		return t
	}
	return g.typeOf(es[i])
}

// convTo converts a value to an interface type when the target is one.
func (g *Gen) convTo(v string, from, to types.Type) string {
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return g.zero(to)
	}
	if g.vtype(to) != "Iface" {
		return v
	}
	ft := g.vtype(from)
	if ft == "Iface" {
		return v
	}
	if strings.HasPrefix(ft, "T_") {
		g.ifaces[ft] = true
		return fmt.Sprintf("Iface::P_%s(%s)", strings.TrimPrefix(ft, "T_"), v)
	}
	return "Iface::Nil"
}

func (g *Gen) retTop(rs []ast.Expr, pos token.Pos) {
	c := g.cur
	s := g.sigOf(g.curFn, c)
	var vals []string
	if len(rs) > 0 {
		vals = g.exprs(rs, len(s.results))
		for i := range vals {
			vals[i] = g.convTo(vals[i], g.typeOfI(rs, i), s.rgo[i])
		}
	} else {
		for _, nv := range g.fr.named {
			vals = append(vals, vname(nv.Name()))
		}
	}
	g.p("{")
	g.ind++
	var names []string
	for i, v := range vals {
		n := fmt.Sprintf("z_r%d", i)
		g.p("let %s: %s = %s;", n, s.rtypes[i], v)
		names = append(names, n)
	}
	for i := range vals {
		g.p("let %s: %s = z_r%d;", s.results[i], s.rtypes[i], i)
	}
	g.anchors("exit", "", 0, "")
	var r []string
	if s.heap {
		r = append(r, "h")
	}
	for _, i := range s.modPtr {
		r = append(r, paramName(s.vars[i], i))
	}
	r = append(r, names...)
	if !s.heap {
		// a function that changes nothing leaves the heap as it was
		g.oblig("frame", "h == h0", pos)
	}
	for i, v := range s.vars {
		if _, ok := v.Type().Underlying().(*types.Pointer); ok && !has(c.Modifies, c.Params[i]) && strings.HasPrefix(s.ptypes[i], "T_") {
			g.oblig("frame", fmt.Sprintf("%s == %s0", paramName(v, i), s.params[i]), pos)
		}
	}
	g.probe("exit", pos)
	if !g.checking() {
		g.p("assume(false);")
	}
	g.p("return %s;", tup(r))
	g.ind--
	g.p("}")
}

func (g *Gen) probe(kind string, pos token.Pos) {
	if g.sel != probeSel {
		return
	}
	g.obls = append(g.obls, &Obl{ID: len(g.obls), Fn: g.cur.Key, Kind: "probe-" + kind, Pos: g.posStr(pos), Text: "false", Line: g.line + 1, N: 1})
	g.p("assert(false);")
}

func (g *Gen) ifStmt(x *ast.IfStmt) {
	if x.Init != nil {
		g.p("{")
		g.ind++
		g.stmt(x.Init)
	}
	c := g.cond(x.Cond)
	g.p("if %s {", c)
	g.ind++
	g.block(x.Body.List, 0)
	g.ind--
	switch e := x.Else.(type) {
	case nil:
		g.p("}")
	case *ast.BlockStmt:
		g.p("} else {")
		g.ind++
		g.block(e.List, 0)
		g.ind--
		g.p("}")
	case *ast.IfStmt:
		g.p("} else {")
		g.ind++
		g.stmt(e)
		g.ind--
		g.p("}")
	}
	if x.Init != nil {
		g.ind--
		g.p("}")
	}
}

func (g *Gen) switchStmt(x *ast.SwitchStmt) {
	g.p("{")
	g.ind++
	if x.Init != nil {
		g.stmt(x.Init)
	}
	tag := "true"
	var tagT types.Type = types.Typ[types.Bool]
	if x.Tag != nil {
		tagT = g.typeOf(x.Tag)
		tag = g.bind(g.ex(x.Tag), g.vtype(tagT))
	}
	n := 0
	var def *ast.CaseClause
	for _, cc := range x.Body.List {
		c := cc.(*ast.CaseClause)
		if hasBreak(&ast.BlockStmt{List: c.Body}) {
			g.fail(c.Pos(), "break in switch")
		}
		if c.List == nil {
			def = c
			continue
		}
		var cs []string
		for _, e := range c.List {
			v := g.ex(e)
			if x.Tag == nil {
				cs = append(cs, v)
			} else {
				cs = append(cs, fmt.Sprintf("%s == %s", tag, v))
			}
		}
		g.p("if %s {", strings.Join(cs, " || "))
		g.ind++
		g.block(c.Body, 0)
		g.ind--
		g.p("} else {")
		g.ind++
		n++
	}
	if def != nil {
		g.block(def.Body, 0)
	}
	for ; n > 0; n-- {
		g.ind--
		g.p("}")
	}
	g.ind--
	g.p("}")
}

func (g *Gen) assign(x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		op := strings.TrimSuffix(x.Tok.String(), "=")
		lv := g.lvalue(x.Lhs[0])
		cur := lv.get()
		if hasCall(x.Rhs[0]) {
			cur = g.bind(cur, g.vtype(g.typeOf(x.Lhs[0])))
		}
		v := g.ex(x.Rhs[0])
		lv.set(g.arith(op, cur, v, g.typeOf(x.Lhs[0]), x.Pos()))
		return
	}
	// element pointers
	if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if ix, ok := unparen(u.X).(*ast.IndexExpr); ok {
				id := x.Lhs[0].(*ast.Ident)
				s := g.bind(g.ex(ix.X), "Sl")
				i := g.bind(g.ex(ix.Index), "int")
				g.oblig("bounds", fmt.Sprintf("0 <= %s < %s.len", i, s), ix.Pos())
				g.p("let mut %s: Ptr = Ptr { blk: %s.blk, idx: %s.off + %s };", vname(id.Name), s, s, i)
				return
			}
		}
	}
	vals := g.exprs(x.Rhs, len(x.Lhs))
	if len(x.Lhs) > 1 || len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		for i := range vals {
			if id, ok := x.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			t := g.typeOfI(x.Rhs, i)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				t = g.typeOf(x.Lhs[i])
			}
			vals[i] = g.bind(vals[i], g.vtype(t))
		}
	}
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if o, ok := g.info().Defs[id].(*types.Var); ok && o != nil {
				v := g.convTo(vals[i], g.typeOfI(x.Rhs, i), o.Type())
				g.p("let mut %s: %s = %s;", vname(id.Name), g.vtype(o.Type()), v)
				continue
			}
		}
		lv := g.lvalue(l)
		lv.set(g.convTo(vals[i], g.typeOfI(x.Rhs, i), g.typeOf(l)))
	}
}

// ---- loops -----------------------------------------------------------------

func (g *Gen) loopSpec(s ast.Stmt) (*LoopSpec, int) {
	if !g.fr.top {
		return &LoopSpec{}, 0
	}
	n := g.loopNo[s]
	if l := g.cur.Loops[n]; l != nil {
		return l, n
	}
	return &LoopSpec{}, n
}

// modified variables of a loop, by their Verus names
func (g *Gen) loopMods(body ast.Node, extra ...ast.Node) (vars []*types.Var, comps []string) {
	e := g.effOf(g.fr.fn, body)
	for _, x := range extra {
		if x != nil {
			e.add(g.effOf(g.fr.fn, x))
		}
	}
	for o := range e.objs {
		v, ok := o.(*types.Var)
		if !ok {
			continue
		}
		// declared outside of the loop only
		if v.Pos() >= body.Pos() && v.Pos() < body.End() {
			continue
		}
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	return vars, sortedKeys(e.comps)
}

func (g *Gen) loop(s ast.Stmt, mods []*types.Var, comps []string, extraMods []string, auto []Clause, cond func() string, body func(), post func()) {
	ls, no := g.loopSpec(s)
	lp := &loopFrame{brk: fmt.Sprintf("z_brk%d", g.line), cont: fmt.Sprintf("z_cont%d", g.line)}
	if g.fr.top {
		g.anchors("loop", "", no, "before")
	}
	// entry snapshots
	suffix := fmt.Sprintf("_%d", no)
	if g.fr.top {
		g.p("let h%s = h;", suffix)
		for _, v := range mods {
			g.p("let %s%s = %s;", vname(v.Name()), suffix, vname(v.Name()))
		}
	}
	hin := g.t()
	g.p("let %s: Heap = h;", hin)
	invs := append(append([]Clause{}, auto...), ls.Inv...)
	pos := s.Pos()
	for i, c := range invs {
		g.oblig(invName("inv-entry", no, i, c), substIdents(c.Text, g.subst), pos, c.Props...)
	}
	for _, v := range mods {
		g.p("%s = havoc();", vname(v.Name()))
	}
	for _, n := range extraMods {
		g.p("%s = havoc();", n)
	}
	for _, c := range comps {
		g.p("h.%s = havoc();", c)
	}
	if has(comps, "nxt") {
		g.p("assume(h.nxt >= %s.nxt);", hin)
	}
	if has(comps, "ep") {
		g.p("assume(h.ep >= %s.ep);", hin)
	}
	if len(comps) > 0 {
		g.p("assume(z_heap_ok(h));")
	}
	for _, v := range mods {
		g.wf("h", vname(v.Name()), v.Type())
	}
	for _, c := range invs {
		g.p("assume(%s);", oneLine(substIdents(c.Text, g.subst)))
	}
	g.p("let mut %s: bool = false;", lp.brk)
	g.p("let mut %s: bool = false;", lp.cont)
	dec := ""
	measure := g.autoDec(s)
	if ls.Dec != "" {
		measure = func() string { return oneLine(substIdents(ls.Dec, g.subst)) }
	}
	if measure != nil {
		dec = g.t()
		g.p("let %s: int = %s;", dec, measure())
	} else if _, ok := s.(*ast.RangeStmt); !ok && g.sel < 0 {
		g.noTerm = append(g.noTerm, fmt.Sprintf("%s: the loop at %s", g.cur.Key, g.posStr(pos)))
	}
	if g.fr.top {
		g.anchors("loop", "", no, "head")
	}
	c := cond()
	mark, markLine, rb := g.out.Len(), g.line, g.region+1
	if !g.fr.top {
		rb = g.region
	} else {
		g.region++
	}
	g.p("if %s {", c)
	g.ind++
	if g.fr.top {
		g.anchors("loop", "", no, "begin")
	}
	g.fr.loops = append(g.fr.loops, lp)
	body()
	g.fr.loops = g.fr.loops[:len(g.fr.loops)-1]
	live := "!" + lp.brk
	if g.fr.ret != "" {
		live += " && !" + g.fr.ret
	}
	g.p("if %s {", live)
	g.ind++
	if post != nil {
		post()
	}
	if g.fr.top {
		g.anchors("loop", "", no, "end")
	}
	for i, c := range invs {
		g.oblig(invName("inv", no, i, c), substIdents(c.Text, g.subst), pos, c.Props...)
	}
	if dec != "" {
		g.oblig(fmt.Sprintf("decreases#%d", no), fmt.Sprintf("0 <= %s && (%s) < %s", dec, measure(), dec), pos)
	}
	if g.fr.top {
		g.probe("loop", pos)
	}
	g.p("assume(false);")
	g.ind--
	g.p("}")
	g.ind--
	g.p("}")
	if g.fr.top {
		if g.sel >= 0 && g.sel != probeSel && (g.sel < rb || g.sel > g.region) && !g.leaves(s) {
			// the body plays no part in this slice
			txt := g.out.String()[:mark]
			g.out.Reset()
			g.out.WriteString(txt)
			g.line = markLine
			g.p("assume(!(%s));", c)
		}
		g.region++
		if g.sel >= 0 && g.sel < g.region {
			g.p("assume(false);")
		}
		g.anchors("loop", "", no, "after")
	}
}

// leaves: the loop may be left from inside of its body towards the code after
// it (break, or a return that is a flag).
func (g *Gen) leaves(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ForStmt:
		return hasBreak(x.Body)
	case *ast.RangeStmt:
		return hasBreak(x.Body)
	}
	return true
}

func invName(k string, no, i int, c Clause) string {
	if c.Name != "" {
		return fmt.Sprintf("%s#%d.%s", k, no, c.Name)
	}
	return fmt.Sprintf("%s#%d.%d", k, no, i+1)
}

// shadows: a variable the statement declares hides a local one.
func (g *Gen) shadows(x ast.Stmt) bool {
	sc := g.info().Scopes[x]
	if sc == nil || sc.Parent() == nil {
		return true
	}
	for _, n := range sc.Names() {
		if _, o := sc.Parent().LookupParent(n, x.Pos()); o != nil {
			if v, ok := o.(*types.Var); ok && v.Parent() != v.Pkg().Scope() {
				return true
			}
		}
	}
	return false
}

// autoDec gives the measure of a loop that counts towards a bound.
func (g *Gen) autoDec(s ast.Node) func() string {
	x, ok := s.(*ast.ForStmt)
	if !ok {
		return nil
	}
	c, ok := unparen(x.Cond).(*ast.BinaryExpr)
	if !ok || !simpleExpr(c.X) || !simpleExpr(c.Y) {
		return nil
	}
	var v ast.Expr
	switch p := x.Post.(type) {
	case *ast.IncDecStmt:
		v = p.X
	case *ast.AssignStmt:
		if (p.Tok != token.ADD_ASSIGN && p.Tok != token.SUB_ASSIGN) || len(p.Lhs) != 1 {
			return nil
		}
		v = p.Lhs[0]
	default:
		return nil
	}
	id, ok := v.(*ast.Ident)
	if !ok || !(mentionsIdent(c.X, id.Name) || mentionsIdent(c.Y, id.Name)) {
		return nil
	}
	switch c.Op {
	case token.LSS, token.LEQ:
		return func() string { return fmt.Sprintf("(%s) - (%s)", g.ex(c.Y), g.ex(c.X)) }
	case token.GTR, token.GEQ:
		return func() string { return fmt.Sprintf("(%s) - (%s)", g.ex(c.X), g.ex(c.Y)) }
	}
	return nil
}

func mentionsIdent(e ast.Expr, n string) bool {
	f := false
	ast.Inspect(e, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && i.Name == n {
			f = true
		}
		return true
	})
	return f
}

// simpleExpr: evaluating it neither changes anything nor can fail.
func simpleExpr(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simpleExpr(x.X)
	case *ast.BinaryExpr:
		return (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL) && simpleExpr(x.X) && simpleExpr(x.Y)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && id.Name == "len" && len(x.Args) == 1 && simpleExpr(x.Args[0])
	}
	return false
}

func (g *Gen) forStmt(x *ast.ForStmt) {
	sh := g.shadows(x)
	if sh {
		g.p("{")
		g.ind++
	}
	if x.Init != nil {
		g.stmt(x.Init)
		// a contract written for a range over the same elements counts in it<k>
		if a, ok := x.Init.(*ast.AssignStmt); ok && g.fr.top && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
			if tv := g.info().Types[a.Rhs[0]]; tv.Value != nil && tv.Value.ExactString() == "0" && g.subst != nil {
				if n := fmt.Sprintf("it%d", g.loopNo[x]); g.subst[n] == "" {
					v := a.Lhs[0].(*ast.Ident)
					g.subst[n] = vname(v.Name)
					if g.cur.mentions(n) {
						g.guess("its range loop is gone")
					}
				}
			}
		}
	}
	var extra []ast.Node
	if x.Cond != nil {
		extra = append(extra, x.Cond)
	}
	if x.Post != nil {
		extra = append(extra, x.Post)
	}
	mods, comps := g.loopMods(x.Body, extra...)
	var post func()
	if x.Post != nil {
		post = func() { g.stmt(x.Post) }
	}
	g.loop(x, mods, comps, nil, g.autoInv(x, mods), func() string {
		if x.Cond == nil {
			return "true"
		}
		return g.cond(x.Cond)
	}, func() { g.block(x.Body.List, 0) }, post)
	if sh {
		g.ind--
		g.p("}")
	}
	if x.Cond == nil && !hasBreak(x.Body) {
		// only left by return
		if !g.jumps(x) {
			g.p("assume(false);")
		}
	}
}

// autoInv: a counter that only grows stays at or above its first value.
func (g *Gen) autoInv(x *ast.ForStmt, mods []*types.Var) []Clause {
	// for i := 0; ...; i++ with i left alone by the body
	a, ok := x.Init.(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return nil
	}
	if tv := g.info().Types[a.Rhs[0]]; tv.Value == nil || tv.Value.ExactString() != "0" {
		return nil
	}
	id := a.Lhs[0].(*ast.Ident)
	if p, ok := x.Post.(*ast.IncDecStmt); !ok || p.Tok != token.INC || rootIdent(p.X) == nil || rootIdent(p.X).Name != id.Name {
		return nil
	}
	o, _ := g.info().Defs[id].(*types.Var)
	if m, _ := g.loopMods(x.Body); o == nil {
		return nil
	} else {
		for _, v := range m {
			if v == o {
				return nil
			}
		}
	}
	return []Clause{{Text: "0 <= " + vname(id.Name)}}
}

func (g *Gen) rangeStmt(x *ast.RangeStmt) {
	t := g.typeOf(x.X)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		g.fail(x.Pos(), "range over int")
	}
	el := elemOf(t)
	if el == nil {
		g.fail(x.Pos(), "range over %s", t)
	}
	_, no := g.loopSpec(x)
	rng, it := fmt.Sprintf("rng%d", no), fmt.Sprintf("it%d", no)
	if !g.fr.top {
		g.tmp++
		rng, it = fmt.Sprintf("rngx%d", g.tmp), fmt.Sprintf("itx%d", g.tmp)
	}
	g.p("let %s: Sl = %s;", rng, g.ex(x.X))
	g.p("let mut %s: int = 0;", it)
	mods, comps := g.loopMods(x.Body)
	// the iteration variables are per iteration
	var keep []*types.Var
	for _, m := range mods {
		isIter := false
		for _, e := range []ast.Expr{x.Key, x.Value} {
			if id, ok := e.(*ast.Ident); ok && x.Tok == token.DEFINE && g.info().Defs[id] == m {
				isIter = true
			}
		}
		if !isIter {
			keep = append(keep, m)
		}
	}
	if x.Tok == token.ASSIGN {
		g.fail(x.Pos(), "range with assignment")
	}
	auto := []Clause{{Name: "range", Text: fmt.Sprintf("0 <= %s <= %s.len", it, rng)}}
	c := g.comp(el)
	g.loop(x, keep, comps, []string{it}, auto, func() string { return fmt.Sprintf("%s < %s.len", it, rng) }, func() {
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			g.p("let mut %s: int = %s;", vname(id.Name), it)
		}
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", rng), x.Pos())
			v := fmt.Sprintf("h.%s[%s.blk][%s.off + %s]", c, rng, rng, it)
			if c == "mem" {
				v = "(" + v + " as int)"
			}
			g.p("let mut %s: %s = %s;", vname(id.Name), g.vtype(el), v)
			g.wf("h", vname(id.Name), el)
		}
		g.block(x.Body.List, 0)
	}, func() { g.p("%s = %s + 1;", it, it) })
}
