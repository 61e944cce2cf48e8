package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func hasCall(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "int" || id.Name == "int32" || id.Name == "int64") {
				return true
			}
			f = true
		}
		return true
	})
	return f
}

// exprs evaluates a list left to right; a single multi-value call is expanded.
func (g *Gen) exprs(es []ast.Expr, n int) []string {
	if len(es) == 1 && n > 1 {
		c, ok := unparen(es[0]).(*ast.CallExpr)
		if !ok {
			g.fail(es[0].Pos(), "multi-value expression")
		}
		return g.call(c)
	}
	var out []string
	for i, e := range es {
		v := g.ex(e)
		later := false
		for _, l := range es[i+1:] {
			if hasCall(l) {
				later = true
			}
		}
		if later {
			v = g.bind(v, g.vtype(g.typeOf(e)))
		}
		out = append(out, v)
	}
	return out
}

// cond evaluates a boolean.
func (g *Gen) cond(e ast.Expr) string { return g.ex(e) }

type lval struct {
	get func() string
	set func(v string)
}

type fieldStep struct {
	st   *structDef
	name string
}

// place resolves an addressable expression to a local variable or an element
// of a heap block, and a path of fields.
func (g *Gen) place(e ast.Expr) (local, comp, blk, idx string, path []fieldStep, ok bool) {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		o := g.objOf(x)
		if g.elemPtr[o] {
			t := o.Type().Underlying().(*types.Pointer).Elem()
			n := vname(x.Name)
			return "", g.comp(t), n + ".blk", n + ".idx", nil, true
		}
		if v, isv := o.(*types.Var); isv && v.Parent() != v.Pkg().Scope() {
			return vname(x.Name), "", "", "", nil, true
		}
	case *ast.StarExpr:
		return g.place(x.X)
	case *ast.SelectorExpr:
		sel := g.info().Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return
		}
		local, comp, blk, idx, path, ok = g.place(x.X)
		if !ok {
			return
		}
		path = append(append([]fieldStep{}, path...), g.steps(sel)...)
		return
	case *ast.IndexExpr:
		t := g.typeOf(x.X)
		if d, isp := deref(t); isp {
			t = d
		}
		el := elemOf(t)
		if el == nil {
			return
		}
		s := g.bind(g.ex(x.X), "Sl")
		i := g.bind(g.ex(x.Index), "int")
		g.oblig("bounds", fmt.Sprintf("0 <= %s < %s.len", i, s), x.Pos())
		g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), x.Pos())
		return "", g.comp(el), s + ".blk", fmt.Sprintf("%s.off + %s", s, i), nil, true
	}
	return
}

// steps lists the fields a selection walks through (embedded ones included).
func (g *Gen) steps(sel *types.Selection) []fieldStep {
	var out []fieldStep
	t := sel.Recv()
	for _, i := range sel.Index() {
		sd := g.structOf(t)
		if sd == nil {
			g.fail(token.NoPos, "selection in %s", t)
		}
		if d, ok := deref(t); ok {
			t = d
		}
		st := t.Underlying().(*types.Struct)
		f := st.Field(i)
		out = append(out, fieldStep{sd, f.Name()})
		t = f.Type()
	}
	return out
}

func (g *Gen) objOf(id *ast.Ident) types.Object {
	if o := g.info().Uses[id]; o != nil {
		return o
	}
	return g.info().Defs[id]
}

func pathStr(p []fieldStep) string {
	s := ""
	for _, f := range p {
		s += "." + f.name
	}
	return s
}

// upd builds the value base with the field at path replaced.
func upd(base string, path []fieldStep, v string) string {
	if len(path) == 0 {
		return v
	}
	f := path[0]
	if len(f.st.fields) == 1 {
		return fmt.Sprintf("%s { %s: %s }", f.st.name, f.name, upd(base+"."+f.name, path[1:], v))
	}
	return fmt.Sprintf("%s { %s: %s, ..%s }", f.st.name, f.name, upd(base+"."+f.name, path[1:], v), base)
}

func (g *Gen) lvalue(e ast.Expr) lval {
	local, comp, blk, idx, path, ok := g.place(e)
	if !ok {
		g.fail(e.Pos(), "assignment target")
	}
	if local != "" {
		return lval{func() string { return local + pathStr(path) }, func(v string) {
			if len(path) == 0 {
				g.p("%s = %s;", local, v)
			} else {
				g.p("%s = %s;", local, upd(local, path, v))
			}
		}}
	}
	el := fmt.Sprintf("h.%s[%s][%s]", comp, blk, idx)
	return lval{func() string {
		if comp == "mem" {
			return "(" + el + " as int)"
		}
		return el + pathStr(path)
	}, func(v string) {
		if comp == "mem" {
			g.p("h = z_set_mem(h, %s, %s, (%s) as u8);", blk, idx, v)
			return
		}
		g.p("h = z_set_%s(h, %s, %s, %s);", comp, blk, idx, upd(el, path, v))
	}}
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

func (g *Gen) arith(op, a, b string, t types.Type, pos token.Pos) string {
	if g.vtype(t) == "Frac" {
		if op == "/" {
			g.oblig("div", fmt.Sprintf("(%s).n > 0", b), pos)
			return fmt.Sprintf("z_fdiv(%s, %s)", a, b)
		}
		g.fail(pos, "float %s", op)
	}
	if g.vtype(t) != "int" {
		g.fail(pos, "arithmetic on %s", t)
	}
	var v string
	switch op {
	case "+", "-", "*":
		v = fmt.Sprintf("(%s %s %s)", a, op, b)
	case "/":
		g.oblig("div", fmt.Sprintf("%s != 0", b), pos)
		v = fmt.Sprintf("z_div(%s, %s)", a, b)
	case "%":
		g.oblig("div", fmt.Sprintf("%s != 0", b), pos)
		v = fmt.Sprintf("z_mod(%s, %s)", a, b)
	case "<<":
		return g.wrapT(fmt.Sprintf("z_shl(%s, %s)", a, b), t)
	case ">>":
		return fmt.Sprintf("z_shr(%s, %s)", a, b)
	case "&":
		return fmt.Sprintf("z_and(%s, %s)", a, b)
	case "|":
		return fmt.Sprintf("z_or(%s, %s)", a, b)
	case "^":
		return fmt.Sprintf("z_xor(%s, %s)", a, b)
	case "&^":
		return fmt.Sprintf("z_andnot(%s, %s)", a, b)
	default:
		g.fail(pos, "operator %s", op)
	}
	return g.wrapT(v, t)
}

// wrapT: unsigned arithmetic wraps; signed arithmetic is mathematical.
func (g *Gen) wrapT(v string, t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint64, types.Uint, types.Uintptr:
			return fmt.Sprintf("z_u64(%s)", v)
		case types.Uint32:
			return fmt.Sprintf("z_u32(%s)", v)
		case types.Uint8:
			return fmt.Sprintf("z_u8(%s)", v)
		case types.Int32:
			return fmt.Sprintf("z_i32(%s)", v)
		}
	}
	return v
}

// convInt converts an integer value to another integer type.
func (g *Gen) convInt(v string, from, to types.Type) string {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || fb.Kind() == tb.Kind() || fb.Info()&types.IsUntyped != 0 {
		return v
	}
	switch tb.Kind() {
	case types.Int, types.Int64:
		switch fb.Kind() {
		case types.Uint64, types.Uint, types.Uintptr:
			return fmt.Sprintf("z_i64(%s)", v)
		}
		return v
	case types.Uint64, types.Uint, types.Uintptr:
		switch fb.Kind() {
		case types.Uint64, types.Uint, types.Uintptr, types.Uint32, types.Uint16, types.Uint8:
			return v
		}
		return fmt.Sprintf("z_u64(%s)", v)
	case types.Uint32:
		return fmt.Sprintf("z_u32(%s)", v)
	case types.Int32:
		return fmt.Sprintf("z_i32(%s)", v)
	case types.Int8:
		return fmt.Sprintf("z_i8(%s)", v)
	case types.Uint8:
		return fmt.Sprintf("z_u8(%s)", v)
	}
	g.fail(token.NoPos, "conversion to %s", to)
	return ""
}

func (g *Gen) ex(e ast.Expr) string {
	e = unparen(e)
	if tv, ok := g.info().Types[e]; ok && tv.Value != nil {
		return g.constVal(tv, e.Pos())
	}
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "nil" {
			t := g.typeOf(e)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				// the context decides; slices are the only use besides errors
				return "z_nil()"
			}
			return g.zero(t)
		}
		o := g.objOf(x)
		if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
			return g.global(v, x.Pos())
		}
		if g.elemPtr[o] {
			t := o.Type().Underlying().(*types.Pointer).Elem()
			return fmt.Sprintf("h.%s[%s.blk][%s.idx]", g.comp(t), vname(x.Name), vname(x.Name))
		}
		return vname(x.Name)
	case *ast.SelectorExpr:
		if sel := g.info().Selections[x]; sel != nil {
			if sel.Kind() != types.FieldVal {
				g.fail(x.Pos(), "method value")
			}
			if local, comp, _, _, _, ok := g.placeQuiet(x); ok {
				if local != "" || comp != "" {
					lv := g.lvalue(x)
					v := lv.get()
					if local == "" {
						v = g.bind(v, g.vtype(g.typeOf(x)))
						g.wf("h", v, g.typeOf(x))
					}
					return v
				}
			}
			base := g.ex(x.X)
			v := base + pathStr(g.steps(sel))
			return v
		}
		if v, ok := g.info().Uses[x.Sel].(*types.Var); ok {
			return g.global(v, x.Pos())
		}
	case *ast.StarExpr:
		return g.ex(x.X)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "!(" + g.ex(x.X) + ")"
		case token.SUB:
			return "(-" + g.ex(x.X) + ")"
		case token.AND:
			// owned value
			if _, ok := unparen(x.X).(*ast.IndexExpr); ok {
				if !g.argPtr {
					g.fail(x.Pos(), "address of an element")
				}
				g.argPtr = false
			}
			return g.ex(x.X)
		case token.XOR:
			return g.wrapT(fmt.Sprintf("(-1 - %s)", g.ex(x.X)), g.typeOf(x))
		}
	case *ast.BinaryExpr:
		return g.binary(x)
	case *ast.IndexExpr:
		lv := g.lvalue(x)
		v := g.bind(lv.get(), g.vtype(g.typeOf(x)))
		g.wf("h", v, g.typeOf(x))
		return v
	case *ast.SliceExpr:
		return g.slice(x)
	case *ast.CompositeLit:
		return g.composite(x)
	case *ast.CallExpr:
		r := g.call(x)
		if len(r) != 1 {
			g.fail(x.Pos(), "call with %d results as a value", len(r))
		}
		return r[0]
	}
	g.fail(e.Pos(), "expression %T", e)
	return ""
}

// placeQuiet is place without evaluating anything: it only classifies.
func (g *Gen) placeQuiet(e ast.Expr) (local, comp, blk, idx string, path []fieldStep, ok bool) {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return g.place(x)
	case *ast.StarExpr:
		return g.placeQuiet(x.X)
	case *ast.SelectorExpr:
		sel := g.info().Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return
		}
		local, comp, blk, idx, path, ok = g.placeQuiet(x.X)
		return
	case *ast.IndexExpr:
		return "", "x", "", "", nil, true
	}
	return
}

func (g *Gen) global(v *types.Var, pos token.Pos) string {
	full := v.Pkg().Path() + "." + v.Name()
	switch full {
	case "encoding/binary.BigEndian":
		return "0int"
	}
	if g.prog.Assigned[full] {
		g.fail(pos, "package variable %s is assigned", v.Name())
	}
	if g.vtype(v.Type()) == "int" {
		return "z_g_" + v.Pkg().Name() + "_" + v.Name() + "()"
	}
	if g.vtype(v.Type()) == "Sl" {
		return "z_g_" + v.Name() + "()"
	}
	g.fail(pos, "package variable %s", v.Name())
	return ""
}

func (g *Gen) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		a := g.ex(x.X)
		// does the right side need statements of its own?
		save := g.out.String()
		saveLine, saveTmp, nob := g.line, g.tmp, len(g.obls)
		b := g.ex(x.Y)
		if g.line == saveLine {
			op := "&&"
			if x.Op == token.LOR {
				op = "||"
			}
			return fmt.Sprintf("((%s) %s (%s))", a, op, b)
		}
		g.out.Reset()
		g.out.WriteString(save)
		g.line, g.tmp, g.obls = saveLine, saveTmp, g.obls[:nob]
		t := g.t()
		g.p("let mut %s: bool = %s;", t, a)
		if x.Op == token.LAND {
			g.p("if %s {", t)
		} else {
			g.p("if !%s {", t)
		}
		g.ind++
		g.p("%s = %s;", t, g.ex(x.Y))
		g.ind--
		g.p("}")
		return t
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		if p, q := g.dataOf(x.X), g.dataOf(x.Y); p != nil && q != nil {
			vs := g.exprs([]ast.Expr{p, q}, 2)
			not := ""
			if x.Op == token.NEQ {
				not = "!"
			}
			return fmt.Sprintf("%sz_same_data(%s, %s)", not, vs[0], vs[1])
		}
	}
	lt, rt := g.typeOf(x.X), g.typeOf(x.Y)
	vs := g.exprs([]ast.Expr{x.X, x.Y}, 2)
	a, b := vs[0], vs[1]
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op.String()
		if isNil(g, x.Y) || isNil(g, x.X) {
			ot := lt
			v := a
			if isNil(g, x.X) {
				ot, v = rt, b
			}
			switch g.vtype(ot) {
			case "Sl":
				return fmt.Sprintf("(%s.blk %s 0)", v, op)
			case "int":
				return fmt.Sprintf("(%s %s 0)", v, op)
			}
			g.fail(x.Pos(), "comparison with nil")
		}
		if g.vtype(lt) == "Frac" || g.vtype(rt) == "Frac" {
			return fmt.Sprintf("z_fcmp(%s, %s) %s 0", a, b, op)
		}
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	}
	return g.arith(x.Op.String(), a, b, g.typeOf(x), x.Pos())
}

// dataOf returns the slice whose data pointer e takes, if e does just that:
// (*reflect.SliceHeader)(unsafe.Pointer(&s)).Data or unsafe.SliceData(s),
// either of them within unsafe.Pointer or uintptr conversions.
func (g *Gen) dataOf(e ast.Expr) ast.Expr {
	e = unparen(e)
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if tv, ok := g.info().Types[c.Fun]; ok && tv.IsType() {
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr) {
				return g.dataOf(c.Args[0])
			}
			return nil
		}
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && s.Sel.Name == "SliceData" {
			if o := g.info().Uses[s.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "unsafe" {
				return c.Args[0]
			}
		}
		return nil
	}
	s, ok := e.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Data" {
		return nil
	}
	c, ok := unparen(s.X).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	tv, ok := g.info().Types[c.Fun]
	if !ok || !tv.IsType() || tv.Type.String() != "*reflect.SliceHeader" {
		return nil
	}
	c, ok = unparen(c.Args[0]).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	if tv, ok := g.info().Types[c.Fun]; !ok || !tv.IsType() {
		return nil
	}
	u, ok := unparen(c.Args[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return nil
	}
	if _, ok := g.typeOf(u.X).Underlying().(*types.Slice); !ok {
		return nil
	}
	return u.X
}

func isNil(g *Gen, e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	return ok && id.Name == "nil"
}

func (g *Gen) slice(x *ast.SliceExpr) string {
	t := g.typeOf(x.X)
	if d, ok := deref(t); ok {
		t = d
	}
	if elemOf(t) == nil {
		g.fail(x.Pos(), "slice of %s", t)
	}
	s := g.bind(g.ex(x.X), "Sl")
	lo, hi := "0int", s+".len"
	if x.Low != nil {
		lo = g.bind(g.ex(x.Low), "int")
	}
	if x.High != nil {
		hi = g.bind(g.ex(x.High), "int")
	}
	if x.Max != nil {
		g.fail(x.Pos(), "full slice expression")
	}
	if x.High != nil {
		g.oblig("bounds", fmt.Sprintf("0 <= %s <= %s <= %s.cap", lo, hi, s), x.Pos())
	} else {
		g.oblig("bounds", fmt.Sprintf("0 <= %s <= %s", lo, hi), x.Pos())
	}
	r := g.t()
	g.p("let %s: Sl = z_slice(%s, %s, %s);", r, s, lo, hi)
	return r
}

func (g *Gen) composite(x *ast.CompositeLit) string {
	t := g.typeOf(x)
	if d, ok := deref(t); ok {
		t = d // elided &T in a composite
	}
	if el := elemOf(t); el != nil {
		c := g.comp(el)
		var vs []string
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				g.fail(x.Pos(), "keyed slice literal")
			}
		}
		vs = g.exprs(x.Elts, len(x.Elts))
		if c == "mem" {
			for i := range vs {
				vs[i] = "(" + vs[i] + ") as u8"
			}
		}
		et := "u8"
		if c != "mem" {
			et = g.comps[c]
		}
		r := g.t()
		g.p("let %s: Sl = Sl { blk: h.nxt, off: 0, len: %d, cap: %d, ep: 0 };", r, len(vs), len(vs))
		if len(vs) == 0 {
			g.p("h = z_new_%s(h, Seq::<%s>::empty());", c, et)
		} else {
			g.p("h = z_new_%s(h, seq![%s]);", c, strings.Join(vs, ", "))
		}
		return r
	}
	sd := g.structOf(t)
	if sd == nil {
		g.fail(x.Pos(), "composite literal of %s", t)
	}
	st := t.Underlying().(*types.Struct)
	vals := map[string]string{}
	var es []ast.Expr
	var names []string
	var fts []types.Type
	for i, e := range x.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			n := kv.Key.(*ast.Ident).Name
			names = append(names, n)
			es = append(es, kv.Value)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == n {
					fts = append(fts, st.Field(j).Type())
				}
			}
		} else {
			names = append(names, st.Field(i).Name())
			es = append(es, e)
			fts = append(fts, st.Field(i).Type())
		}
	}
	var vs []string
	for i, e := range es {
		v := ""
		if isNil(g, e) {
			v = g.zero(fts[i])
		} else {
			v = g.ex(e)
		}
		for _, l := range es[i+1:] {
			if hasCall(l) {
				v = g.bind(v, g.vtype(fts[i]))
				break
			}
		}
		vs = append(vs, v)
	}
	for i, n := range names {
		vals[n] = vs[i]
	}
	var fs []string
	for _, f := range sd.fields {
		v, ok := vals[f.name]
		if !ok {
			v = g.zeroV(f.vt)
		}
		fs = append(fs, f.name+": "+v)
	}
	return fmt.Sprintf("%s { %s }", sd.name, strings.Join(fs, ", "))
}
