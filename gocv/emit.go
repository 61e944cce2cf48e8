package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// Obl is one proof obligation emitted into the Verus text.
type Obl struct {
	ID   int
	Fn   string
	Kind string
	Pos  string
	Text string
	Line int // line in the generated file
	N    int // number of obligations behind the line (clauses of a call)
}

func (o *Obl) Name() string { return fmt.Sprintf("%s/%s@%s", o.Fn, o.Kind, o.Pos) }

// Gen is the translator.
type Gen struct {
	noTerm      []string // loops and calls without a measure
	reach       map[string]map[string]bool
	prog        *Prog
	cs          *Contracts
	prop        string // property whose obligations are checked ("" = all)
	structs     map[string]*structDef
	structOrder []string
	comps       map[string]string
	ifaces      map[string]bool
	elemPtr     map[types.Object]bool
	guessed     map[string]string
	argPtr      bool // the operand is an argument the callee only reads
	effMemo     map[*Fn]*eff

	out  strings.Builder
	line int
	ind  int
	obls []*Obl

	tmp       int
	cur       *Contract // contract of the body being emitted
	curFn     *Fn
	subst     map[string]string
	callNo    map[*ast.CallExpr]int
	assignNo  map[ast.Stmt]map[string]int
	loopNo    map[ast.Stmt]int
	fr        *frame
	stack     []*Fn
	assumes   int
	errs      []string
	region    int
	sel       int
	rlScale   int
	cuts      []cut // of the function being emitted
	open      []int // the cuts whose block is not closed yet
	ncut      int
	frameOnly bool // stubs state the frame condition only
	depth     int
}

// frame is one function being emitted: the one under contract or an inlined
// helper.
type frame struct {
	fn     *Fn
	top    bool
	res    []string // result temps (inlined)
	ret    string   // flag set by an inlined return
	loops  []*loopFrame
	elem   map[types.Object]bool
	params []*types.Var
	named  []*types.Var
	sub    map[types.Object]string
}

type loopFrame struct {
	brk, cont string
	usedB     bool
}

func (g *Gen) p(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, l := range strings.Split(s, "\n") {
		g.out.WriteString(strings.Repeat("    ", g.ind))
		g.out.WriteString(l)
		g.out.WriteString("\n")
		g.line++
	}
}

func (g *Gen) t() string { g.tmp++; return fmt.Sprintf("t%d", g.tmp) }

// bind gives a value a name so that later effects do not change it.
func (g *Gen) bind(v, vt string) string {
	if isAtom(v) {
		return v
	}
	n := g.t()
	g.p("let %s: %s = %s;", n, vt, v)
	return n
}

func isAtom(v string) bool {
	if strings.HasPrefix(v, "t") {
		ok := len(v) > 1
		for _, r := range v[1:] {
			if r < '0' || r > '9' {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	if strings.HasSuffix(v, "int") && len(v) > 3 {
		for _, r := range v[:len(v)-3] {
			if r < '0' || r > '9' {
				return false
			}
		}
		return true
	}
	return v == "true" || v == "false"
}

var kindProps = map[string][]string{
	"stale":   {"C08"},
	"live":    {"C08", "C09"},
	"isolate": {"C11"},
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func (g *Gen) wants(props []string) bool {
	return g.prop == "" || len(props) == 0 || has(props, g.prop)
}

// oblig emits a proof obligation, or an assumption when the obligation
// belongs to another property's check.
func (g *Gen) oblig(kind, f string, pos token.Pos, props ...string) {
	if props == nil {
		props = kindProps[kind]
	}
	if !g.wants(props) || !g.checking() {
		if !g.weak() {
			g.p("assume(%s);", oneLine(f))
		}
		return
	}
	o := &Obl{ID: len(g.obls), Fn: g.cur.Key, Kind: kind, Pos: g.posStr(pos), Text: oneLine(f), Line: g.line + 1, N: 1}
	g.obls = append(g.obls, o)
	g.p("assert(%s);", oneLine(f))
}

func oneLine(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		out = append(out, strings.TrimSpace(l))
	}
	return strings.Join(out, " ")
}

func (g *Gen) wf(h, x string, t types.Type) {
	for _, f := range g.wfOf(h, x, t, 0) {
		g.p("assume(%s);", f)
	}
}

func (g *Gen) info() *types.Info { return g.fr.fn.Pkg.Info }

func (g *Gen) typeOf(e ast.Expr) types.Type { return g.info().TypeOf(e) }

// ---- effects ---------------------------------------------------------------

type eff struct {
	objs  map[types.Object]bool
	comps map[string]bool
}

func newEff() *eff { return &eff{map[types.Object]bool{}, map[string]bool{}} }

func (a *eff) add(b *eff) {
	for k := range b.objs {
		a.objs[k] = true
	}
	for k := range b.comps {
		a.comps[k] = true
	}
}

var modNames = map[string][]string{
	"mem":   {"mem"},
	"alloc": {"nxt"},
	"fs":    {"ep", "sp", "al"},
	"prim":  {"prim"},
}

func (g *Gen) contractComps(c *Contract) map[string]bool {
	m := map[string]bool{}
	for _, w := range c.Modifies {
		if l, ok := modNames[w]; ok {
			for _, x := range l {
				m[x] = true
			}
		} else if strings.HasPrefix(w, "c_") {
			m[w] = true
		} else if w == "heap" {
			for _, x := range g.allComps() {
				m[x] = true
			}
		}
	}
	return m
}

func (g *Gen) allComps() []string {
	out := []string{"mem", "nxt", "ep", "sp", "al", "prim"}
	m := map[string]bool{}
	for c := range g.comps {
		m[c] = true
	}
	return append(out, sortedKeys(m)...)
}

// effOf computes what a piece of code may change.
func (g *Gen) effOf(fn *Fn, n ast.Node) *eff {
	e := newEff()
	info := fn.Pkg.Info
	obj := func(id *ast.Ident) types.Object {
		if o := info.Uses[id]; o != nil {
			return o
		}
		return info.Defs[id]
	}
	var target func(x ast.Expr, define bool)
	target = func(x ast.Expr, define bool) {
		switch y := x.(type) {
		case *ast.Ident:
			if y.Name == "_" {
				return
			}
			if o := info.Uses[y]; o != nil {
				e.objs[o] = true
			}
		case *ast.ParenExpr:
			target(y.X, define)
		case *ast.StarExpr:
			if id := rootIdent(y.X); id != nil {
				if o := obj(id); g.elemPtr[o] {
					e.comps[g.comp(o.Type().Underlying().(*types.Pointer).Elem())] = true
				} else {
					e.objs[o] = true
				}
			}
		case *ast.SelectorExpr:
			base := y.X
			for {
				if s, ok := base.(*ast.SelectorExpr); ok {
					base = s.X
					continue
				}
				if s, ok := base.(*ast.ParenExpr); ok {
					base = s.X
					continue
				}
				if s, ok := base.(*ast.StarExpr); ok {
					base = s.X
					continue
				}
				break
			}
			switch b := base.(type) {
			case *ast.Ident:
				o := obj(b)
				if o == nil {
					return
				}
				if g.elemPtr[o] {
					e.comps[g.comp(o.Type().Underlying().(*types.Pointer).Elem())] = true
				} else {
					e.objs[o] = true
				}
			case *ast.IndexExpr:
				if el := elemOf(info.TypeOf(b.X)); el != nil {
					e.comps[g.comp(el)] = true
				}
			}
		case *ast.IndexExpr:
			t := info.TypeOf(y.X)
			if d, ok := deref(t); ok {
				t = d
			}
			if el := elemOf(t); el != nil {
				e.comps[g.comp(el)] = true
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch s := m.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				target(l, s.Tok == token.DEFINE)
			}
		case *ast.IncDecStmt:
			target(s.X, false)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					target(s.Key, false)
				}
				if s.Value != nil {
					target(s.Value, false)
				}
			}
		case *ast.CompositeLit:
			if el := elemOf(info.TypeOf(s)); el != nil {
				e.comps[g.comp(el)] = true
				e.comps["nxt"] = true
			}
		case *ast.CallExpr:
			if info.Types[s.Fun].IsType() {
				return true
			}
			if id, ok := unparen(s.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "copy":
						e.comps[g.comp(elemOf(info.TypeOf(s.Args[0])))] = true
					case "append", "make":
						if el := elemOf(info.TypeOf(s)); el != nil {
							e.comps[g.comp(el)] = true
							e.comps["nxt"] = true
						}
					}
					return true
				}
			}
			f := calleeOf(info, s)
			if f == nil {
				g.fail(s.Pos(), "dynamic call")
			}
			if x, ok := externs[f.FullName()]; ok {
				for _, c := range x.comps {
					for _, d := range expandComp(c) {
						e.comps[d] = true
					}
				}
				if x.modRecv {
					if sel, ok := unparen(s.Fun).(*ast.SelectorExpr); ok {
						target(sel.X, false)
					}
				}
				for _, i := range x.modArgs {
					a := s.Args[i]
					if u, ok := a.(*ast.UnaryExpr); ok {
						a = u.X
					}
					target(a, false)
				}
				return true
			}
			callee := g.prog.Fns[f.FullName()]
			if callee == nil {
				g.fail(s.Pos(), "call of %s", f.FullName())
			}
			ce := g.fnEff(callee)
			for c := range ce.comps {
				e.comps[c] = true
			}
			sig := f.Type().(*types.Signature)
			if sig.Recv() != nil && ce.objs[sig.Recv()] {
				if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
					if sel, ok := unparen(s.Fun).(*ast.SelectorExpr); ok {
						target2(target, sel.X)
					}
				}
			}
			for i := 0; i < sig.Params().Len() && i < len(s.Args); i++ {
				pv := sig.Params().At(i)
				if _, ok := pv.Type().Underlying().(*types.Pointer); ok && ce.objs[pv] {
					target2(target, s.Args[i])
				}
			}
		}
		return true
	})
	return e
}

// target2 marks what a pointer argument points to.
func target2(target func(ast.Expr, bool), a ast.Expr) {
	switch x := unparen(a).(type) {
	case *ast.UnaryExpr:
		target(x.X, false)
	case *ast.Ident:
		// a pointer variable: writing through it
		target(&ast.StarExpr{X: x}, false)
	case *ast.SelectorExpr:
		target(x, false)
	}
}

func expandComp(c string) []string {
	if l, ok := modNames[c]; ok {
		return l
	}
	return []string{c}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func calleeOf(info *types.Info, c *ast.CallExpr) *types.Func {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		o, _ := info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		if s := info.Selections[f]; s != nil {
			o, _ := s.Obj().(*types.Func)
			return o
		}
		o, _ := info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// fnEff: the effects of calling a function (objs: its pointer parameters).
func (g *Gen) fnEff(fn *Fn) *eff {
	if e := g.effMemo[fn]; e != nil {
		return e
	}
	e := newEff()
	g.effMemo[fn] = e // recursion: bottom
	sig := fn.Obj.Type().(*types.Signature)
	if c := g.cs.Fns[fn.Key]; c != nil {
		e.comps = g.contractComps(c)
		ps := allParams(sig)
		for i, n := range c.Params {
			if i < len(ps) && has(c.Modifies, n) {
				e.objs[ps[i]] = true
			}
		}
		return e
	}
	b := g.effOf(fn, fn.Decl.Body)
	for c := range b.comps {
		e.comps[c] = true
	}
	for _, pv := range allParams(sig) {
		if _, ok := pv.Type().Underlying().(*types.Pointer); ok && b.objs[pv] {
			e.objs[pv] = true
		}
	}
	return e
}

func allParams(sig *types.Signature) []*types.Var {
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return ps
}

// ---- functions -------------------------------------------------------------

func mangle(key string) string { return strings.ReplaceAll(key, ".", "_") }

func paramName(v *types.Var, i int) string {
	if v.Name() == "" || v.Name() == "_" {
		return fmt.Sprintf("arg%d", i)
	}
	return vname(v.Name())
}

type sigInfo struct {
	params  []string // contract names
	ptypes  []string
	vars    []*types.Var
	modPtr  []int // indices of pointer parameters that are returned
	heap    bool
	results []string
	rtypes  []string
	rgo     []types.Type
}

func (g *Gen) sigOf(fn *Fn, c *Contract) *sigInfo {
	sig := fn.Obj.Type().(*types.Signature)
	s := &sigInfo{vars: allParams(sig)}
	if len(c.Params) != len(s.vars) {
		g.fail(fn.Decl.Pos(), "contract of %s names %d parameters, the function has %d", c.Key, len(c.Params), len(s.vars))
	}
	for i, v := range s.vars {
		s.params = append(s.params, vname(c.Params[i]))
		s.ptypes = append(s.ptypes, g.vtype(v.Type()))
		if has(c.Modifies, c.Params[i]) {
			s.modPtr = append(s.modPtr, i)
		}
	}
	s.heap = len(g.contractComps(c)) > 0
	for i := 0; i < sig.Results().Len(); i++ {
		n := "res"
		if i < len(c.Results) {
			n = c.Results[i]
		} else if i > 0 {
			n = fmt.Sprintf("res%d", i+1)
		}
		s.results = append(s.results, vname(n))
		s.rtypes = append(s.rtypes, g.vtype(sig.Results().At(i).Type()))
		s.rgo = append(s.rgo, sig.Results().At(i).Type())
	}
	return s
}

func (s *sigInfo) retTypes() []string {
	var r []string
	if s.heap {
		r = append(r, "Heap")
	}
	for _, i := range s.modPtr {
		r = append(r, s.ptypes[i])
	}
	return append(r, s.rtypes...)
}

func (s *sigInfo) retNames() []string {
	var r []string
	if s.heap {
		r = append(r, "h")
	}
	for _, i := range s.modPtr {
		r = append(r, s.params[i])
	}
	return append(r, s.results...)
}

func tup(xs []string) string {
	if len(xs) == 1 {
		return xs[0]
	}
	return "(" + strings.Join(xs, ", ") + ")"
}

// header emits the signature with requires and ensures; it returns the
// number of ensures clauses that are checked.
func (g *Gen) header(fn *Fn, c *Contract, stub, pre bool) int {
	s := g.sigOf(fn, c)
	ps := []string{"h0: Heap"}
	for i := range s.params {
		ps = append(ps, fmt.Sprintf("%s0: %s", s.params[i], s.ptypes[i]))
	}
	name := "B_"
	suffix := ""
	if stub {
		name = "F_"
		if !pre {
			name = "G_"
		}
		if g.frameOnly {
			name = "N_"
		}
		g.p("#[verifier::external_body]")
	} else {
		if g.sel == probeSel {
			suffix = "__probe"
		} else if g.sel > 0 {
			suffix = fmt.Sprintf("__%d", g.sel)
		}
		g.p("#[verifier::spinoff_prover]")
		rl := c.Rlimit
		if rl == "" {
			rl = "30"
		}
		if g.sel == probeSel {
			rl = "3"
		}
		if n, err := strconv.Atoi(rl); err == nil && g.rlScale > 1 {
			rl = fmt.Sprint(n * g.rlScale)
		}
		g.p("#[verifier::rlimit(%s)]", rl)
		for _, a := range c.Attrs {
			g.p("%s", a)
		}
	}
	g.p("pub proof fn %s%s%s(%s) -> (r: %s)", name, mangle(c.Key), suffix, strings.Join(ps, ", "), tup(s.retTypes()))
	g.ind++
	// requires
	inBind := "let h = h0;"
	for _, n := range s.params {
		inBind += fmt.Sprintf(" let %s = %s0;", n, n)
	}
	g.p("requires")
	g.ind++
	for i, cl := range c.Requires {
		if stub && (!g.wants(cl.Props) || !pre) {
			continue
		}
		o := fmt.Sprintf("({ %s %s }),", inBind, oneLine(cl.Text))
		if stub {
			// one obligation per call; counted at the call
			_ = i
		}
		g.p("%s", o)
	}
	g.p("true,")
	g.ind--
	// ensures
	outBind := "let h = h0;"
	for _, n := range s.params {
		outBind += fmt.Sprintf(" let %s = %s0;", n, n)
	}
	names := s.retNames()
	if len(names) == 1 {
		outBind += fmt.Sprintf(" let %s = r;", names[0])
	} else {
		for i, n := range names {
			outBind += fmt.Sprintf(" let %s = r.%d;", n, i)
		}
	}
	g.p("ensures")
	g.ind++
	n := 0
	emit := func(text, kind string, props []string) {
		if !stub && !g.wants(props) {
			return
		}
		if !stub {
			o := &Obl{ID: len(g.obls), Fn: c.Key, Kind: "post:" + kind, Pos: g.posStr(fn.Decl.Pos()), Text: text, Line: g.line + 1, N: 1}
			if g.sel > 0 {
				o.N = 0
			}
			g.obls = append(g.obls, o)
			n++
		}
		g.p("({ %s %s }),", outBind, text)
	}
	if s.heap {
		mods := g.contractComps(c)
		fr := ""
		for _, x := range g.allComps() {
			if !mods[x] {
				fr += fmt.Sprintf(" && h.%s == h0.%s", x, x)
			}
		}
		if mods["nxt"] {
			fr += " && h.nxt >= h0.nxt"
		}
		if mods["ep"] {
			fr += " && h.ep >= h0.ep"
		}
		if fr != "" {
			emit(strings.TrimPrefix(fr, " && "), "frame", nil)
		}
	}
	for _, cl := range c.Ensures {
		if g.frameOnly {
			break
		}
		k := cl.Name
		if k == "" {
			k = fmt.Sprintf("%d", n+1)
		}
		emit(oneLine(cl.Text), k, cl.Props)
	}
	g.p("true,")
	g.ind--
	g.ind--
	return n
}

// Stub emits the contract of a function as callers see it.
func (g *Gen) Stub(c *Contract, pre bool) {
	fn := g.prog.ByKey[c.Key]
	g.cur, g.curFn = c, fn
	g.header(fn, c, true, pre)
	g.p("{ unimplemented!() }")
}

// arity of a specification function of the contracts' own text.
func (g *Gen) arity(name string) int {
	re := regexp.MustCompile(`spec fn ` + regexp.QuoteMeta(name) + `\(([^)]*)\)`)
	for _, f := range g.cs.Prelude {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if m := re.FindStringSubmatch(string(b)); m != nil {
			return len(splitTop(m[1], ','))
		}
	}
	return -1
}

// weakStub is what slices behind a cut know of the calls before it.
func (g *Gen) weakStub(c *Contract) {
	g.frameOnly = true
	g.Stub(c, false)
	g.frameOnly = false
}

// Body emits one slice of the function under contract (slice < 0: all of it)
// and returns the number of its regions.
func (g *Gen) Body(c *Contract, sel int) int {
	g.sel, g.region = sel, 0
	if sel < 0 || sel == probeSel {
		g.cuts = nil
	}
	g.open, g.ncut, g.depth = nil, 0, 0
	fn := g.prog.ByKey[c.Key]
	g.cur, g.curFn = c, fn
	g.tmp = 0
	g.number(fn)
	g.subst = g.localSubst(fn, c)
	for _, a := range c.Anchors {
		a.used = false
	}
	g.header(fn, c, false, true)
	s := g.sigOf(fn, c)
	g.fr = &frame{fn: fn, top: true}
	g.stack = []*Fn{fn}
	g.p("{")
	g.ind++
	for _, x := range c.Hide {
		g.p("hide(%s);", x)
	}
	for _, x := range c.Hide {
		// the verifier wants what is hidden to be mentioned
		if n := g.arity(x); n >= 0 {
			g.p("if false { let z_hid = %s(%s); }", x, strings.TrimSuffix(strings.Repeat("arbitrary(), ", n), ", "))
		}
	}
	g.p("broadcast use {%s};", strings.Join(append([]string{"group_gocv"}, c.Use...), ", "))
	g.p("let mut h = h0;")
	g.p("assume(z_heap_ok(h));")
	for i, v := range s.vars {
		n := paramName(v, i)
		g.p("let mut %s: %s = %s0;", n, s.ptypes[i], s.params[i])
		g.wf("h", n, v.Type())
		if n != s.params[i] {
			// contract texts use the contract's names for entry values
			g.subst[s.params[i]] = n
		}
	}
	if c.Dec != "" {
		g.p("let z_dec0: int = %s;", oneLine(substIdents(c.Dec, g.subst)))
	}
	sig := fn.Obj.Type().(*types.Signature)
	for i := 0; i < sig.Results().Len(); i++ {
		rv := sig.Results().At(i)
		if rv.Name() != "" && rv.Name() != "_" {
			g.fr.named = append(g.fr.named, rv)
			g.p("let mut %s: %s = %s;", vname(rv.Name()), g.vtype(rv.Type()), g.zero(rv.Type()))
		}
	}
	g.ghostClash(fn, c, s)
	g.anchors("entry", "", 0, "")
	g.block(fn.Decl.Body.List, 0)
	if l := fn.Decl.Body.List; !terminates(l) {
		g.retTop(nil, fn.Decl.Body.Rbrace)
	} else if _, ok := l[len(l)-1].(*ast.ReturnStmt); !ok {
		// the end is not reached
		g.p("return arbitrary();")
	}
	g.ind--
	g.p("}")
	for _, a := range c.Anchors {
		if !a.used {
			g.errs = append(g.errs, fmt.Sprintf("%s: anchor at %s %s#%d %s not found", c.Key, a.Where, a.Name, a.K, a.Pos))
		}
	}
	return g.region + 1
}

// ghostClash rejects ghost variables that would shadow variables of the source.
func (g *Gen) ghostClash(fn *Fn, c *Contract, s *sigInfo) {
	src := map[string]bool{"h": true, "h0": true}
	for _, l := range localsOf(fn) {
		src[vname(l[0])] = true
	}
	for i, v := range s.vars {
		src[paramName(v, i)] = true
	}
	for _, a := range c.Anchors {
		for _, st := range ghostStmts(a.Code) {
			f := strings.Fields(st)
			if len(f) < 2 || f[0] != "let" {
				continue
			}
			if f[1] == "mut" {
				f = f[1:]
			}
			if n := strings.TrimRight(f[1], ":;="); src[n] {
				g.errs = append(g.errs, fmt.Sprintf("%s: ghost variable %s would shadow a variable of the source", c.Key, n))
			}
		}
	}
}

// localSubst maps local names a contract uses to the names the source uses
// now, when locals were renamed (same types in the same order).
func (g *Gen) localSubst(fn *Fn, c *Contract) map[string]string {
	m := map[string]string{}
	if fp := shape.Locals[c.Key]; fp != nil {
		now := localsOf(fn)
		same := len(now) == len(fp)
		for i := 0; same && i < len(now); i++ {
			same = now[i][1] == fp[i][1]
		}
		if same {
			for i := range now {
				if now[i][0] != fp[i][0] {
					m[vname(fp[i][0])] = vname(now[i][0])
				}
			}
			return m
		}
		// locals came or went as well: only what is certain
		was, is := map[string]string{}, map[string]string{}
		for _, l := range fp {
			was[l[0]] = l[1]
		}
		for _, l := range now {
			is[l[0]] = l[1]
		}
		gone, fresh := map[string]string{}, map[string]string{}
		for n, t := range was {
			if _, ok := is[n]; !ok {
				gone[n] = t
			}
		}
		for n, t := range is {
			if _, ok := was[n]; !ok {
				fresh[n] = t
			}
		}
		for n, o := range match(gone, fresh) {
			m[vname(o)] = vname(n)
			g.cur = c
			g.guess("its local " + o + " is gone")
		}
	}
	return m
}

// localsOf lists the locals of a function (not parameters) in source order.
func localsOf(fn *Fn) [][2]string {
	var out [][2]string
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := fn.Pkg.Info.Defs[id].(*types.Var); ok && !v.IsField() {
				out = append(out, [2]string{id.Name, types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })})
			}
		}
		return true
	})
	return out
}

func (g *Gen) guess(why string) {
	if g.guessed == nil {
		g.guessed = map[string]string{}
	}
	g.guessed[g.cur.Key] = why
}

func (g *Gen) number(fn *Fn) {
	g.callNo = map[*ast.CallExpr]int{}
	g.assignNo = map[ast.Stmt]map[string]int{}
	g.loopNo = map[ast.Stmt]int{}
	cnt := map[string]int{}
	ac := map[string]int{}
	loops := 0
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.CallExpr:
			name := ""
			switch f := unparen(s.Fun).(type) {
			case *ast.Ident:
				name = f.Name
			case *ast.SelectorExpr:
				name = f.Sel.Name
			}
			cnt[name]++
			g.callNo[s] = cnt[name]
		case *ast.AssignStmt:
			m := map[string]int{}
			for _, l := range s.Lhs {
				nm := ""
				switch x := l.(type) {
				case *ast.Ident:
					nm = x.Name
				case *ast.SelectorExpr:
					nm = x.Sel.Name
				}
				if nm != "" && nm != "_" {
					ac[nm]++
					m[nm] = ac[nm]
				}
			}
			g.assignNo[s] = m
		case *ast.IncDecStmt:
			nm := ""
			switch x := s.X.(type) {
			case *ast.Ident:
				nm = x.Name
			case *ast.SelectorExpr:
				nm = x.Sel.Name
			}
			ac[nm]++
			g.assignNo[s] = map[string]int{nm: ac[nm]}
		case *ast.ForStmt, *ast.RangeStmt:
			loops++
			g.loopNo[n.(ast.Stmt)] = loops
		}
		return true
	})
}

func (g *Gen) anchors(where, name string, k int, pos string) {
	if !g.fr.top {
		return
	}
	for _, a := range g.cur.Anchors {
		if a.Where == where && a.Name == name && a.Pos == pos && (a.K == k || where == "entry" || where == "exit") {
			a.used = true
			g.ghost(a.Code)
		}
	}
}

// ghost emits contract code; its assertions are obligations.
func (g *Gen) ghost(code string) {
	code = substIdents(code, g.subst)
	sts := ghostStmts(code)
	for i, st := range sts {
		if st == "split;" {
			g.nextRegion()
			continue
		}
		if st == "cut;" {
			g.newCut()
			continue
		}
		if !g.checking() {
			if g.weak() && !strings.HasPrefix(st, "let ") && !(strings.HasPrefix(st, "assert") && g.kept(sts[i:])) {
				continue
			}
			if a := assumed(st); a != "" {
				g.p("%s", a)
			}
			continue
		}
		for _, l := range strings.Split(st, "\n") {
			if strings.Contains(l, "assert") {
				o := &Obl{ID: len(g.obls), Fn: g.cur.Key, Kind: "ghost", Pos: g.cur.File, Text: l, Line: g.line + 1, N: 1}
				g.obls = append(g.obls, o)
			}
			g.p("%s", l)
		}
	}
}

// stmtAnchors runs the anchors attached to calls and assignments of a statement.
var lintAnchors = os.Getenv("GOCV_LINT") != ""

func (g *Gen) stmtAnchors(s ast.Stmt, pos string) {
	if !g.fr.top {
		return
	}
	if m := g.assignNo[s]; m != nil {
		for n, k := range m {
			g.anchors("assign", n, k, pos)
		}
	}
	var roots []ast.Node
	switch x := s.(type) {
	case *ast.ForStmt:
		if x.Init != nil && pos == "before" {
			roots = append(roots, x.Init)
		}
	case *ast.RangeStmt:
		roots = append(roots, x.X)
	case *ast.IfStmt:
		if x.Init != nil {
			roots = append(roots, x.Init)
		}
		roots = append(roots, x.Cond)
	case *ast.BlockStmt, *ast.SwitchStmt:
	default:
		roots = append(roots, s)
	}
	for _, r := range roots {
		ast.Inspect(r, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				name := ""
				switch f := unparen(c.Fun).(type) {
				case *ast.Ident:
					name = f.Name
				case *ast.SelectorExpr:
					name = f.Sel.Name
				}
				if lintAnchors && pos == "after" {
					for _, a := range g.cur.Anchors {
						if a.Where == "call" && a.Name == name && a.Pos == pos && a.K == g.callNo[c] {
							top := false
							switch x := s.(type) {
							case *ast.ExprStmt:
								top = unparen(x.X) == ast.Expr(c)
							case *ast.AssignStmt:
								top = len(x.Rhs) == 1 && unparen(x.Rhs[0]) == ast.Expr(c)
							}
							if !top {
								fmt.Fprintf(os.Stderr, "LINT %s %s#%d %s\n", g.cur.Key, name, a.K, pos)
							}
						}
					}
				}
				g.anchors("call", name, g.callNo[c], pos)
			}
			return true
		})
	}
}
