package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// extern describes a function outside of the repository: trusted contract.
type extern struct {
	comps   []string
	modRecv bool
	modArgs []int
	// emit gets the receiver place (if any), and the argument values
	emit func(g *Gen, c *ast.CallExpr, recv string, setRecv func(string), args []string, set []func(string)) []string
}

func one(s string) []string { return []string{s} }

func bigGet(n int) extern {
	return extern{emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		s := g.bind(a[0], "Sl")
		g.oblig("bounds", fmt.Sprintf("%s.len >= %d", s, n), c.Pos())
		g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
		r := g.t()
		g.p("let %s: int = be%d(h.mem[%s.blk], %s.off);", r, n*8, s, s)
		return one(r)
	}}
}

func bigPut(n int) extern {
	return extern{comps: []string{"mem"}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		s := g.bind(a[0], "Sl")
		v := g.bind(a[1], "int")
		g.oblig("bounds", fmt.Sprintf("%s.len >= %d", s, n), c.Pos())
		g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
		g.p("h = z_put%d(h, %s, %s);", n*8, s, v)
		return nil
	}}
}

// proofCall emits a call of a trusted function of the prelude that returns
// (Heap, results...) or the results alone.
func proofCall(name string, heap bool, rts ...string) func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
	return func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		for i := range a {
			if strings.HasPrefix(a[i], "@") {
				a[i] = "0int"
			}
		}
		args := append([]string{"h"}, a...)
		if g.checking() {
			o := &Obl{ID: len(g.obls), Fn: g.cur.Key, Kind: "call:" + name, Pos: g.posStr(c.Pos()), Text: name, Line: g.line + 1, N: 1}
			g.obls = append(g.obls, o)
		}
		t := g.t()
		n := len(rts)
		if heap {
			n++
		}
		if n == 0 {
			g.p("%s(%s);", name, strings.Join(args, ", "))
			return nil
		}
		g.p("let %s = %s(%s);", t, name, strings.Join(args, ", "))
		var out []string
		if heap {
			if n == 1 {
				g.p("h = %s;", t)
			} else {
				g.p("h = %s.0;", t)
			}
		}
		for i, rt := range rts {
			r := g.t()
			k := i
			if heap {
				k++
			}
			if n == 1 {
				g.p("let %s: %s = %s;", r, rt, t)
			} else {
				g.p("let %s: %s = %s.%d;", r, rt, t, k)
			}
			if rt == "Sl" {
				g.p("assume(z_wf_mem(h, %s));", r)
			}
			out = append(out, r)
		}
		return out
	}
}

var externs map[string]extern

func init() {
	const fs = "(*github.com/roy2220/fsm.FileStorage)."
	const be = "(encoding/binary.bigEndian)."
	externs = map[string]extern{
		be + "Uint32":    bigGet(4),
		be + "Uint64":    bigGet(8),
		be + "PutUint32": bigPut(4),
		be + "PutUint64": bigPut(8),
		"encoding/binary.PutUvarint": {comps: []string{"mem"}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			s, v := g.bind(a[0], "Sl"), g.bind(a[1], "int")
			g.oblig("bounds", fmt.Sprintf("%s.len >= uvenc(%s).len()", s, v), c.Pos())
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
			g.p("h = z_wr_mem(h, %s, uvenc(%s));", s, v)
			return one(fmt.Sprintf("(uvenc(%s).len() as int)", v))
		}},
		"encoding/binary.Uvarint": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			s := g.bind(a[0], "Sl")
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
			t := g.t()
			g.p("let %s: Seq<u8> = z_seq_mem(h, %s);", t, s)
			v, n := g.t(), g.t()
			g.p("let %s: int = uvdec(%s).0;", v, t)
			g.p("let %s: int = uvdec(%s).1;", n, t)
			return []string{v, n}
		}},
		"bytes.Compare": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			x, y := g.bind(a[0], "Sl"), g.bind(a[1], "Sl")
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s) && z_valid(h, %s)", x, y), c.Pos())
			t := g.t()
			g.p("let %s: int = lexcmp(z_seq_mem(h, %s), z_seq_mem(h, %s));", t, x, y)
			return one(t)
		}},
		"bytes.Equal": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			x, y := g.bind(a[0], "Sl"), g.bind(a[1], "Sl")
			g.oblig("stale", fmt.Sprintf("(%s.len == 0 || z_valid(h, %s)) && (%s.len == 0 || z_valid(h, %s))", x, x, y, y), c.Pos())
			t := g.t()
			g.p("let %s: bool = (z_seq_mem(h, %s) =~= z_seq_mem(h, %s));", t, x, y)
			return one(t)
		}},
		"hash/fnv.New64a": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one("Seq::<u8>::empty()")
		}},
		"(io.Writer).Write": {modRecv: true, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			s := g.bind(a[0], "Sl")
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
			sr(fmt.Sprintf("%s + z_seq_mem(h, %s)", recv, s))
			return []string{s + ".len", "0int"}
		}},
		"(hash.Hash64).Sum64": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one(fmt.Sprintf("fnv64a(%s)", recv))
		}},
		"bytes.NewBuffer": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one(fmt.Sprintf("z_seq_mem(h, %s)", g.bind(a[0], "Sl")))
		}},
		"(*bytes.Buffer).Len": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one(fmt.Sprintf("(%s.len() as int)", recv))
		}},
		"(*bytes.Buffer).Bytes": {comps: []string{"mem", "nxt"}, emit: bufBytes},
		"bytes.NewReader": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			s := g.bind(a[0], "Sl")
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
			return one(fmt.Sprintf("z_seq_mem(h, %s)", s))
		}},
		"encoding/binary.Write": {modArgs: []int{0}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			vt := g.vtype(g.typeOf(c.Args[2]))
			set[0](fmt.Sprintf("%s + enc_%s(%s)", a[0], strings.TrimPrefix(vt, "T_"), a[2]))
			return one("0int")
		}},
		"encoding/binary.Read": {modArgs: []int{0, 2}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			n := strings.TrimPrefix(g.vtype(g.typeOf(c.Args[2])), "T_")
			t := g.t()
			g.p("let %s: Seq<u8> = %s;", t, a[0])
			set[2](fmt.Sprintf("dec_%s(%s)", n, t))
			return one(fmt.Sprintf("(if %s.len() >= enc_size_%s() { 0int } else { 1int })", t, n))
		}},
		"github.com/gogo/protobuf/proto.NewBuffer": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			s := g.bind(a[0], "Sl")
			g.oblig("stale", fmt.Sprintf("z_valid(h, %s)", s), c.Pos())
			return one(fmt.Sprintf("z_seq_mem(h, %s)", s))
		}},
		"(*github.com/gogo/protobuf/proto.Buffer).EncodeMessage": {modRecv: true, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			n := strings.TrimPrefix(g.vtype(g.typeOf(c.Args[0])), "T_")
			sr(fmt.Sprintf("%s + encmsg_%s(%s)", recv, n, a[0]))
			return one("0int")
		}},
		"(*github.com/gogo/protobuf/proto.Buffer).DecodeMessage": {modRecv: true, modArgs: []int{0}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			n := strings.TrimPrefix(g.vtype(g.typeOf(c.Args[0])), "T_")
			t := g.t()
			g.p("let %s: Seq<u8> = %s;", t, recv)
			set[0](fmt.Sprintf("decmsg_%s(%s).0", n, t))
			return one(fmt.Sprintf("decmsg_%s(%s).1", n, t))
		}},
		"(*github.com/gogo/protobuf/proto.Buffer).Bytes": {comps: []string{"mem", "nxt"}, emit: bufBytes},

		fs + "AllocateSpace":        {comps: []string{"mem", "fs"}, emit: proofCall("fsm_AllocateSpace", true, "int", "Sl")},
		fs + "AllocateAlignedSpace": {comps: []string{"mem", "fs"}, emit: proofCall("fsm_AllocateAlignedSpace", true, "int", "Sl")},
		fs + "FreeSpace":            {comps: []string{"fs"}, emit: fsmFree("fsm_FreeSpace", "sp")},
		fs + "FreeAlignedSpace":     {comps: []string{"fs"}, emit: fsmFree("fsm_FreeAlignedSpace", "al")},
		fs + "AccessSpace":          {emit: fsmAccess("sp")},
		fs + "AccessAlignedSpace":   {emit: fsmAccess("al")},
		fs + "PrimarySpace": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one("h.prim")
		}},
		fs + "SetPrimarySpace": {comps: []string{"prim"}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			g.p("h = Heap { prim: %s, ..h };", a[0])
			return nil
		}},
		fs + "Init": {modRecv: true, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one(recv)
		}},
		fs + "Stats": {emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
			return one("fsm_stats(h)")
		}},
		fs + "Open":  {comps: []string{"mem", "fs", "prim"}, emit: proofCall("fsm_Open", true, "int")},
		fs + "Close": {comps: []string{"mem", "fs", "prim"}, emit: proofCall("fsm_Close", true, "int")},
	}
	const pb = "(*github.com/roy2220/plainkv/hashmap/internal/protocol.HashSlot)."
	externs[pb+"Size"] = extern{emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		return one(fmt.Sprintf("(enc_slot(z_slotinfos(h, %s), z_seq_mem(h, %s.Bin)).len() as int)", recv, recv))
	}}
	externs[pb+"MarshalTo"] = extern{comps: []string{"mem"}, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		s := g.bind(a[0], "Sl")
		t := g.t()
		g.oblig("stale", fmt.Sprintf("z_valid(h, %s) && (%s.Bin.len == 0 || z_valid(h, %s.Bin))", s, recv, recv), c.Pos())
		g.p("let %s: Seq<u8> = enc_slot(z_slotinfos(h, %s), z_seq_mem(h, %s.Bin));", t, recv, recv)
		g.oblig("bounds", fmt.Sprintf("%s.len >= %s.len()", s, t), c.Pos())
		g.p("h = z_wr_mem(h, %s, %s);", s, t)
		return []string{fmt.Sprintf("(%s.len() as int)", t), "0int"}
	}}
	externs[pb+"Unmarshal"] = extern{comps: []string{"c_HashItemInfo", "nxt"}, modRecv: true, emit: func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
		r := proofCall("pb_SlotUnmarshal", true, "T_HashSlot", "int")(g, c, recv, sr, append([]string{recv}, a...), set)
		sr(r[0])
		g.p("assume(z_wf_c_HashItemInfo(h, %s.ItemInfos) && z_wf_mem(h, %s.Bin));", r[0], r[0])
		return one(r[1])
	}}
}

func bufBytes(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, set []func(string)) []string {
	r := g.t()
	g.p("let %s: Sl = Sl { blk: h.nxt, off: 0, len: %s.len() as int, cap: %s.len() as int, ep: 0 };", r, recv, recv)
	g.p("h = z_new_mem(h, %s);", recv)
	return one(r)
}

func fsmAccess(set string) func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, st []func(string)) []string {
	return func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, st []func(string)) []string {
		v := g.bind(a[0], "int")
		g.oblig("live", fmt.Sprintf("h.%s.contains(%s)", set, v), c.Pos())
		r := g.t()
		g.p("let %s: Sl = z_access(h, %s);", r, v)
		return one(r)
	}
}

func fsmFree(name, set string) func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, st []func(string)) []string {
	return func(g *Gen, c *ast.CallExpr, recv string, sr func(string), a []string, st []func(string)) []string {
		v := g.bind(a[0], "int")
		g.oblig("live", fmt.Sprintf("h.%s.contains(%s)", set, v), c.Pos())
		g.p("h = %s(h, %s);", name, v)
		return nil
	}
}

// ---- calls -----------------------------------------------------------------

// call translates a call. At the top level of a function under contract,
// contract code may refer to the heap right after the call and to its result
// as hret_NAME and ret_NAME (ret_NAME_2 for the second call of that name).
func (g *Gen) call(c *ast.CallExpr) []string {
	k := g.callNo[c]
	if !g.fr.top || k == 0 {
		return g.call0(c)
	}
	name := callName(c)
	g.anchors("call", name, k, "prior")
	r := g.call0(c)
	sfx := name
	if k > 1 {
		sfx = fmt.Sprintf("%s_%d", name, k)
	}
	if g.cur.mentions("hret_" + sfx) {
		g.p("let hret_%s = h;", sfx)
	}
	if len(r) > 0 && g.cur.mentions("ret_"+sfx) {
		g.p("let ret_%s = %s;", sfx, r[0])
	}
	g.anchors("call", name, k, "result")
	return r
}

func callName(c *ast.CallExpr) string {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		return f.Name
	case *ast.SelectorExpr:
		return f.Sel.Name
	}
	return ""
}

// mentions says whether the ghost code of a contract uses an identifier.
func (c *Contract) mentions(id string) bool {
	re := regexp.MustCompile(`\b` + regexp.QuoteMeta(id) + `\b`)
	for _, a := range c.Anchors {
		if re.MatchString(a.Code) {
			return true
		}
	}
	for _, l := range c.Loops {
		for _, i := range l.Inv {
			if re.MatchString(i.Text) {
				return true
			}
		}
	}
	return false
}

func (g *Gen) call0(c *ast.CallExpr) []string {
	info := g.info()
	if info.Types[c.Fun].IsType() {
		to := info.TypeOf(c)
		from := info.TypeOf(c.Args[0])
		if isNil(g, c.Args[0]) {
			return one(g.zero(to))
		}
		v := g.ex(c.Args[0])
		if g.vtype(to) == "Frac" {
			if g.vtype(from) == "Frac" {
				return one(v)
			}
			return one(fmt.Sprintf("Frac { n: %s, d: 1 }", v))
		}
		if g.vtype(to) == "Iface" {
			return one(g.convTo(v, from, to))
		}
		if g.vtype(from) != g.vtype(to) {
			g.fail(c.Pos(), "conversion from %s to %s", from, to)
		}
		if g.vtype(to) == "int" {
			return one(g.convInt(v, from, to))
		}
		return one(v)
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return g.builtin(b.Name(), c)
		}
	}
	f := calleeOf(info, c)
	if f == nil {
		g.fail(c.Pos(), "dynamic call")
	}
	sig := f.Type().(*types.Signature)
	var recvE ast.Expr
	if sel, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && sig.Recv() != nil {
		recvE = sel.X
	}
	if x, ok := externs[f.FullName()]; ok {
		recv := ""
		var setR func(string)
		if recvE != nil {
			if x.modRecv {
				lv := g.lvalueEmb(c)
				recv, setR = lv.get(), lv.set
			} else {
				recv = g.ex(recvE)
			}
		}
		var args []string
		sets := make([]func(string), len(c.Args))
		for i, a := range c.Args {
			m := false
			for _, k := range x.modArgs {
				if k == i {
					m = true
				}
			}
			if m {
				if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
					a = u.X
				}
				lv := g.lvalue(a)
				args = append(args, lv.get())
				sets[i] = lv.set
				continue
			}
			if isStringy(g, a) {
				args = append(args, "0int")
				continue
			}
			v := g.ex(a)
			for _, l := range c.Args[i+1:] {
				if hasCall(l) {
					v = g.bind(v, g.vtype(g.typeOf(a)))
					break
				}
			}
			args = append(args, v)
		}
		return x.emit(g, c, recv, setR, args, sets)
	}
	callee := g.prog.Fns[f.FullName()]
	if callee == nil {
		g.fail(c.Pos(), "call of %s", f.FullName())
	}
	// evaluate the arguments
	ps := allParams(sig)
	var argE []ast.Expr
	if sig.Recv() != nil {
		argE = append(argE, recvE)
	}
	argE = append(argE, c.Args...)
	if sig.Variadic() || len(argE) != len(ps) {
		g.fail(c.Pos(), "argument list")
	}
	vals := make([]string, len(ps))
	sets := make([]func(string), len(ps))
	lvs := make([]func() string, len(ps))
	ce := g.fnEff(callee)
	for i, pv := range ps {
		isRecv := sig.Recv() != nil && i == 0
		pt := g.vtype(pv.Type())
		_, ptr := pv.Type().Underlying().(*types.Pointer)
		a := argE[i]
		if ptr && ce.objs[pv] && pt != "int" {
			var lv lval
			if isRecv {
				lv = g.lvalueEmb2(c, a)
			} else if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
				if _, isLit := unparen(u.X).(*ast.CompositeLit); isLit {
					v := g.ex(u.X)
					lv = lval{func() string { return v }, func(string) {}}
				} else {
					lv = g.lvalue(u.X)
				}
			} else if _, ok := unparen(a).(*ast.CallExpr); ok {
				v := g.ex(a)
				lv = lval{func() string { return v }, func(string) {}}
			} else {
				lv = g.lvalue(a)
			}
			// the pointer is evaluated here, what it points to is read by the callee
			lvs[i] = lv.get
			vals[i] = g.bind(lv.get(), pt)
			sets[i] = lv.set
			continue
		}
		if ptr && pt != "int" && !isNil(g, a) && !hasCall(a) {
			lvs[i] = func() string {
				var v string
				if isRecv {
					v = g.recvVal(c, a)
				} else {
					g.argPtr = true
					v = g.ex(a)
					g.argPtr = false
				}
				return g.convTo(v, g.typeOf(a), pv.Type())
			}
		}
		var v string
		if isRecv {
			v = g.recvVal(c, a)
		} else if isNil(g, a) {
			v = g.zero(pv.Type())
		} else {
			g.argPtr = ptr
			v = g.ex(a)
			g.argPtr = false
		}
		v = g.convTo(v, g.typeOf(a), pv.Type())
		vals[i] = g.bind(v, pt)
	}
	for i, a := range argE {
		if !hasCall(a) {
			continue
		}
		for j := 0; j < i; j++ {
			if lvs[j] != nil {
				vals[j] = g.bind(lvs[j](), g.vtype(ps[j].Type()))
				lvs[j] = nil
			}
		}
	}
	if ct := g.cs.Fns[callee.Key]; ct != nil {
		return g.contractCall(c, callee, ct, vals, sets)
	}
	for _, s := range g.stack {
		if s == callee {
			g.fail(c.Pos(), "recursive call of %s without a contract", callee.Key)
		}
	}
	if len(g.stack) > 12 {
		g.fail(c.Pos(), "inlining too deep")
	}
	return g.inline(callee, ps, vals, sets)
}

func isStringy(g *Gen, e ast.Expr) bool {
	t := g.typeOf(e)
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// recvVal evaluates a receiver, walking through embedded fields.
func (g *Gen) recvVal(c *ast.CallExpr, a ast.Expr) string {
	sel := unparen(c.Fun).(*ast.SelectorExpr)
	s := g.info().Selections[sel]
	v := g.ex(a)
	if s != nil && len(s.Index()) > 1 {
		t := s.Recv()
		for _, i := range s.Index()[:len(s.Index())-1] {
			g.structOf(t)
			if d, ok := deref(t); ok {
				t = d
			}
			f := t.Underlying().(*types.Struct).Field(i)
			v += "." + f.Name()
			t = f.Type()
		}
	}
	return v
}

func (g *Gen) lvalueEmb(c *ast.CallExpr) lval {
	sel := unparen(c.Fun).(*ast.SelectorExpr)
	return g.lvalueEmb2(c, sel.X)
}

// lvalueEmb2: the place of a pointer receiver, through embedded fields.
func (g *Gen) lvalueEmb2(c *ast.CallExpr, a ast.Expr) lval {
	sel := unparen(c.Fun).(*ast.SelectorExpr)
	s := g.info().Selections[sel]
	if _, _, _, _, _, ok := g.placeQuiet(a); !ok {
		// a fresh value such as new(T)
		v := g.bind(g.ex(a), g.vtype(g.typeOf(a)))
		return lval{func() string { return v }, func(string) {}}
	}
	local, comp, blk, idx, path, _ := g.place(a)
	if s != nil && len(s.Index()) > 1 {
		t := s.Recv()
		for _, i := range s.Index()[:len(s.Index())-1] {
			sd := g.structOf(t)
			if d, ok := deref(t); ok {
				t = d
			}
			f := t.Underlying().(*types.Struct).Field(i)
			path = append(append([]fieldStep{}, path...), fieldStep{sd, f.Name()})
			t = f.Type()
		}
	}
	if local != "" {
		return lval{func() string { return local + pathStr(path) }, func(v string) { g.p("%s = %s;", local, upd(local, path, v)) }}
	}
	el := fmt.Sprintf("h.%s[%s][%s]", comp, blk, idx)
	return lval{func() string { return el + pathStr(path) }, func(v string) {
		g.p("h = z_set_%s(h, %s, %s, %s);", comp, blk, idx, upd(el, path, v))
	}}
}

func (g *Gen) contractCall(c *ast.CallExpr, callee *Fn, ct *Contract, vals []string, sets []func(string)) []string {
	s := g.sigOf(callee, ct)
	n := 0
	for _, r := range ct.Requires {
		if g.wants(r.Props) {
			n++
		}
	}
	stub := "F_"
	if g.weak() {
		stub = "N_"
	} else if !g.checking() {
		stub = "G_"
	}
	if n > 0 && g.checking() {
		o := &Obl{ID: len(g.obls), Fn: g.cur.Key, Kind: "call:" + ct.Key, Pos: g.posStr(c.Pos()), Text: ct.Key, Line: g.line + 1, N: n}
		g.obls = append(g.obls, o)
	}
	g.recursion(c, callee, ct, s, vals)
	t := g.t()
	g.p("let %s = %s%s(%s);", t, stub, mangle(ct.Key), strings.Join(append([]string{"h"}, vals...), ", "))
	k := 0
	total := len(s.retTypes())
	nth := func() string {
		r := fmt.Sprintf("%s.%d", t, k)
		if total == 1 {
			r = t
		}
		k++
		return r
	}
	if s.heap {
		g.p("h = %s;", nth())
		g.p("assume(z_heap_ok(h));")
	}
	for _, i := range s.modPtr {
		v := nth()
		w := g.t()
		g.p("let %s: %s = %s;", w, s.ptypes[i], v)
		g.wf("h", w, s.vars[i].Type())
		if sets[i] == nil {
			g.fail(c.Pos(), "%s modifies %s, which is not a pointer the caller passes", ct.Key, s.params[i])
		}
		sets[i](w)
	}
	var out []string
	for i := range s.results {
		r := g.t()
		g.p("let %s: %s = %s;", r, s.rtypes[i], nth())
		g.wf("h", r, s.rgo[i])
		out = append(out, r)
	}
	return out
}

// recursion obliges the measure of a function that leads back here to be
// below that of the caller.
func (g *Gen) recursion(c *ast.CallExpr, callee *Fn, ct *Contract, s *sigInfo, vals []string) {
	if !g.leadsTo(callee.Key, g.cur.Key) {
		return
	}
	if ct.Dec == "" || g.cur.Dec == "" {
		if g.sel < 0 {
			g.noTerm = append(g.noTerm, fmt.Sprintf("%s: the call of %s at %s", g.cur.Key, ct.Key, g.posStr(c.Pos())))
		}
		return
	}
	var b strings.Builder
	b.WriteString("({ ")
	for i, p := range s.params {
		fmt.Fprintf(&b, "let z_m%d = %s; ", i, vals[i])
		_ = p
	}
	for i, p := range s.params {
		fmt.Fprintf(&b, "let %s = z_m%d; ", p, i)
	}
	b.WriteString(oneLine(ct.Dec) + " })")
	g.oblig("recursion:"+ct.Key, fmt.Sprintf("0 <= %s && %s < z_dec0", b.String(), b.String()), c.Pos())
}

// leadsTo: a calls b, directly or not.
func (g *Gen) leadsTo(a, b string) bool {
	if g.reach == nil {
		g.reach = map[string]map[string]bool{}
	}
	m := g.reach[a]
	if m == nil {
		m = map[string]bool{}
		todo := []string{a}
		for len(todo) > 0 {
			k := todo[0]
			todo = todo[1:]
			if fn := g.prog.ByKey[k]; fn != nil {
				for _, n := range callsOf(g.prog, fn) {
					if !m[n] {
						m[n] = true
						todo = append(todo, n)
					}
				}
			}
		}
		m[a] = true
		g.reach[a] = m
	}
	return m[b]
}

// inline emits the body of a helper that has no contract.
func (g *Gen) inline(callee *Fn, ps []*types.Var, vals []string, sets []func(string)) []string {
	sig := callee.Obj.Type().(*types.Signature)
	fr := &frame{fn: callee}
	for i := 0; i < sig.Results().Len(); i++ {
		r := g.t()
		rt := g.vtype(sig.Results().At(i).Type())
		g.p("let mut %s: %s = %s;", r, rt, g.zeroV(rt))
		fr.res = append(fr.res, r)
	}
	outs := make([]string, len(ps))
	for i := range ps {
		if sets[i] != nil {
			outs[i] = g.t()
			g.p("let mut %s: %s = %s;", outs[i], g.vtype(ps[i].Type()), vals[i])
		}
	}
	saved := g.fr
	g.p("{ // %s", callee.Key)
	g.ind++
	fr.ret = fmt.Sprintf("z_ret%d", g.line)
	g.p("let mut %s: bool = false;", fr.ret)
	// a single return at the end needs no flag
	g.fr = fr
	for i, v := range ps {
		g.p("let mut %s: %s = %s;", paramName(v, i), g.vtype(v.Type()), vals[i])
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rv := sig.Results().At(i)
		if rv.Name() != "" && rv.Name() != "_" {
			fr.named = append(fr.named, rv)
			g.p("let mut %s: %s = %s;", vname(rv.Name()), g.vtype(rv.Type()), g.zero(rv.Type()))
		}
	}
	g.stack = append(g.stack, callee)
	g.block(callee.Decl.Body.List, 0)
	g.stack = g.stack[:len(g.stack)-1]
	for i, v := range ps {
		if outs[i] != "" {
			g.p("%s = %s;", outs[i], paramName(v, i))
		}
	}
	g.fr = saved
	g.ind--
	g.p("}")
	for i := range ps {
		if outs[i] != "" {
			sets[i](outs[i])
		}
	}
	return fr.res
}

func (g *Gen) builtin(name string, c *ast.CallExpr) []string {
	switch name {
	case "len":
		if isStringy(g, c.Args[0]) {
			g.fail(c.Pos(), "len of a string")
		}
		return one("(" + g.ex(c.Args[0]) + ").len")
	case "cap":
		return one("(" + g.ex(c.Args[0]) + ").cap")
	case "copy":
		if isStringy(g, c.Args[1]) {
			g.fail(c.Pos(), "copy from a string")
		}
		vs := g.exprs(c.Args, 2)
		d, s := g.bind(vs[0], "Sl"), g.bind(vs[1], "Sl")
		k := g.comp(elemOf(g.typeOf(c.Args[0])))
		g.oblig("stale", fmt.Sprintf("z_min(%s.len, %s.len) == 0 || (z_valid(h, %s) && z_valid(h, %s))", d, s, d, s), c.Pos())
		g.p("h = z_copy_%s(h, %s, %s);", k, d, s)
		return one(fmt.Sprintf("z_min(%s.len, %s.len)", d, s))
	case "append":
		el := elemOf(g.typeOf(c))
		k := g.comp(el)
		var vs []string
		if len(c.Args) == 1 {
			return one(g.ex(c.Args[0]))
		}
		vs = g.exprs(c.Args, len(c.Args))
		s := g.bind(vs[0], "Sl")
		xs := vs[1:]
		if c.Ellipsis.IsValid() {
			if isStringy(g, c.Args[1]) {
				g.fail(c.Pos(), "append of a string")
			}
			x := g.bind(xs[0], "Sl")
			g.oblig("stale", fmt.Sprintf("%s.len == 0 || z_valid(h, %s) && (%s.len == 0 || z_valid(h, %s))", x, x, s, s), c.Pos())
			cp, t, r := g.t(), g.t(), g.t()
			g.p("let %s: int = havoc();", cp)
			g.p("assume(%s >= %s.len + %s.len);", cp, s, x)
			g.p("let %s = z_app_%s(h, %s, z_seq_%s(h, %s), %s);", t, k, s, k, x, cp)
			g.p("h = %s.0;", t)
			g.p("let %s: Sl = %s.1;", r, t)
			g.p("assume(%s.cap < 0x1_0000_0000_0000);", r)
			return one(r)
		}
		if k == "mem" {
			for i := range xs {
				xs[i] = "(" + xs[i] + ") as u8"
			}
		}
		cp := g.t()
		g.p("let %s: int = havoc();", cp)
		g.p("assume(%s >= %s.len + %d);", cp, s, len(xs))
		g.oblig("stale", fmt.Sprintf("%s.len == 0 || z_valid(h, %s)", s, s), c.Pos())
		t := g.t()
		g.p("let %s = z_app_%s(h, %s, seq![%s], %s);", t, k, s, strings.Join(xs, ", "), cp)
		r := g.t()
		g.p("h = %s.0;", t)
		g.p("let %s: Sl = %s.1;", r, t)
		g.p("assume(%s.cap < 0x1_0000_0000_0000);", r)
		return one(r)
	case "make":
		t := g.typeOf(c)
		el := elemOf(t)
		if el == nil {
			g.fail(c.Pos(), "make of %s", t)
		}
		k := g.comp(el)
		n := g.bind(g.ex(c.Args[1]), "int")
		cp := n
		if len(c.Args) == 3 {
			cp = g.bind(g.ex(c.Args[2]), "int")
		}
		g.oblig("bounds", fmt.Sprintf("0 <= %s <= %s", n, cp), c.Pos())
		r := g.t()
		g.p("let %s: Sl = Sl { blk: h.nxt, off: 0, len: %s, cap: %s, ep: 0 };", r, n, cp)
		g.p("h = z_new_%s(h, z_fill_%s(%s));", k, k, cp)
		// an allocation that succeeds is smaller than the address space
		g.p("assume(%s.cap < 0x1_0000_0000_0000);", r)
		return one(r)
	case "new":
		return one(g.zero(g.typeOf(c.Args[0])))
	case "panic":
		g.oblig("panic", "false", c.Pos())
		g.p("assume(false);")
		return nil
	}
	g.fail(c.Pos(), "builtin %s", name)
	return nil
}
