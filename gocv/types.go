package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// unsupported is thrown when the source leaves the subset.
type unsupported struct {
	pos token.Pos
	msg string
}

func (g *Gen) fail(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{pos, fmt.Sprintf(f, a...)})
}

func deref(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func namedName(t types.Type) (pkg, name string) {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
		return pkg, n.Obj().Name()
	}
	return "", ""
}

func (g *Gen) inRepo(pkg string) bool { _, ok := g.prog.Pkgs[pkg]; return ok }

// opaque external types and how their values are represented
var externTypes = map[string]string{
	"github.com/roy2220/fsm.FileStorage":    "int",
	"github.com/roy2220/fsm.Stats":          "int",
	"bytes.Buffer":                          "Seq<u8>",
	"bytes.Reader":                          "Seq<u8>",
	"github.com/gogo/protobuf/proto.Buffer": "Seq<u8>",
	"hash.Hash64":                           "Seq<u8>",
	"encoding/binary.bigEndian":             "int",
}

// vtype maps a Go type to its Verus representation.
func (g *Gen) vtype(t types.Type) string {
	t = types.Unalias(t)
	if e, ok := deref(t); ok {
		// pointers to structs are owned values
		return g.vtype(e)
	}
	if p, n := namedName(t); n != "" {
		if v, ok := externTypes[p+"."+n]; ok {
			return v
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			if !g.inRepo(p) {
				g.fail(token.NoPos, "type %s.%s", p, n)
			}
			g.needStruct(t.(*types.Named))
			return "T_" + n
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if n == "error" {
				return "int"
			}
			if g.inRepo(p) {
				return "Iface"
			}
			return "int"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "Frac"
		case u.Info()&types.IsString != 0:
			return "int"
		case u.Kind() == types.UntypedNil:
			return "int"
		}
	case *types.Slice:
		return "Sl"
	case *types.Interface:
		return "int"
	}
	g.fail(token.NoPos, "type %s", t)
	return ""
}

type structDef struct {
	name   string
	fields []fieldDef
	named  *types.Named
}
type fieldDef struct {
	name string
	typ  types.Type
	vt   string
}

func (g *Gen) needStruct(n *types.Named) *structDef {
	name := "T_" + n.Obj().Name()
	if s := g.structs[name]; s != nil {
		// the same type may come from source and from export data
		if s.named.Obj().Pkg().Path() != n.Obj().Pkg().Path() {
			g.fail(token.NoPos, "two struct types named %s", name)
		}
		return s
	}
	s := &structDef{name: name, named: n}
	g.structs[name] = s
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		s.fields = append(s.fields, fieldDef{f.Name(), f.Type(), g.vtype(f.Type())})
	}
	g.structOrder = append(g.structOrder, name)
	return s
}

func (g *Gen) structOf(t types.Type) *structDef {
	t = types.Unalias(t)
	if e, ok := deref(t); ok {
		t = types.Unalias(e)
	}
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return g.needStruct(n)
		}
	}
	return nil
}

// comp is the heap component that holds the elements of a slice type.
func (g *Gen) comp(elem types.Type) string {
	switch v := g.vtype(elem); {
	case v == "int":
		if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "mem"
		}
		g.comps["c_int"] = "int"
		return "c_int"
	case v == "bool":
		g.comps["c_bool"] = "bool"
		return "c_bool"
	default:
		n := "c_" + strings.TrimPrefix(v, "T_")
		g.comps[n] = v
		return n
	}
}

func elemOf(t types.Type) types.Type {
	t = types.Unalias(t)
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (g *Gen) zero(t types.Type) string { return g.zeroV(g.vtype(t)) }

func (g *Gen) zeroV(v string) string {
	switch v {
	case "int":
		return "0int"
	case "bool":
		return "false"
	case "Sl":
		return "z_nil()"
	case "Frac":
		return "Frac{n: 0, d: 1}"
	case "Iface":
		return "Iface::Nil"
	case "Seq<u8>":
		return "Seq::<u8>::empty()"
	}
	if s := g.structs[v]; s != nil {
		return "zero_" + v + "()"
	}
	g.fail(token.NoPos, "zero of %s", v)
	return ""
}

// wfOf lists the well-formedness facts of a value of Go type t: facts every
// Go value has by the memory safety of the language.
func (g *Gen) wfOf(h, x string, t types.Type, depth int) []string {
	t = types.Unalias(t)
	if depth > 3 {
		return nil
	}
	v := g.vtype(t)
	switch {
	case v == "Sl":
		e, _ := deref(t)
		el := elemOf(e)
		return []string{fmt.Sprintf("z_wf_%s(%s, %s)", g.comp(el), h, x)}
	case v == "int":
		e, ptr := deref(t)
		if ptr {
			return nil
		}
		if b, ok := e.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint64:
				return []string{fmt.Sprintf("0 <= %s < 0x1_0000_0000_0000_0000", x)}
			case types.Uint32:
				return []string{fmt.Sprintf("0 <= %s < 0x1_0000_0000", x)}
			case types.Uint8:
				return []string{fmt.Sprintf("0 <= %s < 256", x)}
			case types.Int32:
				return []string{fmt.Sprintf("-0x8000_0000 <= %s < 0x8000_0000", x)}
			case types.Int8:
				return []string{fmt.Sprintf("-128 <= %s < 128", x)}
			case types.Int64, types.Int:
				return []string{fmt.Sprintf("z_i64ok(%s)", x)}
			}
		}
	case strings.HasPrefix(v, "T_"):
		var out []string
		for _, f := range g.structs[v].fields {
			out = append(out, g.wfOf(h, x+"."+f.name, f.typ, depth+1)...)
		}
		return out
	}
	return nil
}

func (g *Gen) constVal(tv types.TypeAndValue, pos token.Pos) string {
	switch tv.Value.Kind() {
	case constant.Bool:
		return fmt.Sprint(constant.BoolVal(tv.Value))
	case constant.Int:
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			break
		}
		s := tv.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + "int)"
		}
		return s + "int"
	case constant.String:
		return "0int"
	case constant.Float:
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			v := constant.ToInt(tv.Value)
			s := v.ExactString()
			if strings.HasPrefix(s, "-") {
				return "(" + s + "int)"
			}
			return s + "int"
		}
	}
	if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		// the float64 nearest to the constant, as an exact fraction
		f, _ := constant.Float64Val(constant.ToFloat(tv.Value))
		r := new(big.Rat).SetFloat64(f)
		return fmt.Sprintf("Frac{n: %sint, d: %sint}", strings.Replace(r.Num().String(), "-", "-", 1), r.Denom().String())
	}
	g.fail(pos, "constant %v", tv.Value)
	return ""
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// genTypes emits the struct declarations and the heap.
func (g *Gen) genTypes() string {
	var b strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	p("pub struct Heap {")
	p("    pub mem: IMap<int, Seq<u8>>,")
	p("    pub nxt: int, pub ep: int, pub sp: Set<int>, pub al: Set<int>, pub prim: int,")
	var comps []string
	for c := range g.comps {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	for _, c := range comps {
		p("    pub %s: IMap<int, Seq<%s>>,", c, g.comps[c])
	}
	p("}")
	ifs := sortedKeys(g.ifaces)
	p("pub enum Iface { Nil, %s }", func() string {
		s := ""
		for _, n := range ifs {
			s += fmt.Sprintf("P_%s(%s), ", strings.TrimPrefix(n, "T_"), n)
		}
		return s
	}())
	for _, n := range g.structOrder {
		s := g.structs[n]
		p("pub struct %s {", n)
		for _, f := range s.fields {
			p("    pub %s: %s,", f.name, f.vt)
		}
		p("}")
		p("pub open spec fn zero_%s() -> %s { %s {", n, n, n)
		for _, f := range s.fields {
			p("    %s: %s,", f.name, g.zeroV(f.vt))
		}
		p("} }")
		g.emitCodec(p, s)
	}
	for _, c := range append([]string{"mem"}, comps...) {
		et := "u8"
		if c != "mem" {
			et = g.comps[c]
		}
		p("pub open spec fn z_wf_%s(h: Heap, s: Sl) -> bool {", c)
		p("    &&& 0 <= s.off && 0 <= s.len <= s.cap && s.off + s.cap < 0x1_0000_0000_0000 && s.blk < h.nxt && 0 <= s.ep <= h.ep")
		p("    &&& (s.ep == 0 ==> 0 <= s.blk) && (s.ep != 0 ==> s.blk < 0)")
		p("    &&& (z_valid(h, s) ==> s.off + s.cap <= h.%s[s.blk].len())", c)
		p("}")
		// append one element; the block of a slice with spare capacity is written in place
		p("pub open spec fn z_app_%s(h: Heap, s: Sl, x: Seq<%s>, cap: int) -> (Heap, Sl) {", c, et)
		p("    if s.len + x.len() <= s.cap {")
		p("        (Heap { %s: h.%s.insert(s.blk, splice(h.%s[s.blk], s.off + s.len, x)), ..h }, Sl { len: (s.len + x.len()) as int, ..s })", c, c, c)
		p("    } else {")
		p("        (Heap { %s: h.%s.insert(h.nxt, (h.%s[s.blk].subrange(s.off, s.off + s.len) + x) + z_fill_%s(cap - s.len - x.len())), nxt: h.nxt + 1, ..h },", c, c, c, c)
		p("         Sl { blk: h.nxt, off: 0, len: (s.len + x.len()) as int, cap: cap, ep: 0 })")
		p("    }")
		p("}")
		z := "0u8"
		if c != "mem" {
			z = g.zeroV(g.comps[c])
		}
		p("pub open spec fn z_fill_%s(n: int) -> Seq<%s> { Seq::new(n as nat, |i: int| %s) }", c, et, z)
		p("pub open spec fn z_new_%s(h: Heap, x: Seq<%s>) -> Heap { Heap { %s: h.%s.insert(h.nxt, x), nxt: h.nxt + 1, ..h } }", c, et, c, c)
		p("pub open spec fn z_copy_%s(h: Heap, d: Sl, s: Sl) -> Heap {", c)
		p("    Heap { %s: h.%s.insert(d.blk, splice(h.%s[d.blk], d.off, h.%s[s.blk].subrange(s.off, s.off + z_min(d.len, s.len)))), ..h }", c, c, c, c)
		p("}")
		p("pub open spec fn z_set_%s(h: Heap, b: int, i: int, x: %s) -> Heap {", c, et)
		p("    Heap { %s: h.%s.insert(b, h.%s[b].update(i, x)), ..h }", c, c, c)
		p("}")
		p("pub open spec fn z_seq_%s(h: Heap, s: Sl) -> Seq<%s> { h.%s[s.blk].subrange(s.off, s.off + s.len) }", c, et, c)
	}
	return b.String()
}

func (g *Gen) posStr(p token.Pos) string {
	ps := g.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

var rustKw = map[string]bool{"do": true, "yield": true, "abstract": true, "final": true, "macro": true, "typeof": true, "unsized": true, "virtual": true, "become": true, "box": true, "priv": true, "override": true, "try": true, "as": true, "break": true, "const": true, "continue": true, "crate": true, "else": true, "enum": true, "extern": true, "false": true, "fn": true, "for": true, "if": true, "impl": true, "in": true, "let": true, "loop": true, "match": true, "mod": true, "move": true, "mut": true, "pub": true, "ref": true, "return": true, "self": true, "static": true, "struct": true, "super": true, "trait": true, "true": true, "type": true, "unsafe": true, "use": true, "where": true, "while": true, "int": true, "nat": true, "h": true, "h0": true, "requires": true, "ensures": true, "invariant": true, "decreases": true, "proof": true, "spec": true, "exec": true, "assert": true, "assume": true, "forall": true, "exists": true, "choose": true, "bytes": true, "len": true, "r": true, "is": true, "has": true, "global": true, "open": true, "closed": true, "ghost": true, "tracked": true, "implies": true, "via": true, "when": true, "any": true, "by": true}

func vname(n string) string {
	if rustKw[n] {
		return n + "_"
	}
	return n
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// emitCodec writes what encoding/binary makes of a struct of fixed-size integers (big endian, the
// fields in their order), and the proof that decoding gives back what was encoded.
func (g *Gen) emitCodec(p func(string, ...interface{}), s *structDef) {
	type fld struct {
		name, enc, dec string
		off, w         int
		wf             []string
	}
	if !g.prog.Coded[strings.TrimPrefix(s.name, "T_")] {
		return
	}
	var fs []fld
	off := 0
	for _, f := range s.fields {
		b, ok := types.Unalias(f.typ).Underlying().(*types.Basic)
		if !ok {
			return
		}
		x := fld{name: f.name, off: off}
		switch b.Kind() {
		case types.Int64:
			x.w, x.enc, x.dec = 8, fmt.Sprintf("enc64(z_u64(i.%s))", f.name), fmt.Sprintf("z_i64(be64(q, %d))", off)
		case types.Uint64:
			x.w, x.enc, x.dec = 8, fmt.Sprintf("enc64(i.%s)", f.name), fmt.Sprintf("be64(q, %d)", off)
		case types.Int32:
			x.w, x.enc, x.dec = 4, fmt.Sprintf("enc32(z_u32(i.%s))", f.name), fmt.Sprintf("z_i32(be32(q, %d))", off)
		case types.Uint32:
			x.w, x.enc, x.dec = 4, fmt.Sprintf("enc32(i.%s)", f.name), fmt.Sprintf("be32(q, %d)", off)
		case types.Int8:
			x.w, x.enc, x.dec = 1, fmt.Sprintf("seq![z_u8(i.%s) as u8]", f.name), fmt.Sprintf("z_i8(q[%d] as int)", off)
		case types.Uint8:
			x.w, x.enc, x.dec = 1, fmt.Sprintf("seq![i.%s as u8]", f.name), fmt.Sprintf("(q[%d] as int)", off)
		default:
			return
		}
		x.wf = g.wfOf("h", "i."+f.name, f.typ, 0)
		off += x.w
		fs = append(fs, x)
	}
	if len(fs) == 0 {
		return
	}
	n := strings.TrimPrefix(s.name, "T_")
	var encs, decs, wfs []string
	for _, f := range fs {
		encs = append(encs, f.enc)
		decs = append(decs, f.name+": "+f.dec)
		wfs = append(wfs, f.wf...)
	}
	p("pub open spec fn enc_size_%s() -> int { %d }", n, off)
	p("pub open spec fn enc_%s(i: %s) -> Seq<u8> { enc%d_%s(i) }", n, s.name, len(fs), n)
	p("pub open spec fn dec_%s(q: Seq<u8>) -> %s { %s { %s } }", n, s.name, s.name, strings.Join(decs, ", "))
	p("pub open spec fn wf_%s(i: %s) -> bool { %s }", n, s.name, strings.Join(append(wfs, "true"), " && "))
	// one field at a time: what is read back of the first k fields, whatever follows them
	p("#[verifier::opaque] pub open spec fn enc0_%s(i: %s) -> Seq<u8> { Seq::<u8>::empty() }", n, s.name)
	p("pub proof fn lem_codec0_%s(i: %s, rest: Seq<u8>) \n    ensures enc0_%s(i).len() == 0\n{ reveal(enc0_%s); }", n, s.name, n, n)
	raw := func(k int) string {
		f := fs[k]
		switch f.w {
		case 1:
			return fmt.Sprintf("(enc%%d_%s(i) + rest)[%d] == %s[0]", n, f.off, encs[k])
		}
		return fmt.Sprintf("be%d(enc%%d_%s(i) + rest, %d) == %s", 8*f.w, n, f.off, encs[k][strings.Index(encs[k], "(")+1:len(encs[k])-1])
	}
	for k, f := range fs {
		p("#[verifier::opaque] pub open spec fn enc%d_%s(i: %s) -> Seq<u8> { enc%d_%s(i) + %s }", k+1, n, s.name, k, n, encs[k])
		ens := []string{fmt.Sprintf("enc%d_%s(i).len() == %d", k+1, n, f.off+f.w)}
		for j := 0; j <= k; j++ {
			ens = append(ens, fmt.Sprintf(raw(j), k+1))
		}
		p("pub proof fn lem_codec%d_%s(i: %s, rest: Seq<u8>)", k+1, n, s.name)
		p("    requires wf_%s(i)", n)
		p("    ensures %s", strings.Join(ens, ", "))
		p("{")
		p("    hide(z_u64); hide(z_i64); hide(z_u32); hide(z_i32); hide(be64); hide(be32);")
		p("    reveal(enc%d_%s); let e = %s; lem_assoc(enc%d_%s(i), e, rest); lem_codec%d_%s(i, e + rest);", k+1, n, encs[k], k, n, k, n)
		if strings.Contains(encs[k], "z_u64(") {
			p("    lem_conv64(i.%s);", f.name)
		} else if strings.Contains(encs[k], "z_u32(") {
			p("    lem_conv32(i.%s);", f.name)
		}
		if f.w > 1 {
			v := encs[k][strings.Index(encs[k], "(")+1 : len(encs[k])-1]
			p("    b_enc%d_len(%s); lem_rd%d(enc%d_%s(i), %s, rest);", 8*f.w, v, 8*f.w, k, n, v)
		} else {
			p("    lem_rd8(enc%d_%s(i), %s[0], rest);", k, n, encs[k])
		}
		p("}")
	}
	p("pub proof fn lem_codec_%s(i: %s, rest: Seq<u8>)", n, s.name)
	p("    requires wf_%s(i)", n)
	p("    ensures enc_%s(i).len() == %d, dec_%s(enc_%s(i) + rest) == i", n, off, n, n)
	p("{")
	p("    hide(z_u64); hide(z_i64); hide(z_u32); hide(z_i32); hide(be64); hide(be32);")
	p("    lem_codec%d_%s(i, rest);", len(fs), n)
	for k, f := range fs {
		if strings.Contains(encs[k], "z_u64(") {
			p("    lem_conv64(i.%s);", f.name)
		} else if strings.Contains(encs[k], "z_u32(") {
			p("    lem_conv32(i.%s);", f.name)
		}
	}
	p("}")
}
