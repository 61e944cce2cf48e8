package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// Shape records the names of the tree the contracts were written for. A tree
// that differs by a renaming is put back under these names before anything is
// generated: names carry no behaviour. A renaming is recognised by what stays
// (the type of a field, the signature of a function, the value of a constant);
// where that leaves a doubt nothing is renamed.
type Shape struct {
	Funcs   map[string]string
	Structs map[string][][2]string
	Types   map[string]string
	Consts  map[string]string
	Locals  map[string][][2]string
	Calls   map[string][]string
	Loops   map[string][]string
	Order   map[string][]string
}

var shape Shape

func qual(p *types.Package) string { return p.Name() }

func sigStr(s *types.Signature) string {
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.TypeString(s.Params().At(i).Type(), qual))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), qual))
	}
	ptr := ""
	if r := s.Recv(); r != nil {
		if _, ok := r.Type().(*types.Pointer); ok {
			ptr = "*"
		}
	}
	return ptr + "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

func (p *Pkg) generated() bool { return p.Name == "protocol" }

// shapeOf lists the names of a tree, with the object behind each.
func shapeOf(prog *Prog) (Shape, map[string]types.Object) {
	s := Shape{Funcs: map[string]string{}, Structs: map[string][][2]string{}, Types: map[string]string{}, Consts: map[string]string{}, Locals: map[string][][2]string{}, Calls: map[string][]string{}, Loops: map[string][]string{}, Order: map[string][]string{}}
	obj := map[string]types.Object{}
	for _, p := range prog.Pkgs {
		if p.generated() {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			k := p.Name + "." + n
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				s.Types[k] = types.TypeString(o.Type().Underlying(), qual)
				obj["type "+k] = o
				if st, ok := o.Type().Underlying().(*types.Struct); ok {
					var fs [][2]string
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						fs = append(fs, [2]string{f.Name(), types.TypeString(f.Type(), qual)})
						obj["field "+k+"."+f.Name()] = f
					}
					s.Structs[k] = fs
				}
			case *types.Const:
				s.Consts[k] = types.TypeString(o.Type(), qual) + " " + o.Val().ExactString()
				obj["const "+k] = o
			}
		}
	}
	for k, fn := range prog.ByKey {
		if fn.Pkg.generated() {
			continue
		}
		s.Funcs[k] = sigStr(fn.Obj.Type().(*types.Signature))
		obj["func "+k] = fn.Obj
		s.Locals[k] = localsOf(fn)
		s.Calls[k] = callsOf(prog, fn)
		if l := orderOf(prog, fn); len(l) > 1 {
			s.Order[k] = l
		}
		if l := loopsOf(fn); len(l) > 0 {
			s.Loops[k] = l
		}
	}
	return s, obj
}

// orderOf lists the functions a function calls, in the order of the text.
func orderOf(prog *Prog, fn *Fn) []string {
	var l []string
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if f, ok := fn.Pkg.Info.Uses[id].(*types.Func); ok {
				if c := prog.Fns[f.FullName()]; c != nil {
					l = append(l, c.Key)
				} else {
					l = append(l, f.FullName())
				}
			}
		}
		return true
	})
	return l
}

// loopsOf lists the kinds of the loops of a function: over a range, counting
// up or down, or neither.
func loopsOf(fn *Fn) []string {
	var l []string
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.RangeStmt:
			l = append(l, "range")
		case *ast.ForStmt:
			d := "while"
			switch p := s.Post.(type) {
			case *ast.IncDecStmt:
				d = "for " + p.Tok.String()
			case *ast.AssignStmt:
				d = "for " + p.Tok.String()
			}
			l = append(l, d)
		}
		return true
	})
	return l
}

func callsOf(prog *Prog, fn *Fn) []string {
	m := map[string]bool{}
	ast.Inspect(fn.Decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if f, ok := fn.Pkg.Info.Uses[id].(*types.Func); ok {
				if c := prog.Fns[f.FullName()]; c != nil {
					m[c.Key] = true
				}
			}
		}
		return true
	})
	return sortedKeys(m)
}

type renaming struct {
	obj  types.Object
	to   string
	what string
}

// match pairs names that are gone with new names of the same group; a group
// with more than one name on either side is left alone.
func match(gone, fresh map[string]string) map[string]string {
	byG := map[string][2][]string{}
	for n, g := range gone {
		e := byG[g]
		e[0] = append(e[0], n)
		byG[g] = e
	}
	for n, g := range fresh {
		e := byG[g]
		e[1] = append(e[1], n)
		byG[g] = e
	}
	out := map[string]string{}
	for _, e := range byG {
		if len(e[0]) == 1 && len(e[1]) == 1 {
			out[e[1][0]] = e[0][0]
		}
	}
	return out
}

func lastDot(k string) string { return k[strings.LastIndex(k, ".")+1:] }
func owner(k string) string   { return k[:strings.LastIndex(k, ".")] }

func diff(was, now map[string]string, kind string, obj map[string]types.Object) []renaming {
	gone, fresh := map[string]string{}, map[string]string{}
	for k, v := range was {
		if _, ok := now[k]; !ok {
			gone[k] = owner(k) + " " + v
		}
	}
	for k, v := range now {
		if _, ok := was[k]; !ok {
			fresh[k] = owner(k) + " " + v
		}
	}
	var out []renaming
	for n, o := range match(gone, fresh) {
		a, b := lastDot(n), lastDot(o)
		if ast.IsExported(a) != ast.IsExported(b) || ast.IsExported(a) {
			continue
		}
		out = append(out, renaming{obj[kind+" "+n], b, fmt.Sprintf("%s %s is %s", kind, n, o)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].what < out[j].what })
	return out
}

// canon puts a renamed tree back under the names of the shape.
func canon(prog *Prog, check func() (*Prog, error)) (*Prog, error) {
	if shape.Funcs == nil {
		return prog, nil
	}
	adopted := map[string]string{}
	for round := 0; round < 8; round++ {
		now, obj := shapeOf(prog)
		rs := diff(shape.Types, now.Types, "type", obj)
		if len(rs) == 0 {
			rs = diff(shape.Consts, now.Consts, "const", obj)
		}
		if len(rs) == 0 {
			for k, was := range shape.Structs {
				is := now.Structs[k]
				old, cur := map[string]string{}, map[string]string{}
				for _, f := range was {
					old[k+"."+f[0]] = f[1]
				}
				for _, f := range is {
					cur[k+"."+f[0]] = f[1]
				}
				fr := diff(old, cur, "field", obj)
				if len(is) == len(was) && len(fr) == 0 {
					// several fields of one type renamed: the order tells them apart
					for i := range is {
						_, kept := old[k+"."+is[i][0]]
						_, there := cur[k+"."+was[i][0]]
						if is[i][1] == was[i][1] && !kept && !there && !ast.IsExported(is[i][0]) && !ast.IsExported(was[i][0]) {
							fr = append(fr, renaming{obj["field "+k+"."+is[i][0]], was[i][0], "field " + k + "." + is[i][0]})
						}
					}
				}
				rs = append(rs, fr...)
			}
		}
		if len(rs) == 0 {
			rs = diff(shape.Funcs, now.Funcs, "func", obj)
			for _, r := range rs {
				k := fnKey(r.obj.(*types.Func))
				adopted[owner(k)+"."+r.to] = k
			}
		}
		if len(rs) == 0 {
			break
		}
		undo := map[*ast.Ident]string{}
		for _, r := range rs {
			for _, p := range prog.Pkgs {
				set := func(m map[*ast.Ident]types.Object) {
					for id, o := range m {
						if o == r.obj {
							if _, ok := undo[id]; !ok {
								undo[id] = id.Name
							}
							id.Name = r.to
						}
					}
				}
				set(p.Info.Defs)
				set(p.Info.Uses)
			}
		}
		next, err := check()
		if err != nil {
			for id, n := range undo {
				id.Name = n
			}
			if next, err = check(); err != nil {
				return nil, err
			}
			prog = next
			break
		}
		prog = next
	}
	prog.Adopted = adopted
	return prog, nil
}
