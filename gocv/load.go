package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is one package of the repository, parsed and type-checked from source.
type Pkg struct {
	Path  string
	Name  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

// Fn is one function or method of the repository.
type Fn struct {
	Key  string // pkgname.Recv.Name or pkgname.Name
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

// Prog is the program under verification.
type Prog struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg
	Fns   map[string]*Fn // by types.Func.FullName()
	ByKey map[string]*Fn
	// package-level variables assigned anywhere but at their declaration
	Assigned map[string]bool
	// struct types that encoding/binary reads or writes
	Coded map[string]bool
	// functions that go by another name in the source than in the contracts
	Adopted map[string]string
}

func fnKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pn := ""
	if f.Pkg() != nil {
		pn = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pn + "." + n.Obj().Name() + "." + f.Name()
		}
		return pn + ".?." + f.Name()
	}
	return pn + "." + f.Name()
}

type srcImporter struct {
	prog *Prog
	base types.Importer
}

func (i srcImporter) Import(path string) (*types.Package, error) {
	if p := i.prog.Pkgs[path]; p != nil {
		return p.Types, nil
	}
	return i.base.Import(path)
}

func load(dir string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	type lp struct {
		ImportPath, Name, Dir, Export string
		GoFiles                       []string
		Standard                      bool
		Module                        *struct {
			Path string
			Main bool
		}
	}
	exports := map[string]string{}
	var targets []lp
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			targets = append(targets, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var parsed []parsedPkg
	for _, t := range targets {
		p := parsedPkg{path: t.ImportPath, name: t.Name}
		for _, g := range t.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(t.Dir, g), nil, 0)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, f)
		}
		parsed = append(parsed, p)
	}
	prog, err := check(fset, imp, parsed)
	if err != nil {
		return nil, err
	}
	return canon(prog, func() (*Prog, error) { return check(fset, imp, parsed) })
}

type parsedPkg struct {
	path, name string
	files      []*ast.File
}

func check(fset *token.FileSet, imp types.Importer, targets []parsedPkg) (*Prog, error) {
	prog := &Prog{Fset: fset, Pkgs: map[string]*Pkg{}, Fns: map[string]*Fn{}, ByKey: map[string]*Fn{}, Assigned: map[string]bool{}, Coded: map[string]bool{}, Adopted: map[string]string{}}
	// "go list -deps" lists a package after what it imports: packages of the
	// module are imported from their checked source, so that their objects are
	// the same ones everywhere
	srcImp := srcImporter{prog, imp}
	for _, t := range targets {
		files := t.files
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: srcImp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(t.path, prog.Fset, files, info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", t.path, err)
		}
		pkg := &Pkg{Path: t.path, Name: t.name, Types: tp, Info: info, Files: files}
		prog.Pkgs[t.path] = pkg
		for _, f := range files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj := info.Defs[fd.Name].(*types.Func)
				fn := &Fn{Key: fnKey(obj), Pkg: pkg, Decl: fd, Obj: obj}
				prog.Fns[obj.FullName()] = fn
				prog.ByKey[fn.Key] = fn
			}
			ast.Inspect(f, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					if id, ok := e.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && v.Parent() == tp.Scope() {
							prog.Assigned[v.Pkg().Path()+"."+v.Name()] = true
						}
					}
				}
				switch s := n.(type) {
				case *ast.CallExpr:
					if sel, ok := s.Fun.(*ast.SelectorExpr); ok && len(s.Args) == 3 {
						if f, ok := info.Uses[sel.Sel].(*types.Func); ok && (f.FullName() == "encoding/binary.Write" || f.FullName() == "encoding/binary.Read") {
							t := types.Unalias(info.TypeOf(s.Args[2]))
							if e, ok := t.(*types.Pointer); ok {
								t = types.Unalias(e.Elem())
							}
							if n, ok := t.(*types.Named); ok {
								prog.Coded[n.Obj().Name()] = true
							}
						}
					}
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(s.X)
				}
				return true
			})
		}
	}
	return prog, nil
}
