package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func newGen(prog *Prog, cs *Contracts, prop string) *Gen {
	g := &Gen{prog: prog, cs: cs, prop: prop, structs: map[string]*structDef{}, comps: map[string]string{}, ifaces: map[string]bool{}, elemPtr: map[types.Object]bool{}, effMemo: map[*Fn]*eff{}}
	g.line = 0
	for _, p := range prog.Pkgs {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				if a, ok := n.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					if u, ok := unparen(a.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.AND {
						if _, ok := unparen(u.X).(*ast.IndexExpr); ok {
							if id, ok := a.Lhs[0].(*ast.Ident); ok {
								if o := p.Info.Defs[id]; o != nil {
									g.elemPtr[o] = true
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	return g
}

// try runs f, turning an unsupported construct into an error text.
func (g *Gen) try(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Sprintf("%s: not in the subset: %s", g.posStr(u.pos), u.msg)
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property (empty: all)")
	out := flag.String("out", "", "scratch directory")
	only := flag.String("only", "", "only these functions (comma separated)")
	report := flag.String("report", "", "write the report here")
	fpw := flag.String("write-shape", "", "write the names of the current tree")
	jobs := flag.Int("jobs", 8, "threads")
	vac := flag.Bool("vacuity", false, "probe for contracts that hold vacuously")
	noverify := flag.Bool("n", false, "generate only")
	limit := flag.Int("timeout", 600, "seconds for the verifier")
	flag.BoolVar(&noRetry, "noretry", false, "no second attempt")
	flag.Parse()
	if b, err := os.ReadFile(filepath.Join(*contracts, "shape.json")); err == nil && *fpw == "" {
		if err := json.Unmarshal(b, &shape); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	prog, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cs, err := parseContracts(*contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	assumed, err := scanAssumptions(*contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *fpw != "" {
		s, _ := shapeOf(prog)
		b, _ := json.MarshalIndent(s, "", " ")
		os.WriteFile(*fpw, b, 0o644)
		return
	}
	var sel []string
	if *only != "" {
		sel = strings.Split(*only, ",")
	}
	r := run(prog, cs, *prop, *out, sel, *jobs, *vac, *noverify, *limit)
	r.Assumed = assumed
	if *report != "" {
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(*report, b, 0o644)
	}
	for _, f := range r.Failed {
		fmt.Printf("FAILED %s  %s\n    %s\n", f.Name, f.Text, strings.ReplaceAll(f.Msg, "\n", "\n    "))
	}
	for _, v := range r.Vacuity {
		fmt.Println("VACUITY", v)
	}
	if *vac {
		fmt.Printf("probes %d, refused %d, %.1fs\n", r.Probes, r.ProbesRefuted, r.ProbeSeconds)
	}
	fmt.Printf("functions %d, obligations %d, discharged %d, failed %d, lemmas %d, verifier %.1fs\n", len(r.Functions), r.Obligations, r.Discharged, len(r.Failed), r.Lemmas, r.Seconds)
	if len(r.Failed) > 0 {
		os.Exit(1)
	}
}
