package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Failure is an obligation that was not discharged.
type Failure struct {
	Name string `json:"name"`
	Fn   string `json:"fn"`
	Kind string `json:"kind"`
	Pos  string `json:"pos"`
	Text string `json:"text"`
	Msg  string `json:"msg"`
	soft bool   // the verifier did not discharge it
}

// FnReport says what was proved about one function.
type FnReport struct {
	Key         string  `json:"key"`
	Obligations int     `json:"obligations"`
	Seconds     float64 `json:"seconds"`
	Slices      int     `json:"slices"`
	Inlined     string  `json:"inlined,omitempty"`
}

// Report is the result of one run.
type Report struct {
	Prop        string     `json:"prop"`
	Functions   []FnReport `json:"functions"`
	Obligations int        `json:"obligations"`
	Discharged  int        `json:"discharged"`
	Lemmas      int        `json:"lemmas"`
	Failed      []Failure  `json:"failed"`
	Seconds     float64    `json:"seconds"`
	SmtSeconds  float64    `json:"smt_seconds"`
	Trusted     []string   `json:"trusted"`
	Assumed     []string   `json:"assumed"`
	Vacuity     []string   `json:"vacuity"`
	Notes       []string   `json:"notes"`
	NoTerm      []string   `json:"no_measure"`
	unfit       map[string]string
	reordered   map[string]bool
	Kinds       map[string]int `json:"kinds"`
	Cmd         string         `json:"cmd"`
	Retried     int            `json:"retried"`
	// how many places were probed and at how many the verifier refused "false"
	Probes        int     `json:"probes"`
	ProbesRefuted int     `json:"probes_refuted"`
	ProbeSeconds  float64 `json:"probe_seconds"`
}

func (g *Gen) prepass() {
	var names []string
	for p := range g.prog.Pkgs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, pn := range names {
		p := g.prog.Pkgs[pn]
		g.try(func() {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				if _, ok := nt.Underlying().(*types.Struct); !ok {
					continue
				}
				g.try(func() { g.vtype(nt) })
				for _, pn2 := range names {
					sc2 := g.prog.Pkgs[pn2].Types.Scope()
					for _, m := range sc2.Names() {
						if it, ok := sc2.Lookup(m).(*types.TypeName); ok && !it.IsAlias() {
							if in, ok := it.Type().Underlying().(*types.Interface); ok && in.NumMethods() > 0 {
								if types.Implements(types.NewPointer(nt), in) {
									g.ifaces["T_"+nt.Obj().Name()] = true
								}
							}
						}
					}
				}
			}
		})
		for _, tv := range p.Info.Types {
			if tv.Type == nil {
				continue
			}
			t := tv.Type
			if d, ok := t.Underlying().(*types.Pointer); ok {
				t = d.Elem()
			}
			if el := elemOf(t); el != nil {
				if s, ok := el.Underlying().(*types.Basic); ok && s.Kind() != types.Uint8 {
					continue
				}
				if _, n := namedName(el); n == "" {
					if _, ok := el.Underlying().(*types.Basic); !ok {
						continue
					}
				}
				g.try(func() { g.comp(el) })
			}
		}
	}
}

type piece struct {
	c     *Contract
	text  string
	obls  []*Obl
	lines int
	start int
	slice int
	inl   []string
}

func run(prog *Prog, cs *Contracts, prop, out string, only []string, jobs int, vac, noverify bool, limit int) *Report {
	r := &Report{Prop: prop, Kinds: map[string]int{}}
	deadline := time.Now().Add(time.Duration(limit) * time.Second)
	if out == "" {
		d, _ := os.MkdirTemp("", "gocv")
		out = d
		defer os.RemoveAll(d)
	}
	os.MkdirAll(out, 0o755)
	bad := map[string]string{}
	for round := 0; round < 6; round++ {
		failedCompile := attempt(prog, cs, prop, out, only, jobs, noverify, deadline, bad, r, round, nil)
		if !failedCompile {
			break
		}
	}
	// what was not discharged gets a second attempt with more resources and
	// another seed: a proof that exists is then found in spite of the
	// solver's moods
	again := map[string]bool{}
	for _, f := range r.Failed {
		if f.soft && r.unfit[f.Fn] == "" {
			again[f.Fn] = true
		}
	}
	if len(again) > 0 && !noRetry {
		var r2 Report
		attempt(prog, cs, prop, filepath.Join(out, "retry"), only, jobs, noverify, deadline, bad, &r2, 5, again)
		r.Seconds += r2.Seconds
		r.SmtSeconds += r2.SmtSeconds
		still := map[string]bool{}
		ran := true
		for _, f := range r2.Failed {
			still[f.Fn] = true
			if f.Kind == "run" {
				ran = false
			}
		}
		if ran {
			var left []Failure
			for _, f := range r.Failed {
				if !f.soft || still[f.Fn] || r.unfit[f.Fn] != "" {
					left = append(left, f)
				}
			}
			r.Failed = left
			r.Retried = len(again)
			perFn := map[string]bool{}
			for _, f := range left {
				perFn[f.Fn] = true
			}
			r.Discharged = 0
			for _, f := range r.Functions {
				if !perFn[f.Key] {
					r.Discharged += f.Obligations
				}
			}
		}
	}
	r.classify()
	if vac && !noverify && len(r.Failed) == 0 {
		r.probe(prog, cs, prop, filepath.Join(out, "probe"), only, jobs, deadline, bad)
	}
	return r
}

var probing bool

// probe looks for contracts and ghost code that hold for want of an execution.
func (r *Report) probe(prog *Prog, cs *Contracts, prop, out string, only []string, jobs int, deadline time.Time, bad map[string]string) {
	probing = true
	defer func() { probing = false }()
	var p Report
	attempt(prog, cs, prop, out, only, jobs, false, deadline, bad, &p, 5, nil)
	r.ProbeSeconds = p.Seconds
	refuted, other := map[string]int{}, map[string]bool{}
	for _, f := range p.Failed {
		if f.Kind == "run" {
			r.Vacuity = append(r.Vacuity, "the probes were not run: "+f.Msg)
			return
		}
		if strings.HasPrefix(f.Kind, "probe-") {
			refuted[f.Fn]++
		} else {
			other[f.Fn] = true
		}
	}
	for _, f := range p.Functions {
		n := refuted[f.Key]
		r.Probes += f.Obligations
		r.ProbesRefuted += n
		if other[f.Key] {
			r.Vacuity = append(r.Vacuity, f.Key+": probes undecided (resource limit)")
		} else if n == 0 {
			r.Vacuity = append(r.Vacuity, f.Key+": VACUOUS, every probe was accepted")
		} else if n < f.Obligations {
			r.Vacuity = append(r.Vacuity, fmt.Sprintf("%s: %d of %d places proved unreachable", f.Key, f.Obligations-n, f.Obligations))
		}
	}
}

// atAccess: the obligations that guard an access; they ask for nothing that
// depends on the ghost code at other places of the function.
var atAccess = map[string]bool{"stale": true, "bounds": true, "panic": true, "div": true}

// reordered: the function makes the calls it was proved with in another order.
func (g *Gen) isReordered(k string) bool {
	was := shape.Order[k]
	fn := g.prog.ByKey[k]
	if fn == nil || len(was) == 0 {
		return false
	}
	is := orderOf(g.prog, fn)
	if strings.Join(was, " ") == strings.Join(is, " ") {
		return false
	}
	a, b := append([]string{}, was...), append([]string{}, is...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, " ") == strings.Join(b, " ")
}

// classify: where the places a contract's ghost code is tied to are gone, the
// contract does not fit the source any more; that its obligations are not
// discharged then refutes nothing.
func (r *Report) classify() {
	var left []Failure
	done := map[string]bool{}
	for _, f := range r.Failed {
		m, ok := r.unfit[f.Fn]
		if !ok && r.reordered[f.Fn] && !atAccess[f.Kind] {
			m, ok = "its calls are the same as when it was proved, in another order", true
		}
		if !ok || !f.soft {
			left = append(left, f)
			continue
		}
		if !done[f.Fn] {
			done[f.Fn] = true
			left = append(left, Failure{Name: f.Fn + "/contract", Fn: f.Fn, Kind: "contract", Text: f.Text, Msg: "the contract does not fit the source: " + m + "\nthen not discharged: " + f.Name + "\n" + f.Msg})
		}
	}
	r.Failed = left
}

// strained says why the contract of a function may not fit the source although
// all its anchors were found: a function it was written around is gone, or
// names had to be guessed.
func (g *Gen) strained(k string) string {
	if m := g.guessed[k]; m != "" {
		return m
	}
	if m := g.prog.Adopted[k]; m != "" {
		return "taken to be " + m
	}
	if fn := g.prog.ByKey[k]; fn != nil && len(g.cs.Fns[k].Loops) > 0 {
		if was, is := strings.Join(shape.Loops[k], ", "), strings.Join(loopsOf(fn), ", "); was != is {
			return "its loops were (" + was + ") when it was proved and are (" + is + ")"
		}
	}
	for _, c := range shape.Calls[k] {
		if g.prog.ByKey[c] == nil && g.cs.Fns[c] != nil {
			return c + ", which it was proved with, is gone"
		}
		if m := g.prog.Adopted[c]; m != "" && g.cs.Fns[c] != nil {
			return c + " is taken to be " + m
		}
	}
	return ""
}

var noRetry bool

func attempt(prog *Prog, cs *Contracts, prop, out string, only []string, jobs int, noverify bool, deadline time.Time, bad map[string]string, r *Report, round int, redo map[string]bool) (again bool) {
	os.MkdirAll(out, 0o755)
	*r = Report{Prop: prop, Kinds: map[string]int{}}
	g := newGen(prog, cs, prop)
	if redo != nil {
		g.rlScale = 4
	}
	g.prepass()
	addFail := func(key, kind, pos, text, msg string) {
		r.Failed = append(r.Failed, Failure{Name: key + "/" + kind, Fn: key, Kind: kind, Pos: pos, Text: text, Msg: msg})
	}
	emit := func(c *Contract, f func()) (*piece, string) {
		g.out.Reset()
		g.line, g.ind, g.obls = 0, 0, nil
		e := g.try(f)
		return &piece{c: c, text: g.out.String(), obls: g.obls, lines: g.line}, e
	}
	var stubs, bodies []*piece
	unfit := map[string]string{}
	r.unfit = unfit
	r.reordered = map[string]bool{}
	selected := func(k string) bool {
		c := cs.Fns[k]
		if c.Trusted || redo != nil && !redo[k] {
			return false
		}
		if len(only) > 0 {
			for _, o := range only {
				if o == k || strings.HasSuffix(k, "."+o) || strings.HasSuffix(o, "*") && strings.Contains("."+k, "."+o[:len(o)-1]) {
					return true
				}
			}
			return false
		}
		return prop == "" || has(c.Props, prop)
	}
	used, usedG := map[string]bool{}, map[string]bool{}
	for _, k := range cs.Order {
		c := cs.Fns[k]
		if prog.ByKey[k] == nil {
			if selected(k) {
				addFail(k, "missing", "", "", "the function under contract does not exist in the source")
			}
			continue
		}
		if !selected(k) {
			continue
		}
		if m, ok := bad[k]; ok {
			addFail(k, "contract", "", "", m)
			continue
		}
		g.errs = nil
		g.noTerm = nil
		regions := 0
		p, e := emit(c, func() { regions = g.Body(c, -1) })
		r.NoTerm = append(r.NoTerm, g.noTerm...)
		if len(g.errs) > 0 {
			r.Notes = append(r.Notes, g.errs...)
			unfit[k] = strings.Join(g.errs, "; ")
		} else if m := g.strained(k); m != "" {
			unfit[k] = m
		}
		if e != "" {
			addFail(k, "translate", "", "", e)
			continue
		}
		r.reordered[k] = g.isReordered(k)
		ps := []*piece{p}
		if probing {
			p, e := emit(c, func() { g.Body(c, probeSel) })
			if e != "" {
				addFail(k, "translate", "", "", e)
				continue
			}
			ps = []*piece{p}
		} else if regions > 1 {
			ps = nil
			for i := 0; i < regions; i++ {
				p, e := emit(c, func() { g.Body(c, i) })
				if e != "" {
					addFail(k, "translate", "", "", e)
				}
				p.slice = i
				ps = append(ps, p)
			}
		}
		for _, p := range ps {
			bodies = append(bodies, p)
			for _, m := range regexp.MustCompile(`([FGN])_(\w+)\(`).FindAllStringSubmatch(p.text, -1) {
				used[m[2]] = true
				if m[1] != "F" {
					usedG[m[2]] = true
				}
			}
		}
	}
	for _, k := range cs.Order {
		c := cs.Fns[k]
		if prog.ByKey[k] == nil || !used[mangle(k)] {
			continue
		}
		p, e := emit(c, func() {
			g.Stub(c, true)
			if usedG[mangle(k)] {
				g.Stub(c, false)
				g.weakStub(c)
			}
		})
		if e != "" {
			addFail(k, "contract", "", "", e)
			continue
		}
		stubs = append(stubs, p)
		if c.Trusted {
			r.Trusted = append(r.Trusted, k+": "+c.Why)
		}
	}
	var b strings.Builder
	b.WriteString("// generated by gocv from the current source of /repo\n#![allow(unused)]\n#![allow(non_snake_case)]\n#![allow(non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n")
	b.WriteString(constDefs(prog))
	gt := g.genTypes()
	b.WriteString(gt)
	var prelude strings.Builder
	for _, f := range cs.Prelude {
		d, _ := os.ReadFile(f)
		prelude.Write(d)
		prelude.WriteString("\n")
	}
	attr := "#[verifier::spinoff_prover]"
	if probing {
		attr = "#[verifier::external_body]"
	}
	b.WriteString(lemmaDeclRe.ReplaceAllString(prelude.String(), attr+"\n$0"))
	variants, _ := lemmaVariants(gt + prelude.String())
	b.WriteString(variants)
	line := strings.Count(b.String(), "\n") + 1
	for _, p := range append(append([]*piece{}, stubs...), bodies...) {
		p.start = line
		b.WriteString(p.text)
		line += p.lines
	}
	b.WriteString("fn main() {}\n}\n")
	file := filepath.Join(out, "v.rs")
	os.WriteFile(file, []byte(b.String()), 0o644)
	byLine := map[int]*Obl{}
	for _, p := range bodies {
		n := 0
		for _, o := range p.obls {
			o.Line += p.start - 1
			byLine[o.Line] = o
			n += o.N
			k := o.Kind
			if i := strings.IndexAny(k, ":#"); i >= 0 {
				k = k[:i]
			}
			r.Kinds[k] += o.N
		}
		if k := len(r.Functions); k > 0 && r.Functions[k-1].Key == p.c.Key {
			r.Functions[k-1].Obligations += n
			r.Functions[k-1].Slices++
		} else {
			r.Functions = append(r.Functions, FnReport{Key: p.c.Key, Obligations: n, Slices: 1})
		}
		r.Obligations += n
	}
	if noverify {
		return false
	}
	pieceAt := func(l int) *piece {
		for _, p := range append(append([]*piece{}, bodies...), stubs...) {
			if l >= p.start && l < p.start+p.lines {
				return p
			}
		}
		return nil
	}
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
	args := []string{file, "--multiple-errors", "8", "--output-json", "--error-format=json", "--num-threads", fmt.Sprint(jobs), "--time-expanded", "--no-auto-recommends-check", "--no-report-long-running"}
	if probing {
		args[2] = "60"
	} else if redo != nil {
		args = append(args, "--smt-option", "smt.random_seed=11", "--rlimit", "60")
	}
	cmd := exec.CommandContext(ctx, "verus", args...)
	cmd.Dir = out
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	t0 := time.Now()
	err := cmd.Run()
	r.Seconds = time.Since(t0).Seconds()
	r.Cmd = "verus " + strings.Join(args[1:], " ")
	os.WriteFile(filepath.Join(out, "stdout.json"), so.Bytes(), 0o644)
	os.WriteFile(filepath.Join(out, "stderr.json"), se.Bytes(), 0o644)
	var res struct {
		VR struct {
			VirError bool `json:"encountered-vir-error"`
			Success  bool `json:"success"`
			Verified int  `json:"verified"`
			Errors   int  `json:"errors"`
		} `json:"verification-results"`
		Times json.RawMessage `json:"times-ms"`
	}
	okJSON := json.Unmarshal(so.Bytes(), &res) == nil
	type span struct {
		LineStart int    `json:"line_start"`
		LineEnd   int    `json:"line_end"`
		Primary   bool   `json:"is_primary"`
		Label     string `json:"label"`
		File      string `json:"file_name"`
		Text      []struct {
			Text string `json:"text"`
		} `json:"text"`
	}
	type diag struct {
		Message  string `json:"message"`
		Level    string `json:"level"`
		Spans    []span `json:"spans"`
		Rendered string `json:"rendered"`
	}
	verified := okJSON && (res.VR.Verified+res.VR.Errors) > 0 && !res.VR.VirError
	var diags []diag
	for _, l := range strings.Split(se.String(), "\n") {
		var d diag
		if json.Unmarshal([]byte(l), &d) == nil && d.Level == "error" && !strings.HasPrefix(d.Message, "aborting due to") && !strings.HasPrefix(d.Message, "could not compile") {
			diags = append(diags, d)
		}
	}
	if !verified {
		// the text was rejected: find the functions to blame
		blamed := false
		for _, d := range diags {
			for _, s := range d.Spans {
				if p := pieceAt(s.LineStart); p != nil && has2(bodies, p) {
					if _, ok := bad[p.c.Key]; !ok {
						bad[p.c.Key] = "the contract does not fit the source: " + d.Message + "\n" + d.Rendered
						blamed = true
					}
				}
			}
		}
		if blamed && round < 5 {
			return true
		}
		msg := "the verifier gave no result"
		if ctx.Err() != nil {
			msg = "the verifier ran out of time"
		} else if err != nil {
			msg += ": " + err.Error()
		}
		if len(diags) > 0 {
			msg += "\n" + diags[0].Rendered
		} else {
			msg += "\n" + tail(se.String(), 2000)
		}
		addFail("verifier", "run", "", "", msg)
		return false
	}
	failedN := map[*Obl]bool{}
	extra := 0
	for _, d := range diags {
		var o *Obl
		var p *piece
		for pass := 0; pass < 2 && o == nil; pass++ {
			for _, s := range d.Spans {
				if s.Primary != (pass == 0) {
					continue
				}
				for l := s.LineStart; l <= s.LineEnd && l < s.LineStart+3 && o == nil; l++ {
					o = byLine[l]
				}
				if p == nil {
					p = pieceAt(s.LineStart)
				}
			}
		}
		if o != nil {
			if failedN[o] {
				continue
			}
			failedN[o] = true
			r.Failed = append(r.Failed, Failure{Name: o.Name(), Fn: o.Fn, Kind: o.Kind, Pos: o.Pos, Text: o.Text, Msg: d.Message + "\n" + d.Rendered, soft: true})
			continue
		}
		extra++
		k := "lemma"
		if p != nil {
			k = p.c.Key
		} else if len(d.Spans) > 0 {
			k = "lemma." + lemmaAt(b.String(), d.Spans[0].LineStart)
		}
		addFail(k, "verify", "", "", d.Message+"\n"+d.Rendered)
		r.Failed[len(r.Failed)-1].soft = true
	}
	r.Lemmas = res.VR.Verified + res.VR.Errors - len(bodies)
	perFn := map[string]bool{}
	for _, f := range r.Failed {
		perFn[f.Fn] = true
	}
	// an obligation counts as discharged when its function has no failure;
	// in a function with failures the ones that did not fail are unknown
	for _, f := range r.Functions {
		if !perFn[f.Key] {
			r.Discharged += f.Obligations
		}
	}
	var tm struct {
		Smt struct {
			SmtRun int `json:"smt-run"`
			Mods   []struct {
				Module string `json:"module"`
				Fns    []struct {
					Function string `json:"function"`
					Time     int    `json:"time"`
				} `json:"function-breakdown"`
			} `json:"smt-run-module-times"`
		} `json:"smt"`
	}
	if json.Unmarshal(res.Times, &tm) == nil {
		r.SmtSeconds = float64(tm.Smt.SmtRun) / 1000
		for _, m := range tm.Smt.Mods {
			for _, f := range m.Fns {
				for i := range r.Functions {
					if b := "::B_" + mangle(r.Functions[i].Key); strings.HasSuffix(f.Function, b) || strings.Contains(f.Function, b+"__") {
						r.Functions[i].Seconds += float64(f.Time) / 1000
					}
				}
			}
		}
	}
	return false
}

func has2(ps []*piece, p *piece) bool {
	for _, q := range ps {
		if p == q {
			return true
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// constDefs makes the integer constants of the packages available.
func constDefs(prog *Prog) string {
	var b strings.Builder
	seen := map[string]bool{}
	var pk []string
	for p := range prog.Pkgs {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		pkg := prog.Pkgs[p]
		if pkg.Name == "protocol" {
			continue
		}
		for _, n := range pkg.Types.Scope().Names() {
			c, ok := pkg.Types.Scope().Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			bt, ok := c.Type().Underlying().(*types.Basic)
			if !ok || seen[n] {
				continue
			}
			if bt.Info()&types.IsInteger != 0 {
				seen[n] = true
				fmt.Fprintf(&b, "pub open spec fn K_%s() -> int { %s }\n", n, c.Val().ExactString())
			}
		}
	}
	return b.String()
}

var lemmaDeclRe = regexp.MustCompile(`(?m)^pub (broadcast )?proof fn (lem|b)_\w+`)

// lemmaAt finds the lemma a line of the text belongs to.
func lemmaAt(text string, line int) string {
	ls := strings.Split(text, "\n")
	re := regexp.MustCompile(`proof fn (\w+)`)
	for i := line - 1; i >= 0 && i < len(ls); i-- {
		if m := re.FindStringSubmatch(ls[i]); m != nil {
			return m[1]
		}
	}
	return "?"
}
