package main

import (
	"regexp"
	"strings"
)

// The body of a function is verified in slices: straight-line regions between
// loops (and at `split;` marks), and each loop body. The text of a function is
// emitted once per slice; in the slice for region r the obligations of region
// r are assertions, those of the other regions are assumptions. Regions are
// numbered in execution order, so the first obligation an execution breaks is
// an assertion of its slice whose assumptions all hold.

func (g *Gen) checking() bool { return g.sel < 0 || g.region == g.sel }

// probeSel selects no region: everything is assumed, and the only assertions
// are the probes, "false" at every return and at the end of every loop body.
// The verifier must not accept them: a contract that could not be met, or
// ghost code whose assumptions contradict each other, would show here.
const probeSel = 1 << 20

// nextRegion starts a new region at this point of the text.
func (g *Gen) nextRegion() {
	g.region++
	if g.sel >= 0 && g.region == g.sel+1 {
		g.p("assume(false);")
	}
}

// A cut is a boundary of regions behind which only the assertions that stand
// directly before it are assumed: the contracts of the calls made before it,
// earlier assertions and lemmas play no part in the later slices of its block.
// Leaving hypotheses out never makes more obligations hold.
type cut struct {
	at, end int // applies to slices at < sel <= end
}

// weak: the code being emitted lies before a cut that applies to this slice.
func (g *Gen) weak() bool { return g.region <= g.cutFor() }

func (g *Gen) cutFor() int {
	at := -1
	if g.sel >= 0 {
		for _, c := range g.cuts {
			if c.at < g.sel && (c.end < 0 || g.sel <= c.end) && c.at > at {
				at = c.at
			}
		}
	}
	return at
}

// kept: the statements from here on lead to the cut that applies.
func (g *Gen) kept(sts []string) bool {
	if g.region != g.cutFor() {
		return false
	}
	for _, s := range sts {
		if s == "cut;" {
			return true
		}
		if s == "split;" {
			return false
		}
	}
	return false
}

func (g *Gen) newCut() {
	if g.sel < 0 {
		g.cuts = append(g.cuts, cut{g.region, -1})
	}
	g.open = append(g.open, g.ncut)
	g.ncut++
	g.nextRegion()
}

// closeCuts ends the cuts made since there were n open ones.
func (g *Gen) closeCuts(n int) {
	if len(g.open) <= n {
		return
	}
	for _, k := range g.open[n:] {
		if g.sel < 0 {
			g.cuts[k].end = g.region
		}
	}
	g.open = g.open[:n]
	g.nextRegion()
}

// ghostStmts splits ghost code into its top-level statements.
func ghostStmts(code string) []string {
	var clean []string
	for _, l := range strings.Split(code, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) != "" {
			clean = append(clean, strings.TrimSpace(l))
		}
	}
	code = strings.Join(clean, "\n")
	var out []string
	d, start := 0, 0
	flush := func(end int) {
		s := strings.TrimSpace(code[start:end])
		if s != "" {
			out = append(out, s)
		}
		start = end
	}
	for i := 0; i < len(code); i++ {
		switch code[i] {
		case '(', '[', '{':
			d++
		case ')', ']':
			d--
		case '}':
			d--
			if d == 0 {
				cur := strings.TrimSpace(code[start : i+1])
				rest := strings.TrimSpace(code[i+1:])
				block := strings.HasPrefix(cur, "if ") || strings.HasPrefix(cur, "assert") || strings.HasPrefix(cur, "{") || strings.HasPrefix(cur, "match ")
				if strings.HasPrefix(cur, "assert(") || strings.HasPrefix(cur, "assert ") {
					// only the block of a `by` ends the assertion
					block = assertEndsWithBy(cur)
				}
				if block && !strings.HasPrefix(rest, "else") && !strings.HasPrefix(rest, ";") {
					flush(i + 1)
				}
			}
		case ';':
			if d == 0 {
				flush(i + 1)
			}
		}
	}
	flush(len(code))
	return out
}

// topIndex finds a word outside of brackets.
func topIndex(s, w string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], w) && i > 0 && (s[i-1] == ' ' || s[i-1] == '\n' || s[i-1] == ')') {
			return i
		}
	}
	return -1
}

func assertEndsWithBy(s string) bool { return topIndex(s, "by ") > 0 || topIndex(s, "by{") > 0 }

// assumed turns a ghost statement into what the other slices may use of it.
func assumed(s string) string {
	switch {
	case strings.HasPrefix(s, "let "), strings.HasPrefix(s, "reveal"), strings.HasPrefix(s, "broadcast "), strings.HasPrefix(s, "split"), s == "cut;":
		return s
	case strings.HasPrefix(s, "assert forall"):
		body := strings.TrimPrefix(s, "assert ")
		if i := topIndex(body, "by "); i > 0 {
			body = body[:i]
		} else if i := topIndex(body, "by{"); i > 0 {
			body = body[:i]
		}
		body = strings.TrimSuffix(strings.TrimSpace(body), ";")
		i := topIndex(body, "implies ")
		if i < 0 {
			return "assume(" + body + ");"
		}
		// forall|..| [attributes] A
		head, rest := body[:i], body[i+len("implies "):]
		j := strings.Index(head, "|")
		k := j + 1 + strings.Index(head[j+1:], "|")
		q, a := head[:k+1], strings.TrimSpace(head[k+1:])
		attr := ""
		for strings.HasPrefix(a, "#!") {
			e := matchClose(a, strings.Index(a, "["))
			attr += a[:e+1] + " "
			a = strings.TrimSpace(a[e+1:])
		}
		return "assume(" + q + " " + attr + "((" + a + ") ==> (" + strings.TrimSpace(rest) + ")));"
	case strings.HasPrefix(s, "assert("):
		e := matchClose(s, len("assert"))
		return "assume(" + s[len("assert("):e] + ");"
	case strings.HasPrefix(s, "if "):
		i := strings.Index(s, "{")
		e := matchClose(s, i)
		out := s[:i] + "{ " + assumedAll(s[i+1:e]) + " }"
		rest := strings.TrimSpace(s[e+1:])
		if strings.HasPrefix(rest, "else") {
			rest = strings.TrimSpace(strings.TrimPrefix(rest, "else"))
			if strings.HasPrefix(rest, "if ") {
				return out + " else { " + assumed(rest) + " }"
			}
			e := matchClose(rest, 0)
			return out + " else { " + assumedAll(rest[1:e]) + " }"
		}
		return out
	case strings.HasPrefix(s, "{"):
		return "{ " + assumedAll(s[1:matchClose(s, 0)]) + " }"
	case strings.HasPrefix(s, "lem_"):
		return "A_" + s
	}
	return ""
}

func assumedAll(code string) string {
	var out []string
	for _, s := range ghostStmts(code) {
		if a := assumed(s); a != "" {
			out = append(out, a)
		}
	}
	return strings.Join(out, "\n")
}

func matchClose(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

// ---- lemmas as other slices use them ---------------------------------------

// splitClauses splits a list of clauses at its top-level commas.
func splitClauses(s string) []string {
	var out []string
	d, start := 0, 0
	bar := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '|':
			if i+1 < len(s) && s[i+1] == '|' {
				i++
				continue
			}
			bar = !bar
		case ',':
			if d == 0 && !bar {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	out = append(out, s[start:])
	var r []string
	for _, x := range out {
		if strings.TrimSpace(x) != "" {
			r = append(r, "("+strings.TrimSpace(x)+")")
		}
	}
	return r
}

var lemmaRe = regexp.MustCompile(`(?m)^pub (broadcast )?proof fn (lem_\w+)`)

// lemmaVariants makes, for every lemma of the prelude, a variant without
// preconditions whose conclusion holds when the preconditions do.
func lemmaVariants(src string) (string, map[string]bool) {
	var b strings.Builder
	names := map[string]bool{}
	var clean []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		clean = append(clean, l)
	}
	src = strings.Join(clean, "\n")
	for _, ix := range lemmaRe.FindAllStringSubmatchIndex(src, -1) {
		name := src[ix[4]:ix[5]]
		i := strings.Index(src[ix[5]:], "(") + ix[5]
		e := matchClose(src, i)
		params := src[i : e+1]
		rest := src[e+1:]
		j := strings.Index(rest, "\n{")
		if j < 0 {
			continue
		}
		rest = rest[:j]
		req, ens := "", ""
		if k := strings.Index(rest, "decreases"); k >= 0 {
			rest = rest[:k]
		}
		if k := strings.Index(rest, "ensures"); k >= 0 {
			ens = rest[k+len("ensures"):]
			rest = rest[:k]
		} else {
			continue
		}
		if k := strings.Index(rest, "requires"); k >= 0 {
			req = rest[k+len("requires"):]
		}
		rs := append([]string{"true"}, splitClauses(req)...)
		names[name] = true
		b.WriteString("#[verifier::external_body]\npub proof fn A_" + name + params + "\n    ensures (" + strings.Join(rs, " && ") + ") ==> (" + strings.Join(splitClauses(ens), " && ") + "),\n{ unimplemented!() }\n")
	}
	return b.String(), names
}
