package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Clause is one requires/ensures/invariant formula (Verus text).
type Clause struct {
	Props []string // empty: belongs to every property of the function
	Name  string
	Text  string
}

// LoopSpec holds what a contract says about one loop (numbered in source
// order in the function body, helpers that are inlined not counted).
type LoopSpec struct {
	Inv []Clause
	Dec string
}

// Anchor is ghost code (lemma calls, assertions) put at a place of the body.
type Anchor struct {
	Where string // entry | exit | call | assign | loop
	Name  string
	K     int
	Pos   string // before | after | begin | end
	Code  string
	used  bool
}

// Contract of one function of the repository.
type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []string
	Loops    map[int]*LoopSpec
	Anchors  []*Anchor
	Trusted  bool
	Why      string
	Locals   []string // fingerprint name:type,... of the locals the clauses use
	File     string
	Rlimit   string
	Attrs    []string
	Dec      string   // the measure that falls along recursive calls
	Hide     []string // specification functions the body does not unfold
	Use      []string // extra broadcast groups
}

// Contracts is everything in the contract directory.
type Contracts struct {
	Fns     map[string]*Contract
	Order   []string
	Prelude []string // .rs files, in order
}

var kwRe = regexp.MustCompile(`^\s*(func|props|requires|ensures|modifies|loop|invariant|decreases|at|trusted|rlimit|attr|use|hide)\b`)

func parseContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Fns: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := cs.parse(f, string(data)); err != nil {
			return nil, err
		}
	}
	rs, _ := filepath.Glob(filepath.Join(dir, "*.rs"))
	sort.Strings(rs)
	cs.Prelude = rs
	return cs, nil
}

func splitTop(s string, sep rune) []string {
	var out []string
	d := 0
	cur := ""
	for _, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if r == sep && d == 0 {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(r)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func mkClause(s string) Clause {
	c := Clause{}
	s = strings.TrimSpace(s)
	for strings.HasPrefix(s, "@") {
		i := strings.IndexAny(s, " \t\n")
		c.Props = append(c.Props, s[1:i])
		s = strings.TrimSpace(s[i:])
	}
	if m := regexp.MustCompile(`^([a-z][a-z0-9_-]*):\s`).FindStringSubmatch(s); m != nil {
		c.Name = m[1]
		s = strings.TrimSpace(s[len(m[0]):])
	}
	c.Text = s
	return c
}

func (cs *Contracts) parse(file, src string) error {
	lines := strings.Split(src, "\n")
	// strip comments (whole-line)
	type item struct {
		kw   string
		text string
		line int
	}
	var items []item
	depth := 0
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if depth == 0 && (strings.HasPrefix(t, "//") || t == "") {
			continue
		}
		m := kwRe.FindStringSubmatch(l)
		if depth == 0 && m != nil {
			items = append(items, item{m[1], strings.TrimSpace(t[len(m[1]):]), i + 1})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s:%d: text before any keyword", file, i+1)
			}
			items[len(items)-1].text += "\n" + l
		}
		depth += strings.Count(l, "{") + strings.Count(l, "(") + strings.Count(l, "[") - strings.Count(l, "}") - strings.Count(l, ")") - strings.Count(l, "]")
		if depth < 0 {
			depth = 0
		}
	}
	var c *Contract
	var loop *LoopSpec
	hdr := regexp.MustCompile(`^([\w.]+)\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
	for _, it := range items {
		bad := func(msg string) error { return fmt.Errorf("%s:%d: %s", file, it.line, msg) }
		if it.kw != "func" && c == nil {
			return bad("no function")
		}
		switch it.kw {
		case "func":
			m := hdr.FindStringSubmatch(strings.TrimSpace(it.text))
			if m == nil {
				return bad("bad func header " + it.text)
			}
			c = &Contract{Key: m[1], Loops: map[int]*LoopSpec{}, File: filepath.Base(file)}
			c.Params = splitTop(m[2], ',')
			c.Results = splitTop(m[3], ',')
			if cs.Fns[c.Key] != nil {
				return bad("duplicate contract " + c.Key)
			}
			cs.Fns[c.Key] = c
			cs.Order = append(cs.Order, c.Key)
			loop = nil
		case "props":
			c.Props = strings.Fields(it.text)
		case "requires":
			c.Requires = append(c.Requires, mkClause(it.text))
		case "ensures":
			c.Ensures = append(c.Ensures, mkClause(it.text))
		case "modifies":
			c.Modifies = append(c.Modifies, strings.Fields(it.text)...)
		case "trusted":
			c.Trusted = true
			c.Why = it.text
		case "rlimit":
			c.Rlimit = strings.TrimSpace(it.text)
		case "attr":
			c.Attrs = append(c.Attrs, strings.TrimSpace(it.text))
		case "hide":
			c.Hide = append(c.Hide, strings.Fields(it.text)...)
		case "use":
			c.Use = append(c.Use, strings.Fields(it.text)...)
		case "loop":
			n, err := strconv.Atoi(strings.TrimSpace(it.text))
			if err != nil {
				return bad("bad loop number")
			}
			loop = &LoopSpec{}
			c.Loops[n] = loop
		case "invariant":
			if loop == nil {
				return bad("invariant outside loop")
			}
			loop.Inv = append(loop.Inv, mkClause(it.text))
		case "decreases":
			if loop == nil {
				if c.Dec != "" {
					return bad("second decreases")
				}
				c.Dec = strings.TrimSpace(it.text)
				continue
			}
			loop.Dec = strings.TrimSpace(it.text)
		case "at":
			i := strings.Index(it.text, "{")
			j := strings.LastIndex(it.text, "}")
			if i < 0 || j < i {
				return bad("anchor without code")
			}
			a := &Anchor{Code: strings.TrimSpace(it.text[i+1 : j])}
			w := strings.Fields(it.text[:i])
			if len(w) == 0 {
				return bad("bad anchor")
			}
			a.Where = w[0]
			switch w[0] {
			case "entry", "exit":
			case "loop":
				if len(w) != 3 {
					return bad("bad loop anchor")
				}
				a.K, _ = strconv.Atoi(w[1])
				a.Pos = w[2]
			case "call", "assign":
				if len(w) != 3 {
					return bad("bad anchor")
				}
				p := strings.SplitN(w[1], "#", 2)
				a.Name = p[0]
				a.K = 1
				if len(p) == 2 {
					a.K, _ = strconv.Atoi(p[1])
				}
				a.Pos = w[2]
			default:
				return bad("bad anchor " + w[0])
			}
			c.Anchors = append(c.Anchors, a)
		}
	}
	return nil
}

// substIdents replaces whole identifiers of a Verus text.
func substIdents(s string, m map[string]string) string {
	if len(m) == 0 {
		return s
	}
	re := regexp.MustCompile(`[A-Za-z_]\w*`)
	var b strings.Builder
	last := 0
	for _, ix := range re.FindAllStringIndex(s, -1) {
		id := s[ix[0]:ix[1]]
		// not a field selection
		if ix[0] > 0 && s[ix[0]-1] == '.' && !(ix[0] > 1 && s[ix[0]-2] == '.') {
			continue
		}
		// not a struct field label or path
		rest := strings.TrimLeft(s[ix[1]:], " ")
		if strings.HasPrefix(rest, "::") {
			continue
		}
		if r, ok := m[id]; ok {
			b.WriteString(s[last:ix[0]])
			b.WriteString(r)
			last = ix[1]
		}
	}
	b.WriteString(s[last:])
	return b.String()
}
