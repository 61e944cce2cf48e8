package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var (
	cheatRe = regexp.MustCompile(`\bassume\s*\(|\badmit\s*\(|\bassume_specification\b|\bexternal_fn_specification\b|verifier::external\b|\bproof_from_false\b`)
	axiomRe = regexp.MustCompile(`\baxiom\s+fn\s+(\w+)|\bproof\s+fn\s+(\w+)|\bfn\s+(\w+)`)
)

// scanAssumptions reads the whole contract text and returns every statement in
// it that the verifier takes on trust; a local assumption (assume, admit) is
// refused, since it could discharge an obligation for nothing.
func scanAssumptions(dir string) (trusted []string, err error) {
	var files []string
	for _, pat := range []string{"*.vc", "*.rs", "gen/*"} {
		fs, _ := filepath.Glob(filepath.Join(dir, pat))
		files = append(files, fs...)
	}
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, ".py") {
			continue
		}
		data, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		pending := ""
		for i, l := range strings.Split(string(data), "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			if cheatRe.MatchString(l) {
				return nil, fmt.Errorf("%s:%d: an assumption in the contract text: %s", f, i+1, strings.TrimSpace(l))
			}
			if strings.Contains(l, "external_body") {
				pending = "external_body"
			}
			if strings.Contains(l, "axiom fn") {
				pending = "axiom"
			}
			if pending != "" {
				if m := axiomRe.FindStringSubmatch(l); m != nil {
					trusted = append(trusted, fmt.Sprintf("%s %s (%s)", pending, m[1]+m[2]+m[3], filepath.Base(f)))
					pending = ""
				}
			}
		}
	}
	return trusted, nil
}
