package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// A Param is one parameter of a contract's Verus signature.
type Param struct {
	Name string
	Type string
	Mut  bool // &mut T
}

// A Contract is the Verus signature and clauses attached to one function of
// /repo (//@go) or to a function outside the verified code (//@ext).
type Contract struct {
	Key    string // tree/log/math.Level, tree/log.Verifier.Evaluate, hash.Hash.Write, ...
	Name   string // Rust name
	Params []Param
	Ret    string
	Sig    string // text from "pub fn" up to the body
	Loops  map[int]string
	Hints  map[string]string
	Attrs  map[string]bool
	Ext    bool
	// Imported: a function of /repo whose contract another check proves.
	Imported bool
	File     string
	Line     int
}

// A Chunk of a spec file: verbatim Verus text.
type SpecFile struct {
	Path      string
	Imported  bool
	Verbatim  string
	Contracts []*Contract
}

// Specs is everything loaded.
type Specs struct {
	Files   []*SpecFile
	ByKey   map[string]*Contract
	TypeMap map[string][2]string // go type string -> rust type, zero expr
	NonNil  map[string]bool
	Sums    map[string]*Sum
	Drop    map[string]bool // struct fields not extracted: pkg.T.f
	Globals map[string]string
	Emit    []string        // struct types extracted even if no contract mentions them
	NoEmit  map[string]bool // struct types whose definition is given in a spec file
}

// Sum is a closed interface.
type Sum struct {
	Go       string
	Rust     string
	Variants []string
	Ptr      bool // some variant is a pointer
}

var proofRe = regexp.MustCompile(`(\n\s*)(pub (?:broadcast )?proof fn )`)

var fnRe = regexp.MustCompile(`(?s)\bfn\s+([A-Za-z0-9_]+)\s*(<[^(]*>)?\s*\(`)

func splitTop(s string) []string {
	var out []string
	d := 0
	cur := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '(', '[', '<', '{':
			d++
		case ')', ']', '}':
			d--
		case '>':
			if i > 0 && s[i-1] != '-' {
				d--
			}
		}
		if c == ',' && d == 0 {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, cur)
	}
	return out
}

func parseSig(c *Contract) error {
	m := fnRe.FindStringSubmatchIndex(c.Sig)
	if m == nil {
		return fmt.Errorf("%s:%d: no fn signature for %s", c.File, c.Line, c.Key)
	}
	c.Name = c.Sig[m[2]:m[3]]
	i := m[1]
	d := 1
	j := i
	for ; j < len(c.Sig) && d > 0; j++ {
		switch c.Sig[j] {
		case '(':
			d++
		case ')':
			d--
		}
	}
	for _, p := range splitTop(c.Sig[i : j-1]) {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		k := strings.Index(p, ":")
		if k < 0 {
			return fmt.Errorf("%s:%d: bad param %q", c.File, c.Line, p)
		}
		nm, ty := strings.TrimSpace(p[:k]), strings.TrimSpace(p[k+1:])
		pp := Param{Name: nm, Type: ty}
		if strings.HasPrefix(ty, "&mut ") {
			pp.Mut = true
			pp.Type = strings.TrimSpace(ty[5:])
		}
		c.Params = append(c.Params, pp)
	}
	rest := strings.TrimSpace(c.Sig[j:])
	if strings.HasPrefix(rest, "->") {
		rest = strings.TrimSpace(rest[2:])
		d := 0
		for k := 0; k < len(rest); k++ {
			if rest[k] == '(' {
				d++
			} else if rest[k] == ')' {
				d--
				if d == 0 {
					c.Ret = rest[:k+1]
					break
				}
			}
		}
	}
	return nil
}

// loadSpecs reads the named spec files from dir, following //@use lines.
func loadSpecs(dir string, names []string) (*Specs, error) {
	sp := &Specs{ByKey: map[string]*Contract{}, TypeMap: map[string][2]string{}, NonNil: map[string]bool{},
		Sums: map[string]*Sum{}, Drop: map[string]bool{}, Globals: map[string]string{}, NoEmit: map[string]bool{}}
	seen := map[string]bool{}
	// An imported file is one whose contracts another check proves: its Go
	// functions are taken by contract and its lemmas by statement.
	imported := false
	var load func(n string) error
	load = func(n string) error {
		if seen[n] {
			return nil
		}
		seen[n] = true
		path := filepath.Join(dir, n)
		raw, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f := &SpecFile{Path: path, Imported: imported}
		var cur *Contract
		var acc strings.Builder // text of the current section
		var done func(string)   // where it goes
		flush := func() {
			if done != nil {
				done(acc.String())
			}
			acc.Reset()
		}
		done = func(s string) { f.Verbatim += s }
		for ln, l := range strings.Split(string(raw), "\n") {
			t := strings.TrimSpace(l)
			if !strings.HasPrefix(t, "//@") {
				acc.WriteString(l + "\n")
				continue
			}
			fs := strings.Fields(t[3:])
			switch fs[0] {
			case "use":
				for _, u := range fs[1:] {
					if err := load(u); err != nil {
						return err
					}
				}
			case "import":
				was := imported
				imported = true
				for _, u := range fs[1:] {
					if err := load(u); err != nil {
						return err
					}
				}
				imported = was
			case "typemap":
				z := ""
				if len(fs) > 3 {
					z = strings.Join(fs[3:], " ")
				}
				sp.TypeMap[strings.ReplaceAll(fs[1], "~", " ")] = [2]string{strings.ReplaceAll(fs[2], "~", " "), z}
			case "nonnil":
				for _, u := range fs[1:] {
					sp.NonNil[u] = true
				}
			case "dropfield":
				for _, u := range fs[1:] {
					sp.Drop[u] = true
				}
			case "emit":
				sp.Emit = append(sp.Emit, fs[1:]...)
			case "noemit":
				for _, u := range fs[1:] {
					sp.NoEmit[u] = true
				}
			case "global":
				sp.Globals[fs[1]] = strings.Join(fs[2:], " ")
			case "sum":
				sum := &Sum{Go: fs[1], Rust: fs[2]}
				for _, v := range fs[3:] {
					sum.Ptr = sum.Ptr || strings.HasPrefix(v, "*")
					sum.Variants = append(sum.Variants, strings.TrimPrefix(v, "*"))
				}
				sp.Sums[fs[1]] = sum
			case "go", "ext":
				flush()
				cur = &Contract{Key: strings.Join(fs[1:], " "), Ext: fs[0] == "ext", File: path, Line: ln + 1,
					Loops: map[int]string{}, Hints: map[string]string{}, Attrs: map[string]bool{}}
				cur.Imported = imported && !cur.Ext
				cur.Ext = cur.Ext || imported
				c := cur
				f.Contracts = append(f.Contracts, c)
				if _, dup := sp.ByKey[c.Key]; dup {
					return fmt.Errorf("%s:%d: duplicate contract for %s", path, ln+1, c.Key)
				}
				sp.ByKey[c.Key] = c
				done = func(s string) { c.Sig += s }
			case "attr":
				cur.Attrs[strings.Join(fs[1:], " ")] = true
			case "loop":
				flush()
				k := 0
				fmt.Sscanf(fs[1], "%d", &k)
				c := cur
				done = func(s string) { c.Loops[k] += s }
			case "hint":
				flush()
				key := strings.Join(fs[1:], " ")
				c := cur
				done = func(s string) { c.Hints[key] += s }
			case "end":
				flush()
				done = func(s string) { f.Verbatim += s }
				cur = nil
			default:
				return fmt.Errorf("%s:%d: unknown directive %q", path, ln+1, fs[0])
			}
		}
		if cur != nil {
			return fmt.Errorf("%s: missing //@end for %s", path, cur.Key)
		}
		flush()
		if f.Imported {
			f.Verbatim = proofRe.ReplaceAllString(f.Verbatim, "${1}#[verifier::external_body] $2")
		}
		sp.Files = append(sp.Files, f)
		for _, c := range f.Contracts {
			if err := parseSig(c); err != nil {
				return err
			}
		}
		return nil
	}
	for _, n := range names {
		if err := load(n); err != nil {
			return nil, err
		}
	}
	return sp, nil
}
