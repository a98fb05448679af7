package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

const modPath = "github.com/Bren2010/katie/"

var aliases = map[string]string{
	"tree/log/math": "lm", "tree/log": "lg", "tree/prefix": "px", "tree/transparency/math": "tm",
	"tree/transparency/algorithms": "al", "tree/transparency/structs": "st", "tree/transparency": "tr",
	"tree/transparency/auditor": "au", "tree/transparency/managed": "mg", "db": "db", "db/memory": "dm",
	"crypto/suites": "su", "crypto/commitments": "cm", "crypto/vrf": "vr", "crypto/vrf/p256": "vp",
	"crypto/vrf/edwards25519": "ve",
}

type declInfo struct {
	decl *ast.FuncDecl
	pkg  *packages.Package
}

type gen struct {
	specs      *Specs
	fset       *token.FileSet
	decls      map[*types.Func]*declInfo
	namedTypes map[string]*types.Named
	byKey      map[string]*types.Func
	structs    map[string]string
	order      []string
	helpers    map[string]bool
	sumSeen    map[string]bool
	inlined    map[string]bool
}

// transErr aborts the translation of one function.
type transErr struct {
	pos token.Pos
	msg string
}

func fail(pos token.Pos, f string, a ...any) { panic(transErr{pos, fmt.Sprintf(f, a...)}) }

// renamed lists the variables that are extracted under their recorded names.
var renamed []string

func loadRepo(repo string) ([]*packages.Package, *token.FileSet, error) {
	pkgs, fset, err := loadSource(repo, nil)
	if err != nil {
		return nil, nil, err
	}
	if over, notes := restoreNames(pkgs, fset); over != nil {
		if p2, f2, err := loadSource(repo, over); err == nil {
			renamed = notes
			return p2, f2, nil
		}
	}
	return pkgs, fset, nil
}

func loadSource(repo string, overlay map[string][]byte) ([]*packages.Package, *token.FileSet, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./tree/...", "./db/...", "./crypto/...")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	return pkgs, fset, nil
}

func strip(p string) string { return strings.TrimPrefix(p, modPath) }

func recvNamed(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = strip(f.Pkg().Path())
	}
	if sig.Recv() != nil {
		n := recvNamed(sig.Recv().Type())
		if n == nil {
			return pkg + ".?." + f.Name()
		}
		if n.Obj().Pkg() != nil {
			pkg = strip(n.Obj().Pkg().Path())
		}
		return pkg + "." + n.Obj().Name() + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func newGen(specs *Specs, pkgs []*packages.Package, fset *token.FileSet) *gen {
	g := &gen{specs: specs, fset: fset, decls: map[*types.Func]*declInfo{}, byKey: map[string]*types.Func{},
		structs: map[string]string{}, helpers: map[string]bool{}, sumSeen: map[string]bool{}, inlined: map[string]bool{}}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fn, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				g.decls[fn] = &declInfo{fd, p}
				g.byKey[funcKey(fn)] = fn
			}
		}
	}
	return g
}

func tkey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return strip(p.Path()) })
}

// named finds the named type of a key such as tree/prefix.leafNode.
func (g *gen) named(key string) *types.Named {
	if g.namedTypes == nil {
		g.namedTypes = map[string]*types.Named{}
		for _, d := range g.decls {
			sc := d.pkg.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if nt, ok := types.Unalias(tn.Type()).(*types.Named); ok {
						g.namedTypes[tkey(nt)] = nt
					}
				}
			}
		}
	}
	return g.namedTypes[key]
}

func (g *gen) typeName(n *types.Named) string {
	p := ""
	if n.Obj().Pkg() != nil {
		p = strip(n.Obj().Pkg().Path())
	}
	a, ok := aliases[p]
	if !ok {
		a = p[strings.LastIndex(p, "/")+1:]
	}
	nm := a + "_" + n.Obj().Name()
	for i := 0; i < n.TypeArgs().Len(); i++ {
		nm += "_" + strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
				return r
			}
			return '_'
		}, g.rust(n.TypeArgs().At(i)))
	}
	return nm
}

// rust returns the Rust type a Go type is extracted to.
func (g *gen) rust(t types.Type) string {
	t = types.Unalias(t)
	k := tkey(t)
	if m, ok := g.specs.TypeMap[k]; ok {
		return m[0]
	}
	if s, ok := g.specs.Sums[k]; ok {
		if !g.sumSeen[k] {
			g.sumSeen[k] = true
			for _, v := range s.Variants {
				if n := g.named(v); n != nil {
					g.rust(n)
				}
			}
		}
		return s.Rust
	}
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Uint64, types.Uint, types.Uintptr:
			return "u64"
		case types.Int, types.Int64, types.UntypedInt:
			return "i64"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Int16:
			return "i16"
		case types.Int8:
			return "i8"
		case types.String, types.UntypedString:
			return "Str"
		}
	case *types.Slice:
		return "Slice<" + g.rust(t.Elem()) + ">"
	case *types.Array:
		return "Slice<" + g.rust(t.Elem()) + ">"
	case *types.Map:
		return "GoMap<" + g.rust(t.Key()) + ", " + g.rust(t.Elem()) + ">"
	case *types.Pointer:
		if g.specs.NonNil[tkey(t.Elem())] {
			return g.rust(t.Elem())
		}
		return "Option<" + g.rust(t.Elem()) + ">"
	case *types.Named:
		if k == "error" {
			return "Option<GoErr>"
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			nm := g.typeName(t)
			if g.specs.NoEmit[k] {
				return nm
			}
			if _, ok := g.structs[nm]; !ok {
				g.structs[nm] = "" // guard
				var b strings.Builder
				fmt.Fprintf(&b, "pub struct %s {\n", nm)
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					if g.specs.Drop[k+"."+f.Name()] {
						continue
					}
					fmt.Fprintf(&b, "    pub %s: %s,\n", rname(f.Name()), g.rust(f.Type()))
				}
				fmt.Fprintf(&b, "}\nimpl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }\nimpl Copy for %s {}\n", nm, nm)
				g.structs[nm] = b.String()
				g.order = append(g.order, nm)
			}
			return nm
		case *types.Interface:
			fail(t.Obj().Pos(), "no mapping for interface type %s", k)
		default:
			return g.rust(u)
		}
	case *types.Struct:
		if t.NumFields() == 0 {
			return "()"
		}
	case *types.Tuple:
		if t.Len() == 0 {
			return "()"
		}
		if t.Len() == 1 {
			return g.rust(t.At(0).Type())
		}
		var xs []string
		for i := 0; i < t.Len(); i++ {
			xs = append(xs, g.rust(t.At(i).Type()))
		}
		return "(" + strings.Join(xs, ", ") + ")"
	}
	fail(token.NoPos, "no mapping for type %s", k)
	return ""
}

// zero returns the Rust expression for the zero value of t.
func (g *gen) zero(t types.Type) string {
	t = types.Unalias(t)
	k := tkey(t)
	if m, ok := g.specs.TypeMap[k]; ok {
		if m[1] == "" {
			fail(token.NoPos, "no zero value for %s", k)
		}
		return m[1]
	}
	if s, ok := g.specs.Sums[k]; ok {
		return "zero_" + s.Rust + "()"
	}
	switch t := t.(type) {
	case *types.Basic:
		r := g.rust(t)
		switch {
		case r == "bool":
			return "false"
		case r == "Str":
			return "Str::empty()"
		default:
			return "0" + r
		}
	case *types.Slice:
		return "Slice::<" + g.rust(t.Elem()) + ">::nil()"
	case *types.Array:
		return fmt.Sprintf("Slice::<%s>::make(%di64, %s)", g.rust(t.Elem()), t.Len(), g.zero(t.Elem()))
	case *types.Map:
		return "GoMap::<" + g.rust(t.Key()) + ", " + g.rust(t.Elem()) + ">::nil()"
	case *types.Pointer:
		if g.specs.NonNil[tkey(t.Elem())] {
			return g.zero(t.Elem())
		}
		return "None::<" + g.rust(t.Elem()) + ">"
	case *types.Named:
		if k == "error" {
			return "None::<GoErr>"
		}
		if u, ok := t.Underlying().(*types.Struct); ok {
			nm := g.rust(t)
			var fs []string
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if g.specs.Drop[k+"."+f.Name()] {
					continue
				}
				fs = append(fs, rname(f.Name())+": "+g.zero(f.Type()))
			}
			return nm + " { " + strings.Join(fs, ", ") + " }"
		}
		return g.zero(t.Underlying())
	case *types.Struct:
		return "()"
	}
	fail(token.NoPos, "no zero value for %s", k)
	return ""
}

var bcastRe = regexp.MustCompile(`(?m)^broadcast use \{?([^};\n]*)\}?;\n`)

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`as break const continue crate dyn else enum extern false fn for if impl in let loop
		match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await
		abstract become box do final macro override priv try typeof unsized virtual yield
		proof spec exec tracked ghost open closed assert assume forall exists choose invariant requires ensures decreases
		via when by is has int nat recommends opens_invariants old implies seq set map Seq Set Map`) {
		reserved[w] = true
	}
}

func rname(n string) string {
	if reserved[n] {
		return n + "_"
	}
	return n
}

type fnResult struct {
	key   string
	text  string
	err   string
	drops []string
	pos   string
}

func (g *gen) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := g.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

// generate returns the whole Verus crate. It also returns the translation
// errors, keyed by the Go function, and the line -> Go function map.
func (g *gen) generate(vacuity bool) (string, []fnResult, []lineRange) {
	var results []fnResult
	var fns strings.Builder
	type piece struct{ key, text string }
	var pieces []piece
	for _, k := range g.specs.Emit {
		if n := g.named(k); n != nil {
			g.rust(n)
		}
	}
	for _, f := range g.specs.Files {
		for _, c := range f.Contracts {
			if c.Ext {
				if c.Imported {
					g.touchImported(c)
				}
				sig := strings.TrimRight(c.Sig, " \n")
				txt := "#[verifier::external_body]\n" + sig + "\n{ unimplemented!() }\n"
				pieces = append(pieces, piece{"", txt})
				continue
			}
			r := g.translate(c, vacuity)
			results = append(results, r)
			pieces = append(pieces, piece{c.Key, r.text})
		}
	}
	_ = fns
	var b strings.Builder
	b.WriteString("// Generated by gocv from /repo's working tree. Do not edit.\n")
	b.WriteString("#![allow(deprecated, unused, non_snake_case, non_camel_case_types, dead_code)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nfn main() {}\nverus! {\n")
	for _, nm := range g.order {
		b.WriteString(g.structs[nm])
	}
	var hs []string
	for h := range g.helpers {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		b.WriteString(h)
	}
	var uses []string // a module has one broadcast use
	for _, f := range g.specs.Files {
		fmt.Fprintf(&b, "// ---- %s\n", f.Path)
		b.WriteString(bcastRe.ReplaceAllStringFunc(f.Verbatim, func(m string) string {
			uses = append(uses, bcastRe.FindStringSubmatch(m)[1])
			return "\n"
		}))
	}
	if len(uses) > 0 {
		fmt.Fprintf(&b, "broadcast use {%s};\n", strings.Join(uses, ", "))
	}
	var ranges []lineRange
	for _, p := range pieces {
		start := strings.Count(b.String(), "\n") + 1
		b.WriteString(p.text)
		end := strings.Count(b.String(), "\n")
		ranges = append(ranges, lineRange{start, end, p.key})
	}
	b.WriteString("} // verus!\n")
	return b.String(), results, ranges
}

type lineRange struct {
	from, to int
	key      string
}

// touchImported extracts the types an imported contract mentions.
func (g *gen) touchImported(c *Contract) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(transErr); !ok {
				panic(r)
			}
		}
	}()
	if fn := g.byKey[c.Key]; fn != nil {
		t := &tr{g: g, c: c, out: &strings.Builder{}}
		t.f = &frame{pkg: g.decls[fn].pkg, info: g.decls[fn].pkg.TypesInfo, sig: fn.Type().(*types.Signature)}
		t.touchSig(t.f.sig)
	}
}

func (g *gen) inlinedList() []string {
	out := []string{}
	for k := range g.inlined {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
