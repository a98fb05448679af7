package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Loop invariants and proof hints name local variables. So that renaming one
// in the code does not disturb the proof, specs/names.json records the local
// variables of every function, and a function whose variables have other names
// is extracted with the recorded ones. The renaming is done on the source text
// before it is type checked, and only where it can not capture anything.

const namesFile = "/verif/specs/names.json"

type localVar struct {
	name string
	typ  string
	objs []types.Object // more than one for the variable of a type switch
}

// funcLocals lists the variables a function declares, in source order.
func funcLocals(info *types.Info, fd *ast.FuncDecl) []localVar {
	var out []localVar
	clauses := map[*ast.Ident][]types.Object{}
	ast.Inspect(fd, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.TypeSwitchStmt:
			if as, ok := n.Assign.(*ast.AssignStmt); ok {
				id := as.Lhs[0].(*ast.Ident)
				for _, c := range n.Body.List {
					if o := info.Implicits[c]; o != nil {
						clauses[id] = append(clauses[id], o)
					}
				}
				if clauses[id] == nil {
					clauses[id] = []types.Object{}
				}
			}
		case *ast.Ident:
			if n.Name == "_" {
				return true
			}
			if os, ok := clauses[n]; ok {
				out = append(out, localVar{n.Name, "switch", os})
			} else if v, ok := info.Defs[n].(*types.Var); ok && !v.IsField() {
				out = append(out, localVar{n.Name, types.TypeString(v.Type(), nil), []types.Object{v}})
			}
		}
		return true
	})
	return out
}

func declKey(pkg *packages.Package, fd *ast.FuncDecl) string {
	if fn, ok := pkg.TypesInfo.Defs[fd.Name].(*types.Func); ok {
		return funcKey(fn)
	}
	return ""
}

func eachDecl(pkgs []*packages.Package, f func(p *packages.Package, fd *ast.FuncDecl)) {
	for _, p := range pkgs {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					f(p, fd)
				}
			}
		}
	}
}

func writeNames(pkgs []*packages.Package) error {
	out := map[string][]string{}
	eachDecl(pkgs, func(p *packages.Package, fd *ast.FuncDecl) {
		var l []string
		for _, v := range funcLocals(p.TypesInfo, fd) {
			l = append(l, v.name+" "+v.typ)
		}
		if k := declKey(p, fd); k != "" && len(l) > 0 {
			out[k] = l
		}
	})
	var keys []string
	for k := range out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	b.WriteString("{\n")
	for i, k := range keys {
		kb, _ := json.Marshal(k)
		vb, _ := json.Marshal(out[k])
		fmt.Fprintf(&b, "%s:%s", kb, vb)
		if i < len(keys)-1 {
			b.WriteByte(',')
		}
		b.WriteByte('\n')
	}
	b.WriteString("}\n")
	return os.WriteFile(namesFile, []byte(b.String()), 0o644)
}

// align pairs the current variables with the recorded ones: equal entries by a
// longest common subsequence, and runs between them when they have the same
// types one by one.
func align(cur []localVar, rec []string) map[int]string {
	n, m := len(cur), len(rec)
	l := make([][]int, n+1)
	for i := range l {
		l[i] = make([]int, m+1)
	}
	eq := func(i, j int) bool { return cur[i].name+" "+cur[i].typ == rec[j] }
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if eq(i, j) {
				l[i][j] = l[i+1][j+1] + 1
			} else {
				l[i][j] = max(l[i+1][j], l[i][j+1])
			}
		}
	}
	out := map[int]string{}
	gap := func(i0, i1, j0, j1 int) {
		if i1-i0 != j1-j0 {
			return
		}
		for k := 0; k < i1-i0; k++ {
			if !strings.HasSuffix(rec[j0+k], " "+cur[i0+k].typ) {
				return
			}
		}
		for k := 0; k < i1-i0; k++ {
			out[i0+k] = strings.SplitN(rec[j0+k], " ", 2)[0]
		}
	}
	i, j, i0, j0 := 0, 0, 0, 0
	for i < n && j < m {
		if eq(i, j) {
			gap(i0, i, j0, j)
			i, j = i+1, j+1
			i0, j0 = i, j
		} else if l[i+1][j] >= l[i][j+1] {
			i++
		} else {
			j++
		}
	}
	gap(i0, n, j0, m)
	return out
}

// restoreNames gives the source files in which renamed variables have their
// recorded names, and a note per variable.
func restoreNames(pkgs []*packages.Package, fset *token.FileSet) (map[string][]byte, []string) {
	raw, err := os.ReadFile(namesFile)
	if err != nil {
		return nil, nil
	}
	rec := map[string][]string{}
	if json.Unmarshal(raw, &rec) != nil {
		return nil, nil
	}
	type edit struct {
		off, n int
		to     string
	}
	edits := map[string][]edit{}
	var notes []string
	eachDecl(pkgs, func(p *packages.Package, fd *ast.FuncDecl) {
		k := declKey(p, fd)
		want, ok := rec[k]
		if !ok {
			return
		}
		cur := funcLocals(p.TypesInfo, fd)
		to := map[types.Object]string{}
		sw := map[string]string{} // names of type switch variables, by position
		var note []string
		for i, n := range align(cur, want) {
			if cur[i].name == n {
				continue
			}
			note = append(note, k+": "+cur[i].name+" is "+n)
			for _, o := range cur[i].objs {
				to[o] = n
			}
			if len(cur[i].objs) != 1 || cur[i].typ == "switch" {
				sw[cur[i].name] = n
			}
		}
		if len(note) == 0 {
			return
		}
		// no capture: variables with the same new name must not see each other
		name := func(o types.Object) string {
			if n, ok := to[o]; ok {
				return n
			}
			return o.Name()
		}
		var all []types.Object
		for _, v := range cur {
			all = append(all, v.objs...)
		}
		inside := func(a, b *types.Scope) bool {
			for ; b != nil; b = b.Parent() {
				if a == b {
					return true
				}
			}
			return false
		}
		for o, n := range to {
			for _, q := range all {
				if q != o && name(q) == n && (o.Parent() == nil || q.Parent() == nil || inside(o.Parent(), q.Parent()) || inside(q.Parent(), o.Parent())) {
					return
				}
			}
		}
		local := map[types.Object]bool{}
		for _, o := range all {
			local[o] = true
		}
		taken := map[string]bool{}
		for _, n := range to {
			taken[n] = true
		}
		bad := false
		var es []edit
		f := fset.Position(fd.Pos()).Filename
		ast.Inspect(fd, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := p.TypesInfo.Uses[id]
			if o == nil {
				o = p.TypesInfo.Defs[id]
			}
			if o == nil {
				if n, ok := sw[id.Name]; ok { // the symbol of a type switch
					es = append(es, edit{fset.Position(id.Pos()).Offset, len(id.Name), n})
				}
				return true
			}
			if n, ok := to[o]; ok {
				es = append(es, edit{fset.Position(id.Pos()).Offset, len(id.Name), n})
				return true
			}
			if v, isVar := o.(*types.Var); isVar && v.IsField() {
				return true
			}
			if fn, isFn := o.(*types.Func); isFn && fn.Type().(*types.Signature).Recv() != nil {
				return true
			}
			if !local[o] && taken[id.Name] && o.Parent() != nil && o.Parent() != types.Universe && o.Pkg() != p.Types {
				return true // a selector in another package
			}
			if !local[o] && taken[id.Name] {
				bad = true
			}
			return true
		})
		if bad {
			return
		}
		edits[f] = append(edits[f], es...)
		notes = append(notes, note...)
	})
	if len(edits) == 0 {
		return nil, nil
	}
	out := map[string][]byte{}
	for f, es := range edits {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
		var b strings.Builder
		last := 0
		for i, e := range es {
			if i > 0 && es[i-1].off == e.off {
				continue
			}
			b.Write(src[last:e.off])
			b.WriteString(e.to)
			last = e.off + e.n
		}
		b.Write(src[last:])
		af, _ := filepath.Abs(f)
		out[af] = []byte(b.String())
	}
	sort.Strings(notes)
	return out, notes
}
