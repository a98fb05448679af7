package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// A place is something that can be read and written.
type place struct {
	kind string // var, field, index, mapidx, deref, addr, cast
	base *place
	obj  types.Object
	name string // rust variable / field / key temp / variant
	hi   string // upper bound of a slice
	typ  types.Type
}

type local struct {
	param int // 1: by-value parameter of the function under contract; 2: &mut one
	alias *place
	view  bool // slice obtained by slicing something else
	lit   *ast.FuncLit
	litF  *frame
	bound *Contract // a function parameter bound to a contract by the "#" in the contract's key
	caps  []string  // and the values it carries
	stale bool      // what it points to was replaced in the variable it was read from
	fixed bool      // may not be written through
	rust  string
}

type frame struct {
	pkg     *packages.Package
	info    *types.Info
	sig     *types.Signature
	parent  *frame // for inlined
	inlined bool
	tail    bool
	results []string
	named   []types.Object
	id      string
	subst   map[*types.TypeParam]types.Type
}

type tr struct {
	g          *gen
	c          *Contract
	f          *frame
	out        *strings.Builder
	ind        int
	tmp        int
	locals     map[types.Object]*local
	dyn        map[types.Object]types.Type // interface parameters of inlined functions: what they hold
	scopes     []map[string]types.Object
	loops      map[string]int
	calls      map[string]int
	used       map[string]bool // hints used
	post       []func()        // innermost loop's continue action
	depth      int
	swDep      []string // "loop" or "switch" nesting for break
	loopNo     int
	inl        int
	drops      map[string]bool
	rets       int
	paramNames map[int]string
	ren        map[types.Object]string // variables whose Rust name differs, not to capture an alias
	aliasRoots map[string]int
	cursor     *Contract // translating the body of a loop that moves a pointer, as this recursive function
}

func (t *tr) emit(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		t.out.WriteString(strings.Repeat("    ", t.ind))
		t.out.WriteString(l)
		t.out.WriteString("\n")
	}
}

func (t *tr) fresh(p string) string { t.tmp++; return fmt.Sprintf("%s_%d", p, t.tmp) }

func (t *tr) capture(f func()) string {
	old := t.out
	t.out = &strings.Builder{}
	f()
	s := t.out.String()
	t.out = old
	return s
}

func (t *tr) push() { t.scopes = append(t.scopes, map[string]types.Object{}) }
func (t *tr) pop()  { t.scopes = t.scopes[:len(t.scopes)-1] }

func (t *tr) declare(o types.Object) string {
	n := rname(o.Name())
	if o.Name() == "_" {
		return "_"
	}
	if t.aliasRoots[n] > 0 {
		n = t.fresh(n)
		if t.ren == nil {
			t.ren = map[types.Object]string{}
		}
		t.ren[o] = n
	} else {
		delete(t.ren, o)
	}
	t.scopes[len(t.scopes)-1][n] = o
	if t.locals[o] == nil {
		t.locals[o] = &local{}
	}
	t.locals[o].rust = n
	return n
}

func (t *tr) nameOf(o types.Object, pos token.Pos) string {
	n := rname(o.Name())
	if r, ok := t.ren[o]; ok {
		n = r
	}
	for i := len(t.scopes) - 1; i >= 0; i-- {
		if b, ok := t.scopes[i][n]; ok {
			if b != o {
				fail(pos, "variable %s is shadowed where an inlined body needs it", n)
			}
			return n
		}
	}
	fail(pos, "variable %s not in scope", n)
	return ""
}

func (t *tr) typeOf(e ast.Expr) types.Type {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if ty := t.dyn[t.f.info.ObjectOf(id)]; ty != nil {
			return ty
		}
	}
	ty := t.f.info.TypeOf(e)
	if ty == nil {
		fail(e.Pos(), "no type for expression")
	}
	return t.inst(ty)
}

func (t *tr) objType(o types.Object) types.Type {
	if ty := t.dyn[o]; ty != nil {
		return ty
	}
	return t.inst(o.Type())
}

func (t *tr) inst(ty types.Type) types.Type {
	if len(t.f.subst) == 0 {
		return ty
	}
	return substType(ty, t.f.subst)
}

func substType(ty types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := types.Unalias(ty).(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
		return u
	case *types.Slice:
		return types.NewSlice(substType(u.Elem(), m))
	case *types.Pointer:
		return types.NewPointer(substType(u.Elem(), m))
	case *types.Map:
		return types.NewMap(substType(u.Key(), m), substType(u.Elem(), m))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			v := u.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	}
	return ty
}

func isPtr(ty types.Type) bool { _, ok := types.Unalias(ty).Underlying().(*types.Pointer); return ok }

func (t *tr) nonnil(ty types.Type) bool {
	p, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	return ok && t.g.specs.NonNil[tkey(p.Elem())]
}

func isRef(ty types.Type) bool {
	switch types.Unalias(ty).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// ---- places

func (t *tr) place(e ast.Expr) *place {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.place(e.X)
	case *ast.Ident:
		o := t.f.info.ObjectOf(e)
		if v, ok := o.(*types.Var); ok && t.locals[v] != nil && t.locals[v].lit == nil {
			if t.locals[v].stale {
				fail(e.Pos(), "use of %s after the variable it points into was overwritten", v.Name())
			}
			return &place{kind: "var", obj: o, name: t.nameOf(o, e.Pos()), typ: t.objType(o)}
		}
		return nil
	case *ast.SelectorExpr:
		sel, ok := t.f.info.Selections[e]
		if !ok || sel.Kind() != types.FieldVal {
			return nil
		}
		b := t.place(e.X)
		if b == nil {
			return nil
		}
		return t.fieldPlace(b, t.typeOf(e.X), sel.Index())
	case *ast.IndexExpr:
		b := t.place(e.X)
		if b == nil {
			return nil
		}
		bt := t.typeOf(e.X)
		switch u := types.Unalias(bt).Underlying().(type) {
		case *types.Map:
			k := t.atom(t.exprAs(e.Index, u.Key()))
			return &place{kind: "mapidx", base: b, name: k, typ: u.Elem()}
		case *types.Slice:
			return &place{kind: "index", base: b, name: t.atom(t.index(e.Index)), typ: u.Elem()}
		case *types.Array:
			return &place{kind: "index", base: b, name: t.atom(t.index(e.Index)), typ: u.Elem()}
		}
		return nil
	case *ast.StarExpr:
		b := t.place(e.X)
		if b == nil {
			return nil
		}
		return t.derefPlace(b)
	}
	return nil
}

func (t *tr) derefPlace(b *place) *place {
	p := types.Unalias(b.typ).Underlying().(*types.Pointer)
	if t.nonnil(b.typ) {
		return &place{kind: "same", base: b, typ: p.Elem()}
	}
	return &place{kind: "deref", base: b, typ: p.Elem()}
}

func (t *tr) fieldPlace(b *place, bt types.Type, idx []int) *place {
	cur := b
	ty := bt
	for _, i := range idx {
		if isPtr(ty) {
			cur = t.derefPlace(cur)
			ty = cur.typ
		}
		st := types.Unalias(ty).Underlying().(*types.Struct)
		f := st.Field(i)
		if n, ok := types.Unalias(ty).(*types.Named); ok && t.g.specs.Drop[tkey(n)+"."+f.Name()] {
			fail(token.NoPos, "use of dropped field %s.%s", tkey(n), f.Name())
		}
		cur = &place{kind: "field", base: cur, name: rname(f.Name()), typ: t.inst(f.Type())}
		ty = cur.typ
	}
	return cur
}

var atomRe = regexp.MustCompile(`^[A-Za-z0-9_]+$`)

func (t *tr) atom(s string) string {
	if atomRe.MatchString(s) {
		return s
	}
	n := t.fresh("k")
	t.emit("let %s = %s;", n, s)
	return n
}

// rustPlace is the Rust text when the place is a chain of plain fields.
func (p *place) rustPlace() (string, bool) {
	switch p.kind {
	case "var":
		return p.name, true
	case "same":
		return p.base.rustPlace()
	case "field":
		b, ok := p.base.rustPlace()
		return b + "." + p.name, ok
	}
	return "", false
}

func (t *tr) load(p *place) string {
	if s, ok := p.rustPlace(); ok {
		return s
	}
	b := ""
	if p.base != nil {
		b = t.load(p.base)
	}
	switch p.kind {
	case "same":
		return b
	case "field":
		return b + "." + p.name
	case "index":
		return fmt.Sprintf("%s.get(%s)", b, p.name)
	case "slice":
		return fmt.Sprintf("%s.slice(%s, %s)", b, p.name, p.hi)
	case "mapidx":
		if t.nonnil(p.typ) {
			return fmt.Sprintf("%s.index(%s)", b, p.name)
		}
		return fmt.Sprintf("%s.get_or(%s, %s)", b, p.name, t.g.zero(p.typ))
	case "deref":
		return b + ".unwrap()"
	case "addr":
		return "Some(" + b + ")"
	case "cast":
		return fmt.Sprintf("as_%s(%s)", p.name, b)
	}
	panic("load " + p.kind)
}

// store writes v to p. When the write goes through a reference held in a
// local variable it is propagated to where that reference was read from.
func (t *tr) store(p *place, v string, pos token.Pos) {
	t.store1(p, v, false, pos)
}

func (t *tr) store1(p *place, v string, through bool, pos token.Pos) {
	switch p.kind {
	case "var":
		t.emit("%s = %s;", p.name, v)
		t.mutated(p, through, pos)
		return
	case "same":
		t.store1(p.base, v, true, pos)
		return
	case "addr":
		t.store1(p.base, "("+v+").unwrap()", through, pos)
		return
	case "deref":
		t.store1(p.base, "Some("+v+")", true, pos)
		return
	case "cast":
		t.store1(p.base, fmt.Sprintf("of_%s(%s)", p.name, v), true, pos)
		return
	}
	if p.kind == "mapidx" {
		t.calls["mapstore"]++
		t.hint(fmt.Sprintf("before mapstore %d", t.calls["mapstore"]), nil)
	}
	bs, pure := p.base.rustPlace()
	if pure {
		switch p.kind {
		case "field":
			t.emit("%s.%s = %s;", bs, p.name, v)
		case "slice":
			t.emit("let _ = %s.copy_in(%s, %s, %s);", bs, p.name, p.hi, v)
		case "index":
			t.emit("%s.set(%s, %s);", bs, p.name, v)
		case "mapidx":
			t.emit("%s.insert(%s, %s);", bs, p.name, v)
		}
		t.propagate(p.base, p.kind != "field", pos)
		return
	}
	n := t.fresh("t")
	vv := v
	if p.kind != "field" {
		vv = t.atom(v)
	}
	t.emit("let mut %s = %s;", n, t.load(p.base))
	switch p.kind {
	case "field":
		t.emit("%s.%s = %s;", n, p.name, vv)
	case "slice":
		t.emit("let _ = %s.copy_in(%s, %s, %s);", n, p.name, p.hi, vv)
	case "index":
		t.emit("%s.set(%s, %s);", n, p.name, vv)
	case "mapidx":
		t.emit("%s.insert(%s, %s);", n, p.name, vv)
	}
	t.store1(p.base, n, p.kind != "field", pos)
}

// propagate handles alias write-back after an in-place update below p.
func (t *tr) propagate(p *place, through bool, pos token.Pos) {
	for q := p; ; q = q.base {
		if q.kind == "same" {
			through = true
		}
		if q.kind == "var" {
			t.mutated(q, through, pos)
			return
		}
	}
}

func (t *tr) mutated(p *place, through bool, pos token.Pos) {
	l := t.locals[p.obj]
	if !through || l == nil {
		return
	}
	if s := t.g.specs.Sums[tkey(types.Unalias(p.obj.Type()))]; s != nil && l.param == 1 && s.Ptr {
		fail(pos, "write through parameter %s, which the contract passes by value", p.obj.Name())
	}
	if !isRef(p.obj.Type()) {
		return
	}
	if l.fixed {
		fail(pos, "write through %s, which shadows the variable it was read from", p.obj.Name())
	}
	if l.view {
		fail(pos, "write through a sub-slice of another slice")
	}
	if l.param == 1 && !t.c.Attrs["own "+p.obj.Name()] {
		fail(pos, "write through parameter %s, which the contract passes by value", p.obj.Name())
	}
	if l.alias != nil {
		t.store1(l.alias, p.name, true, pos)
	}
}

// bindAlias records where a reference-typed local was read from.
func (t *tr) bindAlias(o types.Object, rhs ast.Expr) {
	l := t.locals[o]
	if l == nil {
		return
	}
	wasRef := l.alias != nil || l.view || l.param != 0
	l.alias, l.view = nil, false
	if rhs == nil || !isRef(o.Type()) {
		return
	}
	for {
		if p, ok := rhs.(*ast.ParenExpr); ok {
			rhs = p.X
			continue
		}
		break
	}
	switch r := rhs.(type) {
	case *ast.SliceExpr:
		if id, ok := r.X.(*ast.Ident); ok && t.f.info.ObjectOf(id) == o {
			l.view = wasRef
			return
		}
		l.view = true
	case *ast.UnaryExpr:
		if r.Op == token.AND {
			if _, ok := r.X.(*ast.CompositeLit); ok {
				return
			}
			if p := t.place(r.X); p != nil {
				l.alias = t.addrOf(p, o.Type())
			}
		}
	case *ast.CallExpr:
		if p := t.recvPlace(r); p != nil && !(p.kind == "var" && p.obj == o) {
			l.alias = p
		}
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
		if p := t.place(rhs.(ast.Expr)); p != nil && !(p.kind == "var" && p.obj == o) {
			l.alias = p
		}
	}
}

func (t *tr) addrOf(p *place, ptr types.Type) *place {
	if t.nonnil(ptr) {
		return p
	}
	return &place{kind: "addr", base: p, typ: ptr}
}

// ---- expressions

func (t *tr) constLit(v constant.Value, ty types.Type, pos token.Pos) string {
	switch v.Kind() {
	case constant.Bool:
		return v.String()
	case constant.Int:
		r := t.g.rust(ty)
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + r + ")"
		}
		return s + r
	case constant.String:
		s := constant.StringVal(v)
		var bs []string
		for i := 0; i < len(s); i++ {
			bs = append(bs, fmt.Sprintf("%du8", s[i]))
		}
		h := fnv.New64a()
		h.Write([]byte(constant.StringVal(v)))
		nm := fmt.Sprintf("strlit_%x", h.Sum64())
		t.g.helpers["#[verifier::external_body]\npub fn "+nm+"() -> (r: Str) ensures r.s@ == seq!["+strings.Join(bs, ", ")+"] { unimplemented!() }\n"] = true
		return nm + "()"
	}
	fail(pos, "unsupported constant")
	return ""
}

// index translates an index or length expression to i64.
func (t *tr) index(e ast.Expr) string {
	ty := t.typeOf(e)
	if tv := t.f.info.Types[e]; tv.Value != nil {
		return tv.Value.ExactString() + "i64"
	}
	return t.convInt(t.expr(e), ty, types.Typ[types.Int])
}

func (t *tr) convInt(s string, from, to types.Type) string {
	a, b := t.g.rust(from), t.g.rust(to)
	if a == b {
		return s
	}
	w := map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63}
	if w[a] == 0 || w[b] == 0 {
		fail(token.NoPos, "unsupported conversion %s to %s", a, b)
	}
	if w[a] <= w[b] && (a[0] == 'u' || b[0] == 'i') {
		return "(" + s + " as " + b + ")"
	}
	return fmt.Sprintf("go_%s_%s(%s)", a, b, s)
}

func (t *tr) exprAs(e ast.Expr, want types.Type) string {
	want = t.inst(want)
	if tv, ok := t.f.info.Types[e]; ok && tv.IsNil() {
		return t.g.zero(want)
	}
	if tv, ok := t.f.info.Types[e]; ok && tv.Value != nil {
		if b, ok := types.Unalias(want).Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return t.constLit(tv.Value, want, e.Pos())
		}
	}
	s := t.expr(e)
	return t.conv(s, t.typeOf(e), want, e.Pos())
}

func (t *tr) conv(s string, from, to types.Type, pos token.Pos) string {
	from, to = types.Unalias(from), types.Unalias(to)
	if types.Identical(from, to) {
		return s
	}
	if types.IsInterface(to) && !types.IsInterface(from) {
		if _, ok := t.g.specs.Sums[tkey(to)]; ok {
			return fmt.Sprintf("of_%s(%s)", t.variant(from), s)
		}
		if m, ok := t.g.specs.TypeMap[tkey(to)]; ok {
			if n, ok := t.g.specs.TypeMap[tkey(from)]; ok && n[0] == m[0] {
				return s
			}
			a := strings.Map(func(r rune) rune {
				if r == '<' || r == '>' || r == ',' || r == ' ' {
					return '_'
				}
				return r
			}, t.g.rust(from))
			return fmt.Sprintf("%s_of_%s(%s)", m[0], a, s)
		}
		fail(pos, "conversion of %s to interface %s", tkey(from), tkey(to))
	}
	return s
}

func (t *tr) variant(ty types.Type) string {
	ty = types.Unalias(ty)
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	n, ok := types.Unalias(ty).(*types.Named)
	if !ok {
		fail(token.NoPos, "not a named variant: %s", tkey(ty))
	}
	return t.g.typeName(n)
}

func (t *tr) expr(e ast.Expr) string {
	if tv, ok := t.f.info.Types[e]; ok && tv.Value != nil {
		return t.constLit(tv.Value, t.inst(tv.Type), e.Pos())
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.expr(e.X)
	case *ast.FuncLit:
		return t.delayed(e)
	case *ast.Ident:
		if e.Name == "nil" {
			return t.g.zero(t.typeOf(e))
		}
		o := t.f.info.ObjectOf(e)
		if v, ok := o.(*types.Var); ok {
			if t.locals[v] != nil {
				return t.nameOf(o, e.Pos())
			}
			return t.global(v, e.Pos())
		}
		fail(e.Pos(), "unsupported identifier %s", e.Name)
	case *ast.SelectorExpr:
		if sel, ok := t.f.info.Selections[e]; ok {
			if sel.Kind() != types.FieldVal {
				fail(e.Pos(), "method value")
			}
			if p := t.place(e); p != nil {
				return t.load(p)
			}
			x := t.expr(e.X)
			tmp := &place{kind: "var", name: "(" + x + ")", typ: t.typeOf(e.X)}
			return t.load(t.fieldPlace(tmp, t.typeOf(e.X), sel.Index()))
		}
		if v, ok := t.f.info.ObjectOf(e.Sel).(*types.Var); ok {
			return t.global(v, e.Pos())
		}
		fail(e.Pos(), "unsupported selector")
	case *ast.StarExpr:
		s := t.expr(e.X)
		if t.nonnil(t.typeOf(e.X)) {
			return s
		}
		return s + ".unwrap()"
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return "!(" + t.expr(e.X) + ")"
		case token.SUB:
			return "(-(" + t.expr(e.X) + "))"
		case token.XOR:
			return "!(" + t.expr(e.X) + ")"
		case token.AND:
			s := t.expr(e.X)
			if t.nonnil(t.typeOf(e)) {
				return s
			}
			return "Some(" + s + ")"
		}
		fail(e.Pos(), "unsupported unary operator %s", e.Op)
	case *ast.BinaryExpr:
		return t.binary(e)
	case *ast.CallExpr:
		rs := t.call(e)
		if len(rs) != 1 {
			fail(e.Pos(), "call used as a value has %d results", len(rs))
		}
		return rs[0]
	case *ast.IndexExpr:
		xt := t.typeOf(e.X)
		switch u := types.Unalias(xt).Underlying().(type) {
		case *types.Map:
			x := t.expr(e.X)
			k := t.exprAs(e.Index, u.Key())
			if t.nonnil(u.Elem()) {
				return fmt.Sprintf("%s.index(%s)", x, k)
			}
			return fmt.Sprintf("%s.get_or(%s, %s)", x, k, t.g.zero(u.Elem()))
		case *types.Slice, *types.Array:
			x := t.expr(e.X)
			return fmt.Sprintf("%s.get(%s)", x, t.index(e.Index))
		}
		fail(e.Pos(), "unsupported index expression")
	case *ast.SliceExpr:
		if e.Slice3 {
			fail(e.Pos(), "three-index slice")
		}
		x := t.atom(t.expr(e.X))
		lo, hi := "0i64", x+".len()"
		if e.Low != nil {
			lo = t.index(e.Low)
		}
		if e.High != nil {
			hi = t.index(e.High)
		}
		return fmt.Sprintf("%s.slice(%s, %s)", x, lo, hi)
	case *ast.CompositeLit:
		return t.composite(e)
	case *ast.TypeAssertExpr:
		x := t.expr(e.X)
		return fmt.Sprintf("as_%s(%s)", t.variant(t.typeOf(e)), x)
	}
	fail(e.Pos(), "unsupported expression %T", e)
	return ""
}

func (t *tr) global(v *types.Var, pos token.Pos) string {
	k := ""
	if v.Pkg() != nil {
		k = strip(v.Pkg().Path()) + "." + v.Name()
	}
	if r, ok := t.g.specs.Globals[k]; ok {
		return r
	}
	fail(pos, "package variable %s is not modelled", k)
	return ""
}

func (t *tr) composite(e *ast.CompositeLit) string {
	ty := t.typeOf(e)
	if p, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok { // elided &T in a slice literal
		s := t.compositeOf(e, p.Elem())
		if t.nonnil(ty) {
			return s
		}
		return "Some(" + s + ")"
	}
	return t.compositeOf(e, ty)
}

func (t *tr) compositeOf(e *ast.CompositeLit, ty types.Type) string {
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 && func() bool { _, named := types.Unalias(ty).(*types.Named); return !named }() {
			return "()"
		}
		vals := map[string]string{}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						if t.g.specs.Drop[tkey(ty)+"."+name] {
							continue
						}
						vals[name] = t.exprAs(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				if t.g.specs.Drop[tkey(ty)+"."+u.Field(i).Name()] {
					continue
				}
				vals[u.Field(i).Name()] = t.exprAs(el, u.Field(i).Type())
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			if t.g.specs.Drop[tkey(ty)+"."+f.Name()] {
				continue
			}
			v, ok := vals[f.Name()]
			if !ok {
				v = t.g.zero(t.inst(f.Type()))
			}
			fs = append(fs, rname(f.Name())+": "+v)
		}
		nm := t.g.rust(ty)
		if strings.HasPrefix(nm, "Option") || strings.Contains(nm, "<") {
			fail(e.Pos(), "composite literal of mapped type %s", nm)
		}
		if m, ok := t.g.specs.TypeMap[tkey(ty)]; ok {
			if len(e.Elts) == 0 && m[1] != "" {
				return m[1]
			}
			fail(e.Pos(), "composite literal of mapped type %s", nm)
		}
		return nm + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		s := "Slice::<" + t.g.rust(u.Elem()) + ">::empty()"
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				fail(e.Pos(), "keyed slice literal")
			}
			s += ".push(" + t.exprAs(el, u.Elem()) + ")"
		}
		return s
	case *types.Map:
		n := t.fresh("m")
		t.emit("let mut %s: %s = GoMap::empty();", n, t.g.rust(ty))
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			t.emit("%s.insert(%s, %s);", n, t.exprAs(kv.Key, u.Key()), t.exprAs(kv.Value, u.Elem()))
		}
		return n
	}
	fail(e.Pos(), "unsupported composite literal")
	return ""
}

func isNilExpr(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsNil()
}

func (t *tr) isNil(e ast.Expr) string {
	ty := t.typeOf(e)
	s := t.expr(e)
	k := tkey(types.Unalias(ty))
	if m, ok := t.g.specs.TypeMap[k]; ok {
		if strings.HasPrefix(m[0], "Option<") {
			return s + ".is_none()"
		}
		return s + ".is_nil()"
	}
	switch types.Unalias(ty).Underlying().(type) {
	case *types.Slice, *types.Map:
		return s + ".is_nil()"
	case *types.Pointer:
		if t.nonnil(ty) {
			if t.c != nil && t.c.Attrs["niltest"] {
				return "false" // values of the type are never nil where this function gets them
			}
			fail(e.Pos(), "nil test on pointer type declared non-nil")
		}
		return s + ".is_none()"
	case *types.Interface:
		if k == "error" {
			return s + ".is_none()"
		}
	}
	fail(e.Pos(), "unsupported nil test")
	return ""
}

func (t *tr) wrap() bool { return t.c.Attrs["wrap"] }

func (t *tr) arith(op token.Token, l, r string, ty types.Type, shTy types.Type, pos token.Pos, shConst int64) string {
	rt := t.g.rust(ty)
	switch op {
	case token.ADD, token.SUB, token.MUL:
		if rt == "Str" {
			return fmt.Sprintf("str_concat(%s, %s)", l, r)
		}
		if t.wrap() && rt[0] == 'u' || t.c.Attrs["iwrap"] && rt == "i64" {
			return fmt.Sprintf("go_%s_%s(%s, %s)", map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul"}[op], rt, l, r)
		}
		return fmt.Sprintf("(%s %s %s)", l, op, r)
	case token.QUO, token.REM:
		if rt[0] == 'i' {
			return fmt.Sprintf("go_%s_%s(%s, %s)", map[token.Token]string{token.QUO: "div", token.REM: "rem"}[op], rt, l, r)
		}
		return fmt.Sprintf("(%s %s %s)", l, op, r)
	case token.AND, token.OR, token.XOR:
		if rt == "bool" {
			fail(pos, "bitwise op on bool")
		}
		return fmt.Sprintf("(%s %s %s)", l, op, r)
	case token.AND_NOT:
		return fmt.Sprintf("(%s & !%s)", l, r)
	case token.SHL, token.SHR:
		o := map[token.Token]string{token.SHL: "<<", token.SHR: ">>"}[op]
		w := map[string]int64{"u8": 8, "u16": 16, "u32": 32, "u64": 64}[rt]
		if w == 0 {
			fail(pos, "shift of %s", rt)
		}
		if shConst >= 0 {
			if shConst < w {
				return fmt.Sprintf("(%s %s %d%s)", l, o, shConst, rt)
			}
			return "0" + rt
		}
		n := "shl"
		if op == token.SHR {
			n = "shr"
		}
		srt := t.g.rust(shTy)
		if srt == "i64" { // negative counts panic: an obligation of the helper
			return fmt.Sprintf("go_%s_%s_i(%s, %s)", n, rt, l, r)
		}
		return fmt.Sprintf("go_%s_%s(%s, %s)", n, rt, l, t.convInt(r, shTy, types.Typ[types.Uint64]))
	}
	fail(pos, "unsupported operator %s", op)
	return ""
}

func (t *tr) binary(e *ast.BinaryExpr) string {
	switch e.Op {
	case token.LAND, token.LOR:
		l := t.expr(e.X)
		var r string
		pre := t.capture(func() { r = t.expr(e.Y) })
		if pre == "" {
			return fmt.Sprintf("(%s %s %s)", l, e.Op, r)
		}
		n := t.fresh("b")
		t.emit("let mut %s: bool = %s;", n, l)
		if e.Op == token.LAND {
			t.emit("if %s {", n)
		} else {
			t.emit("if !%s {", n)
		}
		t.out.WriteString(pre)
		t.emit("    %s = %s;", n, r)
		t.emit("}")
		return n
	case token.EQL, token.NEQ:
		neg := ""
		if e.Op == token.NEQ {
			neg = "!"
		}
		if isNilExpr(t.f.info, e.Y) {
			return neg + "(" + t.isNil(e.X) + ")"
		}
		if isNilExpr(t.f.info, e.X) {
			return neg + "(" + t.isNil(e.Y) + ")"
		}
		ty := t.typeOf(e.X)
		if tkey(types.Unalias(ty)) == "error" {
			return fmt.Sprintf("%serr_eq(%s, %s)", neg, t.expr(e.X), t.expr(e.Y))
		}
		b, ok := types.Unalias(ty).Underlying().(*types.Basic)
		if !ok {
			return fmt.Sprintf("%sgo_eq_%s(%s, %s)", neg, t.g.rust(ty), t.expr(e.X), t.expr(e.Y))
		}
		if b.Info()&types.IsString != 0 {
			return fmt.Sprintf("%sstr_eq(%s, %s)", neg, t.expr(e.X), t.expr(e.Y))
		}
		return fmt.Sprintf("(%s %s %s)", t.expr(e.X), e.Op, t.expr(e.Y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return fmt.Sprintf("(%s %s %s)", t.expr(e.X), e.Op, t.expr(e.Y))
	case token.SHL, token.SHR:
		ty := t.typeOf(e)
		l := t.exprAs(e.X, ty)
		if tv := t.f.info.Types[e.Y]; tv.Value != nil {
			k, _ := constant.Int64Val(tv.Value)
			return t.arith(e.Op, l, "", ty, nil, e.Pos(), k)
		}
		return t.arith(e.Op, l, t.expr(e.Y), ty, t.typeOf(e.Y), e.Pos(), -1)
	}
	ty := t.typeOf(e)
	return t.arith(e.Op, t.exprAs(e.X, ty), t.exprAs(e.Y, ty), ty, nil, e.Pos(), -1)
}

// ---- calls

func (t *tr) callee(e *ast.CallExpr) (fn *types.Func, recv ast.Expr, sel *types.Selection) {
	f := e.Fun
	for {
		switch x := f.(type) {
		case *ast.ParenExpr:
			f = x.X
			continue
		case *ast.IndexExpr:
			f = x.X
			continue
		case *ast.IndexListExpr:
			f = x.X
			continue
		}
		break
	}
	switch x := f.(type) {
	case *ast.Ident:
		fn, _ = t.f.info.ObjectOf(x).(*types.Func)
	case *ast.SelectorExpr:
		if s, ok := t.f.info.Selections[x]; ok {
			fn, _ = s.Obj().(*types.Func)
			return fn, x.X, s
		}
		fn, _ = t.f.info.ObjectOf(x.Sel).(*types.Func)
	}
	return fn, nil, nil
}

type callArg struct {
	expr ast.Expr
	typ  types.Type // parameter type in Go
	pl   *place     // for receivers reached through embedding
	text string     // preset
}

func (t *tr) call(e *ast.CallExpr) []string {
	info := t.f.info
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		return []string{t.conversion(e, t.inst(tv.Type))}
	}
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if _, ok := info.ObjectOf(id).(*types.Builtin); ok {
			return t.builtin(id.Name, e)
		}
		if v, ok := info.ObjectOf(id).(*types.Var); ok {
			l := t.locals[v]
			if l != nil && l.bound != nil {
				var as []callArg
				for _, c := range l.caps {
					as = append(as, callArg{text: c})
				}
				fs := types.Unalias(v.Type()).Underlying().(*types.Signature)
				for i, a := range e.Args {
					as = append(as, callArg{expr: a, typ: t.inst(fs.Params().At(i).Type())})
				}
				return t.contractCall(l.bound, as, e)
			}
			if l != nil && l.lit == nil {
				if c := t.g.specs.ByKey[tkey(v.Type())]; c != nil { // a delayed call: run it
					var as []callArg
					if len(c.Params) > 0 && c.Params[0].Mut { // on the state it captured
						o := t.stateVar()
						if o == nil {
							fail(e.Pos(), "call of a delayed call without a state")
						}
						as = append(as, callArg{pl: &place{kind: "var", name: t.nameOf(o, e.Pos()), typ: o.Type(), obj: o}, typ: o.Type()})
					}
					as = append(as, callArg{text: t.expr(e.Fun)})
					return t.contractCall(c, as, e)
				}
			}
			if l == nil || l.lit == nil {
				fail(e.Pos(), "call of function value %s", id.Name)
			}
			return t.inlineLit(l, e)
		}
	}
	if lit, ok := ast.Unparen(e.Fun).(*ast.FuncLit); ok {
		return t.inlineLit(&local{lit: lit, litF: t.f}, e)
	}
	fn, recv, sel := t.callee(e)
	if fn == nil {
		fail(e.Pos(), "unsupported call")
	}
	if recv != nil {
		_, tpar := types.Unalias(t.f.info.TypeOf(recv)).(*types.TypeParam)
		if id, ok := ast.Unparen(recv).(*ast.Ident); ok && t.dyn[t.f.info.ObjectOf(id)] != nil {
			tpar = true
		}
		if tpar { // a method of a type parameter: that of its instance
			xt := t.typeOf(recv)
			if o, _, _ := types.LookupFieldOrMethod(xt, true, fn.Pkg(), fn.Name()); o != nil {
				if m, ok := o.(*types.Func); ok {
					fn = m
					if types.IsInterface(m.Type().(*types.Signature).Recv().Type()) {
						fail(e.Pos(), "method of an interface instance")
					}
				}
			}
		}
	}
	sig := fn.Type().(*types.Signature)
	var args []callArg
	key := funcKey(fn)
	if recv != nil {
		rt := sig.Recv().Type()
		if types.IsInterface(rt) {
			xt := t.typeOf(recv)
			idx := sel.Index()
			if n := recvNamed(xt); n != nil && len(idx) == 1 {
				key = n.Obj().Name() + "." + fn.Name()
				if n.Obj().Pkg() != nil {
					key = strip(n.Obj().Pkg().Path()) + "." + key
				}
			}
			args = append(args, callArg{expr: recv, typ: xt})
		} else {
			a := callArg{expr: recv, typ: rt}
			if idx := sel.Index(); len(idx) > 1 { // promoted method
				p := t.place(recv)
				if p == nil {
					fail(e.Pos(), "promoted method on temporary")
				}
				a.pl = t.fieldPlace(p, t.typeOf(recv), idx[:len(idx)-1])
			}
			args = append(args, a)
		}
	}
	// Function-typed arguments become part of the contract's key: either by
	// their name, or by the contract function they call.
	suffix, bsuffix := "", ""
	var bargs []callArg
	np := sig.Params().Len()
	for i, a := range e.Args {
		var pt types.Type
		if sig.Variadic() && i >= np-1 {
			pt = sig.Params().At(np - 1).Type()
			if !e.Ellipsis.IsValid() {
				pt = pt.(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		if _, ok := types.Unalias(t.typeOf(a)).Underlying().(*types.Signature); ok {
			switch x := ast.Unparen(a).(type) {
			case *ast.Ident:
				suffix += "#" + x.Name
			case *ast.SelectorExpr:
				suffix += "#" + x.Sel.Name
				if ms, ok := t.f.info.Selections[x]; ok && ms.Kind() == types.MethodVal { // a bound method carries its receiver
					args = append(args, callArg{expr: x.X, typ: t.typeOf(x.X)})
				}
			default:
				suffix += "#lit"
			}
			bsuffix += "#"
			if k, caps := t.resolveFunc(a); k != "" {
				bsuffix += k
				bargs = append(bargs, caps...)
			}
			continue
		}
		at := t.inst(pt)
		if sig.TypeParams().Len() > 0 || fn.Origin() != fn {
			at = t.typeOf(a)
			if b, ok := at.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				at = t.inst(pt)
			}
		}
		if types.IsInterface(at) && t.isOpaqueIface(at) {
			if x := t.typeOf(a); !types.IsInterface(x) && recvNamed(x) != nil {
				at = x
			}
		}
		args = append(args, callArg{expr: a, typ: at})
		bargs = append(bargs, callArg{expr: a, typ: at})
	}
	if bsuffix != "" {
		if c := t.g.specs.ByKey[key+"["+t.instArgs(e)+"]"+bsuffix]; c != nil {
			t.touchSig(sig)
			return t.contractCall(c, bargs, e)
		}
	}
	key += suffix
	c := t.g.specs.ByKey[key]
	if key == "fmt.Errorf" && c == nil && !e.Ellipsis.IsValid() {
		// an error that is only compared with nil
		if tv := t.f.info.Types[e.Args[0]]; tv.Value == nil || tv.Value.Kind() != constant.String || strings.Contains(constant.StringVal(tv.Value), "%w") {
			fail(e.Pos(), "fmt.Errorf without a constant format, or wrapping")
		}
		for _, a := range e.Args[1:] {
			t.emit("let _ = %s;", t.expr(a))
		}
		return []string{"err_new()"}
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() && len(e.Args) > 0 {
		// formatting functions: key|format, with the operands at their own types
		if tv := t.f.info.Types[e.Args[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
			if fc := t.g.specs.ByKey[key+"|"+constant.StringVal(tv.Value)]; fc != nil {
				var as []callArg
				for _, a := range e.Args[1:] {
					as = append(as, callArg{expr: a, typ: t.typeOf(a)})
				}
				return t.contractCall(fc, as, e)
			}
		}
		// fmt.Sprint: key|operand types
		var as []callArg
		var ts []string
		for _, a := range e.Args {
			as = append(as, callArg{expr: a, typ: t.typeOf(a)})
			ts = append(ts, types.TypeString(t.typeOf(a), nil))
		}
		if fc := t.g.specs.ByKey[key+"|"+strings.Join(ts, ",")]; fc != nil {
			return t.contractCall(fc, as, e)
		}
	}
	if c == nil && recv == nil {
		// interface parameters: key|operand types
		var as []callArg
		var ts []string
		for _, a := range e.Args {
			as = append(as, callArg{expr: a, typ: t.typeOf(a)})
			ts = append(ts, types.TypeString(t.typeOf(a), func(p *types.Package) string { return strip(p.Path()) }))
		}
		if fc := t.g.specs.ByKey[key+"|"+strings.Join(ts, ",")]; fc != nil {
			t.touchSig(sig)
			return t.contractCall(fc, as, e)
		}
	}
	if c == nil && len(args) > 0 {
		// generic instances: key[rust type of the first argument]
		var ks []string
		for _, a := range args {
			ks = append(ks, t.g.rust(a.typ))
		}
		c = t.g.specs.ByKey[key+"["+strings.Join(ks, ",")+"]"]
		if c == nil {
			c = t.g.specs.ByKey[key+"["+ks[0]+"]"]
		}
	}
	if c == nil {
		if id := t.instArgs(e); id != "" {
			c = t.g.specs.ByKey[key+"["+id+"]"]
		}
	}
	if c != nil {
		if sig.Variadic() && !e.Ellipsis.IsValid() && c.Attrs["variadic"] {
			var s string
			if el := sig.Params().At(np - 1).Type().(*types.Slice).Elem(); true {
				s = "Slice::<" + t.g.rust(el) + ">::empty()"
				n := len(args) - (len(e.Args) - (np - 1))
				for _, a := range args[n:] {
					s += ".push(" + t.exprAs(a.expr, el) + ")"
				}
				args = append(args[:n], callArg{text: s, typ: sig.Params().At(np - 1).Type()})
			}
		}
		if c.Attrs["noargs"] {
			args = nil
		}
		t.touchSig(sig)
		return t.contractCall(c, args, e)
	}
	if recv != nil && types.IsInterface(sig.Recv().Type()) {
		if s := t.g.specs.Sums[tkey(types.Unalias(args[0].typ))]; s != nil {
			return t.dispatch(s, fn, args, e)
		}
	}
	if d := t.g.decls[fn]; d != nil {
		return t.inlineDecl(fn, d, args, e, nil)
	}
	if d := t.g.decls[fn.Origin()]; d != nil {
		return t.inlineDecl(fn.Origin(), d, args, e, t.instMap(e))
	}
	fail(e.Pos(), "no contract for external function %s", key)
	return nil
}

// resolveFunc resolves a function value to the declared function it calls and
// the values it passes ahead of its own parameters.
func (t *tr) resolveFunc(a ast.Expr) (string, []callArg) {
	a = ast.Unparen(a)
	switch x := a.(type) {
	case *ast.Ident:
		switch o := t.f.info.ObjectOf(x).(type) {
		case *types.Func:
			return funcKey(o), nil
		case *types.Var:
			if l := t.locals[o]; l != nil && l.bound != nil {
				var as []callArg
				for _, c := range l.caps {
					as = append(as, callArg{text: c})
				}
				return l.bound.Key, as
			} else if l != nil && l.lit != nil && l.litF == t.f {
				return t.resolveFunc(l.lit)
			}
		}
	case *ast.SelectorExpr:
		if _, ok := t.f.info.Selections[x]; !ok {
			if o, ok := t.f.info.ObjectOf(x.Sel).(*types.Func); ok {
				return funcKey(o), nil
			}
		}
	case *ast.FuncLit:
		if c := t.litContract(x); c != nil {
			n := len(c.Params) - t.f.info.TypeOf(x).(*types.Signature).Params().Len()
			var as []callArg
			for i := 0; i < n; i++ {
				o := t.byName(c.Params[i].Name)
				if o == nil {
					fail(x.Pos(), "no variable %s for the function literal", c.Params[i].Name)
				}
				as = append(as, callArg{pl: &place{kind: "var", obj: o, name: t.nameOf(o, x.Pos()), typ: t.objType(o)}, typ: t.objType(o)})
			}
			return c.Key, as
		}
		if len(x.Body.List) != 1 {
			return "", nil
		}
		r, ok := x.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 {
			return "", nil
		}
		c, ok := ast.Unparen(r.Results[0]).(*ast.CallExpr)
		if !ok || c.Ellipsis.IsValid() {
			return "", nil
		}
		k, recv, _ := t.callee(c)
		if k == nil || recv != nil {
			return "", nil
		}
		var ps []types.Object
		for _, f := range x.Type.Params.List {
			for _, n := range f.Names {
				ps = append(ps, t.f.info.Defs[n])
			}
		}
		n := len(c.Args) - len(ps)
		if n < 0 || k.Type().(*types.Signature).Params().Len() != len(c.Args) {
			return "", nil
		}
		for i, p := range ps {
			id, ok := ast.Unparen(c.Args[n+i]).(*ast.Ident)
			if !ok || t.f.info.ObjectOf(id) != p {
				return "", nil
			}
		}
		var as []callArg
		for i := 0; i < n; i++ {
			uses := false
			ast.Inspect(c.Args[i], func(m ast.Node) bool {
				switch y := m.(type) {
				case *ast.Ident:
					for _, p := range ps {
						uses = uses || t.f.info.ObjectOf(y) == p
					}
				case *ast.CallExpr:
					uses = true
				}
				return true
			})
			if uses {
				return "", nil
			}
			as = append(as, callArg{expr: c.Args[i], typ: k.Type().(*types.Signature).Params().At(i).Type()})
		}
		return funcKey(k), as
	}
	return "", nil
}

// litContract is the contract of a function literal, KEY@litN: that of the
// N-th literal in the body of the function KEY; what it captures comes first.
func (t *tr) litContract(x *ast.FuncLit) *Contract {
	key := strings.TrimSuffix(t.c.Key, "@loop")
	fn := t.g.byKey[key]
	if fn == nil {
		return nil
	}
	k := 0
	var c *Contract
	ast.Inspect(t.g.decls[fn].decl.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			k++
			if l == x {
				c = t.g.specs.ByKey[fmt.Sprintf("%s@lit%d", key, k)]
			}
		}
		return true
	})
	return c
}

func (t *tr) byName(n string) types.Object {
	for i := len(t.scopes) - 1; i >= 0; i-- {
		if o := t.scopes[i][n]; o != nil {
			return o
		}
		for _, b := range t.scopes[i] {
			if b != nil && rname(b.Name()) == n {
				return b
			}
		}
	}
	return nil
}

// dispatch translates a method call on a closed interface as a case
// distinction over its variants; any other dynamic type (nil) is a crash.
func (t *tr) dispatch(s *Sum, fn *types.Func, args []callArg, e *ast.CallExpr) []string {
	x := t.atom(t.argValue(args[0]))
	var as []callArg
	for _, a := range args[1:] {
		if t.place(a.expr) != nil && isRef(a.typ) {
			as = append(as, a)
			continue
		}
		n := t.fresh("da")
		t.emit("let %s: %s = %s;", n, t.g.rust(a.typ), t.argValue(a))
		as = append(as, callArg{text: n, typ: a.typ})
	}
	var rs []string
	rt := fn.Type().(*types.Signature).Results()
	for i := 0; i < rt.Len(); i++ {
		r := t.fresh("res")
		t.emit("let %s: %s;", r, t.g.rust(rt.At(i).Type()))
		rs = append(rs, r)
	}
	var pl0 *place
	if args[0].expr != nil {
		pl0 = t.place(args[0].expr)
	}
	if pl0 != nil { // what a by-value parameter refers to is not written back
		q := pl0
		for q.base != nil {
			q = q.base
		}
		if l := t.locals[q.obj]; l != nil && (l.param == 1 || l.fixed) {
			pl0 = nil
		}
	}
	ord := t.calls[fn.Name()]
	for _, v := range s.Variants {
		n := t.g.named(v)
		if n == nil {
			fail(e.Pos(), "unknown variant %s", v)
		}
		var m *types.Func
		var vt types.Type = n
		if o, _, _ := types.LookupFieldOrMethod(n, false, n.Obj().Pkg(), fn.Name()); o != nil {
			m, _ = o.(*types.Func)
		}
		if m == nil {
			vt = types.NewPointer(n)
			o, _, _ := types.LookupFieldOrMethod(vt, false, n.Obj().Pkg(), fn.Name())
			m, _ = o.(*types.Func)
		}
		if m == nil {
			fail(e.Pos(), "variant %s has no method %s", v, fn.Name())
		}
		t.open(fmt.Sprintf("if is_%s(%s)", t.g.typeName(n), x))
		a0 := callArg{text: fmt.Sprintf("as_%s(%s)", t.g.typeName(n), x), typ: vt}
		if pl0 != nil && isPtr(vt) {
			a0 = callArg{pl: &place{kind: "cast", base: pl0, name: t.g.typeName(n), typ: vt}, typ: vt}
		}
		va := append([]callArg{a0}, as...)
		var out []string
		if c := t.g.specs.ByKey[funcKey(m)]; c != nil {
			out = t.contractCall(c, va, e)
		} else if d := t.g.decls[m]; d != nil {
			out = t.inlineDecl(m, d, va, e, nil)
		} else {
			fail(e.Pos(), "no contract for %s", funcKey(m))
		}
		for i, r := range rs {
			t.emit("%s = %s;", r, out[i])
		}
		t.closeOpen("} else {")
	}
	_ = ord
	t.emit("return unreached();")
	for range s.Variants {
		t.close("")
	}
	return rs
}

func (t *tr) instMap(e *ast.CallExpr) map[*types.TypeParam]types.Type {
	var id *ast.Ident
	f := e.Fun
	for id == nil {
		switch x := f.(type) {
		case *ast.ParenExpr:
			f = x.X
		case *ast.IndexExpr:
			f = x.X
		case *ast.IndexListExpr:
			f = x.X
		case *ast.Ident:
			id = x
		case *ast.SelectorExpr:
			id = x.Sel
		default:
			return nil
		}
	}
	in, ok := t.f.info.Instances[id]
	if !ok {
		return nil
	}
	fn := t.f.info.ObjectOf(id).(*types.Func).Origin()
	m := map[*types.TypeParam]types.Type{}
	tp := fn.Type().(*types.Signature).TypeParams()
	for i := 0; i < tp.Len(); i++ {
		m[tp.At(i)] = t.inst(in.TypeArgs.At(i))
	}
	return m
}

func (t *tr) instArgs(e *ast.CallExpr) string {
	f := ast.Unparen(e.Fun)
	switch ix := f.(type) {
	case *ast.IndexExpr:
		f = ix.X
	case *ast.IndexListExpr:
		f = ix.X
	}
	var id *ast.Ident
	switch x := f.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	if id == nil {
		return ""
	}
	in, ok := t.f.info.Instances[id]
	if !ok {
		return ""
	}
	var ks []string
	for i := 0; i < in.TypeArgs.Len(); i++ {
		ks = append(ks, t.g.rust(t.inst(in.TypeArgs.At(i))))
	}
	return strings.Join(ks, ",")
}

// argValue translates a by-value argument.
func (t *tr) argValue(a callArg) string {
	if a.text != "" {
		return a.text
	}
	if a.pl != nil {
		if isPtr(a.typ) && !isPtr(a.pl.typ) && !t.nonnil(a.typ) {
			return "Some(" + t.load(a.pl) + ")"
		}
		if !isPtr(a.typ) && isPtr(a.pl.typ) {
			return t.load(t.derefPlace(a.pl))
		}
		return t.load(a.pl)
	}
	if tv := t.f.info.Types[a.expr]; tv.IsNil() || tv.Value != nil {
		return t.exprAs(a.expr, a.typ)
	}
	et := t.typeOf(a.expr)
	s := t.expr(a.expr)
	if isPtr(a.typ) && !isPtr(et) && !types.IsInterface(et) { // implicit &x for a method call
		if t.nonnil(a.typ) {
			return s
		}
		return "Some(" + s + ")"
	}
	if !isPtr(a.typ) && isPtr(et) && !types.IsInterface(a.typ) { // implicit *x
		if t.nonnil(et) {
			return s
		}
		return s + ".unwrap()"
	}
	return t.conv(s, et, t.inst(a.typ), a.expr.Pos())
}

// argPlace is the place an inout argument refers to (the pointee for pointers).
func (t *tr) argPlace(a callArg, pos token.Pos) *place {
	if a.pl != nil {
		return a.pl
	}
	x := ast.Unparen(a.expr)
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return t.place(u.X)
	}
	if p := t.place(x); p != nil {
		return p
	}
	if sl, ok := x.(*ast.SliceExpr); ok && !sl.Slice3 {
		b := t.place(sl.X)
		if b == nil {
			return nil
		}
		lo, hi := "0i64", ""
		if sl.Low != nil {
			lo = t.atom(t.index(sl.Low))
		}
		if sl.High != nil {
			hi = t.atom(t.index(sl.High))
		} else {
			hi = t.atom(t.load(b) + ".len()")
		}
		return &place{kind: "slice", base: b, name: lo, hi: hi, typ: types.Unalias(t.typeOf(x))}
	}
	if c, ok := x.(*ast.CallExpr); ok {
		if p := t.recvPlace(c); p != nil {
			t.call(c)
			return p
		}
	}
	return nil
}

// recvPlace is the place a call's result aliases: the receiver, for methods
// whose contract says that they return it (attr retrecv).
func (t *tr) recvPlace(e *ast.CallExpr) *place {
	fn, recv, _ := t.callee(e)
	if fn == nil || recv == nil {
		return nil
	}
	c := t.g.specs.ByKey[funcKey(fn)]
	if c == nil || !c.Attrs["retrecv"] {
		return nil
	}
	x := ast.Unparen(recv)
	if in, ok := x.(*ast.CallExpr); ok {
		return t.recvPlace(in)
	}
	return t.place(x)
}

func (t *tr) contractCall(c *Contract, args []callArg, e *ast.CallExpr) []string {
	if len(args) != len(c.Params) {
		fail(e.Pos(), "call of %s with %d arguments, contract has %d", c.Key, len(args), len(c.Params))
	}
	t.calls[c.Name]++
	ord := t.calls[c.Name]
	var texts []string
	type wb struct {
		p *place
		n string
	}
	var wbs []wb
	for i, a := range args {
		p := c.Params[i]
		if !p.Mut {
			texts = append(texts, t.argValue(a))
			continue
		}
		pl := t.argPlace(a, e.Pos())
		if pl == nil {
			// a fresh value: pass a temporary
			ae := ast.Unparen(a.expr)
			if u, ok := ae.(*ast.UnaryExpr); ok && u.Op == token.AND {
				ae = ast.Unparen(u.X)
			}
			switch ae.(type) {
			case *ast.CallExpr, *ast.CompositeLit:
			default:
				if a.text == "" {
					fail(e.Pos(), "write through an argument that is not a variable")
				}
			}
			n := t.fresh("tmp")
			t.emit("let mut %s: %s = %s;", n, p.Type, t.argValue(a))
			texts = append(texts, "&mut "+n)
			continue
		}
		if isPtr(pl.typ) && !t.nonnil(pl.typ) && !strings.HasPrefix(p.Type, "Option<") {
			pl = t.derefPlace(pl)
		}
		n := t.fresh("io")
		t.emit("let mut %s: %s = %s;", n, p.Type, t.load(pl))
		texts = append(texts, "&mut "+n)
		wbs = append(wbs, wb{pl, n})
	}
	nres := t.resultCount(e)
	call := fmt.Sprintf("%s(%s)", c.Name, strings.Join(texts, ", "))
	hb, ha := fmt.Sprintf("before call %s %d", c.Name, ord), fmt.Sprintf("after call %s %d", c.Name, ord)
	t.hint(fmt.Sprintf("before call %s", c.Name), nil)
	t.hint(hb, nil)
	_, hasAfter := t.c.Hints[ha]
	if _, ok := t.c.Hints[fmt.Sprintf("after call %s", c.Name)]; ok {
		hasAfter = true
	}
	if len(wbs) == 0 && nres == 1 && !hasAfter {
		return []string{call}
	}
	var rs []string
	sub := map[string]string{}
	switch nres {
	case 0:
		t.emit("%s;", call)
	case 1:
		r := t.fresh("r")
		t.emit("let %s = %s;", r, call)
		rs = []string{r}
		sub["RES"] = r
	default:
		for i := 0; i < nres; i++ {
			rs = append(rs, t.fresh("r"))
			sub[fmt.Sprintf("RES%d", i)] = rs[i]
		}
		t.emit("let (%s) = %s;", strings.Join(rs, ", "), call)
	}
	for _, w := range wbs {
		t.store1(w.p, w.n, true, e.Pos())
	}
	t.hint(ha, sub)
	t.hint(fmt.Sprintf("after call %s", c.Name), sub)
	return rs
}

func (t *tr) resultCount(e *ast.CallExpr) int {
	ty := t.f.info.TypeOf(e)
	if ty == nil {
		return 0
	}
	if tu, ok := ty.(*types.Tuple); ok {
		return tu.Len()
	}
	return 1
}

func (t *tr) hint(key string, sub map[string]string) {
	h, ok := t.c.Hints[key]
	if !ok {
		return
	}
	t.used[key] = true
	var ks []string
	for k := range sub {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(ks[i]) > len(ks[j]) })
	for _, k := range ks {
		h = regexp.MustCompile(`\b`+k+`\b`).ReplaceAllString(h, sub[k])
	}
	t.emit("%s", t.loopNames(h, -1))
}

func (t *tr) conversion(e *ast.CallExpr, to types.Type) string {
	a := e.Args[0]
	from := t.typeOf(a)
	if tv := t.f.info.Types[a]; tv.IsNil() {
		return t.g.zero(to)
	}
	fb, fok := types.Unalias(from).Underlying().(*types.Basic)
	tb, tok := types.Unalias(to).Underlying().(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return t.convInt(t.expr(a), from, to)
	}
	if _, ok := types.Unalias(to).Underlying().(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		return t.expr(a) + ".bytes()"
	}
	if _, ok := types.Unalias(from).Underlying().(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		return "str_of(" + t.expr(a) + ")"
	}
	if t.g.rust(from) == t.g.rust(to) {
		return t.expr(a)
	}
	return t.conv(t.expr(a), from, to, e.Pos())
}

func (t *tr) builtin(name string, e *ast.CallExpr) []string {
	switch name {
	case "len":
		x := e.Args[0]
		if b, ok := types.Unalias(t.typeOf(x)).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return []string{t.expr(x) + ".len()"}
		}
		return []string{t.expr(x) + ".len()"}
	case "cap":
		fail(e.Pos(), "cap")
	case "append":
		s := t.exprAs(e.Args[0], t.typeOf(e))
		el := types.Unalias(t.typeOf(e)).Underlying().(*types.Slice).Elem()
		if e.Ellipsis.IsValid() {
			return []string{fmt.Sprintf("%s.concat(%s)", s, t.exprAs(e.Args[1], t.typeOf(e)))}
		}
		for _, a := range e.Args[1:] {
			s += ".push(" + t.exprAs(a, el) + ")"
		}
		return []string{s}
	case "make":
		switch u := types.Unalias(t.typeOf(e)).Underlying().(type) {
		case *types.Slice:
			n := t.index(e.Args[1])
			// attr alloc EXPR: what a make may allocate, as an obligation
			for a := range t.c.Attrs {
				if bound, ok := strings.CutPrefix(a, "alloc "); ok {
					if len(e.Args) > 2 {
						fail(e.Pos(), "allocation bound of a make with a capacity")
					}
					v := t.fresh("n")
					t.emit("let %s: i64 = %s;", v, n)
					t.emit("assert(%s <= %s); // allocation", v, bound)
					n = v
				}
			}
			return []string{fmt.Sprintf("Slice::<%s>::make(%s, %s)", t.g.rust(u.Elem()), n, t.zeroOrAny(u.Elem()))}
		case *types.Map:
			return []string{fmt.Sprintf("GoMap::<%s, %s>::empty()", t.g.rust(u.Key()), t.g.rust(u.Elem()))}
		}
		fail(e.Pos(), "unsupported make")
	case "new":
		if t.nonnil(t.typeOf(e)) {
			return []string{t.g.zero(t.typeOf(e.Args[0]))}
		}
		return []string{"Some(" + t.g.zero(t.typeOf(e.Args[0])) + ")"}
	case "copy":
		dst := ast.Unparen(e.Args[0])
		lo, hi := "0i64", ""
		if s, ok := dst.(*ast.SliceExpr); ok {
			if s.High != nil {
				hi = t.atom(t.index(s.High))
			}
			if s.Low != nil {
				lo = t.atom(t.index(s.Low))
			}
			dst = s.X
		}
		p := t.place(dst)
		if p == nil {
			fail(e.Pos(), "copy into temporary")
		}
		src := t.atom(t.expr(e.Args[1]))
		n := t.fresh("cp")
		t.emit("let mut %s = %s;", n, t.load(p))
		r := t.fresh("r")
		if hi != "" {
			t.emit("let %s = %s.copy_in(%s, %s, %s);", r, n, lo, hi, src)
		} else {
			t.emit("let %s = %s.copy_at(%s, %s);", r, n, lo, src)
		}
		t.store1(p, n, true, e.Pos())
		return []string{r}
	case "delete":
		p := t.place(e.Args[0])
		if p == nil {
			fail(e.Pos(), "delete from temporary")
		}
		mt := types.Unalias(t.typeOf(e.Args[0])).Underlying().(*types.Map)
		k := t.atom(t.exprAs(e.Args[1], mt.Key()))
		n := t.fresh("dm")
		t.calls["delete"]++
		t.hint(fmt.Sprintf("before delete %d", t.calls["delete"]), nil)
		t.emit("let mut %s = %s;", n, t.load(p))
		t.emit("%s.remove(%s);", n, k)
		t.store1(p, n, true, e.Pos())
		return nil
	case "min", "max":
		if len(e.Args) == 2 {
			ty := t.typeOf(e)
			a, b := t.atom(t.exprAs(e.Args[0], ty)), t.atom(t.exprAs(e.Args[1], ty))
			op := "<"
			if name == "max" {
				op = ">"
			}
			return []string{fmt.Sprintf("(if %s %s %s { %s } else { %s })", a, op, b, a, b)}
		}
	case "panic":
		if t.c.Attrs["maypanic"] {
			t.emit("return diverge();")
			return nil
		}
		t.emit("return unreached();")
		return nil
	}
	fail(e.Pos(), "unsupported builtin %s", name)
	return nil
}

func (t *tr) zeroOrAny(ty types.Type) string { return t.g.zero(t.inst(ty)) }

// ---- inlining

func (t *tr) inlineDecl(fn *types.Func, d *declInfo, args []callArg, e *ast.CallExpr, subst map[*types.TypeParam]types.Type) []string {
	if t.inl > 12 {
		fail(e.Pos(), "inlining too deep (recursive function without a contract: %s)", funcKey(fn))
	}
	t.g.inlined[funcKey(fn)] = true
	sig := fn.Type().(*types.Signature)
	var params []types.Object
	if d.decl.Recv != nil {
		var o types.Object
		if len(d.decl.Recv.List[0].Names) > 0 {
			o = d.pkg.TypesInfo.Defs[d.decl.Recv.List[0].Names[0]]
		}
		params = append(params, o)
	}
	for _, f := range d.decl.Type.Params.List {
		if len(f.Names) == 0 {
			params = append(params, nil)
		}
		for _, n := range f.Names {
			params = append(params, d.pkg.TypesInfo.Defs[n])
		}
	}
	if sig.Variadic() {
		fail(e.Pos(), "inlining of variadic %s", funcKey(fn))
	}
	nf := &frame{pkg: d.pkg, info: d.pkg.TypesInfo, sig: sig, parent: t.f, inlined: true,
		id: t.f.id + "/" + fn.Name(), subst: subst}
	return t.inline(nf, params, args, d.decl.Type, d.decl.Body, e, true)
}

func (t *tr) inlineLit(l *local, e *ast.CallExpr) []string {
	var params []types.Object
	var args []callArg
	info := l.litF.info
	sig := info.TypeOf(l.lit).(*types.Signature)
	i := 0
	for _, f := range l.lit.Type.Params.List {
		for _, n := range f.Names {
			params = append(params, info.Defs[n])
			args = append(args, callArg{expr: e.Args[i], typ: sig.Params().At(i).Type()})
			i++
		}
	}
	nf := &frame{pkg: l.litF.pkg, info: info, sig: sig, parent: t.f, inlined: true, id: t.f.id + "/lit", subst: l.litF.subst}
	return t.inline(nf, params, args, l.lit.Type, l.lit.Body, e, false)
}

func (t *tr) inline(nf *frame, params []types.Object, args []callArg, ft *ast.FuncType, body *ast.BlockStmt, e *ast.CallExpr, fresh bool) []string {
	t.inl++
	defer func() { t.inl-- }()
	type bind struct {
		o     types.Object
		text  string
		alias *place
		rt    string
	}
	var bs []bind
	for i, a := range args {
		o := params[i]
		if o == nil || o.Name() == "_" {
			continue
		}
		b := bind{o: o}
		pt := o.Type()
		if nf.subst != nil {
			pt = substType(pt, nf.subst)
		}
		if types.IsInterface(pt) && a.expr != nil && t.isOpaqueIface(pt) {
			if at := t.typeOf(a.expr); !types.IsInterface(at) && recvNamed(at) != nil {
				pt = at
				if t.dyn == nil {
					t.dyn = map[types.Object]types.Type{}
				}
				t.dyn[o] = at
				defer delete(t.dyn, o)
			}
		}
		b.rt = t.g.rust(pt)
		v := t.argValue(callArg{expr: a.expr, typ: pt, pl: a.pl, text: a.text})
		b.text = t.fresh("a")
		t.emit("let %s: %s = %s;", b.text, b.rt, v)
		if isRef(pt) && a.text == "" {
			if p := t.argPlace(a, e.Pos()); p != nil {
				if isPtr(pt) && !isPtr(p.typ) {
					p = t.addrOf(p, pt)
				}
				b.alias = p
			}
		}
		bs = append(bs, b)
	}
	rt := nf.sig.Results()
	for i := 0; i < rt.Len(); i++ {
		r := t.fresh("res")
		ty := rt.At(i).Type()
		if nf.subst != nil {
			ty = substType(ty, nf.subst)
		}
		t.emit("let %s: %s;", r, t.g.rust(ty))
		nf.results = append(nf.results, r)
	}
	caller := t.f
	savedScopes := t.scopes
	oldPost, oldSw := t.post, t.swDep
	t.post, t.swDep = nil, nil
	t.emit("{")
	t.ind++
	t.f = nf
	if fresh {
		t.scopes = append([]map[string]types.Object{}, map[string]types.Object{})
	} else {
		t.push()
	}
	// alias places refer to caller names, which nothing declared in the body
	// may capture
	if t.aliasRoots == nil {
		t.aliasRoots = map[string]int{}
	}
	for _, b := range bs {
		if b.alias != nil {
			if r := rootName(b.alias); r != "" {
				t.aliasRoots[r]++
				defer func() { t.aliasRoots[r]-- }()
			}
		}
	}
	for _, b := range bs {
		n := t.declare(b.o)
		t.locals[b.o] = &local{alias: b.alias, rust: n}
		t.emit("let mut %s: %s = %s;", n, b.rt, b.text)
	}
	t.namedResults(ft)
	t.seq(body.List, func() {
		if rt.Len() > 0 {
			fail(body.Pos(), "inlined body falls off its end")
		}
	})
	t.ind--
	t.f = caller
	t.scopes = savedScopes
	t.post, t.swDep = oldPost, oldSw
	t.emit("}")
	// same-named write-backs
	return nf.results
}

// isOpaqueIface: an interface that no specification gives a type.
func (t *tr) isOpaqueIface(ty types.Type) bool {
	if _, ok := types.Unalias(ty).(*types.TypeParam); ok {
		return false
	}
	k := tkey(types.Unalias(ty))
	_, mapped := t.g.specs.TypeMap[k]
	return !mapped && t.g.specs.Sums[k] == nil && k != "error"
}

func rootName(p *place) string {
	for p.base != nil {
		p = p.base
	}
	return p.name
}

func (t *tr) namedResults(ft *ast.FuncType) {
	if ft.Results == nil {
		return
	}
	for _, f := range ft.Results.List {
		for _, n := range f.Names {
			o := t.f.info.Defs[n]
			if o == nil || n.Name == "_" {
				continue
			}
			t.emit("let mut %s: %s = %s;", t.declare(o), t.g.rust(t.inst(o.Type())), t.g.zero(t.inst(o.Type())))
			t.f.named = append(t.f.named, o)
		}
	}
}

// ---- statements

func hasReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		}
		return !found
	})
	return found
}

func isPanic(s ast.Stmt) bool {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "panic"
}

// elim reports whether returns are being turned into assignments.
func (t *tr) elim() bool {
	return t.cursor != nil || t.f.inlined && !t.f.tail || t.f.tail && t.tailElim()
}

func (t *tr) tailElim() bool {
	f := t.f
	for f.tail {
		f = f.parent
	}
	return f.inlined
}

// gotoIf returns the label an if statement without an else branch ends in a
// goto to.
func gotoIf(s ast.Stmt) (*ast.IfStmt, string) {
	f, ok := s.(*ast.IfStmt)
	if !ok || f.Else != nil || len(f.Body.List) == 0 {
		return nil, ""
	}
	b, ok := f.Body.List[len(f.Body.List)-1].(*ast.BranchStmt)
	if !ok || b.Tok != token.GOTO {
		return nil, ""
	}
	return f, b.Label.Name
}

// skips rewrites "if c { A; goto L }; S" to "if c { A } else { S }", where S
// is what is left up to the label.
func skips(list []ast.Stmt, label string) []ast.Stmt {
	for i, s := range list {
		if f, l := gotoIf(s); f != nil && l == label {
			body := *f.Body
			body.List = body.List[:len(body.List)-1]
			rest := skips(list[i+1:], label)
			g := &ast.IfStmt{If: f.If, Init: f.Init, Cond: f.Cond, Body: &body}
			if len(rest) > 0 {
				g.Else = &ast.BlockStmt{Lbrace: rest[0].Pos(), List: rest, Rbrace: rest[len(rest)-1].End()}
			}
			return append(append([]ast.Stmt(nil), list[:i]...), g)
		}
	}
	return list
}

// noGoto rewrites the jumps forward to labels of a statement list.
func noGoto(list []ast.Stmt) []ast.Stmt {
	for j, s := range list {
		if l, ok := s.(*ast.LabeledStmt); ok {
			for _, before := range list[:j] {
				if f, label := gotoIf(before); f != nil && label == l.Label.Name {
					out := skips(list[:j], l.Label.Name)
					out = append(append([]ast.Stmt(nil), out...), l.Stmt)
					return noGoto(append(out, list[j+1:]...))
				}
			}
		}
	}
	return list
}

func (t *tr) seq(list []ast.Stmt, cont func()) {
	list = noGoto(list)
	for i, s := range list {
		rest := list[i+1:]
		if r, ok := s.(*ast.ReturnStmt); ok {
			t.ret(r)
			return
		}
		if isPanic(s) {
			t.stmt(s)
			return
		}
		if t.elim() && (hasReturn(s) || t.cursor != nil && t.movesCursor(s)) {
			k := func() { t.seq(rest, cont) }
			t.elimStmt(s, k)
			return
		}
		t.stmt(s)
	}
	cont()
}

// elimStmt translates a statement containing returns inside an inlined body;
// k is what follows it.
func (t *tr) elimStmt(s ast.Stmt, k func()) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		t.open("")
		t.seq(s.List, k)
		t.close("")
	case *ast.IfStmt:
		t.open("")
		if s.Init != nil {
			// what follows is translated inside the scope of the variables
			// declared here: those that shadow others get other names
			var up []string
			if a, ok := s.Init.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				for _, l := range a.Lhs {
					if id, ok := l.(*ast.Ident); ok && t.byName(rname(id.Name)) != nil {
						up = append(up, rname(id.Name))
					}
				}
			}
			if t.aliasRoots == nil {
				t.aliasRoots = map[string]int{}
			}
			for _, n := range up {
				t.aliasRoots[n]++
			}
			t.stmt(s.Init)
			for _, n := range up {
				t.aliasRoots[n]--
			}
		}
		t.open("if " + t.expr(s.Cond))
		sv := t.save()
		t.seq(s.Body.List, k)
		t.restore(sv)
		t.closeOpen("} else {")
		switch el := s.Else.(type) {
		case nil:
			k()
		case *ast.BlockStmt:
			t.seq(el.List, k)
		default:
			t.seq([]ast.Stmt{el}, k)
		}
		t.close("")
		t.close("")
	case *ast.SwitchStmt:
		t.switchStmt(s, k)
	case *ast.TypeSwitchStmt:
		t.typeSwitch(s, k)
	default:
		fail(s.Pos(), "return inside a loop of an inlined function (give it a contract)")
	}
}

// save and restore keep the state of the local variables across the branches
// of a statement whose continuation is translated once per branch.
func (t *tr) save() saved {
	m := saved{map[types.Object]local{}, map[types.Object]string{}}
	for o, l := range t.locals {
		m.l[o] = *l
	}
	for o, n := range t.ren {
		m.ren[o] = n
	}
	return m
}

func (t *tr) restore(m saved) {
	for o, l := range m.l {
		c := l
		t.locals[o] = &c
	}
	for o := range t.ren {
		if _, ok := m.ren[o]; !ok && m.l[o].rust != "" {
			delete(t.ren, o)
		}
	}
	for o, n := range m.ren {
		t.ren[o] = n
	}
}

type saved struct {
	l   map[types.Object]local
	ren map[types.Object]string
}

// outdate marks the variables that point into what was stored at p.
func (t *tr) outdate(p *place) {
	root := func(q *place) types.Object {
		for q.base != nil {
			q = q.base
		}
		return q.obj
	}
	for _, l := range t.locals {
		if l.alias == nil {
			continue
		}
		cast := false
		for q := l.alias; q != nil; q = q.base {
			cast = cast || q.kind == "cast"
		}
		if cast && root(l.alias) == root(p) {
			l.stale = true
		}
	}
}

// ---- loops that move a pointer into a tree. `for { BODY }` with `n = &m.x`
// becomes the recursive function whose contract is KEY@loop: its parameters
// are the variables that the loop uses, and the end of BODY calls it again on
// what the pointer has become.

func (t *tr) cursorVar(e ast.Expr) *types.Var {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	v, ok := t.f.info.ObjectOf(id).(*types.Var)
	if !ok || !isPtr(v.Type()) {
		return nil
	}
	for _, p := range t.cursor.Params {
		if p.Mut && strings.TrimSuffix(p.Name, "_r") == rname(v.Name()) {
			return v
		}
	}
	return nil
}

func (t *tr) movesCursor(s ast.Stmt) bool {
	if _, ok := s.(*ast.AssignStmt); ok {
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				found = found || a.Tok == token.ASSIGN && t.cursorVar(l) != nil
			}
		}
		return true
	})
	return found
}

func (t *tr) moveCursor(lhs, rhs ast.Expr) bool {
	if t.cursor == nil {
		return false
	}
	v := t.cursorVar(lhs)
	if v == nil {
		return false
	}
	u, ok := ast.Unparen(rhs).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		fail(lhs.Pos(), "unsupported move of pointer %s", v.Name())
	}
	p := t.place(u.X)
	if p == nil {
		fail(lhs.Pos(), "unsupported move of pointer %s", v.Name())
	}
	// the variable so far lives on under its Rust name
	old := types.NewVar(v.Pos(), v.Pkg(), v.Name(), v.Type())
	c := *t.locals[v]
	t.locals[old] = &c
	swap := func(q *place) *place {
		var f func(q *place) *place
		f = func(q *place) *place {
			if q == nil {
				return nil
			}
			d := *q
			d.base = f(q.base)
			if d.obj == v {
				d.obj = old
			}
			return &d
		}
		return f(q)
	}
	for o, l := range t.locals {
		if l.alias != nil {
			d := *l
			d.alias = swap(l.alias)
			t.locals[o] = &d
		}
	}
	n := t.fresh("cur")
	t.emit("let mut %s: %s = %s;", n, t.g.rust(v.Type()), t.load(t.addrOf(p, v.Type())))
	t.locals[v] = &local{alias: t.addrOf(swap(p), v.Type()), rust: n}
	if t.ren == nil {
		t.ren = map[types.Object]string{}
	}
	t.ren[v] = n
	t.scopes[len(t.scopes)-1][n] = v
	return true
}

// loopCall calls the function that stands for the loop and returns its result.
func (t *tr) loopCall(c *Contract, pos token.Pos) {
	var as []callArg
	for _, p := range c.Params {
		n := strings.TrimSuffix(p.Name, "_r")
		o := t.byName(n)
		if o == nil {
			fail(pos, "no variable %s for the loop", n)
		}
		as = append(as, callArg{pl: &place{kind: "var", obj: o, name: t.nameOf(o, pos), typ: t.objType(o)}, typ: t.objType(o)})
	}
	var vals []string
	if t.f.sig.Results().Len() > 0 {
		e := &ast.CallExpr{Fun: &ast.Ident{NamePos: pos, Name: "loop"}, Lparen: pos}
		t.f.info.Types[e] = types.TypeAndValue{Type: t.f.sig.Results()}
		if t.f.sig.Results().Len() == 1 {
			t.f.info.Types[e] = types.TypeAndValue{Type: t.f.sig.Results().At(0).Type()}
		}
		vals = t.contractCall(c, as, e)
	} else {
		e := &ast.CallExpr{Fun: &ast.Ident{NamePos: pos, Name: "loop"}, Lparen: pos}
		t.f.info.Types[e] = types.TypeAndValue{Type: types.NewTuple()}
		t.contractCall(c, as, e)
	}
	t.emitReturn(vals)
}

func (t *tr) open(h string) {
	if h != "" {
		h += " "
	}
	t.emit("%s{", h)
	t.ind++
	t.push()
}

func (t *tr) closeOpen(h string) {
	t.pop()
	t.ind--
	t.emit("%s", h)
	t.ind++
	t.push()
}

func (t *tr) close(suf string) {
	t.pop()
	t.ind--
	t.emit("}%s", suf)
}

func (t *tr) block(list []ast.Stmt) { t.seq(list, func() {}) }

func (t *tr) ret(r *ast.ReturnStmt) {
	f := t.f
	rt := f.sig.Results()
	resT := func(i int) types.Type { return t.inst(rt.At(i).Type()) }
	var vals []string
	if len(r.Results) == 0 {
		for _, o := range f.named {
			vals = append(vals, t.nameOf(o, r.Pos()))
		}
	} else if len(r.Results) == 1 {
		if c, ok := ast.Unparen(r.Results[0]).(*ast.CallExpr); ok {
			if vs, done := t.tailCall(c, f); done {
				return
			} else if vs != nil {
				vals = vs
			}
		}
		if vals == nil {
			vals = append(vals, t.exprAs(r.Results[0], resT(0)))
		}
	} else {
		for i, x := range r.Results {
			vals = append(vals, t.exprAs(x, resT(i)))
		}
	}
	for len(vals) < rt.Len() {
		fail(r.Pos(), "missing results")
	}
	for f.tail {
		f = f.parent
	}
	if f.inlined {
		for i, v := range vals {
			t.emit("%s = %s;", f.results[i], v)
		}
		return
	}
	t.emitReturn(vals)
}

func (t *tr) emitReturn(vals []string) {
	switch len(vals) {
	case 0:
		t.retHint()
		t.writeBack()
		t.emit("return;")
		return
	case 1:
		t.emit("let ret = %s;", vals[0])
	default:
		t.emit("let ret = (%s);", strings.Join(vals, ", "))
	}
	t.retHint()
	t.writeBack()
	t.emit("return ret;")
}

// retHint emits the hints for every return and for the k-th one.
func (t *tr) retHint() {
	t.rets++
	t.hint("return", nil)
	t.hint(fmt.Sprintf("return %d", t.rets), nil)
}

func (t *tr) writeBack() {
	for i, p := range t.c.Params {
		if p.Mut {
			t.emit("*%s = %s;", p.Name, t.mutNames()[i])
		}
	}
}

func (t *tr) mutNames() map[int]string { return t.paramNames }

// tailCall handles `return f(...)` where f is inlined.
func (t *tr) tailCall(c *ast.CallExpr, f *frame) ([]string, bool) {
	if tv, ok := t.f.info.Types[c.Fun]; ok && tv.IsType() {
		return nil, false
	}
	n := t.resultCount(c)
	if n <= 1 {
		return nil, false
	}
	rs := t.call(c)
	if len(rs) == n {
		return rs, false
	}
	return nil, false
}

func (t *tr) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		t.open("")
		t.block(s.List)
		t.close("")
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := t.f.info.Defs[n]
					if n.Name == "_" {
						continue
					}
					z := t.g.zero(t.inst(o.Type()))
					t.emit("let mut %s: %s = %s;", t.declare(o), t.g.rust(t.inst(o.Type())), z)
				}
				continue
			}
			var lhs []ast.Expr
			for _, n := range vs.Names {
				lhs = append(lhs, n)
			}
			t.assign(lhs, vs.Values, true, s.Pos())
		}
	case *ast.AssignStmt:
		switch s.Tok {
		case token.ASSIGN, token.DEFINE:
			t.assign(s.Lhs, s.Rhs, s.Tok == token.DEFINE, s.Pos())
		default:
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
			p := t.place(s.Lhs[0])
			if p == nil {
				fail(s.Pos(), "unsupported assignment target")
			}
			ty := t.typeOf(s.Lhs[0])
			var v string
			if op == token.SHL || op == token.SHR {
				if tv := t.f.info.Types[s.Rhs[0]]; tv.Value != nil {
					k, _ := constant.Int64Val(tv.Value)
					v = t.arith(op, t.load(p), "", ty, nil, s.Pos(), k)
				} else {
					v = t.arith(op, t.load(p), t.expr(s.Rhs[0]), ty, t.typeOf(s.Rhs[0]), s.Pos(), -1)
				}
			} else {
				v = t.arith(op, t.load(p), t.exprAs(s.Rhs[0], ty), ty, nil, s.Pos(), -1)
			}
			t.store(p, v, s.Pos())
		}
	case *ast.IncDecStmt:
		p := t.place(s.X)
		if p == nil {
			fail(s.Pos(), "unsupported ++ target")
		}
		ty := t.typeOf(s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		t.store(p, t.arith(op, t.load(p), "1"+t.g.rust(ty), ty, nil, s.Pos(), -1), s.Pos())
	case *ast.ExprStmt:
		c, ok := ast.Unparen(s.X).(*ast.CallExpr)
		if !ok {
			fail(s.Pos(), "unsupported expression statement")
		}
		n := t.resultCount(c)
		rs := t.call(c)
		if n == 1 && len(rs) == 1 && !atomRe.MatchString(rs[0]) {
			t.emit("let _ = %s;", rs[0])
		}
	case *ast.IfStmt:
		t.ifStmt(s)
	case *ast.ForStmt:
		t.forStmt(s)
	case *ast.RangeStmt:
		t.rangeStmt(s)
	case *ast.SwitchStmt:
		t.switchStmt(s, nil)
	case *ast.TypeSwitchStmt:
		t.typeSwitch(s, nil)
	case *ast.ReturnStmt:
		t.ret(s)
	case *ast.BranchStmt:
		if s.Label != nil {
			fail(s.Pos(), "labelled branch")
		}
		switch s.Tok {
		case token.BREAK:
			if len(t.swDep) == 0 || t.swDep[len(t.swDep)-1] != "loop" {
				fail(s.Pos(), "break inside a switch")
			}
			t.calls["break"]++
			t.hint(fmt.Sprintf("break %d", t.calls["break"]), nil)
			t.emit("break;")
		case token.CONTINUE:
			if len(t.post) == 0 {
				fail(s.Pos(), "continue outside loop")
			}
			t.post[len(t.post)-1]()
			t.emit("continue;")
		default:
			fail(s.Pos(), "unsupported %s", s.Tok)
		}
	default:
		fail(s.Pos(), "unsupported statement %T", s)
	}
}

func (t *tr) ifStmt(s *ast.IfStmt) {
	if s.Init != nil {
		t.open("")
		t.stmt(s.Init)
		defer t.close("")
	}
	t.open("if " + t.expr(s.Cond))
	before := t.save()
	t.block(s.Body.List)
	end := t.save()
	t.restore(before)
	defer func() { t.join([]saved{end}) }()
	for s.Else != nil {
		t.closeOpen("} else {")
		switch el := s.Else.(type) {
		case *ast.BlockStmt:
			t.block(el.List)
		case *ast.IfStmt:
			t.ifStmt(el)
		}
		break
	}
	t.close("")
}

// join merges what other branches of a statement left of the variables.
func (t *tr) join(ends []saved) {
	for _, m := range ends {
		for o, e := range m.l {
			l := t.locals[o]
			if l == nil {
				continue
			}
			l.stale = l.stale || e.stale
			l.view = l.view || e.view
			l.fixed = l.fixed || e.fixed || !samePlace(l.alias, e.alias)
		}
	}
}

func samePlace(a, b *place) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || a.kind == b.kind && a.name == b.name && a.obj == b.obj && a.hi == b.hi && samePlace(a.base, b.base)
}

// define declares o with the given value text.
func (t *tr) define(o types.Object, v string, rhs ast.Expr) {
	ty := t.inst(o.Type())
	if lit, ok := rhs.(*ast.FuncLit); ok {
		t.declare(o)
		t.locals[o].lit = lit
		t.locals[o].litF = t.f
		return
	}
	// compute alias before the name is (re)declared
	tmp := &local{}
	t.locals[o] = tmp
	if rhs != nil {
		t.bindAlias(o, rhs)
		if tmp.alias != nil && rootName(tmp.alias) == rname(o.Name()) {
			fail(rhs.Pos(), "reference variable %s shadows the variable it is read from", o.Name())
		}
	}
	n := t.declare(o)
	t.emit("let mut %s: %s = %s;", n, t.g.rust(ty), v)
}

func (t *tr) assign(lhs, rhs []ast.Expr, define bool, pos token.Pos) {
	isBlank := func(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }
	newObj := func(e ast.Expr) types.Object {
		if !define {
			return nil
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return nil
		}
		return t.f.info.Defs[id]
	}
	if len(lhs) == 1 && len(rhs) == 1 {
		if isBlank(lhs[0]) {
			if c, ok := rhs[0].(*ast.CallExpr); ok {
				t.call(c)
			} else {
				t.emit("let _ = %s;", t.expr(rhs[0]))
			}
			return
		}
		if o := newObj(lhs[0]); o != nil {
			if _, ok := rhs[0].(*ast.FuncLit); ok {
				t.define(o, "", rhs[0])
				return
			}
			t.define(o, t.exprAs(rhs[0], t.inst(o.Type())), rhs[0])
			return
		}
		if t.moveCursor(lhs[0], rhs[0]) {
			return
		}
		v := t.exprAs(rhs[0], t.typeOf(lhs[0]))
		p := t.place(lhs[0])
		if p == nil {
			fail(pos, "unsupported assignment target")
		}
		t.store(p, v, pos)
		if _, ok := ast.Unparen(lhs[0]).(*ast.StarExpr); ok {
			t.outdate(p)
		}
		if p.kind == "var" {
			t.bindAlias(p.obj, rhs[0])
		}
		return
	}
	var vals []string
	var typs []types.Type
	if len(rhs) == 1 {
		switch r := ast.Unparen(rhs[0]).(type) {
		case *ast.CallExpr:
			n := len(lhs)
			rs := t.call(r)
			tu := t.f.info.TypeOf(r).(*types.Tuple)
			if len(rs) == 1 && n > 1 {
				var ns []string
				for i := 0; i < n; i++ {
					ns = append(ns, t.fresh("r"))
				}
				t.emit("let (%s) = %s;", strings.Join(ns, ", "), rs[0])
				rs = ns
			}
			vals = rs
			for i := 0; i < n; i++ {
				typs = append(typs, t.inst(tu.At(i).Type()))
			}
		case *ast.IndexExpr: // v, ok := m[k]
			u := types.Unalias(t.typeOf(r.X)).Underlying().(*types.Map)
			x := t.atom(t.expr(r.X))
			if p := t.place(r.X); p != nil {
				if s, ok := p.rustPlace(); ok {
					x = s
				}
			}
			k := t.atom(t.exprAs(r.Index, u.Key()))
			okN := t.fresh("ok")
			t.emit("let %s = %s.has(%s);", okN, x, k)
			v := ""
			if isBlank(lhs[0]) {
				v = ""
			} else if t.nonnil(u.Elem()) {
				v = fmt.Sprintf("%s.lookup(%s, %s)", x, k, t.g.zero(u.Elem()))
			} else {
				v = fmt.Sprintf("%s.get_or(%s, %s)", x, k, t.g.zero(u.Elem()))
			}
			vals = []string{v, okN}
			typs = []types.Type{u.Elem(), types.Typ[types.Bool]}
			t.assign2(lhs, vals, typs, define, pos, []ast.Expr{&ast.IndexExpr{X: r.X, Lbrack: r.Lbrack, Index: r.Index}, nil})
			return
		case *ast.TypeAssertExpr:
			x := t.atom(t.expr(r.X))
			vt := t.f.info.Types[r.Type].Type
			vn := t.variant(vt)
			okN := t.fresh("ok")
			t.emit("let %s = is_%s(%s);", okN, vn, x)
			v := ""
			if !isBlank(lhs[0]) {
				v = fmt.Sprintf("lookup_%s(%s)", vn, x)
			}
			var al *place
			if p := t.place(r.X); p != nil && isRef(vt) {
				al = &place{kind: "cast", base: p, name: vn, typ: vt}
			}
			t.assign2(lhs, []string{v, okN}, []types.Type{vt, types.Typ[types.Bool]}, define, pos, nil)
			if o := newObj(lhs[0]); o != nil && al != nil && o.Name() != "_" {
				t.locals[o].alias = al
			}
			return
		default:
			fail(pos, "unsupported multi-assignment")
		}
		t.assign2(lhs, vals, typs, define, pos, nil)
		return
	}
	// parallel assignment
	for i := range rhs {
		ty := t.typeOf(rhs[i])
		if o := newObj(lhs[i]); o != nil {
			ty = t.inst(o.Type())
		} else if !isBlank(lhs[i]) {
			ty = t.typeOf(lhs[i])
		}
		v := t.exprAs(rhs[i], ty)
		n := t.fresh("p")
		t.emit("let %s: %s = %s;", n, t.g.rust(ty), v)
		vals = append(vals, n)
		typs = append(typs, ty)
	}
	t.assign2(lhs, vals, typs, define, pos, rhs)
}

func (t *tr) assign2(lhs []ast.Expr, vals []string, typs []types.Type, define bool, pos token.Pos, rhs []ast.Expr) {
	for i, l := range lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if define {
				if o := t.f.info.Defs[id]; o != nil {
					var r ast.Expr
					if rhs != nil {
						r = rhs[i]
					}
					t.define(o, t.conv(vals[i], typs[i], t.inst(o.Type()), pos), r)
					continue
				}
			}
		}
		p := t.place(l)
		if p == nil {
			fail(pos, "unsupported assignment target")
		}
		t.store(p, t.conv(vals[i], typs[i], p.typ, pos), pos)
		if p.kind == "var" {
			var r ast.Expr
			if rhs != nil {
				r = rhs[i]
			}
			t.bindAlias(p.obj, r)
		}
	}
}

func (t *tr) switchStmt(s *ast.SwitchStmt, k func()) {
	t.open("")
	if s.Init != nil {
		t.stmt(s.Init)
	}
	tag := ""
	var tagT types.Type
	if s.Tag != nil {
		tagT = t.typeOf(s.Tag)
		tag = t.fresh("tag")
		t.emit("let %s = %s;", tag, t.expr(s.Tag))
	}
	t.swDep = append(t.swDep, "switch")
	var def *ast.CaseClause
	var ends []saved
	opened := 0
	for _, cc := range s.Body.List {
		c := cc.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		var conds []string
		for _, x := range c.List {
			if tag == "" {
				conds = append(conds, t.expr(x))
			} else if b, ok := types.Unalias(tagT).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				conds = append(conds, fmt.Sprintf("str_eq(%s, %s)", tag, t.exprAs(x, tagT)))
			} else {
				conds = append(conds, fmt.Sprintf("%s == %s", tag, t.exprAs(x, tagT)))
			}
		}
		t.open("if " + strings.Join(conds, " || "))
		sv := t.save()
		t.caseBody(c.Body, k)
		ends = append(ends, t.save())
		t.restore(sv)
		t.closeOpen("} else {")
		opened++
	}
	if def != nil {
		t.caseBody(def.Body, k)
	} else if k != nil {
		k()
	}
	t.join(ends)
	for ; opened > 0; opened-- {
		t.close("")
	}
	t.swDep = t.swDep[:len(t.swDep)-1]
	t.close("")
}

func (t *tr) caseBody(body []ast.Stmt, k func()) {
	if n := len(body); n > 0 {
		if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
			body = body[:n-1]
		}
		if b, ok := body[len(body)-1].(*ast.BranchStmt); len(body) > 0 && ok && b.Tok == token.FALLTHROUGH {
			fail(b.Pos(), "fallthrough")
		}
	}
	if k == nil {
		t.block(body)
	} else {
		t.seq(body, k)
	}
}

func (t *tr) typeSwitch(s *ast.TypeSwitchStmt, k func()) {
	t.open("")
	if s.Init != nil {
		t.stmt(s.Init)
	}
	var x ast.Expr
	bound := false
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
		bound = true
	}
	pl := t.place(x)
	var ends []saved
	v := t.fresh("ts")
	t.emit("let %s = %s;", v, t.expr(x))
	t.swDep = append(t.swDep, "switch")
	var def *ast.CaseClause
	opened := 0
	for _, cc := range s.Body.List {
		c := cc.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		var conds []string
		var vt types.Type
		for _, ty := range c.List {
			vt = t.f.info.Types[ty].Type
			conds = append(conds, fmt.Sprintf("is_%s(%s)", t.variant(vt), v))
		}
		t.open("if " + strings.Join(conds, " || "))
		if o := t.f.info.Implicits[c]; bound && o != nil && usesObj(t.f.info, c.Body, o) {
			if len(c.List) == 1 {
				n := rname(o.Name())
				al := (*place)(nil)
				if pl != nil && isRef(vt) {
					if rootName(pl) == n {
						// m shadows the switched variable: keep the outer one under another name
						pl = nil
					}
				}
				if pl != nil && isRef(vt) {
					al = &place{kind: "cast", base: pl, name: t.variant(vt), typ: vt}
				}
				t.emit("let mut %s: %s = as_%s(%s);", n, t.g.rust(vt), t.variant(vt), v)
				t.declare(o)
				t.locals[o].alias = al
				t.locals[o].fixed = al == nil && isRef(vt)
			} else {
				t.emit("let mut %s = %s;", rname(o.Name()), v)
				t.declare(o)
			}
		}
		sv := t.save()
		t.caseBody(c.Body, k)
		ends = append(ends, t.save())
		t.restore(sv)
		t.closeOpen("} else {")
		opened++
	}
	if def != nil {
		t.caseBody(def.Body, k)
	} else if k != nil {
		k()
	}
	t.join(ends)
	for ; opened > 0; opened-- {
		t.close("")
	}
	t.swDep = t.swDep[:len(t.swDep)-1]
	t.close("")
}

func usesObj(info *types.Info, body []ast.Stmt, o types.Object) bool {
	found := false
	for _, s := range body {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && info.Uses[id] == o {
				found = true
			}
			return !found
		})
	}
	return found
}

// ---- loops

var idxRe = regexp.MustCompile(`\b(IDX|SEQ|MAP)(\d*)\b`)

func (t *tr) loopNames(s string, k int) string {
	return idxRe.ReplaceAllStringFunc(s, func(m string) string {
		sub := idxRe.FindStringSubmatch(m)
		n := k
		if sub[2] != "" {
			n, _ = strconv.Atoi(sub[2])
		}
		if n < 0 {
			return m
		}
		return fmt.Sprintf("%s_%d", strings.ToLower(sub[1]), n)
	})
}

func (t *tr) loopOrd(p token.Pos) int {
	key := fmt.Sprintf("%s@%d", t.f.id, p)
	if n, ok := t.loops[key]; ok {
		return n
	}
	t.loopNo++
	t.loops[key] = t.loopNo
	return t.loopNo
}

func (t *tr) clauses(k int, auto string, dec string) {
	txt := t.c.Loops[k]
	if txt != "" {
		t.used[fmt.Sprintf("loopspec %d", k)] = true
	}
	txt = t.loopNames(txt, k)
	hasDec := regexp.MustCompile(`\bdecreases\b`).MatchString(txt)
	if auto != "" {
		if i := regexp.MustCompile(`\binvariant\b`).FindStringIndex(txt); i != nil {
			txt = txt[:i[1]] + " " + auto + txt[i[1]:]
		} else {
			txt = "invariant " + auto + "\n" + txt
		}
	}
	if !hasDec && dec != "" {
		txt += "\ndecreases " + dec + ","
	}
	t.ind++
	for _, l := range strings.Split(txt, "\n") {
		if strings.TrimSpace(l) != "" {
			t.emit("%s", strings.TrimSpace(l))
		}
	}
	t.ind--
}

func (t *tr) loopBody(k int, body []ast.Stmt, top func(), post func()) {
	t.ind++
	t.push()
	if top != nil {
		top()
	}
	if h, ok := t.c.Hints[fmt.Sprintf("loop %d top", k)]; ok {
		t.used[fmt.Sprintf("loop %d top", k)] = true
		t.emit("%s", t.loopNames(h, k))
	}
	t.post = append(t.post, post)
	t.swDep = append(t.swDep, "loop")
	if t.elim() {
		for _, s := range body {
			if hasReturn(s) {
				fail(s.Pos(), "return inside a loop of an inlined function (give it a contract)")
			}
		}
	}
	t.seq(body, func() {
		if h, ok := t.c.Hints[fmt.Sprintf("loop %d bottom", k)]; ok {
			t.used[fmt.Sprintf("loop %d bottom", k)] = true
			t.emit("%s", t.loopNames(h, k))
		}
		post()
	})
	t.swDep = t.swDep[:len(t.swDep)-1]
	t.post = t.post[:len(t.post)-1]
	t.pop()
	t.ind--
}

func (t *tr) afterLoop(k int) {
	if h, ok := t.c.Hints[fmt.Sprintf("after loop %d", k)]; ok {
		t.used[fmt.Sprintf("after loop %d", k)] = true
		t.emit("%s", t.loopNames(h, k))
	}
}

func (t *tr) forStmt(s *ast.ForStmt) {
	if c := t.g.specs.ByKey[t.c.Key+"@loop"]; c != nil && s.Init == nil && s.Cond == nil && s.Post == nil && t.cursor == nil && !t.f.inlined {
		t.loopCall(c, s.Pos())
		return
	}
	t.open("")
	if s.Init != nil {
		t.stmt(s.Init)
	}
	k := t.loopOrd(s.Pos())
	if h, ok := t.c.Hints[fmt.Sprintf("before loop %d", k)]; ok {
		t.used[fmt.Sprintf("before loop %d", k)] = true
		t.emit("%s", t.loopNames(h, k))
	}
	post := func() {
		if s.Post != nil {
			t.stmt(s.Post)
		}
	}
	cond := ""
	pre := ""
	if s.Cond != nil {
		pre = t.capture(func() { cond = t.expr(s.Cond) })
	}
	if s.Cond != nil && pre == "" {
		t.emit("while %s", cond)
		t.clauses(k, "", "")
		t.emit("{")
		t.loopBody(k, s.Body.List, nil, post)
		t.emit("}")
	} else {
		t.emit("loop")
		t.clauses(k, "", "")
		t.emit("{")
		t.loopBody(k, s.Body.List, func() {
			if s.Cond != nil {
				c := t.expr(s.Cond)
				t.emit("if !(%s) { break; }", c)
			}
		}, post)
		t.emit("}")
	}
	t.afterLoop(k)
	t.close("")
}

func (t *tr) rangeStmt(s *ast.RangeStmt) {
	t.open("")
	xt := t.typeOf(s.X)
	var keyO, valO types.Object
	get := func(e ast.Expr) types.Object {
		if e == nil {
			return nil
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			fail(e.Pos(), "range with non-identifier target")
		}
		if id.Name == "_" {
			return nil
		}
		if s.Tok == token.ASSIGN {
			fail(e.Pos(), "range assigning to existing variable")
		}
		return t.f.info.Defs[id]
	}
	keyO, valO = get(s.Key), get(s.Value)
	x := t.expr(s.X)
	k := t.loopOrd(s.Pos())
	idx := fmt.Sprintf("idx_%d", k)
	sq := fmt.Sprintf("seq_%d", k)
	var top func()
	auto, dec := "", ""
	cond := ""
	mp := fmt.Sprintf("map_%d", k)
	switch u := types.Unalias(xt).Underlying().(type) {
	case *types.Slice, *types.Array:
		var el types.Type
		if sl, ok := u.(*types.Slice); ok {
			el = sl.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		t.emit("let %s: %s = %s;", sq, t.g.rust(xt), x)
		t.emit("let _ = %s.len();", sq)
		t.emit("let mut %s: i64 = 0;", idx)
		cond = fmt.Sprintf("%s < %s.len()", idx, sq)
		auto = fmt.Sprintf("0 <= %s <= %s@.len(), %s@.len() <= i64::MAX,", idx, sq, sq)
		dec = fmt.Sprintf("%s@.len() - %s", sq, idx)
		top = func() {
			if keyO != nil {
				t.emit("let mut %s: i64 = %s;", t.declare(keyO), idx)
			}
			if valO != nil {
				t.emit("let mut %s: %s = %s.get(%s);", t.declare(valO), t.g.rust(t.inst(el)), sq, idx)
				if isRef(el) {
					if p := t.place(s.X); p != nil {
						t.locals[valO].alias = &place{kind: "index", base: p, name: fmt.Sprintf("(%s - 1)", idx), typ: t.inst(el)}
					}
				}
			}
			t.emit("%s = %s + 1;", idx, idx)
		}
	case *types.Map:
		t.emit("let %s: %s = %s;", mp, t.g.rust(xt), x)
		t.emit("let %s = %s.keys();", sq, mp)
		t.emit("let _ = %s.len();", sq)
		t.emit("let mut %s: i64 = 0;", idx)
		cond = fmt.Sprintf("%s < %s.len()", idx, sq)
		auto = fmt.Sprintf("0 <= %s <= %s@.len(), %s@.len() <= i64::MAX,", idx, sq, sq)
		dec = fmt.Sprintf("%s@.len() - %s", sq, idx)
		// A key that is deleted before it is reached is not produced; keys that
		// are added while ranging may or may not be, so that isn't supported.
		var cur *place
		if p := t.place(s.X); p != nil {
			del, add := mutatesMap(t.f.info, s.Body, s.X, keyO)
			if add {
				fail(s.Pos(), "map added to while ranging over it")
			} else if del {
				cur = p
			}
		}
		top = func() {
			kn := ""
			if keyO != nil {
				kn = t.declare(keyO)
				t.emit("let mut %s: %s = %s.get(%s);", kn, t.g.rust(t.inst(u.Key())), sq, idx)
			}
			from := mp
			if cur != nil {
				from = t.load(cur)
				t.emit("if !%s.has(%s.get(%s)) { %s = %s + 1; continue; }", from, sq, idx, idx, idx)
			}
			if valO != nil {
				t.emit("let mut %s: %s = %s.index(%s.get(%s));", t.declare(valO), t.g.rust(t.inst(u.Elem())), from, sq, idx)
				if isRef(u.Elem()) {
					if p := t.place(s.X); p != nil && kn != "" {
						t.locals[valO].alias = &place{kind: "mapidx", base: p, name: kn, typ: t.inst(u.Elem())}
					} else {
						t.locals[valO].param = 1
					}
				}
			}
			t.emit("%s = %s + 1;", idx, idx)
		}
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			fail(s.Pos(), "range over string")
		}
		rt := t.g.rust(xt)
		t.emit("let %s: %s = %s;", sq, rt, x)
		t.emit("let mut %s: %s = 0;", idx, rt)
		cond = fmt.Sprintf("%s < %s", idx, sq)
		auto = fmt.Sprintf("0 <= %s, (%s <= %s || %s < 0),", idx, idx, sq, sq)
		dec = fmt.Sprintf("%s - %s", sq, idx)
		top = func() {
			if keyO != nil {
				t.emit("let mut %s: %s = %s;", t.declare(keyO), rt, idx)
			}
			t.emit("%s = %s + 1;", idx, idx)
		}
	default:
		fail(s.Pos(), "unsupported range")
	}
	if h, ok := t.c.Hints[fmt.Sprintf("before loop %d", k)]; ok {
		t.used[fmt.Sprintf("before loop %d", k)] = true
		t.emit("%s", t.loopNames(h, k))
	}
	t.emit("while %s", cond)
	t.clauses(k, auto, dec)
	t.emit("{")
	t.loopBody(k, s.Body.List, top, func() {})
	t.emit("}")
	t.afterLoop(k)
	t.close("")
}

// mutatesMap returns whether x is changed in body: by deleting from it or
// storing to the key that is ranged over, or in another way.
func mutatesMap(info *types.Info, body ast.Node, x ast.Expr, key types.Object) (del, add bool) {
	xs := types.ExprString(x)
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok && types.ExprString(ix.X) == xs {
					if id, ok := ast.Unparen(ix.Index).(*ast.Ident); ok && key != nil && info.ObjectOf(id) == key && !assignedIn(info, body, key) {
						del = true
					} else {
						add = true
					}
				} else if types.ExprString(l) == xs {
					add = true
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && types.ExprString(n.Args[0]) == xs {
				del = true
			}
		}
		return true
	})
	return
}

// ---- functions

func assignedIn(info *types.Info, body ast.Node, o types.Object) bool {
	found := false
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.Ident:
				return info.ObjectOf(x)
			default:
				return nil
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if root(l) == o {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if root(n.X) == o {
				found = true
			}
		case *ast.CallExpr:
			for _, a := range n.Args {
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
					a = u.X
				}
				if root(a) == o {
					found = true
				}
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && root(s.X) == o {
				found = true
			}
		}
		return !found
	})
	return found
}

// translate extracts the function c is attached to.
func (g *gen) translate(c *Contract, vacuity bool) (res fnResult) {
	res.key = c.Key
	key, inst := c.Key, ""
	var bounds []string
	part := "" // a loop or function literal of the function
	if i := strings.LastIndex(key, "@"); i >= 0 && !strings.HasSuffix(key, "@later") && !strings.Contains(key[i:], "/") {
		key, part = key[:i], key[i+1:]
	}
	lit := strings.HasSuffix(key, "!") // the function literal that the function returns
	key = strings.TrimSuffix(key, "!")
	if i := strings.Index(key, "#"); i >= 0 {
		bounds = strings.Split(key[i+1:], "#")
		key = key[:i]
	}
	if i := strings.Index(key, "["); i >= 0 {
		inst = strings.TrimSuffix(key[i+1:], "]")
		key = key[:i]
	}
	t := &tr{g: g, c: c, out: &strings.Builder{}, locals: map[types.Object]*local{}, loops: map[string]int{},
		calls: map[string]int{}, used: map[string]bool{}, drops: map[string]bool{}}
	stub := func(msg string) {
		res.err = msg
		res.text = "#[verifier::external_body]\n" + strings.TrimRight(c.Sig, " \n") + "\n{ unimplemented!() }\n"
	}
	fn := g.byKey[key]
	if fn == nil {
		stub("function not found in /repo")
		return
	}
	d := g.decls[fn]
	res.pos = g.posStr(d.decl.Pos())
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			stub(fmt.Sprintf("%s: %s", g.posStr(te.pos), te.msg))
		}
	}()
	sig := fn.Type().(*types.Signature)
	var subst map[*types.TypeParam]types.Type
	if inst != "" {
		subst = map[*types.TypeParam]types.Type{}
		for i, n := range strings.Split(inst, ",") {
			ty := g.instType(strings.TrimSpace(n))
			if ty == nil {
				fail(d.decl.Pos(), "unknown instance type %s", n)
			}
			tp := sig.TypeParams().At(i)
			if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() > 0 { // PT interface{ *T; ... }
				switch em := it.EmbeddedType(0).(type) {
				case *types.Pointer:
					ty = types.NewPointer(ty)
				case *types.Union:
					if _, ok := em.Term(0).Type().(*types.Pointer); ok {
						ty = types.NewPointer(ty)
					}
				}
			}
			subst[tp] = ty
		}
	}
	t.f = &frame{pkg: d.pkg, info: d.pkg.TypesInfo, sig: sig, id: "", subst: subst}
	t.push()
	t.touchSig(sig)
	var params []types.Object
	if d.decl.Recv != nil {
		var o types.Object
		if len(d.decl.Recv.List[0].Names) > 0 {
			o = t.f.info.Defs[d.decl.Recv.List[0].Names[0]]
		}
		params = append(params, o)
	}
	body, ftype := d.decl.Body, d.decl.Type
	lists := []*ast.FieldList{ftype.Params}
	var before []ast.Stmt
	if lit {
		n := len(body.List)
		r, ok := body.List[n-1].(*ast.ReturnStmt)
		if !ok || len(r.Results) != 1 {
			fail(d.decl.Pos(), "does not return a function literal")
		}
		fl, ok := ast.Unparen(r.Results[0]).(*ast.FuncLit)
		if !ok {
			fail(d.decl.Pos(), "does not return a function literal")
		}
		before = body.List[:n-1]
		for _, s := range before {
			if hasReturn(s) {
				fail(s.Pos(), "return before the function literal")
			}
		}
		body, ftype = fl.Body, fl.Type
		lists = append(lists, ftype.Params)
		sig = t.f.info.TypeOf(fl).(*types.Signature)
		t.f.sig = sig
		t.touchSig(sig)
	}
	for _, l := range lists {
		for _, f := range l.List {
			if len(f.Names) == 0 {
				params = append(params, nil)
			}
			for _, n := range f.Names {
				params = append(params, t.f.info.Defs[n])
			}
		}
	}
	if part != "" {
		params, sig, body = t.partOf(c, d, part)
		t.f.sig = sig
		ftype = &ast.FuncType{Params: &ast.FieldList{}}
		t.touchSig(sig)
		for _, o := range params {
			if o != nil {
				t.g.rust(o.Type())
			}
		}
	}
	// A function parameter bound in the key is replaced by the values that the
	// bound function takes ahead of the parameter's own.
	if len(bounds) > 0 {
		var ps []types.Object
		i := 0
		for _, o := range params {
			var fs *types.Signature
			if o != nil {
				fs, _ = types.Unalias(o.Type()).Underlying().(*types.Signature)
			}
			if fs == nil {
				ps = append(ps, o)
				continue
			}
			if i >= len(bounds) {
				fail(d.decl.Pos(), "function parameter %s is not bound", o.Name())
			}
			bc := g.specs.ByKey[bounds[i]]
			if bc == nil {
				fail(d.decl.Pos(), "no contract for the bound function %s", bounds[i])
			}
			i++
			l := &local{param: 1, bound: bc}
			n := len(bc.Params) - fs.Params().Len()
			for j := 0; j < n; j++ {
				l.caps = append(l.caps, bc.Params[j].Name)
				ps = append(ps, nil)
			}
			t.locals[o] = l
		}
		params = ps
	}
	if len(params) != len(c.Params) {
		fail(d.decl.Pos(), "function has %d parameters, contract has %d", len(params), len(c.Params))
	}
	t.ind = 1
	t.paramNames = map[int]string{}
	for i, o := range params {
		p := c.Params[i]
		if o == nil || o.Name() == "_" {
			if p.Mut {
				fail(d.decl.Pos(), "unnamed &mut parameter")
			}
			continue
		}
		n := rname(o.Name())
		t.locals[o] = &local{param: 1, rust: n}
		if p.Mut {
			t.locals[o].param = 2
			if n == p.Name {
				fail(d.decl.Pos(), "&mut contract parameter must not be named like the Go parameter %s", n)
			}
			t.emit("let mut %s: %s = *%s;", n, p.Type, p.Name)
			t.paramNames[i] = n
		} else if n != p.Name || assignedIn(t.f.info, body, o) {
			t.emit("let mut %s: %s = %s;", n, p.Type, p.Name)
		}
		t.declare(o)
	}
	if vacuity {
		// the body is translated and dropped, for the types it mentions
		t.capture(func() {
			t.hint("entry", nil)
			t.namedResults(ftype)
			t.seq(before, func() {})
			t.seq(body.List, func() {})
		})
		t.emit("assert(false); return unreached();")
		res.text = strings.TrimRight(c.Sig, " \n") + "\n{\n" + t.out.String() + "}\n"
		return
	}
	t.hint("entry", nil)
	t.namedResults(ftype)
	t.seq(before, func() {})
	if part == "loop" {
		t.seq(body.List, func() { t.loopCall(c, body.End()) })
	} else {
		t.seq(body.List, func() {
			if sig.Results().Len() == 0 {
				t.emitReturn(nil)
			}
		})
	}
	var attrs, hide string
	for a := range c.Attrs {
		if strings.HasPrefix(a, "#[") {
			attrs += a + "\n"
		} else if strings.HasPrefix(a, "hide ") {
			hide += "    hide(" + a[5:] + ");\n"
		}
	}
	if os.Getenv("GOCVWARN") != "" {
		for k := range c.Hints {
			if !t.used[k] {
				fmt.Fprintf(os.Stderr, "unused hint in %s: %s\n", c.Key, k)
			}
		}
	}
	res.text = attrs + strings.TrimRight(c.Sig, " \n") + "\n{ // " + res.pos + "\n" + hide + t.out.String() + "}\n"
	return
}

// partOf finds the parameters, signature and body of a loop that moves a
// pointer, or of a function literal.
func (t *tr) partOf(c *Contract, d *declInfo, part string) (params []types.Object, sig *types.Signature, body *ast.BlockStmt) {
	objs := map[string]types.Object{}
	see := func(n ast.Node, from, to token.Pos) {
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := t.f.info.ObjectOf(id)
				if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != v.Pkg().Scope() && (o.Pos() < from || o.Pos() >= to) {
					if p := objs[rname(o.Name())]; p != nil && p != o {
						fail(id.Pos(), "two variables %s", o.Name())
					}
					objs[rname(o.Name())] = o
				}
			}
			return true
		})
	}
	if part == "loop" {
		var loop *ast.ForStmt
		ast.Inspect(d.decl.Body, func(n ast.Node) bool {
			if f, ok := n.(*ast.ForStmt); ok && f.Cond == nil && f.Init == nil && f.Post == nil {
				if loop != nil {
					fail(f.Pos(), "two loops without a condition")
				}
				loop = f
			}
			return true
		})
		if loop == nil {
			fail(d.decl.Pos(), "no loop without a condition")
		}
		see(loop.Body, loop.Pos(), loop.End())
		for _, p := range c.Params {
			o := objs[strings.TrimSuffix(p.Name, "_r")]
			if o == nil {
				fail(loop.Pos(), "the loop uses no variable %s", p.Name)
			}
			delete(objs, strings.TrimSuffix(p.Name, "_r"))
			params = append(params, o)
		}
		for n := range objs {
			fail(loop.Pos(), "the contract of the loop does not mention %s", n)
		}
		t.cursor = c
		return params, t.f.sig, loop.Body
	}
	want, err := strconv.Atoi(strings.TrimPrefix(part, "lit"))
	if err != nil {
		fail(d.decl.Pos(), "unknown part %s", part)
	}
	k := 0
	var fl *ast.FuncLit
	ast.Inspect(d.decl.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			k++
			if k == want {
				fl = l
			}
		}
		return true
	})
	if fl == nil {
		fail(d.decl.Pos(), "no function literal %d", want)
	}
	sig = t.f.info.TypeOf(fl).(*types.Signature)
	see(fl.Body, fl.Pos(), fl.End())
	n := len(c.Params) - sig.Params().Len()
	for i := 0; i < n; i++ {
		o := objs[c.Params[i].Name]
		if o == nil {
			fail(fl.Pos(), "the function literal uses no variable %s", c.Params[i].Name)
		}
		delete(objs, c.Params[i].Name)
		params = append(params, o)
	}
	for n := range objs {
		fail(fl.Pos(), "the contract of the function literal does not mention %s", n)
	}
	for _, f := range fl.Type.Params.List {
		if len(f.Names) == 0 {
			params = append(params, nil)
		}
		for _, n := range f.Names {
			params = append(params, t.f.info.Defs[n])
		}
	}
	return params, sig, fl.Body
}

// touchSig makes sure that the types of a signature are emitted.
func (t *tr) touchSig(sig *types.Signature) {
	touch := func(ty types.Type) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(transErr); !ok {
					panic(r)
				}
			}
		}()
		t.g.rust(t.inst(ty))
	}
	if r := sig.Recv(); r != nil {
		touch(r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		touch(sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		touch(sig.Results().At(i).Type())
	}
}

func (g *gen) instType(n string) types.Type {
	switch n {
	case "u8":
		return types.Typ[types.Uint8]
	case "u16":
		return types.Typ[types.Uint16]
	case "u32":
		return types.Typ[types.Uint32]
	case "u64":
		return types.Typ[types.Uint64]
	case "i64":
		return types.Typ[types.Int]
	}
	for _, f := range g.byKey {
		sc := f.Pkg().Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && g.typeNameSafe(tn) == n {
				return tn.Type()
			}
		}
	}
	return nil
}

func (g *gen) typeNameSafe(tn *types.TypeName) string {
	if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() == 0 {
		return g.typeName(n)
	}
	return ""
}

// delayed translates func() T { return f(args) } used as a value: the contract
// of "f@later" says what the value stands for. The arguments are evaluated
// here, so nothing they mention may be assigned between here and the call.
func (t *tr) delayed(e *ast.FuncLit) string {
	if e.Type.Params.NumFields() != 0 || len(e.Body.List) != 1 {
		fail(e.Pos(), "function value that is not a single delayed call")
	}
	r, ok := e.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		fail(e.Pos(), "function value that is not a single delayed call")
	}
	c, ok := ast.Unparen(r.Results[0]).(*ast.CallExpr)
	if !ok || c.Ellipsis.IsValid() {
		fail(e.Pos(), "function value that is not a single delayed call")
	}
	fn, recv, _ := t.callee(c)
	if fn == nil {
		fail(e.Pos(), "function value that is not a single delayed call")
	}
	k := t.g.specs.ByKey[funcKey(fn)+"@later"]
	if k == nil {
		fail(e.Pos(), "no contract for delayed %s", funcKey(fn))
	}
	if recv != nil {
		for {
			if s, ok := ast.Unparen(recv).(*ast.SelectorExpr); ok {
				recv = s.X
				continue
			}
			break
		}
		id, ok := ast.Unparen(recv).(*ast.Ident)
		if !ok || t.f.info.ObjectOf(id) != t.stateVar() {
			fail(e.Pos(), "delayed call on something other than the receiver")
		}
	}
	caught := map[types.Object]bool{}
	for _, a := range c.Args {
		ast.Inspect(a, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := t.f.info.ObjectOf(id).(*types.Var); ok && !v.IsField() {
					caught[v] = true
				}
			}
			return true
		})
	}
	t.settled(e, caught)
	var as []callArg
	ps := fn.Type().(*types.Signature).Params()
	for i, a := range c.Args {
		as = append(as, callArg{expr: a, typ: t.inst(ps.At(i).Type())})
	}
	rs := t.contractCall(k, as, c)
	return rs[0]
}

// stateVar is the receiver of the function under contract.
func (t *tr) stateVar() types.Object {
	if t.f.sig == nil || t.f.sig.Recv() == nil {
		return nil
	}
	return t.f.sig.Recv()
}

// settled fails if a variable in vs may be assigned after lit is evaluated.
func (t *tr) settled(lit *ast.FuncLit, vs map[types.Object]bool) {
	var fd *ast.FuncDecl
	for _, f := range t.f.pkg.Syntax {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Pos() <= lit.Pos() && lit.End() <= d.End() {
				fd = d
			}
		}
	}
	if fd == nil {
		fail(lit.Pos(), "function value outside a function")
	}
	root := func(x ast.Expr) types.Object {
		for {
			switch y := ast.Unparen(x).(type) {
			case *ast.SelectorExpr:
				x = y.X
			case *ast.IndexExpr:
				x = y.X
			case *ast.StarExpr:
				x = y.X
			case *ast.SliceExpr:
				x = y.X
			case *ast.Ident:
				return t.f.info.ObjectOf(y)
			default:
				return nil
			}
		}
	}
	var loops []ast.Node // that contain lit
	ast.Inspect(fd, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if n.Pos() <= lit.Pos() && lit.End() <= n.End() {
				loops = append(loops, n)
			}
		}
		return true
	})
	touch := func(x ast.Expr, pos token.Pos) {
		o := root(x)
		if o == nil || !vs[o] {
			return
		}
		late := pos >= lit.Pos()
		for _, l := range loops {
			if l.Pos() <= pos && pos < l.End() && !(l.Pos() <= o.Pos() && o.Pos() < l.End()) {
				late = true
			}
		}
		if late {
			fail(pos, "%s is assigned after a delayed call captured it", o.Name())
		}
	}
	ast.Inspect(fd, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); ok && t.f.info.Defs[id] != nil {
					continue
				}
				touch(l, s.Pos())
			}
		case *ast.IncDecStmt:
			touch(s.X, s.Pos())
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				touch(s.X, s.Pos())
			}
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					touch(s.Key, s.Pos())
				}
				if s.Value != nil {
					touch(s.Value, s.Pos())
				}
			}
		}
		return true
	})
}
