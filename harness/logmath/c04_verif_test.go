package math

import (
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/verifh"
)

// The oracle: the left-balanced tree over leaves [lo, hi) built from its
// definition, with the node over [lo, hi) numbered 2*lo + P - 1 where P is the
// least power of two that is at least hi-lo.
type vnode struct {
	id, lo, hi uint64
}

func vpow(n uint64) uint64 {
	p := uint64(1)
	for p < n {
		p *= 2
	}
	return p
}

func vid(lo, hi uint64) uint64 { return 2*lo + vpow(hi-lo) - 1 }

func vkids(v vnode) (vnode, vnode) {
	p := vpow(v.hi-v.lo) / 2
	return vnode{vid(v.lo, v.lo+p), v.lo, v.lo + p}, vnode{vid(v.lo+p, v.hi), v.lo + p, v.hi}
}

func vroot(n uint64) vnode { return vnode{vid(0, n), 0, n} }

// vpathTo walks from the root to the node over the subtree that starts at leaf
// `leaf` after at most depth steps.
func vpathTo(n, leaf uint64, depth int) []vnode {
	x := vroot(n)
	out := []vnode{x}
	for i := 0; i < depth && x.hi-x.lo > 1; i++ {
		l, r := vkids(x)
		if leaf < l.hi {
			x = l
		} else {
			x = r
		}
		out = append(out, x)
	}
	return out
}

func vcomplete(v vnode) bool { s := v.hi - v.lo; return s&(s-1) == 0 }

func vfull(v vnode) []uint64 {
	if vcomplete(v) {
		return []uint64{v.id}
	}
	l, r := vkids(v)
	return append(vfull(l), vfull(r)...)
}

// checkPath compares every operation on every node of a root-to-node path.
func checkPath(n uint64, path []vnode) error {
	eq := func(what string, got, want any) error {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("%s = %v, want %v", what, got, want)
		}
		return nil
	}
	if err := eq("Root", Root(n), path[0].id); err != nil {
		return err
	}
	for i, v := range path {
		size := v.hi - v.lo
		lvl := uint64(0)
		for p := vpow(size); p > 1; p /= 2 {
			lvl++
		}
		if err := eq(fmt.Sprintf("Level(%d)", v.id), Level(v.id), lvl); err != nil {
			return err
		}
		if err := eq(fmt.Sprintf("IsLeaf(%d)", v.id), IsLeaf(v.id), size == 1); err != nil {
			return err
		}
		if err := eq(fmt.Sprintf("IsFullSubtree(%d,%d)", v.id, n), IsFullSubtree(v.id, n), vcomplete(v)); err != nil {
			return err
		}
		if err := eq(fmt.Sprintf("FullSubtrees(%d,%d)", v.id, n), FullSubtrees(v.id, n), vfull(v)); err != nil {
			return err
		}
		if size > 1 {
			l, r := vkids(v)
			if err := eq(fmt.Sprintf("Left(%d)", v.id), Left(v.id), l.id); err != nil {
				return err
			}
			if err := eq(fmt.Sprintf("Right(%d,%d)", v.id, n), Right(v.id, n), r.id); err != nil {
				return err
			}
			if vcomplete(v) {
				if err := eq(fmt.Sprintf("RightStep(%d)", v.id), RightStep(v.id), r.id); err != nil {
					return err
				}
			}
		}
		if i > 0 {
			if err := eq(fmt.Sprintf("Parent(%d,%d)", v.id, n), Parent(v.id, n), path[i-1].id); err != nil {
				return err
			}
			l, r := vkids(path[i-1])
			sib := l.id
			if v.id == l.id {
				sib = r.id
			}
			if err := eq(fmt.Sprintf("Sibling(%d,%d)", v.id, n), Sibling(v.id, n), sib); err != nil {
				return err
			}
		}
		dp, cp := []uint64{}, []uint64{}
		for j := i; j > 0; j-- {
			dp = append(dp, path[j-1].id)
			l, r := vkids(path[j-1])
			if path[j].id == l.id {
				cp = append(cp, r.id)
			} else {
				cp = append(cp, l.id)
			}
		}
		if err := eq(fmt.Sprintf("DirectPath(%d,%d)", v.id, n), DirectPath(v.id, n), dp); err != nil {
			return err
		}
		if err := eq(fmt.Sprintf("Copath(%d,%d)", v.id, n), Copath(v.id, n), cp); err != nil {
			return err
		}
		// the chunk is the closest ancestor-or-self, in the infinite tree, on
		// a level that is 3 modulo 4
		clo, clvl := v.lo, lvl
		for clvl%4 != 3 {
			clvl++
			clo = clo >> clvl << clvl
		}
		if clvl < 63 {
			if err := eq(fmt.Sprintf("Chunk(%d)", v.id), Chunk(v.id), 2*clo+(uint64(1)<<clvl)-1); err != nil {
				return err
			}
		}
	}
	return nil
}

// vcopath is the copath of a batch from its definition: the maximal complete
// subtrees that contain none of the known nodes, plus the known nodes of the
// additional tree, left to right.
func vcopath(v vnode, n uint64, known, include map[uint64]bool, below func(vnode) bool, out *[]uint64) {
	if !below(v) {
		*out = append(*out, vfull(v)...)
		return
	}
	proper := false
	if v.hi-v.lo > 1 {
		l, r := vkids(v)
		proper = below(l) || below(r)
	}
	if !proper {
		if include[v.id] {
			*out = append(*out, v.id)
		}
		return
	}
	l, r := vkids(v)
	vcopath(l, n, known, include, below, out)
	vcopath(r, n, known, include, below, out)
}

func vbatch(leaves []uint64, n uint64, nP, m *uint64) []uint64 {
	known, include := map[uint64]bool{}, map[uint64]bool{}
	type span struct{ lo, hi uint64 }
	var spans []span
	lvlSpan := func(id uint64) span {
		l := uint64(0)
		for (id>>l)&1 == 1 {
			l++
		}
		lo := (id - (uint64(1)<<l - 1)) / 2
		return span{lo, lo + uint64(1)<<l}
	}
	add := func(id uint64) { known[id] = true; spans = append(spans, lvlSpan(id)) }
	for _, x := range leaves {
		add(2 * x)
	}
	if nP != nil {
		for _, x := range vfull(vroot(*nP)) {
			add(x)
			include[x] = true
		}
	}
	if m != nil {
		for _, x := range vfull(vroot(*m)) {
			add(x)
		}
	}
	below := func(v vnode) bool {
		for _, s := range spans {
			if s.lo >= v.lo && s.hi <= v.hi {
				return true
			}
		}
		return false
	}
	var out []uint64
	vcopath(vroot(n), n, known, include, below, &out)
	return out
}

func TestVerifC04(t *testing.T) {
	h := verifh.Start(t, "C04", 8*time.Second)
	// every node of every tree with up to 70 leaves
	for n := uint64(1); n <= 70; n++ {
		for leaf := uint64(0); leaf < n; leaf++ {
			n, leaf := n, leaf
			if !h.Run("navigation", func() string { return fmt.Sprintf("n=%d, the path to leaf %d", n, leaf) }, func() error {
				return checkPath(n, vpathTo(n, leaf, 64))
			}) {
				break
			}
		}
	}
	h.Run("root", func() string { return "n=0" }, func() error {
		if Root(0) != 0 {
			return fmt.Errorf("Root(0) = %d", Root(0))
		}
		return nil
	})
	// large trees
	sizes := []uint64{}
	for k := uint64(6); k <= 63; k++ {
		for _, d := range []uint64{0, 1, 2, 3} {
			sizes = append(sizes, uint64(1)<<k-d)
			if k < 63 {
				sizes = append(sizes, uint64(1)<<k+d)
			}
		}
	}
	big := func() {
		for _, n := range sizes {
			n := n
			leaf := []uint64{0, n - 1, n / 2, h.Rand.Uint64() % n, vpow(n)/2 - 1}[h.Rand.Intn(5)]
			h.Run("navigation", func() string { return fmt.Sprintf("n=%d, the path to leaf %d", n, leaf) }, func() error {
				return checkPath(n, vpathTo(n, leaf, 64))
			})
		}
	}
	big()
	// batch copaths: every subset for small trees, random ones for larger
	opt := func(n uint64) *uint64 {
		if h.Rand.Intn(2) == 0 {
			return nil
		}
		x := 1 + h.Rand.Uint64()%n
		return &x
	}
	show := func(p *uint64) string {
		if p == nil {
			return "nil"
		}
		return fmt.Sprint(*p)
	}
	one := func(leaves []uint64, n uint64, nP, m *uint64) {
		h.Run("BatchCopath", func() string {
			return fmt.Sprintf("leaves=%v n=%d nP=%s m=%s", leaves, n, show(nP), show(m))
		}, func() error {
			got, want := BatchCopath(slices.Clone(leaves), n, nP, m), vbatch(leaves, n, nP, m)
			if !slices.Equal(got, want) {
				return fmt.Errorf("got %v, want %v", got, want)
			}
			return nil
		})
	}
	for n := uint64(1); n <= 6; n++ {
		for set := 0; set < 1<<n; set++ {
			var leaves []uint64
			for i := uint64(0); i < n; i++ {
				if set>>i&1 == 1 {
					leaves = append(leaves, i)
				}
			}
			for a := uint64(0); a <= n; a++ {
				for b := uint64(0); b <= n; b++ {
					var nP, m *uint64
					if a > 0 {
						nP = &a
					}
					if b > 0 {
						m = &b
					}
					one(leaves, n, nP, m)
				}
			}
		}
	}
	for h.More() {
		n := 1 + h.Rand.Uint64()%60
		if h.Rand.Intn(3) == 0 {
			n = sizes[h.Rand.Intn(len(sizes))]
		}
		var leaves []uint64
		for i := h.Rand.Intn(6); i > 0; i-- {
			leaves = append(leaves, h.Rand.Uint64()%n)
		}
		slices.Sort(leaves)
		leaves = slices.Compact(leaves)
		one(leaves, n, opt(n), opt(n))
		if h.Rand.Intn(200) == 0 {
			big()
		}
	}
	h.Finish("every node of every tree of 1..70 leaves; paths in trees of 2^k +- 3 leaves up to 2^63; BatchCopath for all leaf sets and sizes with n <= 6, and random ones; non-trivial: distinct inputs, all compared with the recursive definition of the left-balanced tree")
}
