package vworld

import (
	"bytes"
	"crypto/sha256"
	"math/bits"
	"slices"
	"sort"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
)

// Reference definitions, written from what the structures mean and not from
// how the code computes them.

// VSet is the content of a prefix tree.
type VSet map[string][]byte

type KV struct{ V, C []byte }

func (s VSet) Sorted() []KV {
	out := make([]KV, 0, len(s))
	for k, c := range s {
		out = append(out, KV{[]byte(k), c})
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].V, out[j].V) < 0 })
	return out
}

func (s VSet) Clone() VSet {
	out := VSet{}
	for k, v := range s {
		out[k] = v
	}
	return out
}

// Apply is the set after removals and then additions.
func (s VSet) Apply(add, rem []prefix.Entry) VSet {
	out := s.Clone()
	for _, e := range rem {
		delete(out, string(e.VrfOutput))
	}
	for _, e := range add {
		out[string(e.VrfOutput)] = e.Commitment
	}
	return out
}

func refBit(v []byte, d int) bool { return v[d/8]&(0x80>>(d%8)) != 0 }

func sum(parts ...[]byte) []byte {
	x := sha256.Sum256(bytes.Join(parts, nil))
	return x[:]
}

func refSplit(s []KV, d int) ([]KV, []KV) {
	i := sort.Search(len(s), func(i int) bool { return refBit(s[i].V, d) })
	return s[:i], s[i:]
}

func refHash(s []KV, d int) []byte {
	switch len(s) {
	case 0:
		return make([]byte, 32)
	case 1:
		return sum([]byte{2}, s[0].V, s[0].C)
	}
	l, r := refSplit(s, d)
	return sum([]byte{3}, refHash(l, d+1), refHash(r, d+1))
}

// Root is the root of the prefix tree with this content.
func (s VSet) Root() []byte { return refHash(s.Sorted(), 0) }

// Proof is the honest proof for the searched outputs; an output may be
// searched more than once.
func (s VSet) Proof(searched [][]byte) *prefix.PrefixProof {
	out := []byte{byte(len(searched))}
	for _, v := range searched {
		cur, d := s.Sorted(), 0
		for len(cur) > 1 {
			l, r := refSplit(cur, d)
			if refBit(v, d) {
				cur = r
			} else {
				cur = l
			}
			d++
		}
		if len(cur) == 0 {
			out = append(out, 3, byte(d))
		} else if bytes.Equal(cur[0].V, v) {
			out = append(out, 1, byte(d))
		} else {
			out = append(append(append(out, 2), cur[0].V...), cur[0].C...)
			out = append(out, byte(d))
		}
	}
	var elems [][]byte
	vs := slices.Clone(searched)
	slices.SortFunc(vs, bytes.Compare)
	var walk func(cur []KV, vs [][]byte, d int)
	walk = func(cur []KV, vs [][]byte, d int) {
		if len(vs) == 0 {
			elems = append(elems, refHash(cur, d))
		} else if len(cur) > 1 {
			l, r := refSplit(cur, d)
			i := sort.Search(len(vs), func(i int) bool { return refBit(vs[i], d) })
			walk(l, vs[:i], d+1)
			walk(r, vs[i:], d+1)
		}
	}
	walk(s.Sorted(), vs, 0)
	out = append(out, byte(len(elems)>>8), byte(len(elems)))
	for _, e := range elems {
		out = append(out, e...)
	}
	p, err := prefix.NewPrefixProof(suites.KTSha256P256{}, bytes.NewBuffer(out))
	if err != nil {
		panic(err)
	}
	return p
}

// Determined reports whether the proof for the mutation fixes the root after
// it: it does not when a removal makes a subtree move up that the proof shows
// only by its hash (known finding of C07).
func (s VSet) Determined(add, rem []prefix.Entry) bool {
	next := s.Apply(add, rem)
	var vs [][]byte
	for _, e := range slices.Concat(add, rem) {
		vs = append(vs, e.VrfOutput)
	}
	slices.SortFunc(vs, bytes.Compare)
	const leaf, other = 1, 2
	var walk func(b, a []KV, vs [][]byte, d int) (int, []byte)
	walk = func(b, a []KV, vs [][]byte, d int) (int, []byte) {
		if len(vs) == 0 {
			return other, refHash(b, d)
		} else if len(b) <= 1 {
			return min(len(a), 2), refHash(a, d)
		}
		bl, br := refSplit(b, d)
		al, ar := refSplit(a, d)
		i := sort.Search(len(vs), func(i int) bool { return refBit(vs[i], d) })
		lk, lh := walk(bl, al, vs[:i], d+1)
		rk, rh := walk(br, ar, vs[i:], d+1)
		if lk == leaf && rk == 0 {
			return leaf, lh
		} else if lk == 0 && (rk == leaf || rk == 0) {
			return rk, rh
		}
		return other, sum([]byte{3}, lh, rh)
	}
	_, h := walk(s.Sorted(), next.Sorted(), vs, 0)
	return bytes.Equal(h, next.Root())
}

// LogRoot is the root of the log with the given leaves.
func LogRoot(leaves [][]byte) []byte {
	if len(leaves) == 1 {
		return leaves[0]
	}
	k := 1 << (bits.Len(uint(len(leaves)-1)) - 1)
	half := func(x [][]byte) []byte {
		tag := byte(1)
		if len(x) == 1 {
			tag = 0
		}
		return append([]byte{tag}, LogRoot(x)...)
	}
	return sum(half(leaves[:k]), half(leaves[k:]))
}

// FullSubtrees are the heads of the maximal full subtrees, left to right.
func FullSubtrees(leaves [][]byte) (out [][]byte) {
	for len(leaves) > 0 {
		k := 1 << (bits.Len(uint(len(leaves))) - 1)
		out = append(out, LogRoot(leaves[:k]))
		leaves = leaves[k:]
	}
	return
}

// Frontier is the path from the root of the search tree to the last entry.
func Frontier(n uint64) (out []uint64) {
	for lo := uint64(0); lo < n; {
		x := lo + 1<<(bits.Len64(n-lo)-1) - 1
		out = append(out, x)
		lo = x + 1
	}
	return
}

// Distinguished says which entries are, for the given timestamps.
func Distinguished(ts []uint64, window uint64) []bool {
	out := make([]bool, len(ts))
	var mark func(lo, hi int, l, r uint64)
	mark = func(lo, hi int, l, r uint64) {
		if lo >= hi || r-l < window {
			return
		}
		x := lo + 1<<(bits.Len(uint(hi-lo))-1) - 1
		out[x] = true
		mark(lo, x, l, ts[x])
		mark(x+1, hi, ts[x], r)
	}
	if len(ts) > 0 {
		mark(0, len(ts), 0, ts[len(ts)-1])
	}
	return out
}
