package log

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/verifh"
)

type vstore struct {
	data map[uint64][]byte
}

func (s *vstore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out := map[uint64][]byte{}
	for _, k := range keys {
		if v, ok := s.data[k]; ok {
			out[k] = slices.Clone(v)
		}
	}
	return out, nil
}

func (s *vstore) Put(key uint64, val []byte) error {
	s.data[key] = slices.Clone(val)
	return nil
}

func (s *vstore) Delete(key uint64) error { delete(s.data, key); return nil }

// The oracle: Merkle values over complete ranges of leaves, memoised.
type vlog struct {
	leaves [][]byte
	memo   map[[2]int][]byte
}

func newVlog(r *rand.Rand, n int) *vlog {
	l := &vlog{memo: map[[2]int][]byte{}}
	for i := 0; i < n; i++ {
		l.grow(r)
	}
	return l
}

func (l *vlog) grow(r *rand.Rand) []byte {
	b := make([]byte, 32)
	r.Read(b)
	l.leaves = append(l.leaves, b)
	return b
}

func venc(size int, v []byte) []byte {
	if size == 1 {
		return append([]byte{0}, v...)
	}
	return append([]byte{1}, v...)
}

func vtop(n int) int {
	p := 1
	for 2*p < n {
		p *= 2
	}
	return p
}

// at is the Merkle value of the leaves [lo, hi).
func (l *vlog) at(lo, hi int) []byte {
	if hi-lo == 1 {
		return l.leaves[lo]
	}
	k := [2]int{lo, hi}
	if v, ok := l.memo[k]; ok {
		return v
	}
	m := lo + vtop(hi-lo)
	h := sha256.Sum256(append(venc(m-lo, l.at(lo, m)), venc(hi-m, l.at(m, hi))...))
	if (hi-lo)&(hi-lo-1) == 0 {
		l.memo[k] = h[:]
	}
	return h[:]
}

func (l *vlog) full(n int) [][]byte {
	var out [][]byte
	lo := 0
	for n-lo > 0 {
		p := 1
		for p*2 <= n-lo {
			p *= 2
		}
		out = append(out, l.at(lo, lo+p))
		lo += p
	}
	return out
}

// node is the value of a node that is a complete subtree.
func (l *vlog) node(x uint64) []byte {
	k := 0
	for x>>k&1 == 1 {
		k++
	}
	lo := (int(x) - (1<<k - 1)) / 2
	return l.at(lo, lo+1<<k)
}

func eqs(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }

func shown(p *uint64) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprint(*p)
}

func optSize(r *rand.Rand, n uint64) *uint64 {
	if r.Intn(2) == 0 {
		return nil
	}
	x := 1 + r.Uint64()%n
	return &x
}

func pick(r *rand.Rand, n uint64) []uint64 {
	var e []uint64
	for i := r.Intn(5); i > 0; i-- {
		e = append(e, r.Uint64()%n)
	}
	slices.Sort(e)
	return slices.Compact(e)
}

// sizes that sit around the chunk boundaries
func size(r *rand.Rand, most int) int {
	switch r.Intn(4) {
	case 0:
		return 1 + r.Intn(20)
	case 1:
		p := []int{8, 16, 128, 256, 1024, 2048}[r.Intn(6)]
		n := p + r.Intn(7) - 3
		if n > most {
			n = most - r.Intn(3)
		}
		return n
	}
	return 1 + r.Intn(most)
}

func TestVerifC01(t *testing.T) {
	h := verifh.Start(t, "C01", 12*time.Second)
	cs := suites.KTSha256P256{}
	r := h.Rand
	tl := newVlog(r, 300)
	for iter := 0; h.More(); iter++ {
		n := uint64(size(r, len(tl.leaves)))
		if iter < 400 {
			n = 1 + uint64(iter)%12
		}
		entries := pick(r, n)
		if r.Intn(3) == 0 {
			r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
		}
		if len(entries) > 0 && r.Intn(6) == 0 {
			entries = append(entries, entries[0])
		}
		nP, m := optSize(r, n), optSize(r, n)
		v := NewVerifier(cs)
		desc := fmt.Sprintf("n=%d entries=%v nP=%s previous=%s", n, entries, shown(nP), shown(m))
		h.Run("sound", func() string { return desc }, func() error {
			values := make([][]byte, len(entries))
			for i, x := range entries {
				values[i] = tl.leaves[x]
			}
			var prev [][]byte
			if m != nil {
				prev = slices.Clone(tl.full(int(*m)))
			}
			sorted := slices.Clone(entries)
			slices.Sort(sorted)
			var proof [][]byte
			for _, x := range math.BatchCopath(sorted, n, nP, m) {
				proof = append(proof, tl.node(x))
			}
			lie := r.Intn(4) > 0
			if lie {
				wrong := func(b []byte) []byte {
					switch r.Intn(5) {
					case 0:
						return tl.leaves[r.Intn(len(tl.leaves))]
					case 1:
						return tl.node(math.FullSubtrees(math.Root(n), n)[0])
					case 2:
						c := append(slices.Clone(b), make([]byte, 32)...)[:max(len(b), 1)]
						c[r.Intn(len(c))] ^= 1 << r.Intn(8)
						return c
					case 3:
						c := make([]byte, []int{0, 31, 33, 32}[r.Intn(4)])
						r.Read(c)
						return c
					}
					c := make([]byte, 32)
					r.Read(c)
					return c
				}
				for k := 1 + r.Intn(2); k > 0; k-- {
					set := [][][]byte{values, prev, proof}[r.Intn(3)]
					if len(set) > 0 {
						i := r.Intn(len(set))
						set[i] = wrong(set[i])
						desc += fmt.Sprintf(" wrong[%d]", i)
					}
				}
				if len(proof) > 1 && r.Intn(4) == 0 {
					i, j := r.Intn(len(proof)), r.Intn(len(proof))
					proof[i], proof[j] = proof[j], proof[i]
				}
				switch r.Intn(12) {
				case 0:
					proof = append(proof, make([]byte, 32))
				case 1:
					if len(proof) > 0 {
						proof = proof[1:]
					}
				}
			}
			if m != nil {
				if err := v.Retain(*m, prev); err != nil {
					if !lie {
						return fmt.Errorf("Retain: %v", err)
					}
					return nil
				}
			}
			full, add, err := v.Evaluate(entries, n, nP, values, proof)
			if err != nil {
				if !lie {
					return fmt.Errorf("honest proof rejected: %v", err)
				}
				return nil
			}
			root, err := Root(cs, n, full)
			if err != nil {
				return fmt.Errorf("Root of accepted proof: %v", err)
			}
			if !bytes.Equal(root, tl.at(0, int(n))) {
				if !lie {
					return errors.New("honest proof gives another root")
				}
				return nil
			}
			// accepted against the true root: everything must be true
			for i, x := range entries {
				if !bytes.Equal(values[i], tl.leaves[x]) {
					return fmt.Errorf("wrong value accepted for leaf %d", x)
				}
			}
			if m != nil && !eqs(prev, tl.full(int(*m))) {
				return fmt.Errorf("accepted although the retained state is of another log")
			}
			if nP != nil && !eqs(add, tl.full(int(*nP))) {
				return fmt.Errorf("wrong additional subtrees")
			}
			if !eqs(full, tl.full(int(n))) {
				return errors.New("wrong full subtrees")
			}
			return nil
		})
	}
	// malformed input
	for i := 0; i < 4000; i++ {
		n := []uint64{0, 1, 2, 3, 7, 8, 9, 100, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1 << 40}[r.Intn(13)]
		any := func() uint64 {
			x := []uint64{0, 1, 2, 3, 4, 7, 8, 9, 100, 1<<63 - 1, 1 << 63, 1<<64 - 1, n, n - 1, n + 1}
			return x[r.Intn(len(x))]
		}
		var nP, m *uint64
		if r.Intn(2) == 0 {
			x := any()
			nP = &x
		}
		if r.Intn(2) == 0 {
			x := any()
			m = &x
		}
		var entries []uint64
		for k := r.Intn(4); k > 0; k-- {
			entries = append(entries, any())
		}
		nv := len(entries)
		if r.Intn(5) == 0 {
			nv = r.Intn(4)
		}
		h.Run("malformed", func() string {
			return fmt.Sprintf("n=%d entries=%v values=%d nP=%s previous=%s", n, entries, nv, shown(nP), shown(m))
		}, func() error {
			v := NewVerifier(cs)
			if m != nil && *m >= 1 && *m <= math.MaxTreeSize {
				fs := make([][]byte, len(math.FullSubtrees(math.Root(*m), *m)))
				for i := range fs {
					fs[i] = make([]byte, 32)
				}
				if err := v.Retain(*m, fs); err != nil {
					return fmt.Errorf("Retain: %v", err)
				}
			}
			values := make([][]byte, nv)
			for i := range values {
				values[i] = make([]byte, 32)
			}
			bad := n == 0 || n > 1<<63 || nP != nil && (*nP == 0 || *nP > n) || nv != len(entries) || v.Last() != nil && *v.Last() > n
			for _, x := range entries {
				if x >= n {
					bad = true
				}
			}
			want := 0
			if !bad {
				want = len(math.BatchCopath(entries, n, nP, v.Last()))
			}
			proof := make([][]byte, want)
			for i := range proof {
				proof[i] = make([]byte, 32)
			}
			_, _, err := v.Evaluate(entries, n, nP, values, proof)
			if bad && err == nil {
				return errors.New("malformed input accepted")
			}
			return nil
		})
	}
	h.Finish("random logs of up to 300 leaves, random entries, additional and previous sizes; honest proofs and proofs, values or retained subtrees with one or two wrong, swapped, missing or extra elements; extreme and out-of-range sizes. An accepted proof whose root is the true root must have only true values")
}

func TestVerifC02(t *testing.T) {
	h := verifh.Start(t, "C02", 10*time.Second)
	cs := suites.KTSha256P256{}
	r := h.Rand
	total := 1100
	if h.Thorough {
		total = 5000
	}
	tl := newVlog(r, 0)
	st := &vstore{data: map[uint64][]byte{}}
	tree := NewTree(cs, st)
	one := func(n uint64, entries []uint64, nP, m *uint64) {
		h.Run("complete", func() string {
			return fmt.Sprintf("log of %d leaves: n=%d entries=%v nP=%s previous=%s", len(tl.leaves), n, entries, shown(nP), shown(m))
		}, func() error {
			proof, err := tree.GetBatch(slices.Clone(entries), n, nP, m)
			if err != nil {
				return fmt.Errorf("GetBatch: %v", err)
			}
			v := NewVerifier(cs)
			if m != nil {
				if err := v.Retain(*m, tl.full(int(*m))); err != nil {
					return fmt.Errorf("Retain: %v", err)
				}
			}
			values := make([][]byte, len(entries))
			for i, x := range entries {
				values[i] = tl.leaves[x]
			}
			full, add, err := v.Evaluate(entries, n, nP, values, proof)
			if err != nil {
				return fmt.Errorf("Evaluate: %v", err)
			}
			if !eqs(full, tl.full(int(n))) {
				return errors.New("wrong full subtrees")
			}
			if nP != nil && !eqs(add, tl.full(int(*nP))) || nP == nil && len(add) != 0 {
				return errors.New("wrong additional subtrees")
			}
			root, err := Root(cs, n, full)
			if err != nil || !bytes.Equal(root, tl.at(0, int(n))) {
				return fmt.Errorf("wrong root (%v)", err)
			}
			return nil
		})
	}
	for len(tl.leaves) < total {
		n := uint64(len(tl.leaves))
		h.Run("append", func() string { return fmt.Sprintf("append %d", n) }, func() error {
			_, err := tree.Append(n, tl.grow(r))
			return err
		})
		if h.Failed() {
			break
		}
		n++
		if n <= 6 {
			for set := 0; set < 1<<n; set++ {
				var e []uint64
				for i := uint64(0); i < n; i++ {
					if set>>i&1 == 1 {
						e = append(e, i)
					}
				}
				for a := uint64(0); a <= n; a++ {
					for b := uint64(0); b <= n; b++ {
						var nP, m *uint64
						if a > 0 {
							nP = &a
						}
						if b > 0 {
							m = &b
						}
						one(n, e, nP, m)
					}
				}
			}
		}
		for k := 0; k < 4; k++ {
			one(n, pick(r, n), optSize(r, n), optSize(r, n))
		}
	}
	for h.More() && !h.Failed() {
		n := uint64(size(r, len(tl.leaves)))
		one(n, pick(r, n), optSize(r, n), optSize(r, n))
	}
	// requests that must be refused
	for i := 0; i < 500; i++ {
		n := 1 + r.Uint64()%uint64(len(tl.leaves))
		bad := []func() ([]uint64, uint64, *uint64, *uint64){
			func() ([]uint64, uint64, *uint64, *uint64) { return []uint64{n}, n, nil, nil },
			func() ([]uint64, uint64, *uint64, *uint64) { return []uint64{0, 0}, n, nil, nil },
			func() ([]uint64, uint64, *uint64, *uint64) { return nil, 0, nil, nil },
			func() ([]uint64, uint64, *uint64, *uint64) { x := n + 1; return nil, n, &x, nil },
			func() ([]uint64, uint64, *uint64, *uint64) { x := n + 1; return nil, n, nil, &x },
			func() ([]uint64, uint64, *uint64, *uint64) { x := uint64(0); return nil, n, nil, &x },
			func() ([]uint64, uint64, *uint64, *uint64) { x := uint64(0); return nil, n, &x, nil },
			func() ([]uint64, uint64, *uint64, *uint64) { return nil, 1<<63 + 1, nil, nil },
		}
		e, nn, nP, m := bad[i%len(bad)]()
		h.Run("refuse", func() string {
			return fmt.Sprintf("n=%d entries=%v nP=%s previous=%s", nn, e, shown(nP), shown(m))
		}, func() error {
			if _, err := tree.GetBatch(e, nn, nP, m); err == nil {
				return errors.New("accepted")
			}
			return nil
		})
	}
	h.Finish("the log is grown leaf by leaf to 1100 leaves (5000 thorough), with batch proofs at every size: all leaf sets and sizes up to 6 leaves, random ones after; each proof is verified and the values compared with a Merkle tree computed directly from the leaves")
}

func TestVerifC03(t *testing.T) {
	h := verifh.Start(t, "C03", 10*time.Second)
	cs := suites.KTSha256P256{}
	r := h.Rand
	for round := 0; round == 0 || h.More(); round++ {
		total := 2100
		if round > 0 {
			total = 20 + r.Intn(600)
		}
		tl := newVlog(r, 0)
		st := &vstore{data: map[uint64][]byte{}}
		var chain [][]byte
		for n := 0; n < total; n++ {
			leaf := tl.grow(r)
			var old map[uint64][]byte
			if n%97 == 0 || n < 40 {
				old = map[uint64][]byte{}
				for k, v := range st.data {
					old[k] = slices.Clone(v)
				}
			}
			ok := h.Run("append", func() string { return fmt.Sprintf("append leaf %d", n) }, func() error {
				// a fresh Tree each time: everything it needs is in the store
				full, err := NewTree(cs, st).Append(uint64(n), leaf)
				if err != nil {
					return fmt.Errorf("Tree.Append: %v", err)
				}
				if !eqs(full, tl.full(n+1)) {
					return errors.New("Tree.Append: wrong full subtrees")
				}
				before := slices.Clone(chain)
				next, err := Append(cs, uint64(n), chain, leaf)
				if err != nil {
					return fmt.Errorf("log.Append: %v", err)
				}
				if !eqs(next, full) {
					return errors.New("log.Append: differs from the stored log")
				}
				if !eqs(before, chain) {
					return errors.New("log.Append changed its argument")
				}
				chain = next
				root, err := Root(cs, uint64(n+1), full)
				if err != nil {
					return fmt.Errorf("Root: %v", err)
				}
				if !bytes.Equal(root, tl.at(0, n+1)) {
					return errors.New("Root: wrong root")
				}
				// stored nodes keep their value: a chunk only ever grows
				for k, v := range old {
					if !bytes.HasPrefix(st.data[k], v) {
						return fmt.Errorf("chunk %d changed", k)
					}
				}
				return nil
			})
			if !ok {
				break
			}
		}
		// the stored nodes are the nodes of the tree
		for k := 0; k < 200 && !h.Failed(); k++ {
			n := uint64(1 + r.Intn(total))
			h.Run("read back", func() string { return fmt.Sprintf("full subtrees of %d of %d", n, total) }, func() error {
				got, err := NewTree(cs, st).GetBatch(nil, n, nil, nil)
				if err != nil {
					return err
				}
				if !eqs(got, tl.full(int(n))) {
					return errors.New("wrong value")
				}
				return nil
			})
		}
		if h.Failed() {
			break
		}
	}
	h.Run("reject", func() string { return "values and sizes that must be refused" }, func() error {
		st := &vstore{data: map[uint64][]byte{}}
		tr := NewTree(cs, st)
		for _, l := range []int{0, 31, 33} {
			if _, err := tr.Append(0, make([]byte, l)); err == nil {
				return fmt.Errorf("leaf of %d bytes accepted", l)
			}
		}
		if _, err := tr.Append(1<<63, make([]byte, 32)); err == nil {
			return errors.New("append beyond the largest tree accepted")
		}
		if len(st.data) != 0 {
			return errors.New("a refused append wrote to the store")
		}
		v := make([]byte, 32)
		for _, c := range []struct {
			n uint64
			k int
		}{{0, 0}, {1, 0}, {1, 2}, {3, 1}, {3, 3}, {1<<63 + 1, 2}} {
			if _, err := Root(cs, c.n, slices.Repeat([][]byte{v}, c.k)); err == nil {
				return fmt.Errorf("Root accepted %d subtrees for %d leaves", c.k, c.n)
			}
		}
		if _, err := Root(cs, 1, [][]byte{v[:31]}); err == nil {
			return errors.New("Root accepted a short value")
		}
		// very large logs, storage-free
		for k := 1; k <= 63; k++ {
			n := uint64(1)<<k - uint64(1+r.Intn(2))
			fs := math.FullSubtrees(math.Root(n), n)
			vals := make([][]byte, len(fs))
			for i := range vals {
				vals[i] = binary.BigEndian.AppendUint64(make([]byte, 24), r.Uint64())
			}
			out, err := Append(cs, n, vals, v)
			if err != nil || len(out) != len(math.FullSubtrees(math.Root(n+1), n+1)) {
				return fmt.Errorf("Append to %d leaves: %d subtrees, %v", n, len(out), err)
			}
		}
		return nil
	})
	h.Finish("logs grown leaf by leaf, the first to 2100 leaves so that chunks of three levels fill up, each append on a fresh Tree over the store; full subtrees, root and storage-free append compared with a Merkle tree computed directly from the leaves")
}
