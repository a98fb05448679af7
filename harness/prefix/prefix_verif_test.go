package prefix_test

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/verifh"
)

// ---- reference: the prefix tree over a set of (vrf output, commitment),
// defined by the set alone.
type kv struct{ v, c []byte }
type vset map[string][]byte

func (s vset) sorted() []kv {
	out := make([]kv, 0, len(s))
	for k, c := range s {
		out = append(out, kv{[]byte(k), c})
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].v, out[j].v) < 0 })
	return out
}
func (s vset) clone() vset {
	out := vset{}
	for k, v := range s {
		out[k] = v
	}
	return out
}
func bit(v []byte, d int) bool { return v[d/8]&(0x80>>(d%8)) != 0 }
func leafHash(v, c []byte) []byte {
	x := sha256.Sum256(append(append([]byte{2}, v...), c...))
	return x[:]
}
func parentHash(l, r []byte) []byte {
	x := sha256.Sum256(append(append([]byte{3}, l...), r...))
	return x[:]
}
func split(s []kv, d int) ([]kv, []kv) {
	i := sort.Search(len(s), func(i int) bool { return bit(s[i].v, d) })
	return s[:i], s[i:]
}
func refHash(s []kv, d int) []byte {
	switch len(s) {
	case 0:
		return make([]byte, 32)
	case 1:
		return leafHash(s[0].v, s[0].c)
	}
	l, r := split(s, d)
	return parentHash(refHash(l, d+1), refHash(r, d+1))
}

// refNode is the subtree on the path of v at depth d (or where the path ends).
func refNode(s []kv, v []byte, d int) ([]kv, int) {
	for i := 0; i < d; i++ {
		if len(s) <= 1 {
			return s, i
		}
		l, r := split(s, i)
		if bit(v, i) {
			s = r
		} else {
			s = l
		}
	}
	return s, d
}

// refProof is the encoded honest proof for the searched outputs.
func refProof(s []kv, searched [][]byte) []byte {
	out := []byte{byte(len(searched))}
	for _, v := range searched {
		cur, d := s, 0
		for len(cur) > 1 {
			l, r := split(cur, d)
			if bit(v, d) {
				cur = r
			} else {
				cur = l
			}
			d++
		}
		if len(cur) == 0 {
			out = append(out, 3, byte(d))
		} else if bytes.Equal(cur[0].v, v) {
			out = append(out, 1, byte(d))
		} else {
			out = append(append(append(out, 2), cur[0].v...), cur[0].c...)
			out = append(out, byte(d))
		}
	}
	var elems [][]byte
	vs := slices.Clone(searched)
	slices.SortFunc(vs, bytes.Compare)
	var walk func(cur []kv, vs [][]byte, d int)
	walk = func(cur []kv, vs [][]byte, d int) {
		if len(vs) == 0 {
			elems = append(elems, refHash(cur, d))
		} else if len(cur) > 1 {
			l, r := split(cur, d)
			i := sort.Search(len(vs), func(i int) bool { return bit(vs[i], d) })
			walk(l, vs[:i], d+1)
			walk(r, vs[i:], d+1)
		}
	}
	walk(s, vs, 0)
	out = append(out, byte(len(elems)>>8), byte(len(elems)))
	for _, e := range elems {
		out = append(out, e...)
	}
	return out
}

var cs = suites.KTSha256P256{}

func rbytes(r *rand.Rand) []byte {
	out := make([]byte, 32)
	r.Read(out)
	return out
}

// outputs makes vrf outputs; most share a long prefix with an earlier one.
func output(r *rand.Rand, known [][]byte) []byte {
	if len(known) == 0 || r.Intn(3) == 0 {
		v := rbytes(r)
		if r.Intn(3) == 0 {
			v = make([]byte, 32)
			v[0] = byte(r.Intn(256))
		}
		return v
	}
	v := slices.Clone(known[r.Intn(len(known))])
	d := r.Intn(12)
	switch r.Intn(6) {
	case 0:
		d = r.Intn(255)
	case 1:
		d = 249 + r.Intn(6)
	}
	v[d/8] ^= 0x80 >> (d % 8)
	if r.Intn(3) == 0 {
		for i := d/8 + 1; i < 32; i++ {
			v[i] = byte(r.Intn(256))
		}
	}
	return v
}

// failStore fails the calls chosen by fail.
type recStore struct {
	db.PrefixStore
	puts int
}

func (s *recStore) Put(k string, v []byte) error { s.puts++; return s.PrefixStore.Put(k, v) }

func show(s vset) string {
	o := ""
	for _, e := range s.sorted() {
		o += fmt.Sprintf(" %x=%x", e.v, e.c[:4])
	}
	if len(o) > 1500 {
		o = o[:1500] + "..."
	}
	return o
}

func checkSearch(tree *prefix.Tree, vers []vset, ver uint64, vs [][]byte, res prefix.SearchResult) error {
	cur := vers[ver]
	entries := make([]prefix.Entry, len(vs))
	if len(res.Commitments) != len(vs) || len(res.Proof.Results) != len(vs) {
		return errors.New("wrong number of results")
	}
	for i, v := range vs {
		c, ok := cur[string(v)]
		if ok != (res.Commitments[i] != nil) || !bytes.Equal(c, res.Commitments[i]) {
			return fmt.Errorf("version %d: commitment of %x is %x, want %x", ver, v, res.Commitments[i], c)
		}
		if res.Proof.Results[i].Inclusion() != ok {
			return fmt.Errorf("version %d: inclusion of %x is %v, want %v", ver, v, !ok, ok)
		}
		entries[i] = prefix.Entry{VrfOutput: v, Commitment: c}
	}
	if err := prefix.Verify(cs, entries, &res.Proof, refHash(cur.sorted(), 0)); err != nil {
		return fmt.Errorf("version %d: proof rejected: %v", ver, err)
	}
	buf := &bytes.Buffer{}
	if err := res.Proof.Marshal(buf); err != nil {
		return err
	}
	if want := refProof(cur.sorted(), vs); !bytes.Equal(buf.Bytes(), want) {
		return fmt.Errorf("version %d: proof is %x, want %x", ver, buf.Bytes(), want)
	}
	dec, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(buf.Bytes()))
	if err != nil {
		return err
	}
	return prefix.Verify(cs, entries, dec, refHash(cur.sorted(), 0))
}

type mutation struct {
	add []prefix.Entry
	rem [][]byte
}

func (m mutation) String() string {
	o := "{add"
	for _, e := range m.add {
		o += fmt.Sprintf(" %x=%x", e.VrfOutput, e.Commitment[:min(4, len(e.Commitment))])
	}
	o += " remove"
	for _, e := range m.rem {
		o += fmt.Sprintf(" %x", e)
	}
	return o + "}"
}

func keys(s vset) [][]byte {
	var out [][]byte
	for _, e := range s.sorted() {
		out = append(out, e.v)
	}
	return out
}

func genMutation(r *rand.Rand, cur vset, ever [][]byte, big bool) mutation {
	var m mutation
	n := r.Intn(5)
	if big {
		n = 30 + r.Intn(200)
	}
	ks := keys(cur)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := output(r, append(ks, ever...))
		if _, ok := cur[string(v)]; ok || seen[string(v)] {
			continue
		}
		seen[string(v)] = true
		m.add = append(m.add, prefix.Entry{VrfOutput: v, Commitment: rbytes(r)})
	}
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	k := 0
	if len(ks) > 0 {
		k = r.Intn(min(len(ks), 3) + 1)
		if r.Intn(8) == 0 {
			k = len(ks)
		}
	}
	for _, v := range ks[:k] {
		m.rem = append(m.rem, v)
		if r.Intn(4) == 0 {
			m.add = append(m.add, prefix.Entry{VrfOutput: v, Commitment: rbytes(r)})
		}
	}
	r.Shuffle(len(m.add), func(i, j int) { m.add[i], m.add[j] = m.add[j], m.add[i] })
	return m
}

func apply(cur vset, m mutation) vset {
	out := cur.clone()
	for _, v := range m.rem {
		delete(out, string(v))
	}
	for _, e := range m.add {
		out[string(e.VrfOutput)] = e.Commitment
	}
	return out
}

// seenAfter is the root that follows from the mutation when every subtree off
// the mutated paths is known by its hash only: a removal does not make a parent
// disappear whose other child is such a subtree. (known finding)
func seenAfter(before vset, m mutation) []byte {
	vs := slices.Clone(m.rem)
	for _, e := range m.add {
		vs = append(vs, e.VrfOutput)
	}
	slices.SortFunc(vs, bytes.Compare)
	const empty, leaf, other = 0, 1, 2
	var walk func(b, a []kv, vs [][]byte, d int) (int, []byte)
	walk = func(b, a []kv, vs [][]byte, d int) (int, []byte) {
		if len(vs) == 0 {
			return other, refHash(b, d)
		} else if len(b) <= 1 {
			return min(len(a), 2), refHash(a, d)
		}
		bl, br := split(b, d)
		al, ar := split(a, d)
		i := sort.Search(len(vs), func(i int) bool { return bit(vs[i], d) })
		lk, lh := walk(bl, al, vs[:i], d+1)
		rk, rh := walk(br, ar, vs[i:], d+1)
		if lk == leaf && rk == empty {
			return leaf, lh
		} else if lk == empty && (rk == leaf || rk == empty) {
			return rk, rh
		}
		return other, parentHash(lh, rh)
	}
	_, h := walk(before.sorted(), apply(before, m).sorted(), vs, 0)
	return h
}

func TestVerifC06(t *testing.T) {
	h := verifh.Start(t, "C06", 8*time.Second)
	defer h.Finish("random histories of mutations with shared prefixes, all versions searched and compared with the set of entries")
	r := h.Rand
	for h.More() && !h.Failed() {
		store := &recStore{PrefixStore: memory.NewPrefixStore()}
		tree := prefix.NewTree(cs, store)
		vers := []vset{{}}
		var hist []mutation
		var ever [][]byte
		input := func() string { return fmt.Sprint(hist) }
		steps := 1 + r.Intn(8)
		bigAt := -1
		if r.Intn(4) == 0 {
			bigAt = r.Intn(steps)
		}
		for i := 0; i < steps; i++ {
			cur := vers[len(vers)-1]
			ver := uint64(len(vers) - 1)
			m := genMutation(r, cur, ever, i == bigAt)
			if r.Intn(6) == 0 {
				m = mutation{}
			}
			// a mutation that must be refused
			if bad := badMutation(r, cur, m); bad != nil {
				h.Run("refused", func() string { return fmt.Sprintf("%v then %v", hist, *bad) }, func() error {
					before := store.puts
					if _, _, _, err := tree.Mutate(ver, bad.add, bad.rem); err == nil {
						return errors.New("an invalid mutation was accepted")
					}
					if store.puts != before {
						return errors.New("a refused mutation wrote to the database")
					}
					return nil
				})
			}
			hist = append(hist, m)
			if !h.Run("mutate", input, func() error {
				add0, rem0 := fmt.Sprint(m.add), fmt.Sprint(m.rem)
				root, proof, coms, err := tree.Mutate(ver, m.add, m.rem)
				if err != nil {
					return fmt.Errorf("valid mutation refused: %v", err)
				}
				if fmt.Sprint(m.add) != add0 || fmt.Sprint(m.rem) != rem0 {
					return errors.New("the caller's slices were changed")
				}
				next := apply(cur, m)
				if want := refHash(next.sorted(), 0); !bytes.Equal(root, want) {
					return fmt.Errorf("root is %x, want %x", root, want)
				}
				if len(coms) != len(m.rem) {
					return errors.New("wrong number of removed commitments")
				}
				for i, v := range m.rem {
					if !bytes.Equal(coms[i], cur[string(v)]) {
						return errors.New("wrong removed commitment")
					}
				}
				var vs [][]byte
				for _, e := range m.add {
					vs = append(vs, e.VrfOutput)
				}
				vs = append(vs, m.rem...)
				buf := &bytes.Buffer{}
				if len(vs) > 0 && len(vs) < 256 {
					if err := proof.Marshal(buf); err != nil {
						return err
					}
					if !bytes.Equal(buf.Bytes(), refProof(cur.sorted(), vs)) {
						return errors.New("proof of the previous version is not the honest one")
					}
				}
				vers = append(vers, next)
				return nil
			}) {
				break
			}
			for _, e := range m.add {
				ever = append(ever, e.VrfOutput)
			}
		}
		if len(vers) == 1 {
			continue
		}
		// search all versions at once and one by one
		var searches []prefix.PrefixSearch
		for ver := 1; ver < len(vers); ver++ {
			for k := 0; k <= r.Intn(2); k++ {
				seen := map[string]bool{}
				var vs [][]byte
				pool := append(keys(vers[ver]), ever...)
				for i := 0; i < r.Intn(6); i++ {
					v := output(r, pool)
					if len(pool) > 0 && r.Intn(2) == 0 {
						v = pool[r.Intn(len(pool))]
					}
					if !seen[string(v)] {
						seen[string(v)] = true
						vs = append(vs, v)
					}
				}
				searches = append(searches, prefix.PrefixSearch{Version: uint64(ver), VrfOutputs: vs})
			}
		}
		for k := 0; k < 3; k++ {
			r.Shuffle(len(searches), func(i, j int) { searches[i], searches[j] = searches[j], searches[i] })
			sub := searches[:1+r.Intn(len(searches))]
			if k == 2 {
				sub = searches
			}
			h.Run("search", func() string { return fmt.Sprintf("%v searches %x", hist, sub) }, func() error {
				res, err := tree.Search(sub)
				if err != nil {
					return err
				}
				for i := range sub {
					if err := checkSearch(tree, vers, sub[i].Version, sub[i].VrfOutputs, res[i]); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

func badMutation(r *rand.Rand, cur vset, m mutation) *mutation {
	b := mutation{slices.Clone(m.add), slices.Clone(m.rem)}
	ks := keys(cur)
	switch r.Intn(6) {
	case 0: // add an existing entry
		if len(ks) == 0 {
			return nil
		}
		v := ks[r.Intn(len(ks))]
		if slices.ContainsFunc(b.rem, func(x []byte) bool { return bytes.Equal(x, v) }) {
			return nil
		}
		b.add = append(b.add, prefix.Entry{VrfOutput: v, Commitment: rbytes(r)})
	case 1: // remove a missing one
		v := output(r, ks)
		if _, ok := cur[string(v)]; ok {
			return nil
		}
		b.rem = append(b.rem, v)
	case 2:
		if len(b.add) == 0 {
			return nil
		}
		b.add = append(b.add, prefix.Entry{VrfOutput: b.add[0].VrfOutput, Commitment: rbytes(r)})
	case 3:
		if len(b.rem) == 0 {
			return nil
		}
		b.rem = append(b.rem, b.rem[r.Intn(len(b.rem))])
	case 4:
		b.add = append(b.add, prefix.Entry{VrfOutput: rbytes(r)[:31], Commitment: rbytes(r)})
	case 5:
		b.add = append(b.add, prefix.Entry{VrfOutput: rbytes(r), Commitment: rbytes(r)[:r.Intn(32)]})
	}
	return &b
}

// ---- C05

type fres struct {
	typ  byte
	leaf kv
	d    int
}

// forge builds a proof for the searched outputs with the given results, taking
// every copath node from the true tree.
func forge(s []kv, vs [][]byte, rs []fres) []byte {
	out := []byte{byte(len(rs))}
	for _, f := range rs {
		out = append(out, f.typ)
		if f.typ == 2 {
			out = append(append(out, f.leaf.v...), f.leaf.c...)
		}
		out = append(out, byte(f.d))
	}
	// the skeleton: paths of the searched outputs cut at the given depths
	type pd struct {
		v []byte
		d int
	}
	var ps []pd
	for i := range rs {
		ps = append(ps, pd{vs[i], rs[i].d})
	}
	var elems [][]byte
	var walk func(cur []kv, real bool, ps []pd, d int)
	walk = func(cur []kv, real bool, ps []pd, d int) {
		if len(ps) == 0 {
			if !real {
				elems = append(elems, make([]byte, 32))
			} else {
				elems = append(elems, refHash(cur, d))
			}
			return
		}
		for _, p := range ps {
			if p.d <= d {
				return
			}
		}
		if d > 255 {
			return
		}
		var l, r []kv
		rl := real && len(cur) > 1
		if real && len(cur) > 0 {
			l, r = split(cur, d)
		}
		var pl, pr []pd
		for _, p := range ps {
			if bit(p.v, d) {
				pr = append(pr, p)
			} else {
				pl = append(pl, p)
			}
		}
		walk(l, rl, pl, d+1)
		walk(r, rl, pr, d+1)
	}
	walk(s, true, ps, 0)
	out = append(out, byte(len(elems)>>8), byte(len(elems)))
	for _, e := range elems {
		out = append(out, e...)
	}
	return out
}

func TestVerifC05(t *testing.T) {
	h := verifh.Start(t, "C05", 8*time.Second)
	defer h.Finish("forged proofs over the true copath nodes of small trees with shared prefixes, and corrupted honest proofs")
	r := h.Rand
	check := func(key string, cur vset, entries []prefix.Entry, raw []byte) {
		in := func() string {
			o := fmt.Sprintf("tree%s; searched", show(cur))
			for _, e := range entries {
				o += fmt.Sprintf(" %x=%x", e.VrfOutput, e.Commitment)
			}
			return o + fmt.Sprintf("; proof %x", raw)
		}
		h.Run(key, in, func() error {
			p, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(raw))
			if err != nil {
				return nil
			}
			if err := prefix.Verify(cs, entries, p, refHash(cur.sorted(), 0)); err != nil {
				return nil
			}
			for i, e := range entries {
				c, ok := cur[string(e.VrfOutput)]
				if p.Results[i].Inclusion() {
					if !ok || !bytes.Equal(c, e.Commitment) {
						return fmt.Errorf("accepted: %x present with %x", e.VrfOutput, e.Commitment)
					}
				} else if ok {
					return fmt.Errorf("accepted: %x absent", e.VrfOutput)
				}
				if _, d := refNode(cur.sorted(), e.VrfOutput, 256); p.Results[i].Depth() != d {
					return fmt.Errorf("accepted: the search for %x ends at depth %d, not %d", e.VrfOutput, p.Results[i].Depth(), d)
				}
			}
			return nil
		})
	}
	for h.More() && !h.Failed() {
		cur := vset{}
		for i := 0; i < r.Intn(6); i++ {
			cur[string(output(r, keys(cur)))] = rbytes(r)
		}
		s := cur.sorted()
		var vs [][]byte
		seen := map[string]bool{}
		for i := 0; i < 1+r.Intn(3); i++ {
			v := output(r, keys(cur))
			if len(s) > 0 && r.Intn(2) == 0 {
				v = s[r.Intn(len(s))].v
			}
			if !seen[string(v)] {
				seen[string(v)] = true
				vs = append(vs, v)
			}
		}
		for k := 0; k < 60; k++ {
			entries := make([]prefix.Entry, len(vs))
			rs := make([]fres, len(vs))
			for i, v := range vs {
				// the true terminal node
				cur2, d := refNode(s, v, 256)
				f := fres{typ: 3, d: d}
				if len(cur2) == 1 {
					f.typ, f.leaf = 2, cur2[0]
					if bytes.Equal(cur2[0].v, v) {
						f.typ = 1
					}
				}
				entries[i] = prefix.Entry{VrfOutput: v}
				if f.typ == 1 {
					entries[i].Commitment = cur2[0].c
				}
				if r.Intn(2) == 0 { // lie about it
					switch r.Intn(6) {
					case 0:
						f.typ = byte(1 + r.Intn(3))
					case 1:
						f.d = r.Intn(d + 3)
					case 2:
						f.d = r.Intn(256)
					case 3:
						f.typ = 2
						if len(s) > 0 {
							f.leaf = s[r.Intn(len(s))]
						}
					case 4:
						f.typ = 2
						f.leaf = kv{vs[r.Intn(len(vs))], rbytes(r)}
						if c, ok := cur[string(f.leaf.v)]; ok {
							f.leaf.c = c
						}
					case 5:
						f.typ = 1
						entries[i].Commitment = rbytes(r)
					}
				}
				if f.leaf.v == nil {
					f.leaf = kv{rbytes(r), rbytes(r)}
				}
				rs[i] = f
			}
			if r.Intn(6) == 0 && len(entries) > 0 {
				i := r.Intn(len(entries))
				entries[i].Commitment = rbytes(r)
			}
			check("forged", cur, entries, forge(s, vs, rs))
		}
		// honest proofs, corrupted
		honest := refProof(s, vs)
		for k := 0; k < 20; k++ {
			raw := slices.Clone(honest)
			entries := make([]prefix.Entry, len(vs))
			for i, v := range vs {
				entries[i] = prefix.Entry{VrfOutput: v, Commitment: cur[string(v)]}
				if r.Intn(4) == 0 {
					entries[i].Commitment = rbytes(r)
				}
			}
			switch r.Intn(4) {
			case 0:
				raw[r.Intn(len(raw))] ^= byte(1 << r.Intn(8))
			case 1:
				raw = raw[:r.Intn(len(raw)+1)]
			case 2:
				r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
			}
			check("corrupted", cur, entries, raw)
		}
		// the honest one is accepted
		h.Run("honest", func() string { return fmt.Sprintf("tree%s searched %x", show(cur), vs) }, func() error {
			p, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(honest))
			if err != nil {
				return err
			}
			entries := make([]prefix.Entry, len(vs))
			for i, v := range vs {
				entries[i] = prefix.Entry{VrfOutput: v, Commitment: cur[string(v)]}
			}
			return prefix.Verify(cs, entries, p, refHash(s, 0))
		})
	}
}

// ---- C07

func TestVerifC07(t *testing.T) {
	h := verifh.Start(t, "C07", 8*time.Second)
	defer h.Finish("random mutations, their proofs evaluated before and after; forged proofs must not crash the evaluation")
	r := h.Rand
	for h.More() {
		tree := prefix.NewTree(cs, memory.NewPrefixStore())
		cur := vset{}
		var hist []mutation
		for i := 0; i < 1+r.Intn(6); i++ {
			m := genMutation(r, cur, nil, false)
			if len(m.add)+len(m.rem) == 0 {
				continue
			}
			_, proof, coms, err := tree.Mutate(uint64(len(hist)), m.add, m.rem)
			if err != nil {
				break
			}
			hist = append(hist, m)
			next := apply(cur, m)
			rem := make([]prefix.Entry, len(m.rem))
			for i := range rem {
				rem[i] = prefix.Entry{VrfOutput: m.rem[i], Commitment: coms[i]}
			}
			prev := cur
			h.Run("before-after", func() string { return fmt.Sprint(hist) }, func() error {
				b, a, err := prefix.EvaluateBeforeAfter(cs, m.add, rem, proof)
				if err != nil {
					return err
				}
				if !bytes.Equal(b, refHash(cur.sorted(), 0)) {
					return errors.New("wrong root before the mutation")
				}
				want := refHash(next.sorted(), 0)
				if seen := seenAfter(prev, m); !bytes.Equal(a, want) && !bytes.Equal(seen, want) && bytes.Equal(a, seen) {
					h.Fail("collapse", fmt.Sprint(hist), "wrong root after a removal next to a subtree that the proof shows only by its hash")
					return nil
				}
				if !bytes.Equal(a, want) {
					return errors.New("wrong root after the mutation")
				}
				return nil
			})
			cur = next
		}
		// forged proofs
		s := cur.sorted()
		for k := 0; k < 60; k++ {
			var vs [][]byte
			seen := map[string]bool{}
			for i := 0; i < 1+r.Intn(4); i++ {
				v := output(r, append(keys(cur), vs...))
				if !seen[string(v)] {
					seen[string(v)] = true
					vs = append(vs, v)
				}
			}
			rs := make([]fres, len(vs))
			for i, v := range vs {
				c2, d := refNode(s, v, 256)
				rs[i] = fres{typ: byte(1 + r.Intn(3)), d: d, leaf: kv{output(r, append(keys(cur), vs...)), rbytes(r)}}
				if r.Intn(2) == 0 && len(c2) == 1 {
					rs[i].leaf = c2[0]
				}
				if r.Intn(4) == 0 {
					rs[i].d = r.Intn(256)
				}
				if r.Intn(8) == 0 {
					rs[i].leaf.v = v
				}
			}
			raw := forge(s, vs, rs)
			na := r.Intn(len(vs) + 1)
			var add, rem []prefix.Entry
			for i, v := range vs {
				e := prefix.Entry{VrfOutput: v, Commitment: rbytes(r)}
				if i < na {
					add = append(add, e)
				} else {
					rem = append(rem, e)
				}
			}
			h.Run("forged", func() string { return fmt.Sprintf("add %x remove %x proof %x", add, rem, raw) }, func() error {
				p, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(raw))
				if err != nil {
					return nil
				}
				prefix.EvaluateBeforeAfter(cs, add, rem, p)
				return nil
			})
		}
	}
}
