package math

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/verifh"
)

// ---- the implicit search tree over entries [lo, hi): the root of the whole
// tree with n entries is the greatest 2^k-1 below n, by definition of the
// left-balanced binary search tree.
type vnode struct{ id, lo, hi uint64 }

func vtop(lo, hi uint64) vnode { // hi > lo; lo is aligned
	p := uint64(1)
	for p <= (hi-lo)/2 {
		p *= 2
	}
	return vnode{lo + p - 1, lo, hi}
}
func vleft(v vnode) (vnode, bool) {
	if v.lo == v.id {
		return vnode{}, false
	}
	return vtop(v.lo, v.id), true
}
func vright(v vnode) (vnode, bool) {
	if v.id+1 == v.hi {
		return vnode{}, false
	}
	return vtop(v.id+1, v.hi), true
}
func vpath(x, n uint64) []vnode {
	v := vtop(0, n)
	out := []vnode{v}
	for v.id != x {
		if x < v.id {
			v, _ = vleft(v)
		} else {
			v, _ = vright(v)
		}
		out = append(out, v)
	}
	return out
}
func vfront(n uint64) []uint64 {
	v := vtop(0, n)
	out := []uint64{v.id}
	for {
		r, ok := vright(v)
		if !ok {
			return out
		}
		v = r
		out = append(out, v.id)
	}
}

func vnum(h *verifh.H) uint64 {
	n := h.Rand.Uint64() >> (1 + h.Rand.Intn(63))
	if h.Rand.Intn(3) == 0 {
		n = uint64(1)<<h.Rand.Intn(63) + uint64(h.Rand.Intn(3)) - 1
	}
	if n == 0 {
		n = 1
	}
	return n
}

func TestVerifC10(t *testing.T) {
	h := verifh.Start(t, "C10", 6*time.Second)
	node := func(x, n uint64) {
		in := fmt.Sprintf("entry %d of a tree with %d entries", x, n)
		h.Run("navigation", func() string { return in }, func() error {
			p := vpath(x, n)
			v := p[len(p)-1]
			if Root(n) != p[0].id {
				return fmt.Errorf("Root(%d) = %d, want %d", n, Root(n), p[0].id)
			}
			if IsLeaf(x) != (x%2 == 0) {
				return errors.New("IsLeaf is wrong")
			}
			if l, ok := vleft(v); ok && Left(x) != l.id {
				return fmt.Errorf("Left(%d) = %d, want %d", x, Left(x), l.id)
			}
			if r, ok := vright(v); ok && Right(x, n) != r.id {
				return fmt.Errorf("Right(%d, %d) = %d, want %d", x, n, Right(x, n), r.id)
			}
			if len(p) > 1 && Parent(x, n) != p[len(p)-2].id {
				return fmt.Errorf("Parent(%d, %d) = %d, want %d", x, n, Parent(x, n), p[len(p)-2].id)
			}
			var l, r []uint64
			for i := len(p) - 2; i >= 0; i-- {
				if p[i].id < x {
					l = append(l, p[i].id)
				} else {
					r = append(r, p[i].id)
				}
			}
			if got := LeftDirectPath(x); !slices.Equal(got, l) {
				return fmt.Errorf("LeftDirectPath(%d) = %v, want %v", x, got, l)
			}
			if got := RightDirectPath(x, n); !slices.Equal(got, r) {
				return fmt.Errorf("RightDirectPath(%d, %d) = %v, want %v", x, n, got, r)
			}
			return nil
		})

	}
	front := func(n uint64) {
		h.Run("frontier", func() string { return fmt.Sprintf("%d entries", n) }, func() error {
			if got, want := Frontier(n), vfront(n); !slices.Equal(got, want) {
				return fmt.Errorf("Frontier(%d) = %v, want %v", n, got, want)
			}
			return nil
		})
	}
	upd := func(n uint64, m *uint64) {
		in := fmt.Sprintf("size %d, no previous size", n)
		if m != nil {
			in = fmt.Sprintf("size %d, previous size %d", n, *m)
		}
		h.Run("update-view", func() string { return in }, func() error {
			got := UpdateView(n, m)
			var have []uint64
			if m != nil && *m > 0 {
				have = vfront(*m)
			}
			// every new entry is looked at once, in order, and the frontier is covered
			for i, x := range got {
				if x >= n || m != nil && x < *m || i > 0 && got[i-1] >= x {
					return fmt.Errorf("UpdateView = %v: entries must be new, existing and ascending", got)
				}
			}
			all := append(slices.Clone(have), got...)
			for _, x := range vfront(n) {
				if !slices.Contains(all, x) {
					return fmt.Errorf("UpdateView = %v does not cover entry %d of the frontier", got, x)
				}
			}
			// what is inspected is exactly the ancestors and the frontier
			var want []uint64
			if m == nil || *m == 0 {
				want = vfront(n)
			} else if *m != n {
				p := vpath(*m-1, n)
				for i := len(p) - 2; i >= 0; i-- {
					if p[i].id >= *m {
						want = append(want, p[i].id)
					}
				}
				// from the highest inspected (or the last retained) down the right edge
				var last vnode
				if len(want) > 0 {
					q := vpath(want[len(want)-1], n)
					last = q[len(q)-1]
				} else {
					last = p[len(p)-1]
				}
				if len(want) > 0 {
					for r, ok := vright(last); ok; r, ok = vright(r) {
						want = append(want, r.id)
					}
				}
			}
			if len(want) > 0 && !slices.Equal(got, want) {
				return fmt.Errorf("UpdateView = %v, want %v", got, want)
			}
			return nil
		})

	}
	for n := uint64(1); n <= 70; n++ {
		front(n)
		for x := uint64(0); x < n; x++ {
			node(x, n)
		}
		upd(n, nil)
		for m := uint64(0); m <= n; m++ {
			upd(n, &m)
		}
	}
	for h.More() {
		n := vnum(h)
		front(n)
		x := h.Rand.Uint64() % n
		if h.Rand.Intn(3) == 0 {
			x = n - 1
		}
		node(x, n)
		m := h.Rand.Uint64()%n + 1
		upd(n, &m)
	}
	h.Finish("every tree of up to 70 entries exhaustively, then random sizes up to 2^63")
}

// ---- ladders

// vladder is the ladder of the protocol: 0, 1, 3, 7, ... up to the first value
// above the target, then bisection.
func vladder(t uint32) []uint32 {
	var out []uint32
	lo, hi := int64(-1), int64(0)
	for {
		v := hi
		out = append(out, uint32(v))
		if v > int64(t) || v == 1<<32-1 {
			break
		}
		lo = v
		hi = 2*v + 1
	}
	if hi <= int64(t) {
		return out
	}
	for lo+1 < hi {
		v := (lo + hi) / 2
		out = append(out, uint32(v))
		if v <= int64(t) {
			lo = v
		} else {
			hi = v
		}
	}
	return out
}

var vcs suites.CipherSuite = suites.KTSha256P256{}

// vresult is an inclusion (or not) with depth 0, read from its encoding.
func vresult(in bool) prefix.PrefixSearchResult {
	b := []byte{1, 3, 0, 0, 0}
	if in {
		b = []byte{1, 1, 0, 0, 0}
	}
	p, err := prefix.NewPrefixProof(vcs, bytes.NewBuffer(b))
	if err != nil {
		panic(err)
	}
	return p.Results[0]
}

func vproof(ladder []uint32, n int64) *prefix.PrefixProof {
	p := &prefix.PrefixProof{}
	for _, v := range ladder {
		p.Results = append(p.Results, vresult(int64(v) <= n))
	}
	return p
}

func vcmp(n int64, t uint32) int {
	if n < int64(t) {
		return -1
	} else if n > int64(t) {
		return 1
	}
	return 0
}

func vver(h *verifh.H) uint32 {
	switch h.Rand.Intn(4) {
	case 0:
		return uint32(h.Rand.Intn(40))
	case 1:
		return uint32(uint64(1)<<(h.Rand.Intn(33)) + uint64(h.Rand.Intn(3)) - 1)
	case 2:
		return ^uint32(0) - uint32(h.Rand.Intn(4))
	}
	return h.Rand.Uint32() >> h.Rand.Intn(32)
}

func vmap(vs []uint32) map[uint32]struct{} {
	m := map[uint32]struct{}{}
	for _, v := range vs {
		m[v] = struct{}{}
	}
	return m
}

func TestVerifC08(t *testing.T) {
	h := verifh.Start(t, "C08", 6*time.Second)
	one := func(tv, n uint32) {
		in := fmt.Sprintf("target %d, greatest version %d", tv, n)

		h.Run("search-ladder", func() string { return in }, func() error {
			got := SearchBinaryLadder(tv, n, nil, nil)
			full := vladder(tv)
			var want []uint32
			for _, v := range full {
				want = append(want, v)
				if v <= n && v > tv || v > n && v <= tv {
					break
				}
			}
			if !slices.Equal(got, want) {
				return fmt.Errorf("SearchBinaryLadder = %v, want %v", got, want)
			}
			if len(got) > 66 || len(vmap(got)) != len(got) {
				return errors.New("the ladder is long or looks a version up twice")
			}
			// the verifier's reading of the honest results over the ladder for the target
			vl := SearchBinaryLadder(tv, tv, nil, nil)
			c, err := InterpretSearchLadder(vl, tv, vproof(got, int64(n)))
			if err != nil {
				return fmt.Errorf("honest lookups rejected: %v", err)
			}
			if c != vcmp(int64(n), tv) {
				return fmt.Errorf("outcome %d, want %d", c, vcmp(int64(n), tv))
			}
			// one lookup less or one more
			p := vproof(got, int64(n))
			short := &prefix.PrefixProof{Results: p.Results[:len(p.Results)-1]}
			if _, err := InterpretSearchLadder(vl, tv, short); err == nil {
				return errors.New("a response with a missing lookup was accepted")
			}
			long := &prefix.PrefixProof{Results: append(slices.Clone(p.Results), vresult(h.Rand.Intn(2) == 0))}
			if _, err := InterpretSearchLadder(vl, tv, long); err == nil {
				return errors.New("a response with an extra lookup was accepted")
			}
			// flipping one result: accepted only if it is what some other greatest version gives
			i := h.Rand.Intn(len(p.Results))
			fl := slices.Clone(p.Results)
			fl[i] = vresult(!fl[i].Inclusion())
			c, err = InterpretSearchLadder(vl, tv, &prefix.PrefixProof{Results: fl})
			want2 := 0
			for j, r := range fl {
				v := vl[j]
				if r.Inclusion() && v > tv || !r.Inclusion() && v <= tv {
					want2 = 1
					if v <= tv {
						want2 = -1
					}
					if j+1 != len(fl) {
						want2 = 9
					}
					break
				}
			}
			if want2 == 0 && len(fl) != len(vl) {
				want2 = 9
			}
			if (want2 == 9) != (err != nil) || want2 != 9 && c != want2 {
				return fmt.Errorf("results %v on %v: got (%d, %v), want %d (9 is an error)", fl, vl, c, err, want2)
			}
			return nil
		})
		h.Run("monitoring-ladder", func() string { return fmt.Sprintf("target %d", tv) }, func() error {
			got := MonitoringBinaryLadder(tv)
			var want []uint32
			for _, v := range vladder(tv) {
				if v <= tv {
					want = append(want, v)
				}
			}
			if !slices.Equal(got, want) || got[len(got)-1] != tv && !slices.Contains(got, tv) {
				return fmt.Errorf("MonitoringBinaryLadder(%d) = %v, want %v", tv, got, want)
			}
			return nil
		})
	}
	for a := uint32(0); a < 40; a++ {
		for b := uint32(0); b < 40; b++ {
			one(a, b)
		}
	}
	for e := 5; e <= 32; e++ {
		for d := -2; d <= 2; d++ {
			a := uint32(int64(1)<<e + int64(d))
			for _, b := range []uint32{a, a - 1, a + 1, 0, ^uint32(0), ^uint32(0) - 1, 1 << 31, 1<<31 - 1} {
				one(a, b)
			}
		}
	}
	for h.More() {
		a := vver(h)
		b := vver(h)
		if h.Rand.Intn(2) == 0 {
			b = a + uint32(h.Rand.Intn(5)) - 2
		}
		one(a, b)
	}
	h.Finish("all pairs below 40, values next to powers of two, random 32-bit pairs; each with the honest, a short, a long and a flipped response")
}

// ---- omitted lookups

func TestVerifC09(t *testing.T) {
	h := verifh.Start(t, "C09", 6*time.Second)
	run := func(omit bool) {
		// entries with nondecreasing greatest versions, visited in search order
		k := 2 + h.Rand.Intn(14)
		small := h.Rand.Intn(3) > 0
		ver := func() int64 {
			if small {
				return int64(h.Rand.Intn(20)) - 1
			}
			return int64(vver(h)) - int64(h.Rand.Intn(2))
		}
		vers := make([]int64, k)
		for i := range vers {
			vers[i] = ver()
			if vers[i] >= 1<<32-1 {
				vers[i] = 1<<32 - 2
			}
		}
		slices.Sort(vers)
		tv := uint32(max(0, ver()))
		if h.Rand.Intn(2) == 0 {
			tv = uint32(max(0, vers[h.Rand.Intn(k)]))
		}
		if tv == ^uint32(0) {
			tv--
		}
		pos := h.Rand.Perm(k)[:1+h.Rand.Intn(k)]
		in := func() string { return fmt.Sprintf("greatest versions %v, target %d, visiting %v, omit %v", vers, tv, pos, omit) }

		h.Run("tracker", in, func() error {
			var sv, cl VersionTracker
			type ans struct {
				x   int
				inc bool
			}
			known := map[uint32][]ans{}
			visited := []int{}
		next:
			for _, x := range pos {
				g := vers[x]
				// a search goes right of an entry only when its versions do not
				// exceed the target, and left only when they reach it
				for _, y := range visited {
					if y < x && vers[y] > int64(tv) || y > x && vers[y] < int64(tv) {
						continue next
					}
				}
				visited = append(visited, x)
				sl, sr := sv.SearchMaps(uint64(x), omit)
				var server []uint32
				if g < 0 {
					// no version exists: like the server, look only version 0 up
					server = []uint32{0}
				} else {
					server = SearchBinaryLadder(tv, uint32(g), sl, sr)
				}
				cll, clr := cl.SearchMaps(uint64(x), omit)
				client := SearchBinaryLadder(tv, tv, cll, clr)
				proof := vproof(server, g)
				got, err := InterpretSearchLadder(client, tv, proof)
				if err != nil {
					return fmt.Errorf("entry %d: client ladder %v rejects server lookups %v: %v", x, client, server, err)
				}
				if len(client) < len(server) || !slices.Equal(client[:len(server)], server) {
					return fmt.Errorf("entry %d: server looks up %v, client expects %v", x, server, client)
				}
				if got != vcmp(g, tv) {
					return fmt.Errorf("entry %d: outcome %d, want %d", x, got, vcmp(g, tv))
				}
				// omitted lookups were proven before, on the right side
				full := SearchBinaryLadder(tv, uint32(max(0, g)), nil, nil)
				if g >= 0 {
					for _, v := range full {
						if slices.Contains(server, v) {
							continue
						}
						ok := false
						for _, a := range known[v] {
							ok = ok || a.inc && a.x < x || !a.inc && a.x > x
						}
						if !ok || !omit {
							return fmt.Errorf("entry %d: lookup of version %d was omitted without a proof", x, v)
						}
						if (int64(v) <= g) != slices.ContainsFunc(known[v], func(a ans) bool { return a.inc && a.x < x }) {
							return fmt.Errorf("entry %d: omitted version %d means the wrong thing", x, v)
						}
					}
					if omit {
						for _, v := range server {
							for _, a := range known[v] {
								if a.inc && a.x < x || !a.inc && a.x > x {
									return fmt.Errorf("entry %d: version %d is looked up again", x, v)
								}
							}
						}
					}
				}
				for _, v := range server {
					known[v] = append(known[v], ans{x, int64(v) <= g})
				}
				sv.AddLadder(uint64(x), omit, int(g), server)
				cl.AddResults(uint64(x), omit, client, proof.Results)
			}
			for x := 0; x <= k; x++ {
				a, b := sv.SearchMaps(uint64(x), omit)
				c, d := cl.SearchMaps(uint64(x), omit)
				if fmt.Sprint(a, b) != fmt.Sprint(c, d) {
					return fmt.Errorf("at %d the server remembers %v %v, the client %v %v", x, a, b, c, d)
				}
				for v := range a {
					if !slices.ContainsFunc(known[v], func(a ans) bool { return a.inc && a.x < x }) {
						return fmt.Errorf("version %d is remembered as included left of %d but was not proven", v, x)
					}
				}
				for v := range b {
					if !slices.ContainsFunc(known[v], func(a ans) bool { return !a.inc && a.x > x }) {
						return fmt.Errorf("version %d is remembered as absent right of %d but was not proven", v, x)
					}
				}
			}
			return nil
		})
	}
	for h.More() {
		run(h.Rand.Intn(4) > 0)
	}
	h.Finish("random sequences of visited entries with nondecreasing greatest versions, with and without omission")
}
