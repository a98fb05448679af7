package auditor_test

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
	"github.com/Bren2010/katie/vworld"
)

type store struct {
	raw  []byte
	fail bool
	puts int
}

func (s *store) GetState() ([]byte, error) { return slices.Clone(s.raw), nil }
func (s *store) PutState(raw []byte) error {
	if s.fail {
		return errors.New("storage failure")
	}
	s.puts++
	s.raw = slices.Clone(raw)
	return nil
}

// A model of what an auditor that accepted some updates must know.
type model struct {
	window uint64
	ts     []uint64
	leaves [][]byte
	cur    vworld.VSet
	at     map[string]uint64 // log entry of the last addition
	trees  []vworld.VSet
}

func (m *model) clone() *model {
	o := &model{m.window, slices.Clone(m.ts), slices.Clone(m.leaves), m.cur.Clone(), map[string]uint64{}, slices.Clone(m.trees)}
	for k, v := range m.at {
		o.at[k] = v
	}
	return o
}

func ordered(es []prefix.Entry) bool {
	for i := 1; i < len(es); i++ {
		if bytes.Compare(es[i-1].VrfOutput, es[i].VrfOutput) >= 0 {
			return false
		}
	}
	return true
}

func has(es []prefix.Entry, v []byte) bool {
	return slices.ContainsFunc(es, func(e prefix.Entry) bool { return bytes.Equal(e.VrfOutput, v) })
}

// judge says why an update with an honest proof must be refused, if it must.
func (m *model) judge(ts uint64, add, rem []prefix.Entry) string {
	if n := len(m.ts); n > 0 && ts < m.ts[n-1] {
		return "the timestamp decreases"
	}
	if !ordered(add) || !ordered(rem) {
		return "the entries are not sorted"
	}
	for _, e := range add {
		if _, ok := m.cur[string(e.VrfOutput)]; ok && !has(rem, e.VrfOutput) {
			return "an added entry exists"
		}
	}
	all := append(slices.Clone(m.ts), ts)
	dist := vworld.Distinguished(all, m.window)
	prev := -1
	for i := range m.ts {
		if dist[i] {
			prev = i
		}
	}
	for _, e := range rem {
		c, ok := m.cur[string(e.VrfOutput)]
		if !ok {
			return "a removed entry does not exist"
		} else if !bytes.Equal(c, e.Commitment) {
			return "a removed entry has another commitment"
		} else if prev < 0 || m.at[string(e.VrfOutput)] > uint64(prev) {
			return "a removed entry was added since the previous distinguished log entry"
		}
	}
	return ""
}

func (m *model) accept(ts uint64, add, rem []prefix.Entry) {
	for _, e := range add {
		m.at[string(e.VrfOutput)] = uint64(len(m.ts))
	}
	m.cur = m.cur.Apply(add, rem)
	m.trees = append(m.trees, m.cur)
	m.ts = append(m.ts, ts)
	le := &structs.LogEntry{Timestamp: ts, PrefixTree: m.cur.Root()}
	h, err := le.Hash(vworld.Suite{})
	if err != nil {
		panic(err)
	}
	m.leaves = append(m.leaves, h)
}

// agrees compares a stored state with the model.
func (m *model) agrees(cfg *structs.PublicConfig, th *structs.AuditorTreeHead, raw []byte) error {
	n := uint64(len(m.ts))
	buf := bytes.NewBuffer(raw)
	st, err := auditor.NewAuditorState(cfg.Suite, buf)
	if err != nil {
		return fmt.Errorf("the stored state does not decode: %v", err)
	} else if buf.Len() != 0 {
		return errors.New("the stored state has bytes left over")
	}
	if th.TreeSize != n || st.TreeHead.TreeSize != n || th.Timestamp != m.ts[n-1] || st.TreeHead.Timestamp != m.ts[n-1] {
		return fmt.Errorf("tree head is (%d, %d), stored (%d, %d), should be (%d, %d)", th.TreeSize, th.Timestamp, st.TreeHead.TreeSize, st.TreeHead.Timestamp, n, m.ts[n-1])
	}
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: cfg, Timestamp: m.ts[n-1], TreeSize: n, Root: vworld.LogRoot(m.leaves)})
	if err != nil {
		return err
	}
	if !cfg.AuditorPublicKey.Verify(tbs, th.Signature) || !bytes.Equal(th.Signature, st.TreeHead.Signature) {
		return errors.New("the signature is not over the log that results from the accepted updates")
	}
	if !slices.EqualFunc(st.FullSubtrees, vworld.FullSubtrees(m.leaves), bytes.Equal) {
		return errors.New("wrong full subtrees")
	}
	var ts []uint64
	for _, x := range vworld.Frontier(n) {
		ts = append(ts, m.ts[x])
	}
	if !slices.Equal(st.Timestamps, ts) {
		return fmt.Errorf("frontier timestamps are %v, should be %v", st.Timestamps, ts)
	}
	if !bytes.Equal(st.PrefixTree, m.cur.Root()) {
		return errors.New("wrong prefix tree root")
	}
	return nil
}

func TestVerifC17(t *testing.T) {
	h := verifh.Start(t, "C17", 9*time.Second)
	r := h.Rand
	rbytes := func() []byte { b := make([]byte, 32); r.Read(b); return b }
	for h.More() && !h.Failed() {
		key := vworld.Key(rbytes())
		cfg := &structs.PublicConfig{SignatureKey: vworld.PubKey(rbytes()), VrfKey: vworld.VrfPub(rbytes()), Config: structs.Config{
			Suite: vworld.Suite{}, Mode: structs.ThirdPartyAuditing, MaxAuditorLag: 1 << 30, AuditorPublicKey: key.Public(),
			MaxAhead: 1, MaxBehind: 1, ReasonableMonitoringWindow: uint64(1 + r.Intn(40)), MaximumLifetime: uint64(r.Intn(2) * 500),
		}}
		m := &model{window: cfg.ReasonableMonitoringWindow, cur: vworld.VSet{}, at: map[string]uint64{}}
		st := &store{}
		stored := m.clone() // the model of what is in the store
		var trace []string
		au, err := auditor.NewAuditor(cfg, key, st)
		if err != nil {
			h.Fail("new", "", "%v", err)
			break
		}
		var known [][]byte
		ts := uint64(r.Intn(30))
		commit := func() error {
			if len(m.ts) == 0 {
				if _, err := au.Commit(); err == nil {
					return errors.New("an empty state was committed")
				}
				return nil
			}
			before := slices.Clone(st.raw)
			if r.Intn(4) == 0 {
				st.fail = true
				_, err := au.Commit()
				st.fail = false
				same := len(stored.ts) == len(m.ts)
				if err == nil && !same {
					return errors.New("a tree head was returned that could not be stored")
				} else if !bytes.Equal(before, st.raw) {
					return errors.New("the store changed")
				}
			}
			th, err := au.Commit()
			if err != nil {
				return err
			}
			stored = m.clone()
			return m.agrees(cfg, th, st.raw)
		}
		steps, undetermined := 1+r.Intn(25), false
		for i := 0; i < steps && !undetermined; i++ {
			// what the update says
			gap := uint64(0)
			if r.Intn(3) > 0 {
				gap = uint64(r.Intn(20))
			}
			uts := ts + gap
			if r.Intn(12) == 0 && ts > 0 {
				uts = uint64(r.Intn(int(ts) + 1))
			}
			var add, rem []prefix.Entry
			used := map[string]bool{}
			for k := r.Intn(4); k > 0; k-- {
				v := rbytes()
				if len(known) > 0 && r.Intn(3) == 0 {
					v = slices.Clone(known[r.Intn(len(known))])
					if r.Intn(2) == 0 {
						v[r.Intn(3)] ^= byte(1 << r.Intn(8))
					}
				}
				_, in := m.cur[string(v)]
				if used[string(v)] || in && r.Intn(5) > 0 {
					continue
				}
				used[string(v)] = true
				add = append(add, prefix.Entry{VrfOutput: v, Commitment: rbytes()})
			}
			usedR := map[string]bool{}
			if r.Intn(2) == 0 {
				for k := r.Intn(4); k > 0 && len(known) > 0; k-- {
					v := known[r.Intn(len(known))]
					c, in := m.cur[string(v)]
					if usedR[string(v)] || !in && r.Intn(6) > 0 {
						continue
					}
					usedR[string(v)] = true
					if !in || r.Intn(20) == 0 {
						c = rbytes()
					}
					rem = append(rem, prefix.Entry{VrfOutput: v, Commitment: c})
					if !used[string(v)] && r.Intn(3) == 0 {
						used[string(v)] = true
						add = append(add, prefix.Entry{VrfOutput: v, Commitment: rbytes()})
					}
				}
			}
			cmp := func(a, b prefix.Entry) int { return bytes.Compare(a.VrfOutput, b.VrfOutput) }
			slices.SortFunc(add, cmp)
			slices.SortFunc(rem, cmp)
			if r.Intn(10) == 0 {
				l := &add
				if r.Intn(2) == 0 {
					l = &rem
				}
				if len(*l) > 1 && r.Intn(2) == 0 {
					a, b := r.Intn(len(*l)), r.Intn(len(*l))
					(*l)[a], (*l)[b] = (*l)[b], (*l)[a]
				} else if len(*l) > 0 {
					e := (*l)[r.Intn(len(*l))]
					*l = append(*l, e)
					slices.SortFunc(*l, cmp)
				}
			}
			proofTree, why := m.cur, m.judge(uts, add, rem)
			if why == "" && !m.cur.Determined(add, rem) {
				continue // known finding of C07
			}
			if len(m.trees) > 1 && r.Intn(10) == 0 {
				proofTree = m.trees[r.Intn(len(m.trees))]
			} else if r.Intn(15) == 0 {
				proofTree = m.cur.Clone()
				proofTree[string(rbytes())] = rbytes()
			}
			var vs [][]byte
			for _, e := range slices.Concat(add, rem) {
				vs = append(vs, e.VrfOutput)
			}
			up := &structs.AuditorUpdate{Timestamp: uts, Added: add, Removed: rem, Proof: *proofTree.Proof(vs)}
			damage := ""
			if r.Intn(8) == 0 {
				raw, err := structs.Marshal(up)
				if err != nil {
					h.Fail("marshal", "", "%v", err)
					break
				}
				from := 8 // leave the timestamp alone
				k := from + r.Intn(len(raw)-from)
				raw[k] ^= byte(1 << r.Intn(8))
				up2, err := structs.NewAuditorUpdate(cfg.Suite, bytes.NewBuffer(raw))
				if err != nil || m.tooClose(up2.Added) {
					continue
				}
				up, damage = up2, fmt.Sprintf(" with byte %d damaged", k)
			}
			stale := !bytes.Equal(marshal(proofTree.Proof(vs)), marshal(m.cur.Proof(vs)))
			desc := fmt.Sprintf("update %d: time %d, add %s, remove %s%s; proof of an other tree: %v", len(m.ts), uts, short(add), short(rem), damage, stale)
			ok := h.Run("audit", func() string {
				return fmt.Sprintf("window %d: %v then %s", m.window, trace, desc)
			}, func() error {
				err := au.Process(up)
				if damage != "" {
					if err == nil {
						// What was accepted must be consistent by itself.
						if why := m.judge(up.Timestamp, up.Added, up.Removed); why != "" {
							return fmt.Errorf("the update was accepted although %s", why)
						}
						add, rem = up.Added, up.Removed
						if !m.cur.Determined(add, rem) { // known finding of C07
							undetermined = true
							return nil
						}
					}
				} else if why == "" && stale {
					why = "the proof is for another prefix tree"
				}
				if damage == "" && (err == nil) != (why == "") {
					return fmt.Errorf("the auditor says %q, but the reason to reject is %q", fmt.Sprint(err), why)
				}
				if err == nil {
					m.accept(uts, add, rem)
					ts = uts
					for _, e := range add {
						known = append(known, e.VrfOutput)
					}
				}
				if r.Intn(3) == 0 {
					if err := commit(); err != nil {
						return err
					}
				}
				if r.Intn(4) == 0 { // restart
					if r.Intn(2) == 0 {
						if err := commit(); err != nil {
							return err
						}
					}
					m = stored.clone()
					ts = 0
					if n := len(m.ts); n > 0 {
						ts = m.ts[n-1]
					}
					trace = append(trace, fmt.Sprintf("restart at %d", len(m.ts)))
					if au, err = auditor.NewAuditor(cfg, key, st); err != nil {
						return fmt.Errorf("the stored state is refused: %v", err)
					}
				}
				return nil
			})
			if err == nil {
				trace = append(trace, desc)
			}
			if !ok {
				break
			}
		}
		if !undetermined {
			h.Run("audit", func() string { return fmt.Sprintf("window %d: %v", m.window, trace) }, commit)
		}
	}
	h.Finish("histories of up to 25 audited updates, valid and invalid in each way, with damaged and stale proofs, failing storage and restarts: verdict, signature and stored state against a model")
}

// tooClose reports whether additions share all but the last bit with one
// another or with a leaf: the depth of such leaves does not fit in a proof, and
// finding outputs like that takes as much as breaking the VRF.
func (m *model) tooClose(add []prefix.Entry) bool {
	var vs [][]byte
	for v := range m.cur {
		vs = append(vs, []byte(v))
	}
	for _, e := range add {
		vs = append(vs, e.VrfOutput)
	}
	for _, e := range add {
		for _, v := range vs {
			if len(v) == 32 && len(e.VrfOutput) == 32 && bytes.Equal(v[:31], e.VrfOutput[:31]) && v[31]^e.VrfOutput[31] == 1 {
				return true
			}
		}
	}
	return false
}

func marshal(p *prefix.PrefixProof) []byte {
	buf := &bytes.Buffer{}
	if err := p.Marshal(buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func short(es []prefix.Entry) string {
	s := "["
	for _, e := range es {
		s += fmt.Sprintf("%x=%x ", e.VrfOutput[:4], e.Commitment[:2])
	}
	return s + "]"
}
