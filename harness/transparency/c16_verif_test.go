package transparency_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
	"github.com/Bren2010/katie/vworld"
)

// accepted checks the state after some response was accepted, using nothing of
// the code that accepted it.
func (p *party) accepted(before *vworld.ClientStore) error {
	w := p.w
	var old *structs.ClientState
	if before.State != nil {
		var err error
		if old, err = structs.NewClientState(w.Cfg.Public(), bytes.NewBuffer(before.State)); err != nil {
			return err
		}
	}
	st, err := p.state()
	if err != nil {
		return fmt.Errorf("client state does not decode: %v", err)
	} else if st == nil {
		return errors.New("the client accepted a response and retained nothing")
	}
	n := st.TreeHead.TreeSize
	if old != nil && n < old.TreeHead.TreeSize {
		return fmt.Errorf("the retained tree size went from %d to %d", old.TreeHead.TreeSize, n)
	}
	if old != nil && n == old.TreeHead.TreeSize {
		if !reflect.DeepEqual(st, old) {
			return fmt.Errorf("the state changed without the tree growing: %+v, was %+v", st, old)
		}
		return nil
	}
	root, err := log.Root(w.Cfg.Suite, n, st.FullSubtrees)
	if err != nil {
		return err
	}
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: w.Cfg.Public(), TreeSize: n, Root: root})
	if err != nil {
		return err
	}
	if !w.Cfg.SignatureKey.Public().Verify(tbs, st.TreeHead.Signature) {
		return errors.New("the retained signature is not of the retained tree")
	}
	if n > w.N() || !bytes.Equal(root, w.Roots[n-1]) {
		return fmt.Errorf("the client retained a tree of size %d that the log never had", n)
	}
	fr := math.Frontier(n)
	if len(fr) != len(st.LogEntries) {
		return fmt.Errorf("%d log entries retained, the frontier has %d", len(st.LogEntries), len(fr))
	}
	for _, x := range fr {
		e, err := w.Entry(x)
		if err != nil {
			return err
		}
		if got, ok := st.LogEntries[x]; !ok || got.Timestamp != e.Timestamp || !bytes.Equal(got.PrefixTree, e.PrefixTree) {
			return fmt.Errorf("the retained log entry %d is not that of the log", x)
		}
	}
	if w.Cfg.Mode == structs.ThirdPartyAuditing {
		a := st.AuditorTreeHead
		if a == nil {
			return errors.New("no auditor tree head retained")
		}
		ts := w.TS[n-1]
		if a.TreeSize > n || a.TreeSize == 0 || a.Timestamp > ts || ts-a.Timestamp > w.Cfg.MaxAuditorLag {
			return fmt.Errorf("the client accepted an auditor tree head for size %d at %d, the tree has size %d at %d, the allowed lag is %d",
				a.TreeSize, a.Timestamp, n, ts, w.Cfg.MaxAuditorLag)
		}
		if !bytes.Equal(a.Signature, w.SignAuditor(a.Timestamp, a.TreeSize).Signature) {
			return errors.New("the client accepted an auditor signature that does not verify")
		}
	} else if st.AuditorTreeHead != nil {
		return errors.New("auditor tree head retained without an auditor")
	}
	return nil
}

func fthOf(r any) *structs.FullTreeHead {
	return reflect.ValueOf(r).Elem().FieldByName("FullTreeHead").Addr().Interface().(*structs.FullTreeHead)
}

// editHeads puts other tree heads in a response. It returns whether the
// response must still be accepted, if that is known.
func editHeads(w *world, r *rand.Rand, res any) (desc string) {
	fth := fthOf(res)
	n := w.N()
	switch r.Intn(9) {
	case 0:
		fth.TreeHead = nil
		return "no tree head"
	case 8:
		fth.TreeHead = w.Heads[n-1]
		fth.AuditorTreeHead = nil
		if w.Cfg.Mode == structs.ThirdPartyAuditing {
			fth.AuditorTreeHead = w.SignAuditor(w.TS[n-1], n)
		}
		return "current tree heads"
	case 1:
		fth.TreeHead = w.Heads[n-1]
		return "current tree head"
	case 2:
		fth.TreeHead = w.Heads[r.Intn(int(n))]
		return "earlier tree head"
	case 3:
		fth.TreeHead = &structs.TreeHead{TreeSize: w.Heads[r.Intn(int(n))].TreeSize, Signature: w.Heads[r.Intn(int(n))].Signature}
		return "mixed tree head"
	case 4:
		fth.AuditorTreeHead = nil
		return "no auditor tree head"
	case 5:
		if len(w.AudHeads) > 0 {
			fth.AuditorTreeHead = w.AudHeads[r.Intn(len(w.AudHeads))]
		}
		return "earlier auditor tree head"
	case 6:
		fth.AuditorTreeHead = w.SignAuditor(w.TS[n-1], n)
		return "auditor tree head for everything"
	default:
		size := n
		if fth.AuditorTreeHead != nil {
			size = fth.AuditorTreeHead.TreeSize
		}
		lag := w.Cfg.MaxAuditorLag
		ts := []uint64{w.TS[n-1], w.TS[n-1] + 1, w.TS[n-1] - lag, w.TS[n-1] - lag - 1, 0, ^uint64(0), w.TS[size-1]}[r.Intn(7)]
		fth.AuditorTreeHead = w.SignAuditor(ts, size)
		if r.Intn(4) == 0 {
			fth.AuditorTreeHead.Signature = slices.Clone(fth.AuditorTreeHead.Signature)
			fth.AuditorTreeHead.Signature[r.Intn(32)] ^= 1
		}
		return fmt.Sprintf("auditor tree head at %d for size %d", ts, size)
	}
}

// honestAuditor says whether an unmodified response has an acceptable auditor
// tree head.
func honestAuditor(w *world) bool {
	if w.Cfg.Mode != structs.ThirdPartyAuditing {
		return true
	}
	a := w.AudHeads[len(w.AudHeads)-1]
	return w.TS[w.N()-1]-a.Timestamp <= w.Cfg.MaxAuditorLag
}

// answer makes the server's response to an update of label l by its owner, who
// knows own, for a client whose last tree size is last.
func answer(w *world, l int, last *uint64, own *structs.LabelOwnerState, contact []structs.MonitorMapEntry, pos uint64, values [][]byte) (*structs.UpdateResponse, error) {
	k := len(values)
	start := own.VerAtStarting + len(own.UpcomingVers) + 1
	index := w.Pos[l]
	handle := algorithms.NewProducedProofHandle(w.Cfg.Suite, w.Store, index)
	provider := algorithms.NewDataProvider(w.Cfg.Suite, handle)
	n := w.N()
	res := &structs.UpdateResponse{Position: pos}
	var nP, m *uint64
	if last == nil || *last != n {
		res.FullTreeHead.TreeHead = w.Heads[n-1]
		if w.Cfg.Mode == structs.ThirdPartyAuditing {
			res.FullTreeHead.AuditorTreeHead = w.AudHeads[len(w.AudHeads)-1]
			nP = &res.FullTreeHead.AuditorTreeHead.TreeSize
		}
	}
	if last != nil {
		m = last
		es := map[uint64]structs.LogEntry{}
		for _, x := range math.Frontier(*last) {
			e, err := w.Entry(x)
			if err != nil {
				return nil, err
			}
			es[x] = *e
		}
		if err := provider.AddRetained(nil, es); err != nil {
			return nil, err
		}
	}
	cfg := w.Cfg.Public()
	if err := algorithms.UpdateView(cfg, n, last, provider); err != nil {
		return nil, err
	}
	mon, err := algorithms.NewMonitor(cfg, n, provider)
	if err != nil {
		return nil, err
	}
	mon.Owner, mon.Contact = algorithms.NewOwnerState(own), algorithms.NewContactState(contact)
	mon.Owner = mon.Owner.Clone()
	if err := mon.Update(pos, k); err != nil {
		return nil, err
	}
	out := func(ver uint32) (a, b []byte) {
		in, _ := structs.Marshal(&structs.VrfInput{Label: w.Labels[l], Version: ver})
		return w.Cfg.VrfKey.Prove(in)
	}
	for ver := range handle.RequiredVersions() {
		o, _ := out(ver)
		if err := handle.AddVersion(ver, o); err != nil {
			return nil, err
		}
	}
	proof, err := provider.Output(n, nP, m)
	if err != nil {
		return nil, err
	}
	res.Update = *proof
	for i := range values {
		raw, err := w.Store.GetVersion(w.Labels[l], uint32(start+i))
		if err != nil {
			return nil, err
		}
		ov, err := structs.NewOpeningAndValue(cfg, bytes.NewBuffer(raw))
		if err != nil {
			return nil, err
		}
		res.Info = append(res.Info, structs.UpdateInfo{Opening: ov.Opening, UpdateSuffix: ov.Value.UpdateSuffix})
	}
	// The versions in a search ladder for the last new version and all new
	// versions, without those in the ladder for the previous one.
	need := map[uint32]bool{}
	end := uint32(start + k - 1)
	for _, v := range math.SearchBinaryLadder(end, end, nil, nil) {
		need[v] = true
	}
	for v := start; v < int(end); v++ {
		need[uint32(v)] = true
	}
	if start == 0 {
		delete(need, 0)
	} else {
		for _, v := range math.SearchBinaryLadder(uint32(start-1), uint32(start-1), nil, nil) {
			delete(need, v)
		}
	}
	var vers []uint32
	for v := range need {
		vers = append(vers, v)
	}
	slices.Sort(vers)
	for _, v := range vers {
		_, prf := out(v)
		step := structs.BinaryLadderStep{Proof: prf}
		if int(v) < start {
			step.Commitment = handle.GetCommitment(v)
		}
		res.BinaryLadder = append(res.BinaryLadder, step)
	}
	return res, nil
}

// attack presents the client with a response that is not what the server said.
func (p *party) attack(r *rand.Rand, mk func() (*exchange, error), old [][]byte, other func() ([]byte, error)) error {
	ex, err := mk()
	if err != nil || ex == nil || ex.err != nil {
		return err
	}
	before := p.store.Clone()
	mut := &vworld.Mutator{R: r}
	desc := ""
	var head *structs.TreeHead
	switch r.Intn(6) {
	case 0:
		raw := slices.Clone(ex.raw)
		switch r.Intn(3) {
		case 0:
			raw = raw[:r.Intn(len(raw)+1)]
		default:
			for k := 1 + r.Intn(3); k > 0; k-- {
				raw[r.Intn(len(raw))] ^= 1 << r.Intn(8)
			}
		}
		desc = fmt.Sprintf("damaged bytes %x", raw)
		err = ex.verify(raw)
	case 1:
		if len(old) == 0 {
			return nil
		}
		raw := old[r.Intn(len(old))]
		desc = fmt.Sprintf("response to another request %x", raw)
		err = ex.verify(raw)
	case 2:
		if before.State == nil {
			return nil
		}
		raw, oerr := other()
		if oerr != nil || raw == nil {
			return oerr
		}
		desc = fmt.Sprintf("response from another log %x", raw)
		err = ex.verify(raw)
	case 3, 4:
		err = ex.edit(func(res any) { desc = editHeads(p.w, r, res); head = fthOf(res).TreeHead })
	default:
		desc = "tampered structure"
		err = ex.edit(func(res any) {
			for i := 0; i == 0 || r.Intn(4) == 0; i++ {
				mut.Tamper(res)
			}
		})
	}
	p.w.Note("attack on %s: %.400s", ex.kind, desc)
	if err != nil {
		if !p.store.Equal(before) {
			return fmt.Errorf("%s with %s: the client returned an error (%v) and changed its state", ex.kind, desc, err)
		}
		return nil
	}
	if err := p.accepted(before); err != nil {
		return fmt.Errorf("%s with %s: %v", ex.kind, desc, err)
	}
	if head != nil && before.State != nil {
		old, err := structs.NewClientState(p.w.Cfg.Public(), bytes.NewBuffer(before.State))
		if err != nil {
			return err
		} else if head.TreeSize <= old.TreeHead.TreeSize {
			return fmt.Errorf("%s with %s: the client at size %d accepted a tree head of size %d", ex.kind, desc, old.TreeHead.TreeSize, head.TreeSize)
		}
	}
	*p.store = *before
	return nil
}

func TestVerifC16(t *testing.T) {
	h := verifh.Start(t, "C16", 10*time.Second)
	for h.More() {
		pl := mkPlan(h.Rand)
		pl.remove = false
		if pl.opts.Mode == structs.ContactMonitoring && h.Rand.Intn(2) == 0 {
			pl.opts.Mode = structs.ThirdPartyAuditing
		}
		pl.opts.Lag = uint64(100 + h.Rand.Intn(1000))
		var trace []string
		h.Run("client", func() string {
			return pl.String() + fmt.Sprintf(", allowed lag %d; ", pl.opts.Lag) + strings.Join(trace, "; ")
		}, func() error {
			var other *world
			seen := map[string][][]byte{}
			var err error
			trace, err = runPlan(t, pl, func(w *world, r *rand.Rand, ps []*party) error {
				if other == nil || other.N() > w.N()+4 {
					o := pl.opts
					other = vworld.New(t, r, o)
					other.Labels = w.Labels
				}
				for other.N() == 0 {
					if err := other.Mutate(time.Millisecond, slices.Repeat([]int{1}, len(w.Labels)), nil); err != nil {
						return err
					}
				}
				for r.Intn(2) == 0 {
					c := make([]int, len(w.Labels))
					for l := range c {
						c[l] = r.Intn(3)
					}
					if err := other.Mutate(0, c, nil); err != nil {
						return err
					}
				}
				p := ps[r.Intn(len(ps))]
				pick := r.Int63()
				mk := func() (*exchange, error) { return p.ask(rand.New(rand.NewSource(pick))) }
				ex, err := mk()
				if err != nil {
					return fmt.Errorf("a request could not be made: %v", err)
				} else if ex == nil {
					return nil
				}
				otherRaw := func() ([]byte, error) {
					ex, err := mk()
					if err != nil || ex == nil {
						return nil, err
					}
					return ex.elsewhere(other.Tree)
				}
				for k := 0; k < 6; k++ {
					if err := p.attack(r, mk, seen[ex.kind], otherRaw); err != nil {
						return err
					}
				}
				if ex.kind == "owner-init" {
					w.Frozen[ex.label] = true
				}
				if ex.err != nil {
					return p.honest(ex)
				}
				seen[ex.kind] = append(seen[ex.kind], ex.raw)
				before := p.store.Clone()
				if fthIs(ex) && !honestAuditor(w) {
					if err := ex.verify(ex.raw); err == nil {
						return errors.New("the client accepted an auditor tree head that is too old")
					} else if !p.store.Equal(before) {
						return errors.New("the client changed its state and returned an error")
					}
					return nil
				}
				if err := p.honest(ex); err != nil {
					return err
				}
				if !p.store.Equal(before) {
					return p.accepted(before)
				}
				return nil
			})
			return err
		})
		if h.Failed() {
			break
		}
	}
	h.Finish("random logs as for C18; before each honest response, the client gets up to six that are damaged in bytes or fields, belong to another request, carry other tree heads or come from another log with the same keys")
}

// fthIs reports whether the response carries tree heads.
func fthIs(ex *exchange) bool {
	out := false
	defer func() { recover() }()
	ex.peek(func(r any) { out = fthOf(r).TreeHead != nil })
	return out
}

// An owner updates a label and verifies the stream of responses, honest and
// not.
func TestVerifC16Update(t *testing.T) {
	h := verifh.Start(t, "C16", 6*time.Second)
	for h.More() {
		pl := mkPlan(h.Rand)
		pl.remove = false
		pl.opts.Lifetime = 0
		var trace []string
		h.Run("update", func() string { return pl.String() + "; " + strings.Join(trace, "; ") }, func() error {
			return vworld.Bubble(t, func() error {
				r := rand.New(rand.NewSource(pl.seed))
				w := vworld.New(t, r, pl.opts)
				defer func() { trace = w.Trace }()
				p, err := newParty(w)
				if err != nil {
					return err
				}
				own := 0
				owned := false
				for i := 0; i < pl.steps; i++ {
					if !owned {
						if err := step(w, r, false); err != nil {
							return err
						}
						ex, err := p.search(w.Tree, own, -1)
						if err != nil {
							return err
						} else if err := p.honest(ex); err != nil {
							return err
						}
						if p.store.State == nil {
							continue
						}
						ex, _, err = p.ownerInit(w.Tree, own)
						if err != nil {
							continue
						}
						if ex.err != nil {
							return p.honest(ex)
						}
						if err := p.honest(ex); err != nil {
							return err
						}
						// Versions added since the starting position are not the
						// owner's: give up on this log.
						ls, err := p.label(own)
						if err != nil {
							return err
						}
						if w.Greatest(own, w.N()-1) != ls.Owner.VerAtStarting {
							return nil
						}
						owned = true
						continue
					}
					// Other labels change, then the owner updates.
					w.Frozen[own] = true
					if r.Intn(2) == 0 {
						if err := step(w, r, false); err != nil {
							return err
						}
					}
					k := 1 + r.Intn(4)
					if r.Intn(12) == 0 {
						k = 60 + r.Intn(100)
					}
					c := make([]int, len(w.Labels))
					c[own] = k
					for l := range c {
						if l != own && r.Intn(2) == 0 {
							c[l] = r.Intn(3)
						}
					}
					if err := w.Mutate(time.Duration(r.Intn(100))*time.Millisecond, c, nil); err != nil {
						return err
					}
					pos := w.N() - 1
					vals := w.Vals[own][len(w.Vals[own])-k:]
					w.Frozen[own] = true
					if r.Intn(2) == 0 {
						if err := step(w, r, false); err != nil {
							return err
						}
					}
					ls, err := p.label(own)
					if err != nil {
						return err
					}
					st, err := p.state()
					if err != nil {
						return err
					}
					last := st.TreeHead.TreeSize
					res, err := answer(w, own, &last, ls.Owner, ls.Contact, pos, vals)
					if err != nil {
						return fmt.Errorf("the answer to an update could not be made: %v", err)
					}
					mut := &vworld.Mutator{R: r}
					for a := 0; a < 6; a++ {
						before := p.store.Clone()
						_, sv, err := p.cl.Update(w.Labels[own], vals)
						if err != nil {
							return err
						}
						raw, _ := encode(res)
						res2, err := structs.NewUpdateResponse(w.Cfg.Public(), bytes.NewBuffer(raw))
						if err != nil {
							return fmt.Errorf("the response does not decode: %v", err)
						}
						desc := ""
						if a%2 == 0 {
							desc = editHeads(w, r, res2)
						} else {
							for j := 0; j == 0 || r.Intn(4) == 0; j++ {
								mut.Tamper(res2)
							}
						}
						w.Note("attack on update: %s", desc)
						raw, err = encode(res2)
						if err != nil {
							continue
						}
						if res2, err = structs.NewUpdateResponse(w.Cfg.Public(), bytes.NewBuffer(raw)); err != nil {
							continue
						}
						if err := sv.Verify(res2); err != nil {
							if !p.store.Equal(before) {
								return fmt.Errorf("update: the client returned an error (%v) and changed its state", err)
							}
							continue
						}
						if err := p.accepted(before); err != nil {
							return fmt.Errorf("update: %v", err)
						}
						*p.store = *before
					}
					before := p.store.Clone()
					_, sv, err := p.cl.Update(w.Labels[own], vals)
					if err != nil {
						return err
					}
					w.Note("honest update response")
					if err := sv.Verify(res); err != nil {
						return fmt.Errorf("the client rejects an honest update response: %v", err)
					}
					if !p.store.Equal(before) {
						if err := p.accepted(before); err != nil {
							return err
						}
					}
					ls2, err := p.label(own)
					if err != nil {
						return err
					}
					want := append(slices.Clone(ls.Owner.UpcomingVers), slices.Repeat([]uint64{pos}, k)...)
					if ls2.Owner == nil || ls2.Owner.Starting != ls.Owner.Starting || ls2.Owner.VerAtStarting != ls.Owner.VerAtStarting || !slices.Equal(want, ls2.Owner.UpcomingVers) {
						return fmt.Errorf("after the update the owner state is %+v, was %+v", ls2.Owner, ls.Owner)
					}
					// Now and then, monitor.
					if r.Intn(2) == 0 {
						ex, err := p.monitor(w.Tree)
						if err != nil {
							return err
						} else if ex != nil {
							if err := p.honest(ex); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		})
		if h.Failed() {
			break
		}
	}
	h.Finish("a client that owns one label of a random log updates it several times and verifies the honest response and six damaged ones each time")
}

// label is what the client stored about label l, decoded.
func (p *party) label(l int) (*structs.ClientLabelState, error) {
	raw := p.store.Labels[string(p.w.Labels[l])]
	if raw == nil {
		return &structs.ClientLabelState{}, nil
	}
	return structs.NewClientLabelState(p.w.Cfg.Suite, bytes.NewBuffer(raw))
}

var _ = transparency.NewTree
