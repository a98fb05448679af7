package transparency_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
	"github.com/Bren2010/katie/vworld"
)

type world = vworld.World

// An honest party: a client, what it has stored, and what it owns.
type party struct {
	w     *world
	store *vworld.ClientStore
	cl    *transparency.Client
	owns  map[int]uint64 // label -> starting position of the ownership
	size  uint64         // tree size of the last accepted response
}

func newParty(w *world) (*party, error) {
	st := vworld.NewClientStore()
	cl, err := transparency.NewClient(w.Cfg.Public(), st)
	if err != nil {
		return nil, err
	}
	return &party{w: w, store: st, cl: cl, owns: map[int]uint64{}}, nil
}

// state is what the client stored, decoded.
func (p *party) state() (*structs.ClientState, error) {
	if p.store.State == nil {
		return nil, nil
	}
	buf := bytes.NewBuffer(p.store.State)
	st, err := structs.NewClientState(p.w.Cfg.Public(), buf)
	if err == nil && buf.Len() != 0 {
		err = errors.New("trailing bytes in client state")
	}
	return st, err
}

// checkState compares the client's state with the log after a response for a
// tree of size n was accepted.
func (p *party) checkState(n uint64) error {
	st, err := p.state()
	if err != nil {
		return fmt.Errorf("client state does not decode: %v", err)
	} else if st == nil {
		return errors.New("client accepted a response and has no state")
	}
	if st.TreeHead.TreeSize != n {
		return fmt.Errorf("client state is for tree size %d, the accepted response was for %d", st.TreeHead.TreeSize, n)
	}
	if !bytes.Equal(st.TreeHead.Signature, p.w.Heads[n-1].Signature) {
		return errors.New("client state has a signature that the log did not make")
	}
	for x, e := range st.LogEntries {
		if x >= n || e.Timestamp != p.w.TS[x] {
			return fmt.Errorf("client retained a wrong log entry %d", x)
		}
	}
	if p.w.Cfg.Mode == structs.ThirdPartyAuditing && st.AuditorTreeHead == nil {
		return errors.New("client state has no auditor tree head")
	}
	p.size = n
	return nil
}

func encode(m structs.Marshaller) ([]byte, error) { return structs.Marshal(m) }

func decode[T any](raw []byte, f func(*bytes.Buffer) (T, error)) (T, error) {
	buf := bytes.NewBuffer(slices.Clone(raw))
	out, err := f(buf)
	if err == nil && buf.Len() != 0 {
		err = errors.New("trailing bytes")
	}
	return out, err
}

var ctx = context.Background()

// An exchange is a request with the server's encoded response and the client's
// verification of any response.
type exchange struct {
	kind   string
	label  int
	ver    int // -1: greatest
	raw    []byte
	err    error // of the server
	verify func(raw []byte) error
	fuzz   func(m *vworld.Mutator) error // ask the server damaged requests
	edit   func(f func(r any)) error     // verify an edited structure
	peek   func(f func(r any))           // look at the structure
	// elsewhere is another server's response to the request.
	elsewhere func(tree *transparency.Tree) ([]byte, error)
}

func mkExchange[Q, R structs.Marshaller](w *world, kind string, req Q,
	tree *transparency.Tree, serve0 func(*transparency.Tree, Q) (R, error), dec2 func(*bytes.Buffer, Q) (R, error), check func(R) error, redecodeReq func(*bytes.Buffer) (Q, error)) (*exchange, error) {
	ex := &exchange{kind: kind, ver: -1}
	serve := func(q Q) (R, error) { return serve0(tree, q) }
	ex.elsewhere = func(tree *transparency.Tree) ([]byte, error) {
		res, err := serve0(tree, req)
		if err != nil {
			return nil, nil
		}
		return encode(res)
	}
	dec := func(b *bytes.Buffer) (R, error) { return dec2(b, req) }
	rawReq, err := encode(req)
	if err != nil {
		return nil, fmt.Errorf("%s: request does not encode: %v", kind, err)
	}
	req2, err := decode(rawReq, redecodeReq)
	if err != nil {
		return nil, fmt.Errorf("%s: request does not decode: %v", kind, err)
	}
	ex.fuzz = func(m *vworld.Mutator) error {
		req, err := decode(rawReq, redecodeReq)
		if err != nil {
			return err
		}
		for i := 0; i == 0 || m.R.Intn(3) == 0; i++ {
			m.Tamper(req)
		}
		// Only what can arrive over the wire.
		raw, err := encode(req)
		if err != nil {
			return nil
		}
		if req, err = decode(raw, redecodeReq); err != nil {
			return nil
		}
		defer func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("%v, answering the %s request %x", r, kind, raw))
			}
		}()
		res, err := serve(req)
		if err != nil {
			return nil
		}
		rawRes, err := encode(res)
		if err != nil {
			return fmt.Errorf("the response to the %s request %x does not encode: %v", kind, raw, err)
		}
		if _, err := dec2(bytes.NewBuffer(rawRes), req); err != nil {
			return fmt.Errorf("the response to the %s request %x does not decode: %v", kind, raw, err)
		}
		return nil
	}
	res, err := serve(req2)
	if err != nil {
		ex.err = err
		return ex, nil
	}
	ex.raw, err = encode(res)
	if err != nil {
		return nil, fmt.Errorf("%s: response does not encode: %v", kind, err)
	}
	if _, err := decode(ex.raw, dec); err != nil {
		return nil, fmt.Errorf("%s: response does not decode: %v", kind, err)
	}
	ex.verify = func(raw []byte) error {
		r, err := decode(raw, dec)
		if err != nil {
			return err
		}
		return check(r)
	}
	ex.peek = func(f func(r any)) {
		if r, err := decode(ex.raw, dec); err == nil {
			f(r)
		}
	}
	ex.edit = func(f func(r any)) error {
		r, err := decode(ex.raw, dec)
		if err != nil {
			return err
		}
		f(r)
		// Only what can arrive over the wire.
		raw, err := encode(r)
		if err != nil {
			return err
		}
		return ex.verify(raw)
	}
	return ex, nil
}

func (p *party) search(tree *transparency.Tree, l int, ver int) (*exchange, error) {
	var req *structs.SearchRequest
	var vf transparency.VerifyFunc[*structs.SearchResponse]
	var err error
	if ver < 0 {
		req, vf, err = p.cl.GreatestVersionSearch(p.w.Labels[l])
	} else {
		req, vf, err = p.cl.FixedVersionSearch(p.w.Labels[l], uint32(ver))
	}
	if err != nil {
		return nil, err
	}
	ex, err := mkExchange(p.w, "search", req,
		tree, func(tree *transparency.Tree, q *structs.SearchRequest) (*structs.SearchResponse, error) {
			return tree.Search(ctx, q)
		},
		func(b *bytes.Buffer, q *structs.SearchRequest) (*structs.SearchResponse, error) {
			return structs.NewSearchResponse(p.w.Cfg.Public(), q, b)
		}, vf, structs.NewSearchRequest)
	if ex != nil {
		ex.label, ex.ver = l, ver
	}
	return ex, err
}

func (p *party) ownerInit(tree *transparency.Tree, l int) (*exchange, uint64, error) {
	req, vf, err := p.cl.OwnerInit(p.w.Labels[l])
	if err != nil {
		return nil, 0, err
	}
	ex, err := mkExchange(p.w, "owner-init", req,
		tree, func(tree *transparency.Tree, q *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
			return tree.OwnerInit(ctx, q)
		},
		func(b *bytes.Buffer, _ *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
			return structs.NewOwnerInitResponse(p.w.Cfg.Public(), b)
		}, vf, structs.NewOwnerInitRequest)
	if ex != nil {
		ex.label = l
	}
	return ex, req.Start, err
}

func (p *party) monitor(tree *transparency.Tree) (*exchange, error) {
	req, vf, err := p.cl.Monitor()
	if err != nil || req == nil {
		return nil, err
	}
	find := func(label []byte) int {
		return slices.IndexFunc(p.w.Labels, func(l []byte) bool { return bytes.Equal(l, label) })
	}
	switch q := req.(type) {
	case *structs.ContactMonitorRequest:
		ex, err := mkExchange(p.w, "contact-monitor", q,
			tree, func(tree *transparency.Tree, q *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
				return tree.ContactMonitor(ctx, q)
			},
			func(b *bytes.Buffer, _ *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
				return structs.NewContactMonitorResponse(p.w.Cfg.Public(), b)
			}, func(r *structs.ContactMonitorResponse) error { return vf(r) }, structs.NewContactMonitorRequest)
		if ex != nil {
			ex.label = find(q.Label)
		}
		return ex, err
	case *structs.OwnerMonitorRequest:
		ex, err := mkExchange(p.w, "owner-monitor", q,
			tree, func(tree *transparency.Tree, q *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
				return tree.OwnerMonitor(ctx, q)
			},
			func(b *bytes.Buffer, _ *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
				return structs.NewOwnerMonitorResponse(p.w.Cfg.Public(), b)
			}, func(r *structs.OwnerMonitorResponse) error { return vf(r) }, structs.NewOwnerMonitorRequest)
		if ex != nil {
			ex.label = find(q.Label)
		}
		return ex, err
	}
	return nil, errors.New("unknown request")
}

// ask performs one random exchange and says what it should have come to.
// It returns nil if the client has nothing to ask.
func (p *party) ask(r *rand.Rand) (*exchange, error) {
	l := r.Intn(len(p.w.Labels))
	switch r.Intn(6) {
	case 0, 1:
		return p.search(p.w.Tree, l, -1)
	case 2:
		return p.search(p.w.Tree, l, r.Intn(len(p.w.Pos[l])+2))
	case 3:
		if p.store.State == nil || p.owns[l] != 0 || r.Intn(3) != 0 {
			return nil, nil
		}
		ex, _, err := p.ownerInit(p.w.Tree, l)
		if err != nil && (strings.Contains(err.Error(), "already owned") || strings.Contains(err.Error(), "no distinguished")) {
			return nil, nil
		}
		return ex, err
	default:
		if p.store.State == nil {
			return nil, nil
		}
		ex, err := p.monitor(p.w.Tree)
		if err != nil && strings.Contains(err.Error(), "no distinguished") {
			return nil, nil
		}
		return ex, err
	}
}

// honest runs the exchange as it is and compares the outcome with the model.
func (p *party) honest(ex *exchange) error {
	w := p.w
	before := p.store.Clone()
	p.w.Note("%s label %d version %d", ex.kind, ex.label, ex.ver)
	if ex.err != nil {
		if w.Removed[ex.label] || w.Cfg.MaximumLifetime > 0 {
			return nil
		}
		if ex.kind == "search" && ex.ver >= len(w.Pos[ex.label]) {
			return nil
		}
		return fmt.Errorf("the server failed on an honest %s request: %v", ex.kind, ex.err)
	}
	err := ex.verify(ex.raw)
	if err != nil && !p.store.Equal(before) {
		return fmt.Errorf("the client returned an error (%v) and changed its state", err)
	}
	if err == nil {
		if err := p.checkState(w.N()); err != nil {
			return err
		}
	}
	if w.Removed[ex.label] && err != nil {
		// What was retained about the removed versions need not fit.
		return nil
	}
	switch ex.kind {
	case "search":
		exists := len(w.Pos[ex.label]) > 0 && ex.ver < len(w.Pos[ex.label])
		if exists && err != nil && !(w.Cfg.MaximumLifetime > 0 && err == algorithms.ErrLabelExpired) {
			return fmt.Errorf("the client rejects an honest answer: %v", err)
		} else if !exists && err == nil {
			return errors.New("the client accepted a search for a version that does not exist")
		} else if !exists && err != algorithms.ErrLabelNotFound && w.Cfg.Mode != structs.ThirdPartyManagement {
			return fmt.Errorf("the client rejects an honest answer that the version does not exist: %v", err)
		}
	case "owner-init", "contact-monitor":
		if err != nil {
			return fmt.Errorf("the client rejects an honest answer: %v", err)
		}
	case "owner-monitor":
		if err != nil {
			return fmt.Errorf("the client rejects an honest answer: %v", err)
		}
	}
	return nil
}

type plan struct {
	opts   vworld.Opts
	steps  int
	seed   int64
	remove bool
	many   int
}

func (pl plan) String() string {
	return fmt.Sprintf("mode %d, monitoring window %d, lifetime %d, %d labels, %d steps, seed %d, removals %v, %d versions at the start",
		pl.opts.Mode, pl.opts.RMW, pl.opts.Lifetime, pl.opts.Labels, pl.steps, pl.seed, pl.remove, pl.many)
}

func mkPlan(r *rand.Rand) plan {
	pl := plan{steps: 1 + r.Intn(24), seed: r.Int63()}
	pl.opts = vworld.Opts{Mode: structs.DeploymentMode(1 + r.Intn(3)), RMW: uint64(1 + r.Intn(400)), Labels: 1 + r.Intn(3)}
	if r.Intn(2) == 0 {
		pl.opts.Mode = structs.ContactMonitoring
	}
	if r.Intn(4) == 0 {
		pl.opts.Lifetime = pl.opts.RMW + 1 + uint64(r.Intn(2000))
	}
	pl.remove = r.Intn(4) == 0
	return pl
}

// step grows the log by one entry.
func step(w *world, r *rand.Rand, remove bool) error {
	counts := make([]int, len(w.Labels))
	var rm []int
	for l := range counts {
		if r.Intn(3) == 0 && !w.Frozen[l] {
			counts[l] = []int{1, 1, 1, 2, 3, 5}[r.Intn(6)]
		}
		if remove && r.Intn(6) == 0 && !w.Frozen[l] && len(w.Pos[l]) > 0 {
			rm = append(rm, l)
		}
	}
	sleep := time.Duration(r.Intn(200)) * time.Millisecond
	if r.Intn(4) == 0 {
		sleep = 0
	}
	before := w.N()
	err := w.Mutate(sleep, counts, rm)
	if err != nil && len(rm) > 0 && strings.Contains(err.Error(), "unable to delete") {
		// Refused as a whole: nothing may have changed.
		if w.N() != before {
			return errors.New("a refused mutation changed the tree")
		}
		if err := w.CheckIndex(); err != nil {
			return fmt.Errorf("after a refused mutation: %v", err)
		}
		return w.Mutate(0, counts, nil)
	}
	return err
}

func runPlan(t *testing.T, pl plan, each func(w *world, r *rand.Rand, ps []*party) error) (trace []string, err error) {
	err = vworld.Bubble(t, func() error {
		r := rand.New(rand.NewSource(pl.seed))
		w := vworld.New(t, r, pl.opts)
		defer func() { trace = w.Trace }()
		var ps []*party
		for i := 0; i < 3; i++ {
			p, err := newParty(w)
			if err != nil {
				return err
			}
			ps = append(ps, p)
		}
		for left := pl.many; left > 0; left -= 200 { // a label with a long history
			if err := w.Mutate(0, []int{min(left, 200)}, nil); err != nil {
				return err
			} else if err := w.CheckIndex(); err != nil {
				return fmt.Errorf("with %d versions: %v", len(w.Pos[0]), err)
			}
		}
		for i := 0; pl.many > 0 && i < 8; i++ {
			if err := each(w, r, ps); err != nil {
				return err
			}
		}
		for i := 0; i < pl.steps; i++ {
			if err := step(w, r, pl.remove); err != nil {
				return err
			}
			for k := r.Intn(4); k > 0; k-- {
				if err := each(w, r, ps); err != nil {
					return err
				}
			}
		}
		return nil
	})
	return
}

// Honest servers and clients against the model of the log.
func TestVerifC18(t *testing.T) {
	h := verifh.Start(t, "C18", 9*time.Second)
	first := true
	for h.More() {
		pl := mkPlan(h.Rand)
		if first {
			pl.many, pl.steps, pl.opts.Labels, first = 1100+h.Rand.Intn(900), 1+h.Rand.Intn(4), 1, false
		}
		var trace []string
		h.Run("honest", func() string { return pl.String() + "; " + strings.Join(trace, "; ") }, func() error {
			var err error
			trace, err = runPlan(t, pl, func(w *world, r *rand.Rand, ps []*party) error {
				p := ps[r.Intn(len(ps))]
				ex, err := p.ask(r)
				if err != nil {
					return fmt.Errorf("a request could not be made: %v", err)
				} else if ex == nil {
					return nil
				}
				if ex.kind == "owner-init" {
					w.Frozen[ex.label] = true
					// The owner has to know about every version: only own what
					// has none after the starting point.
				}
				if ex.fuzz != nil {
					for i := 0; i < 3; i++ {
						if err := ex.fuzz(&vworld.Mutator{R: r}); err != nil {
							return err
						}
					}
				}
				return p.honest(ex)
			})
			return err
		})
		if h.Failed() {
			break
		}
	}
	h.Finish("random logs of up to 24 entries over up to 3 labels, with simulated time, all three modes, with and without expiry and removals; three clients ask random requests in between")
}
