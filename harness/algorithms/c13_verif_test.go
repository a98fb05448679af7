package algorithms_test

import (
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/verifh"
)

// A watch is a monitoring state: nil Ptrs or Owner are absent.
type watch struct {
	ptrs  map[uint64]uint32
	owner *algorithms.OwnerState
}

func (w watch) String() string {
	s := fmt.Sprintf("contact %v", w.ptrs)
	if w.owner != nil {
		s += fmt.Sprintf(", owner {start %d version %d upcoming %v}", w.owner.Starting, w.owner.VerAtStarting, w.owner.UpcomingVers)
	}
	return s
}

func (w watch) clone() watch {
	o := watch{maps.Clone(w.ptrs), nil}
	if w.owner != nil {
		o.owner = &algorithms.OwnerState{Starting: w.owner.Starting, VerAtStarting: w.owner.VerAtStarting, UpcomingVers: slices.Clone(w.owner.UpcomingVers)}
	}
	return o
}

func (w watch) equal(o watch) bool { return w.String() == o.String() }

func stateOf(m *algorithms.Monitor) watch {
	var w watch
	if m.Contact != nil {
		w.ptrs = m.Contact.Ptrs
		if w.ptrs == nil {
			w.ptrs = map[uint64]uint32{}
		}
	}
	w.owner = m.Owner
	return w.clone()
}

func (w watch) into(m *algorithms.Monitor) {
	c := w.clone()
	if c.ptrs != nil {
		m.Contact = &algorithms.ContactState{Ptrs: c.ptrs}
	}
	m.Owner = c.owner
}

func sortedKeys(m map[uint64]uint32) (out []uint64) {
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return
}

// upTo is the right direct path of x up to and including the first
// distinguished entry, and whether there is one.
func (s *scene) upTo(x uint64) (out []uint64, reached bool) {
	for _, y := range s.rightPath(x) {
		out = append(out, y)
		if s.dist[y] {
			return out, true
		}
	}
	return out, false
}

// wantContact is the outcome of contact monitoring.
func (s *scene) wantContact(w watch) (proofs []string, next watch, fails bool) {
	next = w.clone()
	if w.ptrs == nil {
		return nil, next, false
	}
	next.ptrs = map[uint64]uint32{}
	seen := map[uint64]uint32{}
	keys := sortedKeys(w.ptrs)
	slices.Reverse(keys)
pointers:
	for _, x := range keys {
		ver := w.ptrs[x]
		if s.dist[x] {
			continue
		}
		path, reached := s.upTo(x)
		if reached && w.owner != nil && x >= w.owner.Starting {
			path = path[:len(path)-1]
		}
		for _, y := range path {
			if v, ok := seen[y]; ok {
				if v <= ver {
					return proofs, w, true
				}
				continue pointers
			}
			proofs = append(proofs, fmt.Sprintf("monitor %d %d", y, ver))
			if s.greatest(y) < int(ver) {
				return proofs, w, true
			}
			seen[y] = ver
		}
		if !reached {
			if len(path) > 0 {
				x = path[len(path)-1]
			}
			// A greater version that is to be monitored from there stays.
			next.ptrs[x] = max(next.ptrs[x], ver)
		}
	}
	if len(next.ptrs) == 0 {
		next.ptrs = nil
	}
	return proofs, next, false
}

func (s *scene) consistent(x uint64, ver int) (proof string, ok bool) {
	target := max(ver, 0)
	return fmt.Sprintf("search %d %d false", x, target), s.greatest(x) == ver
}

func expect(o *algorithms.OwnerState, x uint64) int {
	v := o.VerAtStarting
	for _, p := range o.UpcomingVers {
		if p <= x {
			v++
		}
	}
	return v
}

// wantOwner is the outcome of owner monitoring when at most limit ladders are
// provided.
func (s *scene) wantOwner(w watch, limit int) (proofs []string, next watch, fails bool) {
	next = w.clone()
	o := next.owner
	for x := w.owner.Starting + 1; x < s.n; x++ {
		if !s.dist[x] || limit >= 0 && len(proofs) >= limit {
			continue
		}
		ver := expect(w.owner, x)
		p, ok := s.consistent(x, ver)
		proofs = append(proofs, p)
		if !ok {
			return proofs, w, true
		}
		o.Starting, o.VerAtStarting = x, ver
	}
	if len(proofs) > 0 {
		o.UpcomingVers = slices.DeleteFunc(o.UpcomingVers, func(p uint64) bool { return p <= o.Starting })
	}
	return proofs, next, false
}

// initEntries are the entries an owner who starts at start verifies.
func (s *scene) initEntries(start uint64) ([]uint64, bool) {
	if start >= s.n || !s.dist[start] || s.expired(start) {
		return nil, false
	}
	out := []uint64{start}
	for y := s.par[start]; y >= 0; y = s.par[y] {
		if uint64(y) < start && !s.expired(uint64(y)) {
			out = append(out, uint64(y))
		}
	}
	return out, true
}

func (s *scene) wantInit(start uint64, vers []uint32) (proofs []string, next watch, fails bool) {
	xs, ok := s.initEntries(start)
	if !ok || len(vers) > len(xs) || !slices.IsSortedFunc(vers, func(a, b uint32) int { return int(b) - int(a) }) {
		return nil, watch{}, true
	}
	for i, x := range xs {
		ver := -1
		if i < len(vers) {
			ver = int(vers[i])
		}
		p, ok := s.consistent(x, ver)
		proofs = append(proofs, p)
		if !ok {
			return proofs, watch{}, true
		}
	}
	next.owner = &algorithms.OwnerState{Starting: start, VerAtStarting: -1}
	if len(vers) > 0 {
		next.owner.VerAtStarting = int(vers[0])
	}
	return proofs, next, false
}

// wantUpdate is the outcome of the owner adding versions at pos.
func (s *scene) wantUpdate(w watch, pos uint64, count int) (proofs []string, next watch, fails bool) {
	next = w.clone()
	o := w.owner
	if o == nil || pos >= s.n || count < 1 {
		return nil, w, true
	}
	last, prev := o.Starting, o.VerAtStarting+len(o.UpcomingVers)
	if len(o.UpcomingVers) > 0 {
		last = o.UpcomingVers[len(o.UpcomingVers)-1]
	}
	if pos <= last {
		return nil, w, true
	}
	// The previous tree: its frontier, less what other checks cover.
	old := &scene{ts: s.ts[:pos], rmw: s.rmw}
	old.finish()
	for _, x := range naiveFrontier(old) {
		if x <= last || s.dist[x] {
			continue
		}
		target := max(prev, 0)
		proofs = append(proofs, fmt.Sprintf("search %d %d true", x, target))
		if s.greatest(x) != prev {
			return proofs, w, true
		}
	}
	end := prev + count
	ladder := math.SearchBinaryLadder(uint32(end), uint32(end), nil, nil)
	var extra []uint32
	for v := prev + 1; v <= end; v++ {
		if !slices.Contains(ladder, uint32(v)) {
			extra = append(extra, uint32(v))
		}
	}
	if !s.dist[pos] {
		proofs = append(proofs, fmt.Sprintf("search %d %d true", pos, end))
		if s.greatest(pos) != end {
			return proofs, w, true
		}
		if next.ptrs == nil {
			next.ptrs = map[uint64]uint32{}
		}
		next.ptrs[pos] = uint32(end)
	}
	if len(extra) > 0 {
		proofs = append(proofs, fmt.Sprintf("inclusion %d %v", pos, extra))
		if s.greatest(pos) < int(extra[len(extra)-1]) {
			return proofs, w, true
		}
	}
	for i := 0; i < count; i++ {
		next.owner.UpcomingVers = append(next.owner.UpcomingVers, pos)
	}
	return proofs, next, false
}

func TestVerifC13(t *testing.T) {
	h := verifh.Start(t, "C13", 9*time.Second)
	for h.More() {
		r := h.Rand
		s := mkScene(r)
		var w watch
		if r.Intn(4) > 0 {
			w.ptrs = map[uint64]uint32{}
			for k := r.Intn(5); k > 0; k-- {
				x := uint64(r.Intn(int(s.n)))
				ver := s.greatest(x) - r.Intn(2)
				if r.Intn(12) == 0 {
					ver = r.Intn(len(s.pos) + 2)
				}
				if ver >= 0 {
					w.ptrs[x] = uint32(ver)
				}
			}
		}
		if r.Intn(4) > 0 {
			start := uint64(r.Intn(int(s.n)))
			o := &algorithms.OwnerState{Starting: start, VerAtStarting: s.greatest(start)}
			for _, p := range s.pos {
				if p > start {
					o.UpcomingVers = append(o.UpcomingVers, p)
				}
			}
			if len(o.UpcomingVers) > 0 && r.Intn(3) == 0 { // the user does not know the last ones
				o.UpcomingVers = o.UpcomingVers[:r.Intn(len(o.UpcomingVers))]
			}
			if r.Intn(10) == 0 {
				o.VerAtStarting = max(-1, o.VerAtStarting+r.Intn(3)-1)
			}
			w.owner = o
		}
		limit := -1
		if r.Intn(2) == 0 {
			limit = r.Intn(6)
		}
		start := uint64(r.Intn(int(s.n) + 1))
		if d := s.rightmost(-1); d != nil && r.Intn(2) == 0 {
			start = *d
			for k := r.Intn(4); k > 0 && s.par[start] >= 0; k-- {
				start = uint64(s.par[start])
			}
		}
		var vers []uint32
		if xs, ok := s.initEntries(start); ok {
			for _, x := range xs {
				if g := s.greatest(x); g >= 0 {
					vers = append(vers, uint32(g))
				}
			}
		}
		if r.Intn(6) == 0 {
			switch r.Intn(3) {
			case 0:
				vers = append(vers, uint32(r.Intn(3)))
			case 1:
				vers = vers[:len(vers)/2]
			default:
				if len(vers) > 0 {
					vers[r.Intn(len(vers))] += uint32(r.Intn(3)) - 1
				}
			}
		}
		pos, count := uint64(r.Intn(int(s.n)+1)), r.Intn(4)
		if w.owner != nil && r.Intn(3) > 0 {
			if k := w.owner.VerAtStarting + len(w.owner.UpcomingVers) + 1; k < len(s.pos) {
				pos, count = s.pos[k], 0
				for _, p := range s.pos[k:] {
					if p == pos {
						count++
					}
				}
			}
		}
		type op struct {
			name string
			run  func(m *algorithms.Monitor) error
			want func() ([]string, watch, bool)
			from watch
		}
		noOwner := watch{ptrs: w.ptrs}
		ops := []op{
			{"contact", func(m *algorithms.Monitor) error { return m.ContactMonitor() }, func() ([]string, watch, bool) { return s.wantContact(w) }, w},
			{fmt.Sprintf("init from %d with versions %v", start, vers), func(m *algorithms.Monitor) error {
				xs, err := m.OwnerInit(start, slices.Clone(vers))
				if want, _ := s.initEntries(start); err == nil && !slices.Equal(xs, want) {
					return fmt.Errorf("(wrong) entries %v, should be %v", xs, want)
				}
				return err
			}, func() ([]string, watch, bool) {
				proofs, next, fails := s.wantInit(start, vers)
				if fails {
					return proofs, noOwner, true
				}
				next.ptrs = w.ptrs
				return proofs, next, false
			}, noOwner},
			{fmt.Sprintf("update at %d with %d versions", pos, count), func(m *algorithms.Monitor) error { return m.Update(pos, count) }, func() ([]string, watch, bool) { return s.wantUpdate(w, pos, count) }, w},
		}
		if w.owner != nil {
			ops = append(ops, op{fmt.Sprintf("owner with at most %d ladders", limit), func(m *algorithms.Monitor) error { return m.OwnerMonitor() }, func() ([]string, watch, bool) { return s.wantOwner(w, limit) }, w})
		}
		for _, o := range ops {
			h.Run("monitor", func() string { return fmt.Sprintf("%s from %v in %v", o.name, o.from, s) }, func() error {
				attempt := func(fail int) (*handle, watch, error, error) {
					hd := newHandle(s)
					if fail >= 0 {
						hd.noFail, hd.failAt = false, fail
					}
					if limit >= 0 {
						hd.limit = limit
					}
					m, err := algorithms.NewMonitor(s.config(), s.n, providerOf(hd))
					if err != nil {
						return hd, watch{}, nil, err
					}
					o.from.into(m)
					err = o.run(m)
					return hd, stateOf(m), err, nil
				}
				hd, got, err, e2 := attempt(-1)
				if e2 != nil {
					return e2
				}
				proofs, next, fails := o.want()
				if fails != (err != nil) {
					return fmt.Errorf("the outcome is %q, should be an error: %v", errText(err), fails)
				} else if err != nil && !got.equal(o.from) {
					return fmt.Errorf("after the error %q the state is %v", err, got)
				} else if err == nil && !got.equal(next) {
					return fmt.Errorf("the state became %v, should become %v", got, next)
				} else if !slices.Equal(hd.proofs(), proofs) {
					return fmt.Errorf("the proofs consumed are %q, should be %q", hd.proofs(), proofs)
				}
				for i := range hd.calls {
					hd2, got, err, e2 := attempt(i)
					if e2 != nil {
						continue
					}
					if len(hd2.calls) > i && err == nil {
						return fmt.Errorf("succeeded although %q failed", hd.calls[i])
					} else if err != nil && !got.equal(o.from) {
						return fmt.Errorf("after a failure of %q the state is %v", hd.calls[i], got)
					}
				}
				return nil
			})
		}
	}
	h.Finish("logs of up to 40 entries with any versions, windows and lifetimes; contact, owner, initialisation and update monitoring from right and wrong states: consumed proofs, new state and errors against their definitions; every call of the proof failing in turn")
}
