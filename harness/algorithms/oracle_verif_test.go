package algorithms_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/vworld"
)

// A scene is a log as the algorithms see it, with everything about its search
// tree worked out by the definitions.
type scene struct {
	n     uint64
	ts    []uint64
	pos   []uint64 // log entry of each version
	rmw   uint64
	life  uint64
	par   []int
	left  []int
	right []int
	root  int
	dist  []bool
}

func (s *scene) String() string {
	return fmt.Sprintf("n=%d timestamps %v, versions at %v, window %d, lifetime %d", s.n, s.ts, s.pos, s.rmw, s.life)
}

// build makes the left-balanced search tree over [lo, hi).
func (s *scene) build(lo, hi, par int) int {
	if lo >= hi {
		return -1
	}
	x := lo + 1<<(bits.Len(uint(hi-lo))-1) - 1
	s.par[x] = par
	s.left[x] = s.build(lo, x, x)
	s.right[x] = s.build(x+1, hi, x)
	return x
}

func (s *scene) mark(x int, l, r uint64) {
	if x < 0 || r-l < s.rmw {
		return
	}
	s.dist[x] = true
	s.mark(s.left[x], l, s.ts[x])
	s.mark(s.right[x], s.ts[x], r)
}

func (s *scene) finish() {
	s.n = uint64(len(s.ts))
	s.par, s.left, s.right = make([]int, s.n), make([]int, s.n), make([]int, s.n)
	s.dist = make([]bool, s.n)
	s.root = s.build(0, int(s.n), -1)
	if s.n > 0 {
		s.mark(s.root, 0, s.ts[s.n-1])
	}
}

func mkScene(r *rand.Rand) *scene {
	s := &scene{rmw: uint64(1 + r.Intn(60))}
	if r.Intn(3) == 0 {
		s.life = s.rmw + 1 + uint64(r.Intn(150))
	}
	n := 1 + r.Intn(40)
	t := uint64(r.Intn(100))
	if r.Intn(3) == 0 {
		t = 1 << 50
	}
	step := 1 + r.Intn(20)
	for i := 0; i < n; i++ {
		t += uint64(r.Intn(step))
		s.ts = append(s.ts, t)
	}
	for k := r.Intn(8); k > 0; k-- {
		p := uint64(r.Intn(n))
		for j := 1 + r.Intn(3); j > 0; j-- {
			s.pos = append(s.pos, p)
		}
	}
	slices.Sort(s.pos)
	s.finish()
	return s
}

// greatest is the greatest version at entry x, or -1.
func (s *scene) greatest(x uint64) int {
	return sort.Search(len(s.pos), func(i int) bool { return s.pos[i] > x }) - 1
}

func (s *scene) expired(x uint64) bool {
	return s.life > 0 && s.ts[s.n-1]-s.ts[x] >= s.life
}

func (s *scene) config() *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{Suite: vworld.Suite{}, Mode: structs.ContactMonitoring,
		MaxAhead: 1000, MaxBehind: 1 << 62, ReasonableMonitoringWindow: s.rmw, MaximumLifetime: s.life}}
}

// distinguished entries in order, without skip.
func (s *scene) rightmost(skip int) *uint64 {
	for x := int(s.n) - 1; x >= 0; x-- {
		if s.dist[x] && x != skip {
			y := uint64(x)
			return &y
		}
	}
	return nil
}

// rightPath is the list of ancestors of x to its right, bottom up.
func (s *scene) rightPath(x uint64) (out []uint64) {
	for y := s.par[x]; y >= 0; y = s.par[y] {
		if uint64(y) > x {
			out = append(out, uint64(y))
		}
	}
	return
}

var errMock = errors.New("failure of the proof")

// A handle answers from a scene and records what it was asked.
type handle struct {
	s       *scene
	calls   []string
	failAt  int // which call fails, from 0
	noFail  bool
	limit   int // number of ladders before the stop condition
	ladders int
	// lies
	ts   map[uint64]uint64
	root map[int][]byte // per call
}

func (h *handle) note(f string, a ...any) error {
	h.calls = append(h.calls, fmt.Sprintf(f, a...))
	if !h.noFail && h.failAt == len(h.calls)-1 {
		return errMock
	}
	return nil
}

func rootOf(x uint64) []byte { return []byte(fmt.Sprintf("root %27d", x)) }

func (h *handle) theRoot(x uint64) []byte {
	if r, ok := h.root[len(h.calls)-1]; ok {
		return r
	}
	return rootOf(x)
}

func (h *handle) GetTimestamp(x uint64) (uint64, error) {
	if err := h.note("timestamp %d", x); err != nil {
		return 0, err
	}
	if x >= h.s.n {
		return 0, errors.New("the requested log entry does not exist")
	}
	if t, ok := h.ts[x]; ok {
		return t, nil
	}
	return h.s.ts[x], nil
}

func (h *handle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	h.ladders++
	if err := h.note("search %d %d %v", x, ver, omit); err != nil {
		return nil, 0, err
	}
	g := h.s.greatest(x)
	switch {
	case g < int(ver):
		return h.theRoot(x), -1, nil
	case g > int(ver):
		return h.theRoot(x), 1, nil
	}
	return h.theRoot(x), 0, nil
}

func (h *handle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	h.ladders++
	if err := h.note("monitor %d %d", x, ver); err != nil {
		return nil, err
	}
	if h.s.greatest(x) < int(ver) {
		return nil, errors.New("the version does not exist there")
	}
	return h.theRoot(x), nil
}

func (h *handle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	h.ladders++
	if err := h.note("inclusion %d %v", x, vers); err != nil {
		return nil, err
	}
	for _, v := range vers {
		if h.s.greatest(x) < int(v) {
			return nil, errors.New("the version does not exist there")
		}
	}
	return h.theRoot(x), nil
}

func (h *handle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	var out [][]byte
	for _, x := range xs {
		out = append(out, rootOf(x))
	}
	return out, h.note("roots %v", xs)
}

func (h *handle) Finish() ([][]byte, error) { return nil, errors.New("no inclusion proof") }
func (h *handle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	return nil, errors.New("no output")
}
func (h *handle) StopCondition(x uint64, ver int) bool {
	return h.limit >= 0 && h.ladders >= h.limit
}
func (h *handle) Tracker() *math.VersionTracker { return &math.VersionTracker{} }

// proofs are the calls that consume a ladder or an inclusion proof.
func (h *handle) proofs() (out []string) {
	for _, c := range h.calls {
		if !strings.HasPrefix(c, "timestamp") {
			out = append(out, c)
		}
	}
	return
}

func newHandle(s *scene) *handle { return &handle{s: s, noFail: true, limit: -1} }

func providerOf(h *handle) *algorithms.DataProvider {
	return algorithms.NewDataProvider(vworld.Suite{}, h)
}

// wantGreatest is the outcome of a search for the greatest version ver: the
// proofs it needs and the entry or error it ends with.
func (s *scene) wantGreatest(ver uint32) (proofs []string, entry uint64, err string) {
	x := s.root
	if r := s.rightmost(-1); r != nil {
		x = int(*r)
	}
	found := false
	for {
		proofs = append(proofs, fmt.Sprintf("search %d %d true", x, ver))
		g := s.greatest(uint64(x))
		if g > int(ver) {
			return proofs, 0, "log entry not consistent with claimed greatest version of label"
		}
		if g == int(ver) && !found {
			entry, found = uint64(x), true
		}
		if x == int(s.n)-1 {
			break
		}
		x = s.right[x]
	}
	switch g := s.greatest(s.n - 1); {
	case g == int(ver):
		return proofs, entry, ""
	case g < 0 && ver == 0:
		return proofs, 0, algorithms.ErrLabelNotFound.Error()
	}
	return proofs, 0, "rightmost log entry not consistent with claimed greatest version of label"
}

// wantFixed is the same for a search of a fixed version.
func (s *scene) wantFixed(ver uint32) (proofs []string, entry uint64, err string) {
	var seen []int // distinguished unexpired entries on the path
	expired := false
	best := -1
	for x := s.root; x >= 0; {
		if s.expired(uint64(x)) {
			expired = true
			x = s.right[x]
			continue
		}
		if s.dist[x] {
			seen = append(seen, x)
		}
		proofs = append(proofs, fmt.Sprintf("search %d %d true", x, ver))
		g := s.greatest(uint64(x))
		if g == int(ver) {
			if expired && !slices.ContainsFunc(seen, func(y int) bool { return y <= x }) {
				return proofs, 0, algorithms.ErrLabelExpired.Error()
			}
			return proofs, uint64(x), ""
		} else if g < int(ver) {
			x = s.right[x]
		} else {
			if best < 0 || x < best {
				best = x
			}
			x = s.left[x]
		}
	}
	if best < 0 {
		return proofs, 0, algorithms.ErrLabelNotFound.Error()
	}
	if expired && !slices.ContainsFunc(seen, func(y int) bool { return y < best }) {
		return proofs, 0, algorithms.ErrLabelExpired.Error()
	}
	return append(proofs, fmt.Sprintf("inclusion %d [%d]", best, ver)), uint64(best), ""
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func fmtPtr(p *uint64) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

var _ = bytes.Equal
