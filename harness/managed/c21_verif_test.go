package managed_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"github.com/Bren2010/katie/verifh"
	"github.com/Bren2010/katie/vworld"
)

// manager stands in for the third-party manager: it records what it is given.
type manager struct {
	wire.ManagerInterface
	mu   sync.Mutex
	reqs []*structs.ManagerUpdateRequest
	fail bool
}

func (m *manager) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reqs = append(m.reqs, req)
	if m.fail {
		return nil, errors.New("the manager is down")
	}
	ch := make(chan wire.UpdateResponse)
	close(ch)
	return ch, nil
}

// counters is a correct version store.
type counters struct {
	mu   sync.Mutex
	next map[string]int
	fail bool
}

func (c *counters) IncrementGreatestVersion(label []byte, count int) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		return 0, errors.New("storage failure")
	}
	n := c.next[string(label)]
	c.next[string(label)] = n + count
	return n - 1, nil
}

func TestVerifC21(t *testing.T) {
	h := verifh.Start(t, "C21", 5*time.Second)
	r := h.Rand
	for h.More() && !h.Failed() {
		key := vworld.Key(fmt.Sprint("leaf", r.Int63()))
		cfg := &structs.PublicConfig{SignatureKey: vworld.PubKey("s"), VrfKey: vworld.VrfPub("v"), Config: structs.Config{
			Suite: vworld.Suite{}, Mode: structs.ThirdPartyManagement, LeafPublicKey: key.Public(), MaxAhead: 1, MaxBehind: 1, ReasonableMonitoringWindow: 1,
		}}
		mgr := &manager{}
		own := &counters{next: map[string]int{}}
		var st db.ManagedLogStore = own
		inMemory := r.Intn(2) == 0
		if inMemory {
			st = memory.NewManagedLogStore()
		}
		ml, err := managed.NewManagedLog(cfg, mgr, st, key)
		if err != nil {
			h.Fail("new", "", "%v", err)
			break
		}
		labels := [][]byte{{}, {0}, {1}, {0x10}, {0, 0}, []byte("label")}
		limit := map[string]bool{}
		if !inMemory && r.Intn(4) == 0 { // close to the last version
			l := labels[r.Intn(len(labels))]
			own.next[string(l)] = 1<<32 - 1 - r.Intn(6)
			limit[string(l)] = true
		} else if !inMemory { // a long history
			l := labels[r.Intn(len(labels))]
			own.next[string(l)] = max(0, 1<<r.Intn(31)-r.Intn(4))
		}
		next := map[string]int{}
		for k, v := range own.next {
			next[k] = v
		}
		var trace []string
		check := func(req *structs.ManagerUpdateRequest, label []byte, vals [][]byte, first int) error {
			if !bytes.Equal(req.Label, label) || len(req.Values) != len(vals) {
				return fmt.Errorf("the manager received label %x with %d values", req.Label, len(req.Values))
			}
			if len(vals) > 0 && int64(req.SignedVersion) != int64(first) {
				return fmt.Errorf("the manager was told version %d, the first signed one is %d", req.SignedVersion, first)
			}
			for i, v := range req.Values {
				if !bytes.Equal(v.Value, vals[i]) {
					return fmt.Errorf("value %d became %x", i, v.Value)
				}
				tbs, err := structs.Marshal(&structs.UpdateTBS{Config: cfg, Label: label, Version: uint32(first + i), Value: vals[i]})
				if err != nil {
					return err
				}
				if !key.Public().Verify(tbs, v.Signature) {
					return fmt.Errorf("the signature of value %d does not cover the label, version %d and the value", i, first+i)
				}
			}
			return nil
		}
		for i := 0; i < 1+r.Intn(25); i++ {
			label := labels[r.Intn(len(labels))]
			vals := make([][]byte, r.Intn(4))
			if r.Intn(60) == 0 {
				vals = make([][]byte, r.Intn(700))
			}
			req := &structs.UpdateRequest{Label: slices.Clone(label)}
			if r.Intn(2) == 0 {
				x := uint64(r.Intn(100))
				req.Last = &x
			}
			if r.Intn(2) == 0 {
				x := uint32(r.Intn(100))
				req.GreatestVersion = &x
			}
			for j := range vals {
				vals[j] = make([]byte, r.Intn(5))
				if r.Intn(60) == 0 {
					vals[j] = make([]byte, r.Intn(70000))
				}
				r.Read(vals[j])
				req.Values = append(req.Values, structs.LabelValue{Value: slices.Clone(vals[j])})
			}
			own.fail = r.Intn(8) == 0
			mgr.fail = r.Intn(8) == 0
			trace = append(trace, fmt.Sprintf("update %x with %d values (store fails: %v, manager fails: %v)", label, len(vals), own.fail && !inMemory, mgr.fail))
			ok := h.Run("update", func() string { return fmt.Sprintf("in memory: %v, next versions %v: %v", inMemory, own.next, trace) }, func() error {
				before := len(mgr.reqs)
				ch, err := ml.Update(context.Background(), req)
				first := next[string(label)]
				if own.fail && !inMemory {
					if err == nil || len(mgr.reqs) != before {
						return errors.New("values were submitted without version numbers")
					}
					return nil
				}
				next[string(label)] += len(vals)
				if first+len(vals) > 1<<32-1 { // versions 0 to 2^32-2
					if first+len(vals) > 1<<32 && (err == nil || len(mgr.reqs) != before) {
						return errors.New("more versions were signed than exist")
					} else if err != nil && len(mgr.reqs) == before {
						return nil
					}
				}
				if (err != nil) != mgr.fail || err == nil && ch == nil {
					return fmt.Errorf("update returned %v", err)
				}
				if len(mgr.reqs) != before+1 {
					return fmt.Errorf("%d requests reached the manager", len(mgr.reqs)-before)
				}
				got := mgr.reqs[before]
				if fmt.Sprint(got.Last == nil, got.GreatestVersion == nil) != fmt.Sprint(req.Last == nil, req.GreatestVersion == nil) ||
					got.Last != nil && *got.Last != *req.Last || got.GreatestVersion != nil && *got.GreatestVersion != *req.GreatestVersion {
					return errors.New("the request was changed on its way to the manager")
				}
				return check(got, label, vals, first)
			})
			if !ok {
				break
			}
		}
		// Many updates at once.
		if inMemory || len(limit) > 0 {
			continue
		}
		own.fail, mgr.fail = false, false
		label := labels[r.Intn(len(labels))]
		first, before := own.next[string(label)], len(mgr.reqs)
		n := 2 + r.Intn(10)
		h.Run("concurrent", func() string { return fmt.Sprintf("%d concurrent updates of %x from version %d", n, label, first) }, func() error {
			var wg sync.WaitGroup
			total := 0
			for i := 0; i < n; i++ {
				c := 1 + r.Intn(3)
				total += c
				wg.Add(1)
				go func() {
					defer wg.Done()
					req := &structs.UpdateRequest{Label: slices.Clone(label)}
					for j := 0; j < c; j++ {
						req.Values = append(req.Values, structs.LabelValue{Value: []byte(fmt.Sprint(i, j))})
					}
					ml.Update(context.Background(), req)
				}()
			}
			wg.Wait()
			reqs := slices.Clone(mgr.reqs[before:])
			slices.SortFunc(reqs, func(a, b *structs.ManagerUpdateRequest) int { return int(a.SignedVersion) - int(b.SignedVersion) })
			at := first
			for _, q := range reqs {
				var vals [][]byte
				for _, v := range q.Values {
					vals = append(vals, v.Value)
				}
				if err := check(q, label, vals, at); err != nil {
					return err
				}
				at += len(vals)
			}
			if at != first+total {
				return fmt.Errorf("%d versions were signed, %d submitted", at-first, total)
			}
			return nil
		})
	}
	h.Finish("sequences and concurrent groups of updates with 0 to 3 and up to 700 values for look-alike labels, failing storage and manager, version counters near their end: versions announced and covered by each signature")
}
