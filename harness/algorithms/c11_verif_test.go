package algorithms_test

import (
	"bytes"
	"fmt"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
)

func naiveFrontier(s *scene) (out []uint64) {
	for x := s.root; ; x = s.right[x] {
		out = append(out, uint64(x))
		if x == int(s.n)-1 {
			return
		}
	}
}

// The data provider accepts exactly what is consistent.
func TestVerifC11(t *testing.T) {
	h := verifh.Start(t, "C11", 6*time.Second)
	for h.More() {
		r := h.Rand
		s := mkScene(r)
		h.Run("distinguished", func() string { return s.String() }, func() error {
			for _, prev := range []bool{false, true} {
				f, want := algorithms.RightmostDistinguished, s.rightmost(-1)
				if prev {
					f, want = algorithms.PreviousRightmost, s.rightmost(int(s.n)-1)
				}
				hd := newHandle(s)
				got, err := f(s.config(), s.n, providerOf(hd))
				if err != nil {
					return err
				} else if fmtPtr(got) != fmtPtr(want) {
					return fmt.Errorf("rightmost distinguished entry (previous: %v) is %s, should be %s", prev, fmtPtr(got), fmtPtr(want))
				}
				for i := range hd.calls {
					hd2 := newHandle(s)
					hd2.noFail, hd2.failAt = false, i
					if got, err := f(s.config(), s.n, providerOf(hd2)); err == nil {
						return fmt.Errorf("returned %s although %q failed", fmtPtr(got), hd.calls[i])
					}
				}
			}
			return nil
		})
		// Any sequence of questions about a log that may contradict itself.
		ops := make([]int, 1+r.Intn(10))
		at := make([]uint64, len(ops))
		lieTS := map[uint64]uint64{}
		lieRoot := map[int][]byte{}
		for i := range ops {
			ops[i], at[i] = r.Intn(4), uint64(r.Intn(int(s.n)))
		}
		for k := r.Intn(3); k > 0; k-- {
			lieTS[uint64(r.Intn(int(s.n)))] = s.ts[r.Intn(int(s.n))] + uint64(r.Intn(3)) - 1
		}
		for k := r.Intn(3); k > 0; k-- {
			lieRoot[r.Intn(2*len(ops))] = rootOf(uint64(r.Intn(int(s.n))))
		}
		retain := map[uint64]structs.LogEntry{}
		for k := r.Intn(4); k > 0; k-- {
			x := uint64(r.Intn(int(s.n)))
			e := structs.LogEntry{Timestamp: s.ts[x], PrefixTree: rootOf(x)}
			if r.Intn(8) == 0 {
				e.Timestamp += uint64(r.Intn(20))
			}
			retain[x] = e
		}
		h.Run("provider", func() string {
			return fmt.Sprintf("%v, operations %v at %v, timestamps instead %v, roots instead %v, retained %v", s, ops, at, lieTS, lieRoot, retain)
		}, func() error {
			hd := newHandle(s)
			hd.ts, hd.root = lieTS, lieRoot
			dp := providerOf(hd)
			ts := map[uint64]uint64{}
			roots := map[uint64][]byte{}
			bad := func() string {
				for x, a := range ts {
					for y, b := range ts {
						if x < y && a > b {
							return fmt.Sprintf("entry %d has timestamp %d and entry %d has %d", x, a, y, b)
						}
					}
				}
				return ""
			}
			for x, e := range retain {
				ts[x], roots[x] = e.Timestamp, e.PrefixTree
			}
			err := dp.AddRetained(nil, retain)
			if (err == nil) != (bad() == "") {
				return fmt.Errorf("retained entries: error %v, although %s", err, bad())
			} else if err != nil {
				return nil
			}
			for i, op := range ops {
				x := at[i]
				calls := len(hd.calls)
				var err error
				var got uint64
				switch op {
				case 0:
					got, err = dp.GetTimestamp(x)
				case 1:
					_, err = dp.GetSearchBinaryLadder(x, 0, false)
				case 2:
					// Version 0 may be missing there.
					err = dp.GetMonitoringBinaryLadder(x, 0)
				case 3:
					err = dp.GetInclusionProof(x, []uint32{0})
				}
				t := s.ts[x]
				if l, ok := lieTS[x]; ok {
					t = l
				}
				conflict := ""
				if _, ok := ts[x]; !ok {
					ts[x] = t
					conflict = bad()
				}
				missing := false
				if conflict == "" && op > 0 {
					rt := rootOf(x)
					// Timestamps are asked for first.
					if l, ok := lieRoot[len(hd.calls)-1]; ok {
						rt = l
					}
					missing = op > 1 && s.greatest(x) < 0
					if old, ok := roots[x]; ok && !bytes.Equal(old, rt) {
						conflict = fmt.Sprintf("entry %d has the roots %q and %q", x, old, rt)
					} else if !missing {
						roots[x] = rt
					}
				}
				if (err == nil) != (conflict == "" && !missing) {
					return fmt.Errorf("operation %d: error %v, although %s", i, err, conflict)
				} else if err != nil {
					return nil
				}
				if op == 0 && got != ts[x] {
					return fmt.Errorf("operation %d: timestamp of entry %d is %d, should be %d", i, x, got, ts[x])
				}
				_ = calls
			}
			return nil
		})
		// View updates: which timestamps are asked for and the clock window.
		m := uint64(r.Intn(int(s.n) + 2))
		first := r.Intn(3) == 0
		off := []int64{0, 1, -1, 7, -7, 1 << 40, -(1 << 40)}[r.Intn(7)]
		side := r.Intn(3)
		cfg := s.config()
		cfg.MaxAhead, cfg.MaxBehind = uint64(r.Intn(50)), uint64(r.Intn(50))
		h.Run("view", func() string {
			return fmt.Sprintf("%v, previous size %d (none: %v), clock offset %d from limit %d, ahead %d behind %d", s, m, first, off, side, cfg.MaxAhead, cfg.MaxBehind)
		}, func() error {
			var out error
			synctest.Test(t, func(t *testing.T) {
				defer func() {
					if e := recover(); e != nil {
						out = fmt.Errorf("panic: %v", e)
					}
				}()
				s := *s
				s.ts = slices.Clone(s.ts)
				now := time.Now().UnixMilli()
				var last int64
				switch side {
				case 0:
					last = now + int64(cfg.MaxAhead) + off
				case 1:
					last = now - int64(cfg.MaxBehind) + off
				default:
					last = now + off
				}
				if last < 0 {
					last = 0
				}
				s.ts[s.n-1] = uint64(last)
				for i := range s.ts {
					s.ts[i] = min(s.ts[i], uint64(last))
				}
				s.finish()
				hd := newHandle(&s)
				dp := providerOf(hd)
				var mp *uint64
				if !first {
					mp = &m
					if m > 0 && m <= s.n {
						o := s
						o.ts = s.ts[:m]
						o.finish()
						es := map[uint64]structs.LogEntry{}
						for _, x := range naiveFrontier(&o) {
							es[x] = structs.LogEntry{Timestamp: s.ts[x], PrefixTree: rootOf(x)}
						}
						if out = dp.AddRetained(nil, es); out != nil {
							return
						}
					}
				}
				err := algorithms.UpdateView(cfg, s.n, mp, dp)
				ok := last <= now+int64(cfg.MaxAhead) && last >= now-int64(cfg.MaxBehind) && (first || m <= s.n)
				if (err == nil) != ok {
					out = fmt.Errorf("view update: error %v at clock %d with rightmost timestamp %d", err, now, last)
					return
				}
				if err != nil {
					return
				}
				for i := range hd.calls {
					hd2 := newHandle(&s)
					hd2.noFail, hd2.failAt = false, i
					dp2 := providerOf(hd2)
					if first || m == 0 {
						if err := algorithms.UpdateView(cfg, s.n, mp, dp2); err == nil {
							out = fmt.Errorf("view update succeeded although %q failed", hd.calls[i])
							return
						}
					}
				}
				// The whole frontier is known now.
				hd.noFail, hd.failAt = false, len(hd.calls)
				for _, x := range naiveFrontier(&s) {
					if _, err := dp.GetTimestamp(x); err != nil {
						out = fmt.Errorf("frontier entry %d is not known after the view update", x)
						return
					}
				}
			})
			return out
		})
	}
	h.Finish("logs of up to 40 entries: distinguished entries against their definition, sequences of up to 10 questions to a data provider whose proof and retained entries may contradict each other, view updates around the limits of the clock window")
}
