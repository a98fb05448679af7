package algorithms_test

import (
	"errors"
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/verifh"
)

// Searches against their definition, and with every call of the proof failing
// in turn.
func TestVerifC12(t *testing.T) {
	h := verifh.Start(t, "C12", 7*time.Second)
	for h.More() {
		s := mkScene(h.Rand)
		ver := uint32(h.Rand.Intn(len(s.pos) + 2))
		if g := s.greatest(s.n - 1); g >= 0 && h.Rand.Intn(2) == 0 {
			ver = uint32(g)
		}
		for _, kind := range []string{"greatest", "fixed"} {
			h.Run(kind, func() string { return fmt.Sprintf("%s version %d: %v", kind, ver, s) }, func() error {
				run, want := algorithms.GreatestVersionSearch, s.wantGreatest
				if kind == "fixed" {
					run, want = algorithms.FixedVersionSearch, s.wantFixed
				}
				proofs, entry, werr := want(ver)
				hd := newHandle(s)
				got, err := run(s.config(), ver, s.n, providerOf(hd))
				if errText(err) != werr {
					return fmt.Errorf("the search ended with %q, should with %q", errText(err), werr)
				} else if err == nil && got != entry {
					return fmt.Errorf("the search ended at entry %d, should at %d", got, entry)
				} else if !slices.Equal(hd.proofs(), proofs) {
					return fmt.Errorf("the search consumed the proofs %q, should %q", hd.proofs(), proofs)
				}
				if kind == "greatest" && (err == nil) != (s.greatest(s.n-1) == int(ver)) {
					return errors.New("success does not mean that the version is the greatest")
				}
				for i := range hd.calls {
					hd2 := newHandle(s)
					hd2.noFail, hd2.failAt = false, i
					got, err := run(s.config(), ver, s.n, providerOf(hd2))
					if err == nil {
						return fmt.Errorf("the search succeeded with entry %d although %q failed", got, hd.calls[i])
					} else if err == algorithms.ErrLabelNotFound || err == algorithms.ErrLabelExpired {
						return fmt.Errorf("the search says %q although %q failed", err, hd.calls[i])
					}
				}
				return nil
			})
		}
	}
	h.Finish("logs of up to 40 entries with any versions, windows and lifetimes: result, error and consumed proofs of both searches against their definitions; every call of the proof failing in turn")
}
