package log

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/verifh"
)

func TestVerifC15Chunks(t *testing.T) {
	h := verifh.Start(t, "C15", 2*time.Second)
	defer h.Finish("random bytes decoded as a chunk of the log")
	cs := suites.KTSha256P256{}
	for h.More() && !h.Failed() {
		n := h.Rand.Intn(330)
		if h.Rand.Intn(2) == 0 {
			n = 32 * h.Rand.Intn(11)
		}
		raw := make([]byte, n)
		h.Rand.Read(raw)
		id := uint64(7)
		if h.Rand.Intn(2) == 0 {
			id = 127
		}
		h.Run("chunk", func() string { return fmt.Sprintf("chunk %d, %d bytes", id, n) }, func() error {
			c, err := newChunk(cs, id, append([]byte{}, raw...))
			if ok := n%32 == 0 && n <= 256; ok != (err == nil) {
				return fmt.Errorf("unexpected result: %v", err)
			}
			if err == nil && !bytes.Equal(c.marshal(), raw) {
				return errors.New("the chunk re-encodes to other bytes")
			}
			return nil
		})
	}
}
