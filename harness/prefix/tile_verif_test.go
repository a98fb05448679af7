package prefix

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/verifh"
)

func vnode(r *rand.Rand, depth, budget int) node {
	b := func() []byte { x := make([]byte, 32); r.Read(x); return x }
	k := r.Intn(6)
	if budget <= 0 && k >= 3 {
		k = r.Intn(3)
	}
	switch k {
	case 0:
		return emptyNode{}
	case 1:
		return leafNode{b(), b()}
	case 2:
		return externalNode{b(), tileId{r.Uint64() >> r.Intn(64), r.Uint64() >> r.Intn(64)}}
	}
	l := r.Intn(budget + 1)
	return &parentNode{left: vnode(r, depth+1, l-1), right: vnode(r, depth+1, budget-l-1)}
}

func same(a, b node) bool {
	switch a := a.(type) {
	case emptyNode:
		_, ok := b.(emptyNode)
		return ok
	case leafNode:
		x, ok := b.(leafNode)
		return ok && bytes.Equal(a.vrfOutput, x.vrfOutput) && bytes.Equal(a.commitment, x.commitment)
	case externalNode:
		x, ok := b.(externalNode)
		return ok && bytes.Equal(a.hash, x.hash) && a.id == x.id
	case *parentNode:
		x, ok := b.(*parentNode)
		return ok && same(a.left, x.left) && same(a.right, x.right)
	}
	return false
}

func TestVerifC06Tiles(t *testing.T) {
	h := verifh.Start(t, "C06", 3*time.Second)
	defer h.Finish("random tiles encoded and decoded")
	cs := suites.KTSha256P256{}
	for h.More() && !h.Failed() {
		r := h.Rand
		depth := r.Intn(200)
		root := vnode(r, depth, r.Intn(40))
		id := tileId{r.Uint64() >> r.Intn(64), r.Uint64() >> r.Intn(64)}
		h.Run("tile", func() string { return fmt.Sprintf("depth %d id %v root %v", depth, id, root) }, func() error {
			tl := tile{id: id, depth: depth, root: root}
			raw, err := tl.Marshal(cs)
			if err != nil {
				return err
			}
			got, err := unmarshalTile(cs, id, raw)
			if err != nil {
				return err
			}
			if got.id != id || got.depth != depth || !same(root, got.root) {
				return errors.New("decoded tile differs")
			}
			if !bytes.Equal(root.Hash(cs), got.root.Hash(cs)) {
				return errors.New("hash of decoded tile differs")
			}
			raw2, err := got.Marshal(cs)
			if err != nil || !bytes.Equal(raw, raw2) {
				return errors.New("re-encoded tile differs")
			}
			if _, err := unmarshalTile(cs, id, append(raw, 0)); err == nil {
				return errors.New("trailing data accepted")
			}
			return nil
		})
	}
}

func TestVerifC15Tiles(t *testing.T) {
	h := verifh.Start(t, "C15", 3*time.Second)
	defer h.Finish("random, mutated and truncated storage tiles decoded")
	cs := suites.KTSha256P256{}
	one := func(raw []byte) {
		h.Run("tile", func() string {
			if len(raw) > 400 {
				return fmt.Sprintf("%d bytes, %x...", len(raw), raw[:400])
			}
			return fmt.Sprintf("%x", raw)
		}, func() error {
			tl, err := unmarshalTile(cs, tileId{1, 2}, raw)
			if err != nil {
				return nil
			}
			out, err := tl.Marshal(cs)
			if err != nil {
				return fmt.Errorf("accepted but cannot be encoded: %v", err)
			}
			again, err := unmarshalTile(cs, tileId{1, 2}, out)
			if err != nil || again.depth != tl.depth || !same(tl.root, again.root) {
				return errors.New("accepted bytes re-encode to a different tile")
			}
			return nil
		})
	}
	// millions of nested nodes
	deep := bytes.Repeat([]byte{parentNodeType, 0}, 1<<23)
	for i := range deep {
		deep[i] = parentNodeType
	}
	for _, d := range []byte{0, 1, 254, 255} {
		deep[0] = d
		one(append([]byte{}, deep...))
	}
	for h.More() && !h.Failed() {
		r := h.Rand
		var raw []byte
		if r.Intn(3) == 0 {
			raw = make([]byte, r.Intn(200))
			r.Read(raw)
			for i := range raw {
				if r.Intn(2) == 0 {
					raw[i] = byte(r.Intn(6))
				}
			}
		} else {
			depth := r.Intn(250)
			tl := tile{id: tileId{1, 2}, depth: depth, root: vnode(r, depth, r.Intn(20))}
			raw, _ = tl.Marshal(cs)
			for range r.Intn(4) {
				i := r.Intn(len(raw) + 1)
				if i == len(raw) {
					raw = append(raw, byte(r.Intn(256)))
				} else if r.Intn(3) == 0 {
					raw = raw[:i]
				} else if r.Intn(2) == 0 {
					raw[i] = byte(r.Intn(5))
				} else {
					raw[i] = byte(r.Intn(256))
				}
			}
		}
		one(raw)
	}
}
