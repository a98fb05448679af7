package suites_test

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"slices"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/crypto/vrf/edwards25519"
	"github.com/Bren2010/katie/crypto/vrf/p256"
	"github.com/Bren2010/katie/verifh"
)

type variant struct {
	name  string
	cs    suites.CipherSuite
	gamma int
	order *big.Int
	le    bool
	gen   func() []byte
}

func number(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 16)
	return n
}

var variants = []variant{
	{"p256", suites.KTSha256P256{}, 33, number("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), false, p256.GeneratePrivateKey},
	{"edwards25519", suites.KTSha256Ed25519{}, 32, number("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"), true, edwards25519.GeneratePrivateKey},
}

func rev(b []byte) []byte {
	b = slices.Clone(b)
	slices.Reverse(b)
	return b
}

func (v variant) num(b []byte) *big.Int {
	if v.le {
		b = rev(b)
	}
	return new(big.Int).SetBytes(b)
}

func (v variant) enc(n *big.Int) []byte {
	if n.BitLen() > 256 {
		return nil
	}
	out := n.FillBytes(make([]byte, 32))
	if v.le {
		out = rev(out)
	}
	return out
}

// Encodings of the points of small order, canonical and not.
var smallOrder = []string{
	"0100000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000080",
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0000000000000000000000000000000000000000000000000000000000000080",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
}

func TestVerifC20(t *testing.T) {
	h := verifh.Start(t, "C20", 10*time.Second)
	r := h.Rand
	rb := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	for _, s := range smallOrder {
		raw, _ := hex.DecodeString(s)
		h.Run("small-order", func() string { return s }, func() error {
			if _, err := edwards25519.NewPublicKey(raw); err == nil {
				return errors.New("a public key of small order was accepted")
			}
			return nil
		})
	}
	h.Run("infinity", func() string { return "00" }, func() error {
		if _, err := p256.NewPublicKey([]byte{0}); err == nil {
			return errors.New("the point at infinity was accepted as public key")
		}
		return nil
	})
	for h.More() && !h.Failed() {
		v := variants[r.Intn(2)]
		seed := v.gen()
		if r.Intn(4) == 0 && !v.le { // extreme keys
			k := big.NewInt(int64(1 + r.Intn(3)))
			if r.Intn(2) == 0 {
				k.Sub(v.order, k)
			}
			seed = v.enc(k)
		}
		var priv vrf.PrivateKey
		if !h.Run(v.name+"/key", func() string { return fmt.Sprintf("%x", seed) }, func() (err error) {
			priv, err = v.cs.ParseVRFPrivateKey(seed)
			return
		}) {
			break
		}
		pub := priv.PublicKey()
		pub2, err := v.cs.ParseVRFPublicKey(pub.Bytes())
		if err != nil || !bytes.Equal(pub.Bytes(), pub2.Bytes()) {
			h.Fail(v.name+"/key", fmt.Sprintf("%x", seed), "the encoded public key does not decode: %v", err)
			break
		}
		other, err := v.cs.ParseVRFPrivateKey(v.gen())
		if err != nil {
			h.Fail(v.name+"/key", "", "%v", err)
			break
		}
		for k := 0; k < 4; k++ {
			m := rb(r.Intn(80))
			in := func() string { return fmt.Sprintf("%s key %x message %x", v.name, seed, m) }
			var out, proof []byte
			ok := h.Run(v.name, in, func() error {
				m2 := slices.Clone(m)
				out, proof = priv.Prove(m)
				if !bytes.Equal(m, m2) {
					return errors.New("the message was changed")
				}
				if len(proof) != v.cs.VrfProofSize() || len(out) != v.cs.HashSize() {
					return fmt.Errorf("proof and output have %d and %d bytes", len(proof), len(out))
				}
				for _, p := range []vrf.PublicKey{pub, pub2} {
					got, err := p.Verify(m, proof)
					if err != nil {
						return fmt.Errorf("the proof does not verify: %v", err)
					} else if !bytes.Equal(got, out) {
						return fmt.Errorf("verification yields %x, proving yielded %x", got, out)
					}
				}
				if o2, _ := priv.Prove(m); !bytes.Equal(o2, out) {
					return errors.New("proving again yields another output")
				}
				if o3, _ := other.Prove(m); bytes.Equal(o3, out) {
					return errors.New("another key has the same output")
				}
				return nil
			})
			if !ok {
				break
			}
			reject := func(what string, p vrf.PublicKey, m, proof []byte) {
				h.Run(v.name+"/reject", func() string { return fmt.Sprintf("%s; %s: message %x proof %x", in(), what, m, proof) }, func() error {
					if o, err := p.Verify(m, proof); err == nil {
						return fmt.Errorf("accepted, with output %x", o)
					}
					return nil
				})
			}
			reject("another key", other.PublicKey(), m, proof)
			m2 := slices.Clone(m)
			switch {
			case len(m) == 0 || r.Intn(3) == 0:
				m2 = append(m2, byte(r.Intn(256)))
			case r.Intn(2) == 0:
				m2 = m2[:len(m2)-1]
			default:
				m2[r.Intn(len(m2))] ^= byte(1 << r.Intn(8))
			}
			reject("another message", pub, m2, proof)
			for j := 0; j < 5; j++ {
				bad := slices.Clone(proof)
				bit := r.Intn(8 * len(bad))
				bad[bit/8] ^= 1 << (bit % 8)
				reject(fmt.Sprintf("bit %d altered", bit), pub, m, bad)
			}
			reject("shortened", pub, m, proof[:r.Intn(len(proof))])
			reject("lengthened", pub, m, append(slices.Clone(proof), rb(1+r.Intn(3))...))
			reject("lengthened with zeros", pub, m, append(slices.Clone(proof), make([]byte, 1+r.Intn(33))...))
			reject("zero before the scalar", pub, m, slices.Concat(proof[:v.gamma+16], []byte{0}, proof[v.gamma+16:]))
			reject("random", pub, m, rb(len(proof)))
			part := func(g, c, s []byte) []byte { return slices.Concat(g, c, s) }
			g, c, s := proof[:v.gamma], proof[v.gamma:v.gamma+16], proof[v.gamma+16:]
			sn := v.num(s)
			for _, d := range []*big.Int{v.order, new(big.Int).Neg(v.order), new(big.Int).Lsh(v.order, 1), new(big.Int).Neg(new(big.Int).Lsh(sn, 1))} {
				n := new(big.Int).Add(sn, d)
				if n.Sign() < 0 && d.CmpAbs(v.order) > 0 {
					n.Add(n, v.order)
				}
				if e := v.enc(new(big.Int).Abs(n)); e != nil && !bytes.Equal(e, s) {
					reject("another scalar", pub, m, part(g, c, e))
				}
			}
			for _, n := range []*big.Int{new(big.Int), v.order, new(big.Int).Sub(v.order, big.NewInt(1)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))} {
				reject("extreme scalar", pub, m, part(g, c, v.enc(n)))
			}
			for _, b := range []byte{0, 1, 0xff} {
				reject("constant point", pub, m, part(bytes.Repeat([]byte{b}, v.gamma), c, s))
				reject("constant challenge", pub, m, part(g, bytes.Repeat([]byte{b}, 16), s))
			}
			if v.le {
				raw, _ := hex.DecodeString(smallOrder[r.Intn(len(smallOrder))])
				reject("point of small order", pub, m, part(raw, c, s))
				reject("point of small order and zeros", pub, m, part(raw, make([]byte, 16), make([]byte, 32)))
			} else {
				bad := slices.Clone(g)
				bad[0] ^= 1
				reject("negated point", pub, m, part(bad, c, s))
				bad[0] = byte(r.Intn(256))
				if !bytes.Equal(bad, g) {
					reject("other point format", pub, m, part(bad, c, s))
				}
			}
			_, p2 := other.Prove(m)
			reject("proof of another key", pub, m, p2)
			_, p3 := priv.Prove(m2)
			reject("proof of another message", pub, m, p3)
			reject("mixed proofs", pub, m, part(g, c, p3[v.gamma+16:]))
		}
		// malformed keys
		raw := rb(r.Intn(70))
		h.Run(v.name+"/raw", func() string { return fmt.Sprintf("key %x", raw) }, func() error {
			if p, err := v.cs.ParseVRFPublicKey(raw); err == nil {
				p.Bytes()
				if _, err := p.Verify([]byte("m"), rb(v.cs.VrfProofSize())); err == nil {
					return errors.New("a random proof was accepted")
				}
			}
			if len(raw) != 32 {
				if _, err := v.cs.ParseVRFPrivateKey(raw); err == nil {
					return errors.New("a private key of the wrong length was accepted")
				}
			}
			return nil
		})
		if !v.le {
			for _, n := range []*big.Int{new(big.Int), v.order, new(big.Int).Add(v.order, big.NewInt(1+int64(r.Intn(100))))} {
				h.Run(v.name+"/raw", func() string { return fmt.Sprintf("private key %x", n) }, func() error {
					if _, err := v.cs.ParseVRFPrivateKey(v.enc(n)); err == nil {
						return errors.New("a private key that is no scalar was accepted")
					}
					return nil
				})
			}
		}
		// commitments
		for k := 0; k < 20; k++ {
			opening, body := rb(v.cs.CommitmentOpeningSize()), rb(r.Intn(100))
			h.Run("commitment", func() string { return fmt.Sprintf("opening %x body %x", opening, body) }, func() error {
				c := commitments.Commit(v.cs, opening, body)
				if len(c) != v.cs.HashSize() || !bytes.Equal(c, commitments.Commit(v.cs, opening, body)) {
					return errors.New("the commitment is malformed or not reproducible")
				}
				if !commitments.Verify(v.cs, opening, body, c) {
					return errors.New("the commitment is not accepted")
				}
				flip := func(b []byte) []byte {
					b = slices.Clone(b)
					b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
					return b
				}
				for _, bad := range [][]byte{flip(c), c[:r.Intn(len(c))], append(slices.Clone(c), byte(r.Intn(256))), nil, rb(len(c))} {
					if commitments.Verify(v.cs, opening, body, bad) {
						return fmt.Errorf("the commitment %x is accepted, the right one is %x", bad, c)
					}
				}
				if commitments.Verify(v.cs, flip(opening), body, c) {
					return errors.New("accepted with another opening")
				}
				bodies := [][]byte{append(slices.Clone(body), 0), append([]byte{0}, body...), rb(len(body) + 1)}
				if len(body) > 0 {
					bodies = append(bodies, flip(body), body[:len(body)-1], body[1:])
				}
				for _, b := range bodies {
					if !bytes.Equal(b, body) && commitments.Verify(v.cs, opening, b, c) {
						return fmt.Errorf("accepted for the value %x", b)
					}
				}
				if o := commitments.GenerateOpening(v.cs); len(o) != v.cs.CommitmentOpeningSize() || bytes.Equal(o, commitments.GenerateOpening(v.cs)) {
					return errors.New("openings are not fresh")
				}
				return nil
			})
		}
	}
	h.Finish("random and extreme keys and messages of both VRFs; every part of the proof altered, exchanged or made extreme, scalars shifted by the group order; commitments with opening, value and commitment altered")
}

// Signatures of both suites, which the tree heads rest on.
func TestVerifC20Sign(t *testing.T) {
	h := verifh.Start(t, "C20", 3*time.Second)
	r := h.Rand
	rb := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	for h.More() && !h.Failed() {
		v := variants[r.Intn(2)]
		priv, err := v.cs.ParseSigningPrivateKey(v.gen())
		if err != nil {
			h.Fail("sign/key", "", "%v", err)
			break
		}
		o, _ := v.cs.ParseSigningPrivateKey(v.gen())
		pub, err := v.cs.ParseSigningPublicKey(priv.Public().Bytes())
		if err != nil {
			h.Fail("sign/key", "", "%v", err)
			break
		}
		for k := 0; k < 20; k++ {
			m := rb(r.Intn(60))
			h.Run("sign", func() string { return fmt.Sprintf("%s message %x", v.name, m) }, func() error {
				sig, err := priv.Sign(m)
				if err != nil {
					return err
				}
				if !pub.Verify(m, sig) || !priv.Public().Verify(m, sig) {
					return fmt.Errorf("the signature %x is not accepted", sig)
				}
				if pub.Verify(append(slices.Clone(m), 0), sig) || o.Public().Verify(m, sig) {
					return errors.New("the signature is accepted for another message or key")
				}
				bad := slices.Clone(sig)
				bad[r.Intn(len(bad))] ^= byte(1 << r.Intn(8))
				if pub.Verify(m, bad) || pub.Verify(m, sig[:r.Intn(len(sig))]) || pub.Verify(m, append(slices.Clone(sig), 0)) || pub.Verify(m, nil) {
					return errors.New("an altered signature is accepted")
				}
				return nil
			})
		}
	}
	h.Finish("signatures of both suites: made, checked, altered")
}
