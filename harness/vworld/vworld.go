// Package vworld is the support code of the end-to-end searches: a fast suite
// of stand-in cryptography, histories of a transparency log with a model of
// their content, and a client store. It is laid over /repo by
// `go test -overlay` and is no part of it.
package vworld

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"math/rand"
	"reflect"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Suite is SHA-256 with signatures and a VRF that only the tests' honest
// parties can make: a keyed hash, whose key a "public key" also holds. Nothing
// in the code under test looks inside.
type Suite struct{}

func (Suite) Id() uint16                 { return 0x7f01 }
func (Suite) Hash() hash.Hash            { return sha256.New() }
func (Suite) HashSize() int              { return 32 }
func (Suite) CommitmentOpeningSize() int { return 16 }
func (Suite) VrfProofSize() int          { return 32 }
func (Suite) CommitmentFixedBytes() []byte {
	return []byte("0123456789abcdef")
}
func (Suite) ParseSigningPrivateKey(raw []byte) (suites.SigningPrivateKey, error) {
	return Key(raw), nil
}
func (Suite) ParseSigningPublicKey(raw []byte) (suites.SigningPublicKey, error) {
	return PubKey(raw), nil
}
func (Suite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) { return VrfKey(raw), nil }
func (Suite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error)   { return VrfPub(raw), nil }

func mac(key, m []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(m)
	return h.Sum(nil)
}

type Key []byte
type PubKey []byte

func (k Key) Sign(m []byte) ([]byte, error)   { return mac(append([]byte("sig"), k...), m), nil }
func (k Key) Public() suites.SigningPublicKey { return PubKey(k) }
func (k PubKey) Verify(m, sig []byte) bool {
	return bytes.Equal(mac(append([]byte("sig"), k...), m), sig)
}
func (k PubKey) Bytes() []byte { return mac([]byte("pub"), k) }

type VrfKey []byte
type VrfPub []byte

func (k VrfKey) Prove(m []byte) (out, proof []byte) {
	return mac(append([]byte("vrf"), k...), m), mac(append([]byte("prf"), k...), m)
}
func (k VrfKey) PublicKey() vrf.PublicKey { return VrfPub(k) }
func (k VrfPub) Verify(m, proof []byte) ([]byte, error) {
	if !bytes.Equal(proof, mac(append([]byte("prf"), k...), m)) {
		return nil, errors.New("vrf proof is wrong")
	}
	return mac(append([]byte("vrf"), k...), m), nil
}
func (k VrfPub) Bytes() []byte { return mac([]byte("vpub"), k) }

// Bubble runs f where time is simulated: it starts at a fixed instant and
// advances only by sleeping. Panics in f come out as errors.
func Bubble(t *testing.T, f func() error) error {
	var err error
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 2500 {
					st = st[:2500]
				}
				err = fmt.Errorf("panic: %v\n%s", r, st)
			}
		}()
		err = f()
	})
	return err
}

// ClientStore is a client's storage in memory.
type ClientStore struct {
	State    []byte
	Labels   map[string][]byte
	Terminal map[string]uint64
	FailPut  bool
	Puts     int
}

func NewClientStore() *ClientStore {
	return &ClientStore{Labels: map[string][]byte{}, Terminal: map[string]uint64{}}
}

func (cs *ClientStore) Clone() *ClientStore {
	out := NewClientStore()
	out.State = slices.Clone(cs.State)
	for k, v := range cs.Labels {
		out.Labels[k] = slices.Clone(v)
		out.Terminal[k] = cs.Terminal[k]
	}
	return out
}

func (cs *ClientStore) Equal(o *ClientStore) bool {
	return bytes.Equal(cs.State, o.State) && reflect.DeepEqual(cs.Labels, o.Labels) && reflect.DeepEqual(cs.Terminal, o.Terminal)
}

func (cs *ClientStore) GetState() ([]byte, error) { return slices.Clone(cs.State), nil }
func (cs *ClientStore) GetLabelState(label []byte) ([]byte, error) {
	return slices.Clone(cs.Labels[string(label)]), nil
}
func (cs *ClientStore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	var ks []string
	for k := range cs.Labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if cs.Terminal[k] <= cutoff {
			return []byte(k), slices.Clone(cs.Labels[k]), nil
		}
	}
	return nil, nil, nil
}
func (cs *ClientStore) PutState(raw []byte) error {
	cs.Puts++
	cs.State = slices.Clone(raw)
	return nil
}
func (cs *ClientStore) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	cs.Puts++
	cs.State = slices.Clone(raw)
	if rawLabel == nil {
		delete(cs.Labels, string(label))
		delete(cs.Terminal, string(label))
	} else {
		cs.Labels[string(label)] = slices.Clone(rawLabel)
		cs.Terminal[string(label)] = terminal
	}
	return nil
}

// World is a log with a model of what was put in it.
type World struct {
	T        *testing.T
	R        *rand.Rand
	Cfg      structs.PrivateConfig
	Leaf     Key
	AudK     Key
	Store    *memory.TransparencyStore
	Tree     *transparency.Tree
	Aud      *auditor.Auditor
	Heads    []*structs.TreeHead
	Roots    [][]byte // root of each tree size from 1, recomputed from the log entries
	subs     [][]byte
	AudHeads []*structs.AuditorTreeHead

	TS      []uint64   // timestamp of each log entry
	Labels  [][]byte   // labels ever used
	Pos     [][]uint64 // per label, log entry of each version
	Vals    [][][]byte // per label, value of each version
	Removed []bool     // per label, whether it was ever removed
	Frozen  []bool
	Trace   []string
}

func (w *World) Note(f string, a ...any) { w.Trace = append(w.Trace, fmt.Sprintf(f, a...)) }
func (w *World) N() uint64               { return uint64(len(w.TS)) }

// Greatest is the greatest version of label l at log entry x, or -1.
func (w *World) Greatest(l int, x uint64) int {
	g := -1
	for _, p := range w.Pos[l] {
		if p <= x {
			g++
		}
	}
	return g
}

type Opts struct {
	Mode     structs.DeploymentMode
	RMW      uint64
	Lifetime uint64
	Lag      uint64 // how far the auditor may be behind, if not 0
	Labels   int
	Suite    suites.CipherSuite
	Seed     byte
}

// New makes an empty world. Call it inside a bubble.
func New(t *testing.T, r *rand.Rand, o Opts) *World {
	w := &World{T: t, R: r}
	cs := o.Suite
	if cs == nil {
		cs = Suite{}
	}
	raw := func(i byte) []byte {
		out := bytes.Repeat([]byte{i + 1 + o.Seed}, 32)
		return out
	}
	sig, err := cs.ParseSigningPrivateKey(raw(0))
	if err != nil {
		panic(err)
	}
	vk, err := cs.ParseVRFPrivateKey(raw(1))
	if err != nil {
		panic(err)
	}
	w.Cfg = structs.PrivateConfig{SignatureKey: sig, VrfKey: vk, Config: structs.Config{
		Suite: cs, Mode: o.Mode, MaxAhead: 1000, MaxBehind: 1 << 40,
		ReasonableMonitoringWindow: o.RMW, MaximumLifetime: o.Lifetime,
	}}
	w.Leaf, w.AudK = Key(raw(2)), Key(raw(3))
	switch o.Mode {
	case structs.ThirdPartyManagement:
		w.Cfg.LeafPublicKey = w.Leaf.Public()
	case structs.ThirdPartyAuditing:
		w.Cfg.MaxAuditorLag, w.Cfg.AuditorStartPos, w.Cfg.AuditorPublicKey = 1<<30, 0, w.AudK.Public()
		if o.Lag != 0 {
			w.Cfg.MaxAuditorLag = o.Lag
		}
	}
	w.Store = memory.NewTransparencyStore()
	if w.Tree, err = transparency.NewTree(w.Cfg, w.Store, nil); err != nil {
		panic(err)
	}
	if o.Mode == structs.ThirdPartyAuditing {
		if w.Aud, err = auditor.NewAuditor(w.Cfg.Public(), w.AudK, memory.NewAuditorStore()); err != nil {
			panic(err)
		}
	}
	for i := 0; i < o.Labels; i++ {
		l := make([]byte, 1+r.Intn(8))
		r.Read(l)
		l[0] = byte(i)
		w.Labels = append(w.Labels, l)
		w.Pos = append(w.Pos, nil)
		w.Vals = append(w.Vals, nil)
		w.Removed = append(w.Removed, false)
		w.Frozen = append(w.Frozen, false)
	}
	return w
}

// Value is a value for the given version of a label, signed if need be.
func (w *World) Value(l int, ver uint32, val []byte) structs.UpdateValue {
	v := structs.UpdateValue{Value: val}
	if w.Cfg.Mode == structs.ThirdPartyManagement {
		tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Cfg.Public(), Label: w.Labels[l], Version: ver, Value: val})
		if err != nil {
			panic(err)
		}
		v.Signature, _ = w.Leaf.Sign(tbs)
	}
	return v
}

// Mutate adds counts[l] versions of label l, after sleeping, and checks what
// the store then says.
func (w *World) Mutate(sleep time.Duration, counts []int, remove []int) error {
	time.Sleep(sleep)
	var add []transparency.LabelValue
	pos := make([][]uint64, len(w.Pos))
	vals := make([][][]byte, len(w.Pos))
	var rm [][]byte
	for l := range w.Labels {
		pos[l], vals[l] = slices.Clone(w.Pos[l]), slices.Clone(w.Vals[l])
		if slices.Contains(remove, l) {
			rm = append(rm, slices.Clone(w.Labels[l]))
			pos[l], vals[l] = nil, nil
		}
	}
	left := slices.Clone(counts)
	for n := 0; ; n++ {
		var open []int
		for l, c := range left {
			if c > 0 {
				open = append(open, l)
			}
		}
		if len(open) == 0 {
			break
		}
		l := open[w.R.Intn(len(open))]
		left[l]--
		val := make([]byte, w.R.Intn(6))
		w.R.Read(val)
		ver := uint32(len(pos[l]))
		add = append(add, transparency.LabelValue{Label: slices.Clone(w.Labels[l]), Value: w.Value(l, ver, val)})
		pos[l] = append(pos[l], w.N())
		vals[l] = append(vals[l], val)
	}
	w.Note("mutate after %v: add %v remove %v", sleep, counts, remove)
	now := uint64(time.Now().UnixMilli())
	up, err := w.Tree.Mutate(add, rm)
	if err != nil {
		return err
	}
	w.Pos, w.Vals = pos, vals
	w.TS = append(w.TS, now)
	for _, l := range remove {
		w.Removed[l] = true
	}
	if w.Tree.TreeHead().TreeSize != w.N() {
		return fmt.Errorf("tree size is %d after %d mutations", w.Tree.TreeHead().TreeSize, w.N())
	}
	w.Heads = append(w.Heads, w.Tree.TreeHead())
	if err := w.addRoot(); err != nil {
		return err
	}
	if len(rm) > 0 {
		// Known finding of C07: the proof of a removal may not determine the
		// new root, so the auditor might not follow. Its last tree head remains
		// valid.
		w.Aud = nil
	}
	if w.Aud != nil {
		raw, err := structs.Marshal(up)
		if err != nil {
			return err
		}
		up2, err := structs.NewAuditorUpdate(w.Cfg.Suite, bytes.NewBuffer(raw))
		if err != nil {
			return fmt.Errorf("auditor update does not decode: %v", err)
		}
		if err := w.Aud.Process(up2); err != nil {
			return fmt.Errorf("auditor rejects an honest update: %v", err)
		}
		if w.N() == 1 || w.R.Intn(3) == 0 {
			th, err := w.Aud.Commit()
			if err != nil {
				return err
			}
			w.AudHeads = append(w.AudHeads, th)
			rawTH, err := structs.Marshal(th)
			if err != nil {
				return err
			}
			if err := w.Store.PutAuditorTreeHead(rawTH); err != nil {
				return err
			}
		}
	}
	if w.Tree, err = transparency.NewTree(w.Cfg, w.Store, nil); err != nil {
		return err
	}
	return w.CheckIndex()
}

// Entry is the stored log entry x.
func (w *World) Entry(x uint64) (*structs.LogEntry, error) {
	res, err := w.Store.BatchGet([]uint64{x})
	if err != nil {
		return nil, err
	}
	return structs.NewLogEntry(w.Cfg.Suite, bytes.NewBuffer(res[x]))
}

func (w *World) addRoot() error {
	x := w.N() - 1
	e, err := w.Entry(x)
	if err != nil {
		return err
	}
	leaf, err := e.Hash(w.Cfg.Suite)
	if err != nil {
		return err
	}
	if w.subs, err = log.Append(w.Cfg.Suite, x, w.subs, leaf); err != nil {
		return err
	}
	root, err := log.Root(w.Cfg.Suite, x+1, w.subs)
	w.Roots = append(w.Roots, root)
	return err
}

// SignAuditor signs an auditor tree head for the first size entries.
func (w *World) SignAuditor(ts, size uint64) *structs.AuditorTreeHead {
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: w.Cfg.Public(), Timestamp: ts, TreeSize: size, Root: w.Roots[size-1]})
	if err != nil {
		panic(err)
	}
	sig, _ := w.AudK.Sign(tbs)
	return &structs.AuditorTreeHead{Timestamp: ts, TreeSize: size, Signature: sig}
}

// CheckIndex compares the stored list of positions of every label with the
// model.
func (w *World) CheckIndex() error {
	got, err := w.Store.BatchGetIndex(w.Labels)
	if err != nil {
		return err
	}
	for l, raw := range got {
		var acc uint64
		var out []uint64
		for len(raw) > 0 {
			v, n := binary.Uvarint(raw)
			if n <= 0 {
				return errors.New("stored index does not decode")
			}
			if len(out) == 0 {
				acc = v
			} else {
				acc += v
			}
			out = append(out, acc)
			raw = raw[n:]
		}
		if !slices.Equal(out, w.Pos[l]) {
			return fmt.Errorf("label %d: the stored positions are %v, the versions were added at %v", l, out, w.Pos[l])
		}
		for ver, val := range w.Vals[l] {
			raw, err := w.Store.GetVersion(w.Labels[l], uint32(ver))
			if err != nil {
				return err
			}
			ov, err := structs.NewOpeningAndValue(w.Cfg.Public(), bytes.NewBuffer(raw))
			if err != nil {
				return fmt.Errorf("label %d version %d: stored value does not decode: %v", l, ver, err)
			}
			if !bytes.Equal(ov.Value.Value, val) {
				return fmt.Errorf("label %d version %d: the stored value is %x, not %x", l, ver, ov.Value.Value, val)
			}
		}
		raw2, err := w.Store.GetVersion(w.Labels[l], uint32(len(w.Vals[l])))
		if err != nil || raw2 != nil {
			return fmt.Errorf("label %d: a version %d is stored that was never added", l, len(w.Vals[l]))
		}
	}
	return nil
}

// Mutator makes random changes to structures.
type Mutator struct {
	R     *rand.Rand
	sites []func()
}

// Tamper makes one random change somewhere inside the structure p points to.
func (m *Mutator) Tamper(p any) {
	m.sites = nil
	m.walk(reflect.ValueOf(p).Elem())
	if len(m.sites) > 0 {
		m.sites[m.R.Intn(len(m.sites))]()
	}
}

func (m *Mutator) walk(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i))
		}
	case reflect.Pointer:
		if v.IsNil() {
			m.sites = append(m.sites, func() {
				n := reflect.New(v.Type().Elem())
				m.fill(n.Elem())
				v.Set(n)
			})
			return
		}
		m.sites = append(m.sites, func() { v.Set(reflect.Zero(v.Type())) })
		m.walk(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			m.sites = append(m.sites, func() {
				b := slices.Clone(v.Bytes())
				switch m.R.Intn(6) {
				case 0:
					v.Set(reflect.Zero(v.Type()))
				case 1:
					v.SetBytes(append(b, byte(m.R.Intn(256))))
				case 2:
					if len(b) > 0 {
						v.SetBytes(b[:len(b)-1])
					}
				default:
					if len(b) > 0 {
						b[m.R.Intn(len(b))] ^= 1 << m.R.Intn(8)
						v.SetBytes(b)
					} else {
						v.SetBytes([]byte{1})
					}
				}
			})
			return
		}
		n := v.Len()
		cut := func() {
			out := reflect.MakeSlice(v.Type(), 0, n+1)
			switch k := m.R.Intn(5); {
			case k == 0:
			case k == 1 && n > 0:
				out = reflect.AppendSlice(out, v.Slice(0, n-1))
			case k == 2 && n > 0:
				i := m.R.Intn(n)
				out = reflect.AppendSlice(out, v.Slice(0, i))
				out = reflect.AppendSlice(out, v.Slice(i+1, n))
			case k == 3 && n > 0:
				out = reflect.AppendSlice(out, v.Slice(0, n))
				out = reflect.Append(out, v.Index(m.R.Intn(n)))
			case k == 4 && n > 1:
				out = reflect.AppendSlice(out, v.Slice(0, n))
				i, j := m.R.Intn(n), m.R.Intn(n)
				a, b := reflect.ValueOf(out.Index(i).Interface()), reflect.ValueOf(out.Index(j).Interface())
				out.Index(i).Set(b)
				out.Index(j).Set(a)
			default:
				out = reflect.AppendSlice(out, v.Slice(0, n))
				if v.Type().Elem().Kind() != reflect.Interface {
					e := reflect.New(v.Type().Elem()).Elem()
					m.fill(e)
					out = reflect.Append(out, e)
				} else if n > 0 {
					out = reflect.Append(out, v.Index(m.R.Intn(n)))
				}
			}
			v.Set(out)
		}
		m.sites = append(m.sites, cut, cut)
		for i := 0; i < n; i++ {
			m.walk(v.Index(i))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		m.sites = append(m.sites, func() { m.fill(v) })
	case reflect.Int:
		m.sites = append(m.sites, func() { m.fill(v) })
	}
}

func (m *Mutator) fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch m.R.Intn(5) {
		case 0:
			v.SetUint(v.Uint() + 1)
		case 1:
			v.SetUint(v.Uint() - 1)
		case 2:
			v.SetUint(0)
		case 3:
			v.SetUint(m.R.Uint64())
		case 4:
			v.SetUint(^uint64(0))
		}
	case reflect.Int:
		v.SetInt(v.Int() + int64(m.R.Intn(5)) - 2)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				m.fill(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, []int{0, 16, 32, 32, 32}[m.R.Intn(5)])
			m.R.Read(b)
			v.SetBytes(b)
		}
	}
}
