package structs_test

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
)

// vsuite keeps the sizes of a suite but lets them differ from one another.
type vsuite struct {
	suites.CipherSuite
	h, o, v int
}

func (s vsuite) HashSize() int              { return s.h }
func (s vsuite) CommitmentOpeningSize() int { return s.o }
func (s vsuite) VrfProofSize() int          { return s.v }

type vgen struct {
	r   *rand.Rand
	cfg *structs.PublicConfig
	cs  suites.CipherSuite
}

func (g vgen) bytes(n int) []byte { x := make([]byte, n); g.r.Read(x); return x }
func (g vgen) n(max int) int {
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return max
	}
	m := max
	if m > 6 {
		m = 6
	}
	return g.r.Intn(m + 1)
}
func (g vgen) u64() uint64 { return g.r.Uint64() >> g.r.Intn(64) }
func (g vgen) u32() uint32 { return g.r.Uint32() >> g.r.Intn(32) }
func (g vgen) ou64() *uint64 {
	if g.r.Intn(2) == 0 {
		return nil
	}
	x := g.u64()
	return &x
}
func (g vgen) ou32() *uint32 {
	if g.r.Intn(2) == 0 {
		return nil
	}
	x := g.u32()
	return &x
}
func (g vgen) hash() []byte { return g.bytes(g.cs.HashSize()) }
func (g vgen) hashes(max int) [][]byte {
	out := make([][]byte, g.n(max))
	for i := range out {
		out[i] = g.hash()
	}
	return out
}
func (g vgen) big(max int) int {
	if g.r.Intn(40) == 0 {
		return max
	}
	return g.n(40)
}
func list[T any](n int, f func() T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f()
	}
	return out
}
func (g vgen) sig() []byte { return g.bytes(g.big(65535)) }
func (g vgen) head() structs.TreeHead {
	return structs.TreeHead{TreeSize: g.u64(), Signature: g.sig()}
}
func (g vgen) ahead() structs.AuditorTreeHead {
	return structs.AuditorTreeHead{Timestamp: g.u64(), TreeSize: g.u64(), Signature: g.sig()}
}
func (g vgen) fth() structs.FullTreeHead {
	if g.r.Intn(3) == 0 {
		return structs.FullTreeHead{}
	}
	h := g.head()
	out := structs.FullTreeHead{TreeHead: &h}
	if g.cfg.Mode == structs.ThirdPartyAuditing {
		a := g.ahead()
		out.AuditorTreeHead = &a
	}
	return out
}
func (g vgen) suffix() structs.UpdateSuffix {
	if g.cfg.Mode != structs.ThirdPartyManagement {
		return structs.UpdateSuffix{}
	}
	return structs.UpdateSuffix{Signature: g.sig()}
}
func (g vgen) uv() structs.UpdateValue {
	return structs.UpdateValue{Value: g.bytes(g.big(70000)), UpdateSuffix: g.suffix()}
}
func (g vgen) lv() structs.LabelValue { return structs.LabelValue{Value: g.bytes(g.big(70000))} }
func (g vgen) step() structs.BinaryLadderStep {
	s := structs.BinaryLadderStep{Proof: g.bytes(g.cs.VrfProofSize())}
	if g.r.Intn(2) == 0 {
		s.Commitment = g.hash()
	}
	return s
}
func (g vgen) steps(max int) []structs.BinaryLadderStep { return list(g.n(max), g.step) }
func (g vgen) pproof() prefix.PrefixProof {
	n, m := g.n(255), g.big(1000)
	if g.r.Intn(200) == 0 {
		m = 65535
	}
	buf := &bytes.Buffer{}
	buf.WriteByte(byte(n))
	for range n {
		k := byte(1 + g.r.Intn(3))
		buf.WriteByte(k)
		if k == 2 {
			buf.Write(g.hash())
			buf.Write(g.hash())
		}
		buf.WriteByte(byte(g.r.Intn(256)))
	}
	binary.Write(buf, binary.BigEndian, uint16(m))
	for range m {
		buf.Write(g.hash())
	}
	p, err := prefix.NewPrefixProof(g.cs, buf)
	if err != nil {
		panic(fmt.Sprintf("a well-formed prefix proof was rejected: %v", err))
	}
	return *p
}
func (g vgen) incl() structs.InclusionProof {
	return structs.InclusionProof{Elements: list(g.big(2000), g.hash)}
}
func (g vgen) ctp() structs.CombinedTreeProof {
	return structs.CombinedTreeProof{
		Timestamps:   list(g.n(255), g.u64),
		PrefixProofs: list(g.n(5), g.pproof),
		PrefixRoots:  g.hashes(255),
		Inclusion:    g.incl(),
	}
}
func (g vgen) mme() structs.MonitorMapEntry {
	return structs.MonitorMapEntry{Position: g.u64(), Version: g.u32()}
}
func (g vgen) label() []byte { return g.bytes(g.n(255)) }
func (g vgen) le() structs.LogEntry {
	return structs.LogEntry{Timestamp: g.u64(), PrefixTree: g.hash()}
}
func (g vgen) entry() prefix.Entry { return prefix.Entry{VrfOutput: g.hash(), Commitment: g.hash()} }
func (g vgen) state() structs.ClientState {
	s := structs.ClientState{TreeHead: g.head(), FullSubtrees: g.hashes(64), LogEntries: map[uint64]structs.LogEntry{}}
	if g.cfg.Mode == structs.ThirdPartyAuditing {
		a := g.ahead()
		s.AuditorTreeHead = &a
	}
	for range g.n(255) {
		s.LogEntries[g.u64()] = g.le()
	}
	return s
}
func (g vgen) owner() structs.LabelOwnerState {
	v := int(g.u32())
	if g.r.Intn(3) == 0 {
		v = -1
	}
	return structs.LabelOwnerState{Starting: g.u64(), VerAtStarting: v, UpcomingVers: list(g.n(300), g.u64)}
}
func (g vgen) rv() structs.RetainedVersion {
	v := structs.RetainedVersion{Version: g.u32(), VrfOutput: g.hash()}
	if g.r.Intn(2) == 0 {
		v.Commitment = g.hash()
	}
	return v
}
func (g vgen) cls() structs.ClientLabelState {
	s := structs.ClientLabelState{Contact: list(g.n(300), g.mme), Versions: list(g.n(300), g.rv)}
	if g.r.Intn(2) == 0 {
		o := g.owner()
		s.Owner = &o
	}
	return s
}

type codec struct {
	name string
	gen  func(g vgen) any
	dec  func(g vgen, buf *bytes.Buffer) (any, error)
	enc  func(x any) ([]byte, error)
	// loose: the bytes of an accepted encoding may differ from its re-encoding
	loose bool
}

func mk[T any, P interface {
	*T
	structs.Marshaller
}](name string, gen func(g vgen) T, dec func(g vgen, buf *bytes.Buffer) (*T, error)) codec {
	return codec{name: name,
		gen: func(g vgen) any { x := gen(g); return &x },
		dec: func(g vgen, buf *bytes.Buffer) (any, error) {
			x, err := dec(g, buf)
			if err == nil && x == nil {
				return nil, fmt.Errorf("DECODER RETURNED NOTHING")
			}
			return x, err
		},
		enc: func(x any) ([]byte, error) { return structs.Marshal(P(x.(*T))) }}
}

type gg = vgen
type bb = *bytes.Buffer

// searchResp remembers whether the request named a version.
type searchResp struct {
	structs.SearchResponse
}

func codecs() []codec {
	cs := []codec{
		mk("SearchRequest", func(g gg) structs.SearchRequest {
			return structs.SearchRequest{Last: g.ou64(), Label: g.label(), Version: g.ou32()}
		}, func(g gg, b bb) (*structs.SearchRequest, error) { return structs.NewSearchRequest(b) }),
		mk("SearchResponse", func(g gg) structs.SearchResponse {
			v := g.u32()
			return structs.SearchResponse{FullTreeHead: g.fth(), Version: &v, Opening: g.bytes(g.cs.CommitmentOpeningSize()),
				Value: g.uv(), BinaryLadder: g.steps(255), Search: g.ctp()}
		}, func(g gg, b bb) (*structs.SearchResponse, error) {
			return structs.NewSearchResponse(g.cfg, &structs.SearchRequest{}, b)
		}),
		mk("SearchResponse/version", func(g gg) structs.SearchResponse {
			return structs.SearchResponse{FullTreeHead: g.fth(), Opening: g.bytes(g.cs.CommitmentOpeningSize()),
				Value: g.uv(), BinaryLadder: g.steps(255), Search: g.ctp()}
		}, func(g gg, b bb) (*structs.SearchResponse, error) {
			v := uint32(3)
			return structs.NewSearchResponse(g.cfg, &structs.SearchRequest{Version: &v}, b)
		}),
		mk("MonitorMapEntry", gg.mme, func(g gg, b bb) (*structs.MonitorMapEntry, error) { return structs.NewMonitorMapEntry(b) }),
		mk("ContactMonitorRequest", func(g gg) structs.ContactMonitorRequest {
			return structs.ContactMonitorRequest{Last: g.ou64(), Label: g.label(), Entries: list(g.n(255), g.mme)}
		}, func(g gg, b bb) (*structs.ContactMonitorRequest, error) { return structs.NewContactMonitorRequest(b) }),
		mk("ContactMonitorResponse", func(g gg) structs.ContactMonitorResponse {
			return structs.ContactMonitorResponse{FullTreeHead: g.fth(), Monitor: g.ctp()}
		}, func(g gg, b bb) (*structs.ContactMonitorResponse, error) {
			return structs.NewContactMonitorResponse(g.cfg, b)
		}),
		mk("OwnerInitRequest", func(g gg) structs.OwnerInitRequest {
			return structs.OwnerInitRequest{Last: g.ou64(), Label: g.label(), Start: g.u64()}
		}, func(g gg, b bb) (*structs.OwnerInitRequest, error) { return structs.NewOwnerInitRequest(b) }),
		mk("OwnerInitResponse", func(g gg) structs.OwnerInitResponse {
			return structs.OwnerInitResponse{FullTreeHead: g.fth(), GreatestVersions: list(g.n(255), g.u32),
				BinaryLadder: g.steps(400), Init: g.ctp()}
		}, func(g gg, b bb) (*structs.OwnerInitResponse, error) { return structs.NewOwnerInitResponse(g.cfg, b) }),
		mk("OwnerMonitorRequest", func(g gg) structs.OwnerMonitorRequest {
			return structs.OwnerMonitorRequest{Last: g.ou64(), Label: g.label(), Entries: list(g.n(255), g.mme), Start: g.u64(), GreatestVersion: g.ou32()}
		}, func(g gg, b bb) (*structs.OwnerMonitorRequest, error) { return structs.NewOwnerMonitorRequest(b) }),
		mk("OwnerMonitorResponse", func(g gg) structs.OwnerMonitorResponse {
			return structs.OwnerMonitorResponse{FullTreeHead: g.fth(), Monitor: g.ctp()}
		}, func(g gg, b bb) (*structs.OwnerMonitorResponse, error) {
			return structs.NewOwnerMonitorResponse(g.cfg, b)
		}),
		mk("UpdateRequest", func(g gg) structs.UpdateRequest {
			return structs.UpdateRequest{Last: g.ou64(), Label: g.label(), GreatestVersion: g.ou32(), Values: list(g.n(255), g.lv)}
		}, func(g gg, b bb) (*structs.UpdateRequest, error) { return structs.NewUpdateRequest(b) }),
		mk("ManagerUpdateRequest", func(g gg) structs.ManagerUpdateRequest {
			return structs.ManagerUpdateRequest{Last: g.ou64(), Label: g.label(), GreatestVersion: g.ou32(), SignedVersion: g.u32(), Values: list(g.n(255), g.uv)}
		}, func(g gg, b bb) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(g.cfg, b)
		}),
		mk("UpdateResponse", func(g gg) structs.UpdateResponse {
			return structs.UpdateResponse{FullTreeHead: g.fth(), Position: g.u64(), Values: list(g.n(255), g.lv),
				Info: list(g.n(255), func() structs.UpdateInfo {
					return structs.UpdateInfo{Opening: g.bytes(g.cs.CommitmentOpeningSize()), UpdateSuffix: g.suffix()}
				}), BinaryLadder: g.steps(255), Update: g.ctp()}
		}, func(g gg, b bb) (*structs.UpdateResponse, error) { return structs.NewUpdateResponse(g.cfg, b) }),
		mk("UpdateSuffix", gg.suffix, func(g gg, b bb) (*structs.UpdateSuffix, error) { return structs.NewUpdateSuffix(g.cfg, b) }),
		mk("UpdateValue", gg.uv, func(g gg, b bb) (*structs.UpdateValue, error) { return structs.NewUpdateValue(g.cfg, b) }),
		mk("LabelValue", gg.lv, func(g gg, b bb) (*structs.LabelValue, error) { return structs.NewLabelValue(b) }),
		mk("UpdateInfo", func(g gg) structs.UpdateInfo {
			return structs.UpdateInfo{Opening: g.bytes(g.cs.CommitmentOpeningSize()), UpdateSuffix: g.suffix()}
		}, func(g gg, b bb) (*structs.UpdateInfo, error) { return structs.NewUpdateInfo(g.cfg, b) }),
		mk("OpeningAndValue", func(g gg) structs.OpeningAndValue {
			return structs.OpeningAndValue{Opening: g.bytes(g.cs.CommitmentOpeningSize()), Value: g.uv()}
		}, func(g gg, b bb) (*structs.OpeningAndValue, error) { return structs.NewOpeningAndValue(g.cfg, b) }),
		mk("LogEntry", gg.le, func(g gg, b bb) (*structs.LogEntry, error) { return structs.NewLogEntry(g.cs, b) }),
		mk("IndexedLogEntry", func(g gg) structs.IndexedLogEntry {
			return structs.IndexedLogEntry{Position: g.u64(), LogEntry: g.le()}
		}, func(g gg, b bb) (*structs.IndexedLogEntry, error) { return structs.NewIndexedLogEntry(g.cs, b) }),
		mk("BinaryLadderStep", gg.step, func(g gg, b bb) (*structs.BinaryLadderStep, error) { return structs.NewBinaryLadderStep(g.cs, b) }),
		mk("TreeHead", gg.head, func(g gg, b bb) (*structs.TreeHead, error) { return structs.NewTreeHead(b) }),
		mk("AuditorTreeHead", gg.ahead, func(g gg, b bb) (*structs.AuditorTreeHead, error) { return structs.NewAuditorTreeHead(b) }),
		mk("FullTreeHead", gg.fth, func(g gg, b bb) (*structs.FullTreeHead, error) { return structs.NewFullTreeHead(g.cfg, b) }),
		mk("InclusionProof", gg.incl, func(g gg, b bb) (*structs.InclusionProof, error) { return structs.NewInclusionProof(g.cs, b) }),
		mk("PrefixProof", gg.pproof, func(g gg, b bb) (*prefix.PrefixProof, error) { return prefix.NewPrefixProof(g.cs, b) }),
		mk("CombinedTreeProof", gg.ctp, func(g gg, b bb) (*structs.CombinedTreeProof, error) { return structs.NewCombinedTreeProof(g.cs, b) }),
		mk("AuditorUpdate", func(g gg) structs.AuditorUpdate {
			return structs.AuditorUpdate{Timestamp: g.u64(), Added: list(g.n(300), g.entry), Removed: list(g.n(300), g.entry), Proof: g.pproof()}
		}, func(g gg, b bb) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(g.cs, b) }),
		mk("ClientState", gg.state, func(g gg, b bb) (*structs.ClientState, error) { return structs.NewClientState(g.cfg, b) }),
		mk("LabelOwnerState", gg.owner, func(g gg, b bb) (*structs.LabelOwnerState, error) { return structs.NewLabelOwnerState(b) }),
		mk("RetainedVersion", gg.rv, func(g gg, b bb) (*structs.RetainedVersion, error) { return structs.NewRetainedVersion(g.cs, b) }),
		mk("ClientLabelState", gg.cls, func(g gg, b bb) (*structs.ClientLabelState, error) { return structs.NewClientLabelState(g.cs, b) }),
		{name: "AuditorState",
			gen: func(g gg) any {
				h := g.ahead()
				h.TreeSize = 1 + g.u64()>>1
				return auditorState(g, h)
			},
			dec: func(g gg, b bb) (any, error) { return auditor.NewAuditorState(g.cs, b) },
			enc: func(x any) ([]byte, error) { return x.(*auditor.AuditorState).Marshal() }},
	}
	for i := range cs {
		if cs[i].name == "ClientState" {
			cs[i].loose = true
		}
	}
	return cs
}

func auditorState(g vgen, h structs.AuditorTreeHead) *auditor.AuditorState {
	s := &auditor.AuditorState{TreeHead: h, PrefixTree: g.hash()}
	for x := h.TreeSize; x > 0; x &= x - 1 {
		s.FullSubtrees = append(s.FullSubtrees, g.hash())
	}
	// the frontier: the root of the search tree, then right children
	var w uint64 = 1
	for w <= h.TreeSize/2 {
		w *= 2
	}
	for x := w - 1; ; {
		s.Timestamps = append(s.Timestamps, g.u64())
		if x == h.TreeSize-1 {
			break
		}
		rest := h.TreeSize - 1 - x
		w = 1
		for w <= rest/2 {
			w *= 2
		}
		x += w
	}
	s.Inserted = list(g.n(300), func() auditor.InsertedVrfOutput {
		return auditor.InsertedVrfOutput{Pos: g.u64(), VrfOutput: g.hash()}
	})
	return s
}

// same compares two structures; an empty list is the same as none.
func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	} else if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := range a.NumField() {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := range a.Len() {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if x := b.MapIndex(k); !x.IsValid() || !same(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	}
	panic("kind " + a.Kind().String())
}

func newGen(r *rand.Rand) vgen {
	var cs suites.CipherSuite = suites.KTSha256P256{}
	switch r.Intn(3) {
	case 0:
		cs = suites.KTSha256Ed25519{}
	case 1:
		cs = vsuite{cs, 1 + r.Intn(64), 1 + r.Intn(40), 1 + r.Intn(100)}
	}
	cfg := &structs.PublicConfig{Config: structs.Config{Suite: cs, Mode: structs.DeploymentMode(1 + r.Intn(3))}}
	return vgen{r, cfg, cs}
}

func hexs(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%x... (%d bytes)", b[:600], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func TestVerifC14(t *testing.T) {
	h := verifh.Start(t, "C14", 10*time.Second)
	defer h.Finish("random structures of every type under random suites and modes, encoded, extended with random bytes and decoded")
	cs := codecs()
	tooLong(h)
	for n := 0; h.More() && !h.Failed(); n++ {
		c := cs[n%len(cs)]
		g := newGen(h.Rand)
		x := c.gen(g)
		var raw []byte
		h.Run("roundtrip/"+c.name, func() string { return fmt.Sprintf("mode %d %+v", g.cfg.Mode, x) }, func() error {
			var err error
			raw, err = c.enc(x)
			if err != nil {
				return fmt.Errorf("encoding a valid structure failed: %v", err)
			}
			tail := g.bytes(g.r.Intn(20))
			buf := bytes.NewBuffer(append(append([]byte{}, raw...), tail...))
			y, err := c.dec(g, buf)
			if err != nil {
				return fmt.Errorf("decoding %s failed: %v", hexs(raw), err)
			} else if !same(reflect.ValueOf(x), reflect.ValueOf(y)) {
				return fmt.Errorf("decoding %s gave %+v", hexs(raw), y)
			} else if !bytes.Equal(buf.Bytes(), tail) {
				return fmt.Errorf("%d bytes were appended and %d left unread", len(tail), buf.Len())
			}
			return nil
		})
	}
}

// tooLong: values one longer than their length field allows are rejected.
func tooLong(h *verifh.H) {
	g := newGen(rand.New(rand.NewSource(1)))
	cs := vsuite{suites.KTSha256P256{}, 2, 2, 2}
	g.cs = cs
	g.cfg = &structs.PublicConfig{Config: structs.Config{Suite: cs, Mode: structs.ThirdPartyManagement}}
	l256, l64k := make([]byte, 256), make([]byte, 65536)
	h64k := list(65536, g.hash)
	h256 := h64k[:256]
	m256 := list(256, g.mme)
	step := structs.BinaryLadderStep{Proof: g.bytes(2)}
	st256, st64k := list(256, func() structs.BinaryLadderStep { return step }), list(65536, func() structs.BinaryLadderStep { return step })
	e64k := list(65536, g.entry)
	_, priv, _ := ed25519.GenerateKey(nil)
	pub, _ := suites.KTSha256Ed25519{}.ParseSigningPublicKey(priv.Public().(ed25519.PublicKey))
	vk, _ := suites.KTSha256Ed25519{}.ParseVRFPrivateKey(make([]byte, 32))
	g.cfg.SignatureKey, g.cfg.LeafPublicKey = pub, pub
	if vk != nil {
		g.cfg.VrfKey = vk.PublicKey()
	}
	cases := []struct {
		name string
		m    structs.Marshaller
	}{
		{"SearchRequest.Label", &structs.SearchRequest{Label: l256}},
		{"ContactMonitorRequest.Label", &structs.ContactMonitorRequest{Label: l256}},
		{"ContactMonitorRequest.Entries", &structs.ContactMonitorRequest{Entries: m256}},
		{"OwnerInitRequest.Label", &structs.OwnerInitRequest{Label: l256}},
		{"OwnerMonitorRequest.Label", &structs.OwnerMonitorRequest{Label: l256}},
		{"OwnerMonitorRequest.Entries", &structs.OwnerMonitorRequest{Entries: m256}},
		{"UpdateRequest.Label", &structs.UpdateRequest{Label: l256}},
		{"UpdateRequest.Values", &structs.UpdateRequest{Values: make([]structs.LabelValue, 256)}},
		{"ManagerUpdateRequest.Label", &structs.ManagerUpdateRequest{Label: l256}},
		{"ManagerUpdateRequest.Values", &structs.ManagerUpdateRequest{Values: make([]structs.UpdateValue, 256)}},
		{"TreeHead.Signature", &structs.TreeHead{Signature: l64k}},
		{"AuditorTreeHead.Signature", &structs.AuditorTreeHead{Signature: l64k}},
		{"FullTreeHead.TreeHead", &structs.FullTreeHead{TreeHead: &structs.TreeHead{Signature: l64k}}},
		{"FullTreeHead.AuditorTreeHead", &structs.FullTreeHead{TreeHead: &structs.TreeHead{}, AuditorTreeHead: &structs.AuditorTreeHead{Signature: l64k}}},
		{"UpdateSuffix.Signature", &structs.UpdateSuffix{Signature: l64k}},
		{"UpdateValue.Signature", &structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: l64k}}},
		{"UpdateInfo.Signature", &structs.UpdateInfo{UpdateSuffix: structs.UpdateSuffix{Signature: l64k}}},
		{"OpeningAndValue.Signature", &structs.OpeningAndValue{Value: structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: l64k}}}},
		{"CommitmentValue.Label", &structs.CommitmentValue{Label: l256}},
		{"CommitmentValue.Update", &structs.CommitmentValue{Update: structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: l64k}}}},
		{"VrfInput.Label", &structs.VrfInput{Label: l256}},
		{"InclusionProof", &structs.InclusionProof{Elements: h64k}},
		{"CombinedTreeProof.Timestamps", &structs.CombinedTreeProof{Timestamps: make([]uint64, 256)}},
		{"CombinedTreeProof.PrefixProofs", &structs.CombinedTreeProof{PrefixProofs: make([]prefix.PrefixProof, 256)}},
		{"CombinedTreeProof.PrefixRoots", &structs.CombinedTreeProof{PrefixRoots: h256}},
		{"CombinedTreeProof.Inclusion", &structs.CombinedTreeProof{Inclusion: structs.InclusionProof{Elements: h64k}}},
		{"PrefixProof.Elements", &prefix.PrefixProof{Elements: h64k}},
		{"SearchResponse.BinaryLadder", &structs.SearchResponse{BinaryLadder: st256}},
		{"SearchResponse.Search", &structs.SearchResponse{Search: structs.CombinedTreeProof{PrefixRoots: h256}}},
		{"SearchResponse.Value", &structs.SearchResponse{Value: structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: l64k}}}},
		{"ContactMonitorResponse.Monitor", &structs.ContactMonitorResponse{Monitor: structs.CombinedTreeProof{PrefixRoots: h256}}},
		{"OwnerInitResponse.GreatestVersions", &structs.OwnerInitResponse{GreatestVersions: make([]uint32, 256)}},
		{"OwnerInitResponse.BinaryLadder", &structs.OwnerInitResponse{BinaryLadder: st64k}},
		{"OwnerInitResponse.Init", &structs.OwnerInitResponse{Init: structs.CombinedTreeProof{PrefixRoots: h256}}},
		{"OwnerMonitorResponse.Monitor", &structs.OwnerMonitorResponse{Monitor: structs.CombinedTreeProof{PrefixRoots: h256}}},
		{"UpdateResponse.Values", &structs.UpdateResponse{Values: make([]structs.LabelValue, 256)}},
		{"UpdateResponse.Info", &structs.UpdateResponse{Info: make([]structs.UpdateInfo, 256)}},
		{"UpdateResponse.BinaryLadder", &structs.UpdateResponse{BinaryLadder: st256}},
		{"UpdateResponse.Update", &structs.UpdateResponse{Update: structs.CombinedTreeProof{PrefixRoots: h256}}},
		{"AuditorUpdate.Added", &structs.AuditorUpdate{Added: e64k}},
		{"AuditorUpdate.Removed", &structs.AuditorUpdate{Removed: e64k}},
		{"ClientState.FullSubtrees", &structs.ClientState{FullSubtrees: h256}},
		{"ClientState.TreeHead", &structs.ClientState{TreeHead: structs.TreeHead{Signature: l64k}}},
		{"UpdateTBS.Label", &structs.UpdateTBS{Config: g.cfg, Label: l256}},
	}
	les := map[uint64]structs.LogEntry{}
	for i := range 256 {
		les[uint64(i)] = g.le()
	}
	cases = append(cases, struct {
		name string
		m    structs.Marshaller
	}{"ClientState.LogEntries", &structs.ClientState{LogEntries: les}})
	for _, c := range cases {
		h.Run("toolong/"+c.name, func() string { return c.name + " one longer than its length field allows" }, func() error {
			if out, err := structs.Marshal(c.m); err == nil {
				return fmt.Errorf("encoded to %d bytes without an error", len(out))
			}
			return nil
		})
	}
	h.Run("toolong/AuditorState.Inserted", func() string { return "65536 inserted outputs" }, func() error {
		s := &auditor.AuditorState{TreeHead: structs.AuditorTreeHead{TreeSize: 1}, FullSubtrees: [][]byte{{1, 2}}, Timestamps: []uint64{1},
			PrefixTree: []byte{1, 2}, Inserted: make([]auditor.InsertedVrfOutput, 65536)}
		if _, err := s.Marshal(); err == nil {
			return fmt.Errorf("encoded without an error")
		}
		return nil
	})
}

func TestVerifC15(t *testing.T) {
	h := verifh.Start(t, "C15", 10*time.Second)
	defer h.Finish("random, mutated and truncated encodings of every type given to its decoder")
	cs := codecs()
	var ms runtime.MemStats
	for n := 0; h.More() && !h.Failed(); n++ {
		c := cs[n%len(cs)]
		g := newGen(h.Rand)
		var raw []byte
		if g.r.Intn(3) == 0 {
			raw = g.bytes(g.r.Intn(120))
			if g.r.Intn(2) == 0 {
				for i := range raw {
					switch g.r.Intn(3) {
					case 0:
						raw[i] = 0
					case 1:
						raw[i] = byte(g.r.Intn(4))
					}
				}
			}
		} else {
			func() {
				defer func() { recover() }() // the encoder is C14's
				raw, _ = c.enc(c.gen(g))
			}()
			if len(raw) > 2000 && g.r.Intn(10) > 0 {
				continue
			}
			for range g.r.Intn(4) {
				if len(raw) == 0 {
					break
				}
				i := g.r.Intn(len(raw))
				if g.r.Intn(2) == 0 && i > 30 {
					i = g.r.Intn(30)
				}
				switch g.r.Intn(5) {
				case 0:
					raw[i] ^= 1 << g.r.Intn(8)
				case 1:
					raw[i] = byte(g.r.Intn(256))
				case 2:
					raw = raw[:i]
				case 3:
					raw[i] = 255
				case 4:
					raw = append(raw[:i:i], raw[i+1:]...)
				}
			}
		}
		one(h, g, c, raw)
	}
	for _, n := range []uint64{0, 1, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1} {
		buf := &bytes.Buffer{}
		(&structs.AuditorTreeHead{TreeSize: n}).Marshal(buf)
		buf.Write(make([]byte, 64*32+64*8+34))
		g := vgen{h.Rand, &structs.PublicConfig{Config: structs.Config{Suite: suites.KTSha256P256{}, Mode: 1}}, suites.KTSha256P256{}}
		one(h, g, cs[len(cs)-1], buf.Bytes())
	}
	// lengths that the input cannot back up
	for _, c := range cs {
		for _, k := range []int{0, 1, 2, 4, 8, 9, 12, 20} {
			g := vgen{h.Rand, &structs.PublicConfig{Config: structs.Config{Suite: suites.KTSha256P256{}, Mode: 1}}, suites.KTSha256P256{}}
			for _, fill := range []byte{0, 255} {
				raw := append(bytes.Repeat([]byte{0}, k), bytes.Repeat([]byte{255}, 12)...)
				if fill == 0 {
					raw = append(raw[:k+4], 0, 0, 0)
				}
				runtime.ReadMemStats(&ms)
				before := ms.TotalAlloc
				one(h, g, c, raw)
				runtime.ReadMemStats(&ms)
				if d := ms.TotalAlloc - before; d > 256<<20 {
					h.Fail("alloc/"+c.name, hexs(raw), "decoding %d bytes allocated %d MB", len(raw), d>>20)
				}
			}
		}
	}
}

func one(h *verifh.H, g vgen, c codec, raw []byte) {
	h.Run("decode/"+c.name, func() string {
		return fmt.Sprintf("mode %d sizes %d %d %d bytes %s", g.cfg.Mode, g.cs.HashSize(), g.cs.CommitmentOpeningSize(), g.cs.VrfProofSize(), hexs(raw))
	}, func() error {
		buf := bytes.NewBuffer(append([]byte{}, raw...))
		x, err := c.dec(g, buf)
		if err != nil {
			if strings.HasPrefix(err.Error(), "DECODER") {
				return err
			}
			return nil
		}
		used := raw[:len(raw)-buf.Len()]
		out, err := c.enc(x)
		if err != nil {
			return fmt.Errorf("accepted as %+v, which cannot be encoded: %v", x, err)
		}
		if c.loose {
			if len(out) != len(used) {
				return fmt.Errorf("consumed %d bytes but re-encodes to %d", len(used), len(out))
			}
			return nil
		}
		if !bytes.Equal(out, used) {
			return fmt.Errorf("accepted bytes %s re-encode to %s", hexs(used), hexs(out))
		}
		return nil
	})
}
