package db_test

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/verifh"
	"github.com/Bren2010/katie/vworld"
)

// A slot is one thing that can be stored.
type slot struct {
	kind  string
	label []byte
	ver   uint32
	num   uint64
	str   string
}

func (s slot) String() string {
	switch s.kind {
	case "index":
		return fmt.Sprintf("index %x", s.label)
	case "version":
		return fmt.Sprintf("version %x %d", s.label, s.ver)
	case "entry", "log":
		return fmt.Sprintf("%s %d", s.kind, s.num)
	case "prefix":
		return fmt.Sprintf("prefix %q", s.str)
	}
	return s.kind
}

func put(st db.TransparencyStore, s slot, v []byte) error {
	switch s.kind {
	case "head":
		return st.PutTreeHead(v)
	case "auditor":
		return st.PutAuditorTreeHead(v)
	case "index":
		return st.PutIndex(s.label, v)
	case "version":
		return st.PutVersion(s.label, s.ver, v)
	case "entry":
		return st.Put(s.num, v)
	case "log":
		return st.LogStore().Put(s.num, v)
	}
	return st.PrefixStore().Put(s.str, v)
}

func del(st db.TransparencyStore, s slot) error {
	switch s.kind {
	case "index":
		return st.DeleteIndex(s.label)
	case "version":
		return st.DeleteVersion(s.label, s.ver)
	case "entry":
		return st.Delete(s.num)
	case "log":
		return st.LogStore().Delete(s.num)
	case "prefix":
		return st.PrefixStore().Delete(s.str)
	}
	return nil
}

// readAll reads every slot, several of a kind in one call.
func readAll(st db.TransparencyStore, slots []slot) (map[string][]byte, error) {
	out := map[string][]byte{}
	var labels [][]byte
	var entries, logs []uint64
	var strs []string
	for _, s := range slots {
		switch s.kind {
		case "index":
			labels = append(labels, s.label)
		case "entry":
			entries = append(entries, s.num)
		case "log":
			logs = append(logs, s.num)
		case "prefix":
			strs = append(strs, s.str)
		case "version":
			v, err := st.GetVersion(s.label, s.ver)
			if err != nil {
				return nil, err
			} else if v != nil {
				out[s.String()] = v
			}
		}
	}
	h, a, err := st.GetTreeHead()
	if err != nil {
		return nil, err
	}
	if h != nil {
		out["head"] = h
		if a != nil {
			out["auditor"] = a
		}
	}
	idx, err := st.BatchGetIndex(labels)
	if err != nil {
		return nil, err
	} else if len(idx) != len(labels) {
		return nil, errors.New("wrong number of indices")
	}
	for i, v := range idx {
		if v != nil {
			out[slot{kind: "index", label: labels[i]}.String()] = v
		}
	}
	es, err := st.BatchGet(entries)
	if err != nil {
		return nil, err
	}
	for k, v := range es {
		out[slot{kind: "entry", num: k}.String()] = v
	}
	ls, err := st.LogStore().BatchGet(logs)
	if err != nil {
		return nil, err
	}
	for k, v := range ls {
		out[slot{kind: "log", num: k}.String()] = v
	}
	ps, err := st.PrefixStore().BatchGet(strs)
	if err != nil {
		return nil, err
	}
	for k, v := range ps {
		out[slot{kind: "prefix", str: k}.String()] = v
	}
	return out, nil
}

func differ(got, want map[string][]byte) error {
	for k, v := range want {
		if k == "auditor" && want["head"] == nil {
			continue
		}
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("%s reads as absent, should be %x", k, v)
		} else if !bytes.Equal(g, v) {
			return fmt.Errorf("%s reads as %x, should be %x", k, g, v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("%s reads as %x, should be absent", k, v)
		}
	}
	return nil
}

func cloneMap(m map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for k, v := range m {
		out[k] = slices.Clone(v)
	}
	return out
}

// quietly runs f and swallows a panic: writing through a read-only clone may
// be refused in any way.
func quietly(f func() error) {
	defer func() { recover() }()
	f()
}

// copyDir copies a database, with its journal cut off after keep bytes.
func copyDir(from, to string, keep int) (journal int, err error) {
	for i := 0; i < 200; i++ { // a compaction may be going on
		if i > 0 {
			time.Sleep(time.Millisecond)
		}
		a := listing(from)
		if journal, err = copyOnce(from, to, keep); err == nil && a == listing(from) {
			return journal, nil
		}
	}
	if err == nil {
		err = errors.New("the database files keep changing")
	}
	return journal, err
}

func listing(dir string) string {
	es, _ := os.ReadDir(dir)
	out := ""
	for _, e := range es {
		if i, err := e.Info(); err == nil && e.Name() != "LOG" {
			out += fmt.Sprintf("%s %d %v;", e.Name(), i.Size(), i.ModTime())
		}
	}
	return out
}

func copyOnce(from, to string, keep int) (journal int, err error) {
	os.RemoveAll(to)
	if err := os.MkdirAll(to, 0o755); err != nil {
		return 0, err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return 0, err
	}
	var logs []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".log") {
			logs = append(logs, e.Name())
		}
	}
	sort.Strings(logs)
	for _, e := range es {
		if e.Name() == "LOCK" || e.Name() == "LOG" {
			continue
		}
		raw, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return 0, err
		}
		if len(logs) > 0 && e.Name() == logs[len(logs)-1] {
			journal = len(raw)
			if keep >= 0 && keep < len(raw) {
				raw = raw[:keep]
			}
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), raw, 0o644); err != nil {
			return 0, err
		}
	}
	return journal, nil
}

// Every database that was opened stays open: the store has no way to close it.
const rounds = 400

func TestVerifC19(t *testing.T) {
	h := verifh.Start(t, "C19", 12*time.Second)
	r := h.Rand
	base := t.TempDir()
	round := 0
	for h.More() && !h.Failed() && round < rounds {
		round++
		var slots []slot
		slots = append(slots, slot{kind: "head"}, slot{kind: "auditor"})
		var labels [][]byte
		for i := 0; i < 6; i++ {
			l := make([]byte, r.Intn(4))
			for j := range l {
				l[j] = []byte{0, 1, 0x10, 0x11, ':', '1', 'v', 0xff}[r.Intn(8)]
			}
			labels = append(labels, l)
		}
		nums := []uint64{0, 1, 16, 10, 0x10000000000, 1<<64 - 1, uint64(r.Intn(20)), uint64(r.Intn(300))}
		vers := []uint32{0, 1, 10, 11, 16, 17, 0x10, 0x11, 1 << 31, 1<<32 - 1, uint32(r.Intn(300))}
		seen := map[string]bool{}
		add := func(s slot) {
			if !seen[s.String()] {
				seen[s.String()] = true
				slots = append(slots, s)
			}
		}
		for _, l := range labels {
			add(slot{kind: "index", label: l})
			for k := 0; k < 4; k++ {
				add(slot{kind: "version", label: l, ver: vers[r.Intn(len(vers))]})
			}
			add(slot{kind: "prefix", str: string(l)})
			add(slot{kind: "prefix", str: fmt.Sprintf("%x", l)})
		}
		for _, n := range nums {
			add(slot{kind: "entry", num: n})
			add(slot{kind: "log", num: n})
			add(slot{kind: "prefix", str: fmt.Sprint(n)})
		}
		for _, s := range []string{"", "ree-head", "tree-head", "1", "a:1"} {
			add(slot{kind: "prefix", str: s})
		}
		onDisk := round%3 != 0
		dir := filepath.Join(base, fmt.Sprint("db", round))
		var trace []string
		h.Run("store", func() string { return fmt.Sprintf("leveldb: %v; %v", onDisk, trace) }, func() error {
			var st db.TransparencyStore = memory.NewTransparencyStore()
			open := func() (err error) {
				st, err = db.NewLDBTransparencyStore(dir)
				return
			}
			if onDisk {
				if err := open(); err != nil {
					return err
				}
			}
			cur, committed := map[string][]byte{}, map[string][]byte{}
			clone, reopened := st.Clone(), false
			steps := 1 + r.Intn(60)
			for i := 0; i < steps; i++ {
				s := slots[r.Intn(len(slots))]
				switch op := r.Intn(20); {
				case op < 11:
					v := make([]byte, r.Intn(6))
					r.Read(v)
					trace = append(trace, fmt.Sprintf("put %v %x", s, v))
					buf := append(make([]byte, 0, 16), v...)
					if err := put(st, s, buf); err != nil {
						return err
					}
					for j := range buf {
						buf[j] ^= 0x55
					}
					cur[s.String()] = v
				case op < 15:
					if s.kind == "head" || s.kind == "auditor" {
						continue
					}
					trace = append(trace, fmt.Sprintf("delete %v", s))
					if err := del(st, s); err != nil {
						return err
					}
					delete(cur, s.String())
				case op == 15: // read-only clones never write
					trace = append(trace, fmt.Sprintf("write %v through a clone", s))
					c := st.Clone()
					quietly(func() error { return put(c, s, []byte("clone")) })
					quietly(func() error { return del(c, s) })
					quietly(func() error { return c.Commit() })
				default:
					trace = append(trace, "commit")
					jBefore := 0
					if onDisk && !reopened {
						n, err := copyDir(dir, dir+"x", -1)
						if err != nil {
							return err
						}
						jBefore = n
					}
					if err := st.Commit(); err != nil {
						return err
					}
					before := committed
					committed = cloneMap(cur)
					if got, err := readAll(st.Clone(), slots); err != nil {
						return err
					} else if err := differ(got, committed); err != nil {
						return fmt.Errorf("a clone after a commit: %v", err)
					}
					if onDisk && !reopened && r.Intn(3) == 0 { // crash within the commit
						jAfter, err := copyDir(dir, dir+"x", -1)
						if err != nil {
							return err
						}
						for k := 0; k < 4 && jAfter > jBefore; k++ {
							cut := jBefore + r.Intn(jAfter-jBefore+1)
							if _, err := copyDir(dir, dir+"x", cut); err != nil {
								return err
							}
							crashed, err := db.NewLDBTransparencyStore(dir + "x")
							if err != nil {
								return fmt.Errorf("the database does not open after a crash: %v", err)
							}
							got, err := readAll(crashed, slots)
							if err != nil {
								return err
							}
							e1, e2 := differ(got, before), differ(got, committed)
							if e1 != nil && e2 != nil {
								return fmt.Errorf("a crash after %d of %d journal bytes of a commit leaves part of it: not the old state: %v; not the new one: %v", cut-jBefore, jAfter-jBefore, e1, e2)
							}
						}
					}
					if onDisk && !reopened && r.Intn(6) == 0 { // restart, losing what was not committed
						trace = append(trace, "reopen")
						if _, err := copyDir(dir, dir+"y", -1); err != nil {
							return err
						}
						dir += "y"
						reopened = true // files change in the background from now on
						if err := open(); err != nil {
							return err
						}
						cur = cloneMap(committed)
						clone = st.Clone()
					}
				}
				got, err := readAll(st, slots)
				if err != nil {
					return err
				} else if err := differ(got, cur); err != nil {
					return err
				}
				for _, v := range got { // what was read is the caller's
					for j := range v {
						v[j] ^= 0xaa
					}
				}
				if onDisk {
					got, err := readAll(clone, slots)
					if err != nil {
						return err
					} else if err := differ(got, committed); err != nil {
						return fmt.Errorf("through a clone: %v", err)
					}
				}
			}
			return nil
		})
		if es, err := os.ReadDir(base); err == nil {
			for _, e := range es {
				os.RemoveAll(filepath.Join(base, e.Name()))
			}
		}
	}
	h.Finish("random transactions over every kind of key, with keys chosen to look alike, read back in full after every step; crashes that cut the journal inside a commit; clones; reopening")
}

// A log whose database was cut off inside a commit is either the log before or
// after it, with everything it refers to.
func TestVerifC19Log(t *testing.T) {
	h := verifh.Start(t, "C19", 6*time.Second)
	r := h.Rand
	base := t.TempDir()
	round := 0
	for h.More() && !h.Failed() && round < rounds {
		round++
		dir := filepath.Join(base, fmt.Sprint("log", round))
		cut := 0
		h.Run("log", func() string { return fmt.Sprintf("round %d, journal cut at %d", round, cut) }, func() error {
			st, err := db.NewLDBTransparencyStore(dir)
			if err != nil {
				return err
			}
			cfg := structs.PrivateConfig{SignatureKey: vworld.Key("sig"), VrfKey: vworld.VrfKey("vrf"), Config: structs.Config{
				Suite: vworld.Suite{}, Mode: structs.ContactMonitoring, MaxAhead: 1000, MaxBehind: 1 << 40, ReasonableMonitoringWindow: 1 + uint64(r.Intn(5)),
			}}
			tree, err := transparency.NewTree(cfg, st, nil)
			if err != nil {
				return err
			}
			label := []byte("label")
			n := 1 + r.Intn(6)
			var before, after int
			for i := 0; i < n; i++ {
				if before, err = copyDir(dir, dir+"x", -1); err != nil {
					return err
				}
				if _, err := tree.Mutate([]transparency.LabelValue{{Label: label, Value: structs.UpdateValue{Value: []byte{byte(i)}}}}, nil); err != nil {
					return err
				}
			}
			if after, err = copyDir(dir, dir+"x", -1); err != nil {
				return err
			}
			for k := 0; k < 6; k++ {
				cut = before + r.Intn(after-before+1)
				if _, err := copyDir(dir, dir+"x", cut); err != nil {
					return err
				}
				crashed, err := db.NewLDBTransparencyStore(dir + "x")
				if err != nil {
					return err
				}
				t2, err := transparency.NewTree(cfg, crashed, nil)
				if err != nil {
					return err
				}
				size := uint64(0)
				if th := t2.TreeHead(); th != nil {
					size = th.TreeSize
				}
				if size == 0 && n == 1 {
					continue
				}
				if size != uint64(n) && size != uint64(n-1) {
					return fmt.Errorf("the log has size %d, should be %d or %d", size, n-1, n)
				}
				res, err := t2.Search(t.Context(), &structs.SearchRequest{Label: label})
				if err != nil {
					return fmt.Errorf("size %d: a search fails: %v", size, err)
				} else if !bytes.Equal(res.Value.Value, []byte{byte(size - 1)}) {
					return fmt.Errorf("size %d: a search finds the wrong value", size)
				}
				if _, err := t2.Mutate([]transparency.LabelValue{{Label: label, Value: structs.UpdateValue{Value: []byte("next")}}}, nil); err != nil {
					return fmt.Errorf("size %d: the log can not be continued: %v", size, err)
				}
			}
			return nil
		})
		if es, err := os.ReadDir(base); err == nil {
			for _, e := range es {
				os.RemoveAll(filepath.Join(base, e.Name()))
			}
		}
	}
	h.Finish("logs of up to 6 mutations over LevelDB, cut off inside the last commit, opened, searched and continued")
}
