// Package verifh is the support code of the bounded searches: it records
// failing inputs and how much was explored. It is laid over /repo by
// `go test -overlay` and is no part of it.
package verifh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type H struct {
	t        *testing.T
	id       string
	Rand     *rand.Rand
	Thorough bool
	stop     time.Time

	mu      sync.Mutex
	evals   int
	seen    map[uint64]struct{}
	samples []string
	fails   map[string]int
	cur     func() string
	curKey  string
	since   time.Time
	done    chan struct{}
}

// Start begins a search. budget is the time it may take in the quick tier;
// the thorough tier gets ten times that, a search for an input that breaks what
// could not be proved six times.
func Start(t *testing.T, id string, budget time.Duration) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	f := fnv.New64a()
	f.Write([]byte(t.Name()))
	h := &H{t: t, id: id, Rand: rand.New(rand.NewSource(seed ^ int64(f.Sum64()>>1))),
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		seen:     map[uint64]struct{}{}, fails: map[string]int{}, done: make(chan struct{})}
	if h.Thorough {
		budget *= 10
	} else if os.Getenv("VERIF_TIER") == "search" {
		budget *= 6
	}
	h.stop = time.Now().Add(budget)
	go h.watch()
	return h
}

// More reports whether time is left for generated cases.
func (h *H) More() bool { return time.Now().Before(h.stop) }

func (h *H) watch() {
	tk := time.NewTicker(500 * time.Millisecond)
	for {
		select {
		case <-h.done:
			return
		case <-tk.C:
			h.mu.Lock()
			if h.cur != nil && time.Since(h.since) > 20*time.Second {
				d := h.cur()
				h.record(h.curKey+"/hang", d, "the call did not return within 20 s")
				os.Exit(3)
			}
			h.mu.Unlock()
		}
	}
}

func (h *H) write(v any) {
	p := os.Getenv("VERIF_OUT")
	if p == "" {
		b, _ := json.Marshal(v)
		fmt.Println(string(b))
		return
	}
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	b, _ := json.Marshal(v)
	f.Write(append(b, '\n'))
	f.Close()
}

func (h *H) record(key, input, msg string) {
	h.fails[key]++
	if h.fails[key] > 3 {
		return
	}
	if len(input) > 6000 {
		input = input[:6000] + "..."
	}
	h.write(map[string]any{"t": "fail", "key": key, "input": input, "msg": msg})
}

// Fail records a failing input. key names the kind of failure.
func (h *H) Fail(key, input, format string, a ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.record(key, input, fmt.Sprintf(format, a...))
}

// Failed reports whether anything failed so far.
func (h *H) Failed() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.fails) > 0
}

// Run runs one case: a panic or a hang in f is a failure of kind key, and so
// is an error it returns.
func (h *H) Run(key string, input func() string, f func() error) (ok bool) {
	h.mu.Lock()
	h.evals++
	h.cur, h.curKey, h.since = input, key, time.Now()
	if h.evals <= 4096 || h.evals%64 == 0 {
		s := key + " " + input()
		x := fnv.New64a()
		x.Write([]byte(s))
		if _, dup := h.seen[x.Sum64()]; !dup {
			h.seen[x.Sum64()] = struct{}{}
			if len(h.samples) < 5 && len(h.seen)%7 == 1 {
				if len(s) > 300 {
					s = s[:300] + "..."
				}
				h.samples = append(h.samples, s)
			}
		}
	}
	h.mu.Unlock()
	defer func() {
		r := recover()
		h.mu.Lock()
		h.cur = nil
		h.mu.Unlock()
		if r != nil {
			ok = false
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			h.Fail(key+"/panic", input(), "panic: %v\n%s", r, st)
		}
	}()
	if err := f(); err != nil {
		h.Fail(key, input(), "%v", err)
		return false
	}
	return true
}

// Count adds n evaluations that were not run through Run.
func (h *H) Count(n int) {
	h.mu.Lock()
	h.evals += n
	h.mu.Unlock()
}

// Finish reports what was explored. rule says how cases are made.
func (h *H) Finish(rule string) {
	close(h.done)
	h.write(map[string]any{"t": "count", "evaluations": h.evals, "distinct": len(h.seen), "rule": rule, "samples": h.samples})
	if len(h.fails) > 0 {
		h.t.Errorf("failures: %v", h.fails)
	}
}
