package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check driver: one property, decided by the Verus verifier over the crate
// generated from /repo's working tree, plus a bounded search on the real code
// for concrete failing inputs.

type harnessCfg struct {
	Pkg   string   `json:"pkg"`   // package directory relative to /repo
	Files []string `json:"files"` // files under /verif/harness laid over that directory
	Run   string   `json:"run"`
	Race  bool     `json:"race,omitempty"`
}

type checkCfg struct {
	ID          string       `json:"id"`
	Specs       []string     `json:"specs"`
	Harness     []harnessCfg `json:"harness"`
	Rlimit      int          `json:"rlimit,omitempty"`
	Technique   string       `json:"technique"`
	Level       string       `json:"level"`
	LevelNote   string       `json:"level_note"`
	Assumptions []string     `json:"assumptions"`
}

// crates splits the spec list at "|" into the crates verified separately.
func (c *checkCfg) crates() [][]string {
	out := [][]string{nil}
	for _, s := range c.Specs {
		if s == "|" {
			out = append(out, nil)
		} else {
			out[len(out)-1] = append(out[len(out)-1], s)
		}
	}
	return out
}

type finding struct{ prop, key, what string }

type verusOut struct {
	FuncDetails map[string]any `json:"func-details"`
	Results     struct {
		VirErr   bool `json:"encountered-vir-error"`
		Err      bool `json:"encountered-error"`
		Success  bool `json:"success"`
		Verified int  `json:"verified"`
		Errors   int  `json:"errors"`
	} `json:"verification-results"`
	Times struct {
		Smt struct {
			Modules []struct {
				Fns []struct {
					Function string `json:"function"`
					Mode     string `json:"mode"`
					Micros   int64  `json:"time-micros"`
					Success  bool   `json:"success"`
				} `json:"function-breakdown"`
			} `json:"smt-run-module-times"`
		} `json:"smt"`
	} `json:"times-ms"`
}

type verusErr struct {
	msg  string
	line int
	key  string
	text string
}

var locRe = regexp.MustCompile(`^\s*--> [^ ]*?([^/ ]+\.rs):(\d+):\d+`)

// runVerus verifies one crate. It returns the parsed report (nil when Verus
// did not get as far as producing one) and the errors by line.
func runVerus(file string, rlimit int, timeout time.Duration, extra ...string) (*verusOut, []verusErr, string, bool) {
	return runVerusCtx(context.Background(), file, rlimit, timeout, extra...)
}

func runVerusCtx(parent context.Context, file string, rlimit int, timeout time.Duration, extra ...string) (*verusOut, []verusErr, string, bool) {
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	args := []string{filepath.Base(file), "--output-json", "--time-expanded", "--multiple-errors", "2", "--num-threads", "8", "--rlimit", strconv.Itoa(rlimit)}
	args = append(args, extra...)
	cmd := exec.CommandContext(ctx, "verus", args...)
	cmd.Dir = filepath.Dir(file)
	cmd.WaitDelay = 5 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	timedOut := ctx.Err() != nil
	var out *verusOut
	var v verusOut
	if i := bytes.IndexByte(so.Bytes(), '{'); i >= 0 && json.Unmarshal(so.Bytes()[i:], &v) == nil {
		out = &v
	}
	var errs []verusErr
	var cur *verusErr
	flush := func() {
		if cur != nil {
			errs = append(errs, *cur)
			cur = nil
		}
	}
	for _, l := range strings.Split(se.String(), "\n") {
		if strings.HasPrefix(l, "error") {
			flush()
			if strings.HasPrefix(l, "error: aborting") || strings.HasPrefix(l, "error: could not compile") {
				continue
			}
			cur = &verusErr{msg: l}
		} else if strings.HasPrefix(l, "warning") || strings.HasPrefix(l, "note:") && cur == nil {
			flush()
			continue
		}
		if cur != nil {
			if m := locRe.FindStringSubmatch(l); m != nil && cur.line == 0 {
				cur.line, _ = strconv.Atoi(m[2])
			}
			cur.text += l + "\n"
		}
	}
	flush()
	return out, errs, se.String(), timedOut
}

// retryVerus tries a crate with a failed obligation again in several ways at
// once. Each function's obligations are discharged separately from all
// others', so it is enough that every function is accepted by one of the runs.
func retryVerus(file string, rlimit int, prev *verusOut, prevErrs []verusErr, prevRaw string, prevTO bool) (*verusOut, []verusErr, string, bool) {
	type res struct {
		out  *verusOut
		errs []verusErr
		raw  string
		to   bool
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	variants := [][]string{
		{"-V", "spinoff-all"},
		{"--smt-option", "smt.random_seed=1"},
		{"--smt-option", "smt.random_seed=2"},
		{"-V", "spinoff-all", "--smt-option", "smt.random_seed=3"},
		{"-V", "spinoff-all", "--smt-option", "smt.random_seed=4", "--smt-option", "smt.arith.solver=2"},
	}
	ch := make(chan res, len(variants))
	for i, v := range variants {
		limit := rlimit
		if i == 0 {
			limit = 2 * rlimit
		}
		go func() {
			o, e, r, to := runVerusCtx(ctx, file, limit, 330*time.Second, v...)
			ch <- res{o, e, r, to}
		}()
	}
	// functions that no run so far has accepted
	ok := map[string]bool{}
	all := map[string]bool{}
	seen := func(o *verusOut) {
		if o == nil {
			return
		}
		bad, good := map[string]bool{}, map[string]bool{}
		for _, m := range o.Times.Smt.Modules {
			for _, f := range m.Fns {
				all[f.Function] = true
				if f.Success {
					good[f.Function] = true
				} else {
					bad[f.Function] = true
				}
			}
		}
		for f := range good {
			if !bad[f] {
				ok[f] = true
			}
		}
	}
	if !prevTO {
		seen(prev)
	}
	last := res{prev, prevErrs, prevRaw, prevTO}
	for range variants {
		r := <-ch
		if r.to || r.out == nil {
			continue
		}
		last = r
		if r.out.Results.Success {
			return r.out, r.errs, r.raw, false
		}
		// Verus stopped before the solver: nothing another seed could change.
		if len(r.out.Times.Smt.Modules) == 0 {
			return r.out, r.errs, r.raw, false
		}
		seen(r.out)
		missing := 0
		for f := range all {
			if !ok[f] {
				missing++
			}
		}
		if missing == 0 && len(all) > 0 {
			o := *r.out
			o.Results.Success, o.Results.Verified, o.Results.Errors = true, o.Results.Verified+o.Results.Errors, 0
			return &o, nil, r.raw, false
		}
	}
	return last.out, last.errs, last.raw, last.to
}

func keyAt(ranges []lineRange, line int) string {
	for _, r := range ranges {
		if line >= r.from && line <= r.to {
			return r.key
		}
	}
	return ""
}

// allLines returns every line number a diagnostic mentions.
func allLines(text string) []int {
	var out []int
	for _, l := range strings.Split(text, "\n") {
		if m := locRe.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[2])
			out = append(out, n)
		}
		if i := strings.Index(l, "|"); i > 0 {
			if n, err := strconv.Atoi(strings.TrimSpace(l[:i])); err == nil {
				out = append(out, n)
			}
		}
	}
	return out
}

type harnessRec struct {
	T       string   `json:"t"`
	Key     string   `json:"key"`
	Input   string   `json:"input"`
	Msg     string   `json:"msg"`
	Evals   int      `json:"evaluations"`
	Dist    int      `json:"distinct"`
	Rule    string   `json:"rule"`
	Samples []string `json:"samples"`
}

type harnessRes struct {
	cfg    harnessCfg
	fails  []harnessRec
	counts []harnessRec
	built  bool
	note   string
	wall   float64
	output string
}

func runHarness(c checkCfg, h harnessCfg, tier, seed, scratch string) harnessRes {
	res := harnessRes{cfg: h}
	start := time.Now()
	defer func() { res.wall = time.Since(start).Seconds() }()
	rep := map[string]string{
		"/repo/verifh/verifh.go": "/verif/harness/verifh/verifh.go",
		"/repo/vworld/vworld.go": "/verif/harness/vworld/vworld.go",
		"/repo/vworld/ref.go":    "/verif/harness/vworld/ref.go",
	}
	for _, f := range h.Files {
		rep[filepath.Join("/repo", h.Pkg, filepath.Base(f))] = filepath.Join("/verif/harness", f)
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	base := filepath.Join(scratch, strings.ReplaceAll(h.Pkg, "/", "_")+"_"+strings.Trim(h.Run, "^$")+"_"+tier)
	os.WriteFile(base+".overlay.json", ov, 0o644)
	outFile := base + ".out"
	limit := 300 * time.Second
	if tier == "thorough" {
		limit = 1500 * time.Second
	}
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local",
		"VERIF_OUT="+outFile, "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_SCRATCH="+scratch)
	bin := base + ".test"
	args := []string{"test", "-c", "-vet=off", "-overlay", base + ".overlay.json", "-o", bin}
	if h.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+h.Pkg)
	b := exec.Command("go", args...)
	b.Dir, b.Env = "/repo", env
	if out, err := b.CombinedOutput(); err != nil {
		res.note = "harness does not build against this tree: " + firstLines(string(out), 6)
		return res
	}
	res.built = true
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", h.Run, "-test.timeout", "0", "-test.count", "1")
	cmd.Dir, cmd.Env = filepath.Join("/repo", h.Pkg), env
	cmd.WaitDelay = 5 * time.Second
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err := cmd.Run()
	res.output = ob.String()
	if f, e := os.Open(outFile); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r harnessRec
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				switch r.T {
				case "fail":
					res.fails = append(res.fails, r)
				case "count":
					res.counts = append(res.counts, r)
				}
			}
		}
		f.Close()
	}
	if err != nil && len(res.fails) == 0 {
		if ctx.Err() != nil {
			res.note = "harness exceeded its time limit without a verdict"
		} else {
			res.fails = append(res.fails, harnessRec{T: "fail", Key: "crash", Input: "see output", Msg: "the harness process ended abnormally: " + firstLines(res.output, 30)})
		}
	}
	return res
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func loadFindings() []finding {
	var out []finding
	b, _ := os.ReadFile("/verif/known-findings.txt")
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			out = append(out, finding{f[0][9:], f[1][4:], f[2]})
		}
	}
	return out
}

func loadChecks() ([]checkCfg, error) {
	b, err := os.ReadFile("/verif/checks.json")
	if err != nil {
		return nil, err
	}
	var cs []checkCfg
	return cs, json.Unmarshal(b, &cs)
}

func check(id, tier string) int {
	start := time.Now()
	seed := os.Getenv("VERIF_SEED")
	if _, err := strconv.Atoi(seed); err != nil {
		seed = "1"
	}
	cs, err := loadChecks()
	if err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	var c *checkCfg
	for i := range cs {
		if cs[i].ID == id {
			c = &cs[i]
		}
	}
	if c == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	if c.Rlimit == 0 {
		c.Rlimit = 30
	}
	scratch, err := os.MkdirTemp("", "gocv-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	// the harnesses run beside the verifier
	hch := make(chan []harnessRes, 1)
	go func() {
		var rs []harnessRes
		for _, h := range c.Harness {
			rs = append(rs, runHarness(*c, h, tier, seed, scratch))
		}
		hch <- rs
	}()

	pkgs, fset, err := loadRepo("/repo")
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	type failure struct{ key, msg string }
	type fnTime struct {
		fn string
		us int64
	}
	type crate struct {
		sp       *Specs
		g        *gen
		file     string
		results  []fnResult
		ranges   []lineRange
		out      *verusOut
		errs     []verusErr
		raw      string
		timedOut bool
		vmsg     chan string
		vacOK    int
	}
	var crates []*crate
	for _, names := range c.crates() {
		sp, err := loadSpecs("/verif/specs", names)
		if err != nil {
			fmt.Println("specs:", err)
			return 2
		}
		cr := &crate{sp: sp, g: newGen(sp, pkgs, fset), vmsg: make(chan string, 1)}
		n := strconv.Itoa(len(crates))
		var txt string
		txt, cr.results, cr.ranges = cr.g.generate(false)
		base := strings.TrimSuffix(filepath.Base(names[len(names)-1]), ".vrs")
		os.MkdirAll(filepath.Join(scratch, n), 0o755)
		cr.file = filepath.Join(scratch, n, base+".rs")
		os.WriteFile(cr.file, []byte(txt), 0o644)
		gv := newGen(sp, pkgs, fset)
		vtxt, vres, vranges := gv.generate(true)
		vfile := filepath.Join(scratch, n, base+"_vacuity.rs")
		os.WriteFile(vfile, []byte(vtxt), 0o644)
		crates = append(crates, cr)
		// Every precondition must be satisfiable: with "ensures false" each
		// contract has to fail.
		go func() {
			_, verrs, vraw, vto := runVerus(vfile, c.Rlimit, 400*time.Second, "--no-lifetime")
			vbad := map[string]bool{}
			for _, e := range verrs {
				for _, l := range allLines(e.text) {
					vbad[keyAt(vranges, l)] = true
				}
			}
			msg := ""
			for _, r := range vres {
				if r.err != "" {
					continue
				}
				if vbad[r.key] {
					cr.vacOK++
				} else {
					msg += "precondition of " + r.key + " is contradictory or its falsity probe did not fail; "
				}
			}
			if vto {
				msg = "vacuity probe timed out"
			}
			if msg != "" {
				msg += firstLines(vraw, 5)
			}
			cr.vmsg <- msg
		}()
	}

	var failures []failure
	drops := map[string]bool{}
	where := map[string]string{}
	for _, cr := range crates {
		for _, r := range cr.results {
			where[r.key] = r.pos
			for _, d := range r.drops {
				drops[d] = true
			}
			if r.err != "" {
				failures = append(failures, failure{r.key, "the function cannot be extracted under its contract: " + r.err})
			}
		}
	}
	var vwg sync.WaitGroup
	for _, cr := range crates {
		vwg.Add(1)
		go func() {
			defer vwg.Done()
			cr.out, cr.errs, cr.raw, cr.timedOut = runVerus(cr.file, min(c.Rlimit, 60), 300*time.Second)
		}()
	}
	vwg.Wait()
	var vmsgs []string
	vacOK := 0
	for _, cr := range crates {
		if m := <-cr.vmsg; m != "" {
			vmsgs = append(vmsgs, m)
		}
		vacOK += cr.vacOK
	}

	kf := loadFindings()
	known := func(key string) *finding {
		for i := range kf {
			if kf[i].prop == id && kf[i].key == key {
				return &kf[i]
			}
		}
		return nil
	}
	harness := <-hch
	concrete := false
	for _, h := range harness {
		for _, f := range h.fails {
			concrete = concrete || known(f.Key) == nil
		}
	}
	// When the proof does not go through and no failing input is known yet, the
	// harnesses look for one for longer, while the solver tries again.
	stuck := len(failures) > 0
	for _, cr := range crates {
		stuck = stuck || cr.timedOut || cr.out == nil || !cr.out.Results.Success
	}
	more := make(chan []harnessRes, 1)
	if stuck && !concrete && tier != "thorough" {
		go func() {
			var rs []harnessRes
			for _, h := range c.Harness {
				if h.Pkg != "" {
					rs = append(rs, runHarness(*c, h, "search", seed+"7", scratch))
				}
			}
			more <- rs
		}()
	} else {
		more <- nil
	}
	// A failed obligation is tried again, every function on its own with a
	// larger budget and with other seeds of the solver, before it counts.
	retried := false
	verified, nerr := 0, 0
	var solver int64
	var times []fnTime
	for _, cr := range crates {
		if !concrete && (cr.timedOut || cr.out != nil && !cr.out.Results.Success) {
			retried = true
			cr.out, cr.errs, cr.raw, cr.timedOut = retryVerus(cr.file, c.Rlimit, cr.out, cr.errs, cr.raw, cr.timedOut)
		}
		for _, e := range cr.errs {
			k := ""
			for _, l := range allLines(e.text) {
				if kk := keyAt(cr.ranges, l); kk != "" {
					k = kk
					break
				}
			}
			if e.line > 0 {
				if kk := keyAt(cr.ranges, e.line); kk != "" {
					k = kk
				}
			}
			if k == "" {
				k = "(lemma or contract text)"
			}
			failures = append(failures, failure{k, e.text})
		}
		if cr.timedOut {
			failures = append(failures, failure{"(whole crate)", "the verifier did not finish in time"})
		} else if cr.out == nil || (!cr.out.Results.Success && len(cr.errs) == 0) {
			failures = append(failures, failure{"(whole crate)", "the verifier gave no verdict: " + firstLines(cr.raw, 20)})
		}
		// obligations: what the verifier reports as verified or failed, plus the
		// contracts that produced no obligation because extraction failed.
		if cr.out != nil {
			verified += cr.out.Results.Verified
			nerr += cr.out.Results.Errors
			for _, m := range cr.out.Times.Smt.Modules {
				for _, f := range m.Fns {
					solver += f.Micros
					times = append(times, fnTime{f.Function, f.Micros})
				}
			}
			if cr.out.Results.Verified+cr.out.Results.Errors == 0 {
				failures = append(failures, failure{"(whole crate)", "no obligation was generated"})
			}
		}
		for _, r := range cr.results {
			if r.err != "" {
				nerr++
			}
		}
	}
	harness = append(harness, <-more...)
	if len(failures) == 0 && len(vmsgs) > 0 {
		failures = append(failures, failure{"(vacuity)", strings.Join(vmsgs, "; ")})
	}
	if len(failures) > 0 && nerr == 0 {
		nerr = len(failures)
	}
	obligations := verified + nerr
	if obligations == 0 || verified == 0 && len(failures) == 0 {
		failures = append(failures, failure{"(whole crate)", "no obligation was generated"})
	}

	var hfails []harnessRec
	knownSeen := map[string]string{}
	evals, dist := 0, 0
	var hinfo []map[string]any
	for _, h := range harness {
		for _, f := range h.fails {
			if k := known(f.Key); k != nil {
				knownSeen[k.key] = k.what
				continue
			}
			hfails = append(hfails, f)
		}
		var rules, samples []string
		e0, d0 := 0, 0
		for _, cn := range h.counts {
			e0 += cn.Evals
			d0 += cn.Dist
			rules = append(rules, cn.Rule)
			samples = append(samples, cn.Samples...)
		}
		evals += e0
		dist += d0
		hinfo = append(hinfo, map[string]any{"package": h.cfg.Pkg, "tests": h.cfg.Run, "ran": h.built, "note": h.note,
			"evaluations": e0, "distinct": d0, "rule": strings.Join(rules, " | "), "samples": samples, "wall_s": h.wall})
		if h.note != "" {
			fmt.Println("note:", h.cfg.Pkg, h.note)
		}
	}

	var contracts, externs, imports, trusted, inlined []string
	seen := map[string]bool{}
	for _, cr := range crates {
		for _, r := range cr.results {
			if t := r.key + " (" + r.pos + ")"; !seen[t] {
				seen[t] = true
				contracts = append(contracts, t)
			}
		}
		for _, f := range cr.sp.Files {
			if seen["file "+f.Path] {
				continue
			}
			seen["file "+f.Path] = true
			for _, ct := range f.Contracts {
				if ct.Imported {
					imports = append(imports, ct.Key)
				} else if ct.Ext {
					externs = append(externs, ct.Key)
				}
			}
			trusted = append(trusted, scanTrusted(f.Path, strings.ReplaceAll(f.Verbatim, "#[verifier::external_body] pub", "pub"))...)
		}
		for _, k := range cr.g.inlinedList() {
			if !seen["inl "+k] {
				seen["inl "+k] = true
				inlined = append(inlined, k)
			}
		}
	}
	if len(imports) > 0 {
		trusted = append(trusted, "contracts imported here and proved by the checks that list their functions: "+strings.Join(imports, ", "))
	}
	for _, e := range externs {
		trusted = append(trusted, "assumed contract on "+e)
	}
	trusted = append(trusted, "Verus 0.2026.09.13, its vstd axioms and the bundled Z3", "the Go-to-Verus extraction in /verif/tool")
	for _, n := range renamed {
		drops["local variable extracted under its recorded name: "+n] = true
	}
	var dl []string
	for d := range drops {
		dl = append(dl, d)
	}
	sort.Strings(dl)
	sort.Slice(times, func(i, j int) bool { return times[i].us > times[j].us })
	var slow []string
	for i := 0; i < len(times) && i < 8; i++ {
		slow = append(slow, fmt.Sprintf("%s %dms", times[i].fn, times[i].us/1000))
	}
	viol := len(failures) + len(hfails)
	seedN, _ := strconv.Atoi(seed)
	cov := map[string]any{
		"obligations": obligations, "discharged": verified,
		"second_attempt":                    retried,
		"checker_cmd":                       "verus CRATE.rs --output-json --time-expanded --rlimit " + strconv.Itoa(c.Rlimit) + "   (crates regenerated from /repo by /verif/tool: gocv gen OUT.rs " + strings.Join(c.Specs, " ") + ")",
		"trusted_base":                      trusted,
		"back_end":                          "Verus -> Z3 (SMT); by(bit_vector) blocks -> Z3 bit-vectors; by(nonlinear_arith) -> Z3 NIA",
		"solver_time_ms":                    solver / 1000,
		"slowest":                           slow,
		"functions_under_contract":          contracts,
		"functions_inlined":                 inlined,
		"extraction_drops":                  dl,
		"vacuity_probes_failed_as_required": vacOK,
		"bounded_search":                    map[string]any{"evaluations": evals, "distinct_nontrivial": dist, "parts": hinfo, "label": "bounded search on the real code for concrete failing inputs; never counted as proved"},
	}
	if len(failures) > 0 {
		var fl []string
		for _, f := range failures {
			fl = append(fl, f.key+": "+firstLines(f.msg, 1))
		}
		cov["failed_obligations"] = fl
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seedN, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": viol}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll("/verif/evidence", 0o755)
	os.WriteFile("/verif/evidence/"+id+".json", eb, 0o644)

	fmt.Printf("%s: %d obligations, %d discharged, %d functions under contract, solver %d ms; bounded search %d evaluations; %.1fs\n",
		id, obligations, verified, len(contracts), solver/1000, evals, time.Since(start).Seconds())
	var ks []string
	for k := range knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownSeen[k])
	}
	if viol == 0 {
		return 0
	}
	os.MkdirAll("/verif/evidence/replay", 0o755)
	rp := "/verif/evidence/replay/" + id + ".txt"
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", id)
	for _, f := range hfails {
		fmt.Fprintf(&b, "FAILING INPUT on the real code [%s]\n  input: %s\n  %s\n\n", f.Key, f.Input, f.Msg)
	}
	if len(hfails) > 0 {
		fmt.Fprintf(&b, "replay: VERIF_SEED=%s VERIF_TIER=%s /verif/check.sh %s (runs the harness %v on the real code)\n\n", seed, tier, id, c.Harness)
	}
	for _, f := range failures {
		fmt.Fprintf(&b, "FAILED OBLIGATION in %s %s\n%s\n", f.key, where[f.key], f.msg)
		fmt.Printf("failed obligation: %s (%s): %s\n", f.key, where[f.key], firstLines(f.msg, 1))
	}
	for _, f := range hfails {
		fmt.Printf("failing input: [%s] %s: %s\n", f.Key, clip(f.Input), clip(firstLines(f.Msg, 3)))
	}
	os.WriteFile(rp, []byte(b.String()), 0o644)
	if len(hfails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

var trustRe = regexp.MustCompile(`external_body|\baxiom\b|\bassume\(|\badmit\(`)

// scanTrusted lists the trusted items (external_body, axioms, assumes) in the
// verbatim part of a spec file.
func scanTrusted(path, text string) []string {
	var out []string
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "//") || !trustRe.MatchString(l) {
			continue
		}
		for j := i; j < len(lines) && j < i+4; j++ {
			if m := regexp.MustCompile(`\b(fn|struct) (\w+)`).FindStringSubmatch(lines[j]); m != nil {
				out = append(out, filepath.Base(path)+": "+m[2])
				break
			}
		}
	}
	return out
}
