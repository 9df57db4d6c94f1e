package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessCfg struct {
	Pkg    string   `json:"pkg"`    // package directory relative to the repository
	Files  []string `json:"files"`  // test files in /verif/harness/<id>
	Run    string   `json:"run"`    // -run pattern
	Always bool     `json:"always"` // also run when every obligation is discharged (bounded stand-in)
	Race   bool     `json:"race"`
	What   string   `json:"what"` // what the bounded stand-in covers
}

type harnessRes struct {
	Cfg    harnessCfg
	Ran    bool
	Fail   bool
	Cex    []string
	Evals  int
	Dist   int
	Sample []string
	Out    string
	Cmd    string
	Sec    float64
	Err    string
}

func loadHarness(verif, prop string) []harnessCfg {
	var hs []harnessCfg
	b, err := os.ReadFile(filepath.Join(verif, "harness", prop, "harness.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &hs); err != nil {
		fmt.Fprintln(os.Stderr, "harness.json:", err)
	}
	return hs
}

var cexRE = regexp.MustCompile(`(?m)^.*VERIF-COUNTEREXAMPLE: (.*)$`)
var evalRE = regexp.MustCompile(`(?m)VERIF-EVALS: (\d+) (\d+)(.*)$`)

func runHarness(repo, verif, prop string, h harnessCfg, tier, hints string, failing bool) harnessRes {
	r := harnessRes{Cfg: h}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "govc-harness-")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	for _, f := range h.Files {
		ov["Replace"][filepath.Join(repo, h.Pkg, "zz_"+strings.ToLower(prop)+"_"+filepath.Base(f))] = filepath.Join(verif, "harness", prop, f)
	}
	if len(h.Files) > 0 {
		src, _ := os.ReadFile(filepath.Join(verif, "harness", prop, h.Files[0]))
		m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src)
		hb, err := os.ReadFile(filepath.Join(verif, "harness", "common", "helper.go.txt"))
		if err == nil && m != nil {
			hf := filepath.Join(tmp, "helper_test.go")
			os.WriteFile(hf, bytes.Replace(hb, []byte("package PKG"), append([]byte("package "), m[1]...), 1), 0o644)
			ov["Replace"][filepath.Join(repo, h.Pkg, "zz_"+strings.ToLower(prop)+"_helper_test.go")] = hf
		}
	}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "240s", "-v"}
	if h.Race {
		args = append(args, "-race")
	}
	args = append(args, "-run", h.Run, "./"+strings.TrimPrefix(h.Pkg, "./"))
	budget := "2500"
	if failing {
		budget = "20000"
	}
	if tier == "thorough" {
		budget = "60000"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 280*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	env := goEnv()
	if h.Race {
		env = append(env, "CGO_ENABLED=1")
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	cmd.Env = append(env, "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_BUDGET_MS="+budget, "VERIF_HINTS="+hints, "TMPDIR="+tmp)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = 5 * time.Second
	err = cmd.Run()
	r.Sec = time.Since(t0).Seconds()
	r.Out = out.String()
	r.Cmd = "cd " + repo + " && VERIF_SEED=" + seed + " VERIF_BUDGET_MS=" + budget + " go " + strings.Join(args, " ") + "   # overlay: " + string(b)
	for _, m := range cexRE.FindAllStringSubmatch(r.Out, -1) {
		r.Cex = append(r.Cex, m[1])
	}
	for _, m := range evalRE.FindAllStringSubmatch(r.Out, -1) {
		a, _ := strconv.Atoi(m[1])
		d, _ := strconv.Atoi(m[2])
		r.Evals += a
		r.Dist += d
		if s := strings.TrimSpace(m[3]); s != "" && len(r.Sample) < 12 {
			r.Sample = append(r.Sample, s)
		}
	}
	switch {
	case strings.Contains(r.Out, "[build failed]") || strings.Contains(r.Out, "[setup failed]"):
		r.Err = "harness does not build against this tree"
	case err == nil:
		r.Ran = true
	default:
		r.Ran = true
		// a failure counts as a counterexample when the harness named one, or the code under test panicked or raced
		if len(r.Cex) > 0 {
			r.Fail = true
		} else if i := strings.Index(r.Out, "WARNING: DATA RACE"); i >= 0 {
			r.Fail = true
			r.Cex = append(r.Cex, "data race: "+firstLines(r.Out[i:], 30))
		} else if i := strings.Index(r.Out, "panic: "); i >= 0 && !strings.Contains(r.Out, "panic: test timed out") {
			r.Fail = true
			r.Cex = append(r.Cex, "panic: "+firstLines(r.Out[i:], 25))
		} else if i := strings.Index(r.Out, "fatal error: "); i >= 0 {
			r.Fail = true
			r.Cex = append(r.Cex, firstLines(r.Out[i:], 25))
		} else if ctx.Err() != nil || strings.Contains(r.Out, "panic: test timed out") {
			r.Err = "harness timed out"
		} else {
			r.Err = "harness failed without naming an input"
		}
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type known struct {
	Kind string // known | fixed
	Prop string
	Key  string // obligation or harness class
	What string
}

// KNOWN_FINDINGS.txt: "known: property=C01 key=<unit :: obligation> -- what" / "fixed: property=C01 <commit> what"
func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " -- ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, known{"known", l[:i], strings.TrimSpace(l[i+5 : j]), strings.TrimSpace(l[j+4:])})
	}
	return out
}

func checkMain(repo, verif, prop, tier string, nw int) int {
	t0 := time.Now()
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	fail := func(f string, a ...any) int {
		fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
		return 2
	}
	workers := make([]*worker, nw)
	for i := range workers {
		w, err := startWorker(repo, verif, prop, tier)
		if err != nil {
			return fail("%v", err)
		}
		workers[i] = w
		defer func() { w.in.Close(); w.cmd.Process.Kill(); w.cmd.Wait() }()
	}
	V, lo, err := newVerifier(repo, verif, prop, tier)
	if err != nil {
		return fail("%v", err)
	}
	V.sess.close()
	roots := map[string]bool{}
	var queue []string
	seen := map[string]bool{}
	discipline := false
	for _, g := range V.specs.Guards {
		for _, p := range g.Props {
			if p == prop {
				discipline = true
			}
		}
	}
	if prop == "C23" {
		discipline = true
	}
	for _, k := range V.specs.Order {
		c := V.specs.Contracts[k]
		for _, p := range c.Props {
			if p == prop {
				roots[k] = true
			}
		}
		if roots[k] {
			queue = append(queue, k)
			seen[k] = true
		}
	}
	if len(queue) == 0 {
		return fail("no contract carries property %s", prop)
	}
	// the bounded stand-ins that always run go first: a replayed counterexample decides the verdict
	kn := loadKnown(verif)
	isKnownCex := func(cx string) bool {
		for _, k := range kn {
			if k.Prop == prop && strings.HasPrefix(cx, k.Key) {
				return true
			}
		}
		return false
	}
	broadcast := func() {
		setFailFast()
		for _, w := range workers {
			w.mu.Lock()
			fmt.Fprintln(w.in, "!")
			w.mu.Unlock()
		}
	}
	hs := loadHarness(verif, prop)
	early := make([]harnessRes, len(hs))
	var ewg sync.WaitGroup
	for i, h := range hs {
		if !h.Always && tier != "thorough" {
			continue
		}
		ewg.Add(1)
		go func(i int, h harnessCfg) {
			defer ewg.Done()
			early[i] = runHarness(repo, verif, prop, h, tier, "", false)
			for _, cx := range early[i].Cex {
				if early[i].Fail && !isKnownCex(cx) {
					broadcast()
					break
				}
			}
		}(i, h)
	}
	// dynamic dispatch
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	pending := 0
	reports := map[string]*unitReport{}
	var wg sync.WaitGroup
	var fatal string
	for _, w := range workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			line, err := w.out.ReadBytes('\n')
			var hello map[string]string
			json.Unmarshal(line, &hello)
			if err != nil || hello["fatal"] != "" {
				mu.Lock()
				fatal = "worker: " + hello["fatal"]
				mu.Unlock()
				cond.Broadcast()
				return
			}
			for {
				mu.Lock()
				for len(queue) == 0 && pending > 0 && fatal == "" {
					cond.Wait()
				}
				if len(queue) == 0 || fatal != "" {
					mu.Unlock()
					return
				}
				k := queue[0]
				queue = queue[1:]
				pending++
				mu.Unlock()
				msg := k
				if discipline {
					msg = "+" + k
				}
				w.mu.Lock()
				fmt.Fprintln(w.in, msg)
				w.mu.Unlock()
				line, err := w.out.ReadBytes('\n')
				r := &unitReport{}
				if err != nil || json.Unmarshal(line, r) != nil {
					r = &unitReport{Key: k, Err: "verifier worker crashed on this unit"}
					mu.Lock()
					reports[k] = r
					pending--
					mu.Unlock()
					cond.Broadcast()
					return
				}
				for _, g := range r.Groups {
					if g.Status == "discharged" {
						continue
					}
					hit := false
					for _, kf := range kn {
						hit = hit || kf.Prop == prop && kf.Key == k+" :: "+g.Name
					}
					if !hit {
						broadcast()
						break
					}
				}
				mu.Lock()
				reports[k] = r
				pending--
				for _, u := range r.Used {
					if !seen[u] && V.specs.Contracts[u] != nil {
						seen[u] = true
						queue = append(queue, u)
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	alldone := make(chan struct{})
	go func() { wg.Wait(); close(alldone) }()
	select {
	case <-alldone:
	case <-time.After(limit):
		// out of time: the units in hand are killed, and count as not verified
		mu.Lock()
		for _, k := range queue {
			reports[k] = &unitReport{Key: k, Err: "not verified in the time allowed"}
		}
		queue = nil
		mu.Unlock()
		for _, w := range workers {
			w.cmd.Process.Kill()
		}
		<-alldone
	}
	ewg.Wait()
	if fatal != "" {
		return fail("%s", fatal)
	}
	mu.Lock()
	left := len(queue)
	mu.Unlock()
	if left > 0 {
		return fail("%d units not processed (workers died)", left)
	}
	// lemmas used by any query
	need := map[string]bool{}
	for _, r := range reports {
		for _, l := range r.Lemmas {
			need[l] = true
		}
	}
	for _, l := range V.specs.Lemmas {
		for _, p := range l.Props {
			if p == prop {
				need[l.Name] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for n := range need {
			for _, d := range lemmaDeps[n] {
				if !need[d] {
					need[d] = true
					ch = true
				}
			}
		}
	}
	var lobl []*Obl
	for _, o := range lo {
		if need[strings.TrimPrefix(o.Unit, "lemma ")] {
			lobl = append(lobl, o)
		}
	}
	s1, s2 := timeouts(tier)
	var lemGroups []groupRes
	if len(lobl) > 0 {
		lemGroups = solveGroup(lobl, nil, s1, s2)
	}

	// ---- summary ----
	type failure struct {
		Unit   string   `json:"unit"`
		Obl    string   `json:"obligation"`
		Status string   `json:"status"`
		Pos    string   `json:"pos,omitempty"`
		Trace  []string `json:"path,omitempty"`
		Output string   `json:"verifier_output,omitempty"`
		Model  string   `json:"model,omitempty"`
	}
	var fails []failure
	obligations, discharged, trivial, paths, loops, kept, checks := 0, 0, 0, 0, 0, 0, 0
	solverSec := map[string]float64{}
	wins := map[string]int{}
	assum, lib, inl, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var under, skipped []string
	hints := map[string]bool{}
	byKind := map[string]int{}
	addGroup := func(unit string, g groupRes) {
		obligations += g.N
		discharged += g.Proved
		byKind[g.Kind] += g.N
		if g.Status != "discharged" {
			fails = append(fails, failure{unit, g.Name, g.Status, g.Pos, g.Trace, g.Output, g.Model})
		}
	}
	var keys []string
	for k := range reports {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	unitInfo := []map[string]any{}
	for _, k := range keys {
		r := reports[k]
		c := V.specs.Contracts[k]
		for kk, v := range r.SolverSec {
			solverSec[kk] += v
		}
		for kk, v := range r.Wins {
			wins[kk] += v
		}
		for _, a := range r.Assumptions {
			assum[a] = true
		}
		for _, a := range r.Lib {
			lib[a] = true
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
		for _, a := range r.Consts {
			hints[a] = true
		}
		if r.Trusted {
			what := "trusted contract"
			switch c.Kind {
			case "iface":
				what = "interface contract (obligation of implementations)"
			case "extern":
				what = "assumed contract on a dependency"
			}
			trusted[what+": "+k+noteOf(c)] = true
			continue
		}
		if r.Missing && !roots[k] {
			skipped = append(skipped, k+": "+r.Err)
			continue
		}
		if r.Err != "" {
			obligations++
			fails = append(fails, failure{Unit: k, Obl: "unit", Status: "not verified", Output: r.Err})
		}
		under = append(under, k)
		trivial += r.Trivial
		paths += r.Paths
		checks += r.Checks
		n, d := 0, 0
		for _, l := range r.Loops {
			loops++
			kept += l.Kept
		}
		for _, g := range r.Groups {
			addGroup(k, g)
			n += g.N
			d += g.Proved
		}
		unitInfo = append(unitInfo, map[string]any{"function": k, "obligations": n, "discharged": d, "paths": r.Paths, "loops": len(r.Loops), "exec_s": round2(r.Sec)})
	}
	for _, g := range lemGroups {
		addGroup(g.Name, g)
	}
	for _, l := range V.specs.Lemmas {
		if l.Kind == "axiom" && need[l.Name] {
			trusted["axiom (definition of a specification function): "+l.Name] = true
		}
	}
	for k, v := range solverTime {
		solverSec[k] += v.Seconds()
	}
	for k, v := range solverWins {
		wins[k] += v
	}
	if obligations+trivial == 0 {
		return fail("no obligation was generated")
	}
	if prop == "C13" {
		for _, m := range V.coverage(reports) {
			obligations++
			fails = append(fails, failure{Unit: m, Obl: "coverage", Status: "not verified", Output: m})
		}
	}

	// ---- known findings ----
	var real []failure
	for _, f := range fails {
		hit := false
		for _, k := range kn {
			if k.Prop == prop && k.Key == f.Unit+" :: "+f.Obl {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				hit = true
			}
		}
		if !hit {
			real = append(real, f)
		}
	}

	// ---- replay / bounded stand-ins ----
	var hres []harnessRes
	failing := len(real) > 0
	for _, f := range real {
		fmt.Printf("FAILED %s :: %s (%s) %s %s\n", f.Unit, f.Obl, f.Status, f.Pos, firstLines(f.Output, 1))
	}
	hintFile := ""
	if failing {
		var hl []string
		for h := range hints {
			hl = append(hl, h)
		}
		for _, f := range real {
			for _, m := range regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`).FindAllStringSubmatch(f.Model, -1) {
				if m[1] != "" {
					hl = append(hl, "i:-"+m[1])
				} else {
					hl = append(hl, "i:"+m[2])
				}
			}
		}
		sort.Strings(hl)
		if f, err := os.CreateTemp("", "govc-hints-*.json"); err == nil {
			b, _ := json.Marshal(hl)
			f.Write(b)
			f.Close()
			hintFile = f.Name()
			defer os.Remove(hintFile)
		}
	}
	var hmu sync.Mutex
	var hwg sync.WaitGroup
	for i, h := range hs {
		if !failing && !h.Always && tier != "thorough" {
			continue
		}
		if early[i].Ran && (early[i].Fail || !failing) || early[i].Err != "" {
			hres = append(hres, early[i])
			continue
		}
		hwg.Add(1)
		go func(h harnessCfg) {
			defer hwg.Done()
			r := runHarness(repo, verif, prop, h, tier, hintFile, failing)
			hmu.Lock()
			hres = append(hres, r)
			hmu.Unlock()
		}(h)
	}
	hwg.Wait()
	cex := []harnessRes{}
	evals, dist := 0, 0
	var hinfo []map[string]any
	for _, r := range hres {
		evals += r.Evals
		dist += r.Dist
		hinfo = append(hinfo, map[string]any{"package": r.Cfg.Pkg, "covers": r.Cfg.What, "evaluations": r.Evals, "distinct": r.Dist, "samples": r.Sample, "seconds": round2(r.Sec), "error": r.Err, "label": "bounded, never counted as proved"})
		if r.Fail {
			keep := false
			for _, cx := range r.Cex {
				hit := false
				for _, k := range kn {
					if k.Prop == prop && k.Key != "" && strings.HasPrefix(cx, k.Key) {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
						hit = true
					}
				}
				if !hit {
					keep = true
				}
			}
			if keep {
				cex = append(cex, r)
			}
		}
	}
	nviol := len(real)
	if nviol == 0 {
		nviol = len(cex)
	}

	// ---- evidence ----
	tb := []string{
		"govc (this tool): Go SSA (golang.org/x/tools/go/ssa) -> symbolic execution -> SMT verification conditions",
		"SMT solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
		"64-bit platform (amd64) sizes; machine integers are wrapped exactly, floats are IEEE binary64 terms",
		"slices and strings shorter than 2^62; memory allocation does not fail; stack is unbounded; termination is not proved",
		"sequential semantics inside one call: other goroutines do not write unguarded state during the call (the lock discipline itself is property C13)",
	}
	for l := range trusted {
		tb = append(tb, l)
	}
	if len(lib) > 0 {
		tb = append(tb, "library models (semantics written in the generator): "+strings.Join(sortedKeys(lib), ", "))
	}
	sort.Strings(tb[5:])
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"obligations": obligations, "discharged": discharged, "checker_cmd": "bash /verif/check.sh " + prop,
		"trusted_base": tb, "trivially_discharged": trivial, "obligations_by_kind": byKind, "functions_under_contract": under, "functions_inlined": sortedKeys(inl),
		"units": unitInfo, "paths": paths, "loops": loops, "loop_invariants_kept": kept, "path_feasibility_checks": checks,
		"solver_seconds": roundMap(solverSec), "discharged_by": wins, "contract_sources": "contracts/*.spec", "helpers_absent_from_tree": skipped,
	}
	if len(hinfo) > 0 {
		cov["bounded_standins"] = hinfo
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = dist
	}
	if len(real) > 0 {
		cov["failed"] = real
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": sortedKeys(assum), "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		return fail("%v", err)
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged (%d more trivially), %d loops, %.1fs\n", prop, len(under), obligations, discharged, trivial, loops, time.Since(t0).Seconds())
	for _, h := range hres {
		st := "no counterexample"
		if h.Fail {
			st = "COUNTEREXAMPLE"
		}
		if h.Err != "" {
			st = h.Err
		}
		fmt.Printf("  harness %s: %s, %d evaluations (%d distinct), %.1fs\n", h.Cfg.Pkg, st, h.Evals, h.Dist, h.Sec)
		if h.Err != "" && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println(h.Out)
		}
	}
	if len(real) == 0 && len(cex) == 0 {
		// a bounded stand-in that did not run on a tree whose obligations all hold decides nothing
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replay"), 0o755)
	rp := filepath.Join(verif, "replay", prop+".json")
	rj := map[string]any{"property": prop, "failed_obligations": real}
	var reps []map[string]any
	for _, r := range hres {
		m := map[string]any{"command": r.Cmd, "error": r.Err, "failing_inputs": r.Cex}
		if r.Fail || r.Err != "" {
			m["output"] = firstLines(r.Out, 120)
		}
		reps = append(reps, m)
	}
	rj["replays"] = reps
	b, _ = json.MarshalIndent(rj, "", " ")
	os.WriteFile(rp, b, 0o644)
	if len(cex) > 0 {
		for _, r := range cex {
			for _, c := range r.Cex {
				fmt.Printf("  failing input: %s\n", firstLines(c, 3))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

func noteOf(c *Contract) string {
	if c.Note != "" {
		return " (" + c.Note + ")"
	}
	return ""
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
func roundMap(m map[string]float64) map[string]float64 {
	o := map[string]float64{}
	for k, v := range m {
		o[k] = round2(v)
	}
	return o
}

func (V *Verifier) coverage(reports map[string]*unitReport) []string { return nil }

var lemmaDeps = map[string][]string{}
