package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// ---------- unit reports (worker -> parent) ----------

type groupRes struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos"`
	N      int      `json:"n"`
	Proved int      `json:"proved"`
	Status string   `json:"status"` // discharged | refuted | undecided
	Sec    float64  `json:"sec"`
	Solver string   `json:"solver,omitempty"`
	Output string   `json:"output,omitempty"`
	Trace  []string `json:"trace,omitempty"`
	Model  string   `json:"model,omitempty"`
	bad    *Obl
}

type unitReport struct {
	Key         string             `json:"key"`
	Err         string             `json:"err,omitempty"`
	Missing     bool               `json:"missing,omitempty"`
	Trusted     bool               `json:"trusted,omitempty"`
	Groups      []groupRes         `json:"groups"`
	Trivial     int                `json:"trivial"`
	Paths       int                `json:"paths"`
	Used        []string           `json:"used"`
	Sec         float64            `json:"sec"`
	Loops       []*loopStat        `json:"loops"`
	Inlined     []string           `json:"inlined"`
	Lib         []string           `json:"lib"`
	Assumptions []string           `json:"assumptions"`
	Lemmas      []string           `json:"lemmas"`
	SolverSec   map[string]float64 `json:"solver_sec"`
	Wins        map[string]int     `json:"wins"`
	Checks      int                `json:"path_checks"`
	Consts      []string           `json:"consts,omitempty"`
	Touched     []string           `json:"touched,omitempty"`
}

func newVerifier(repo, verif string, prop, tier string) (*Verifier, []*Obl, error) {
	P, err := loadProgram(repo, verif, []string{"./..."})
	if err != nil {
		return nil, nil, err
	}
	V := &Verifier{repo: repo, verif: verif, P: P, prop: prop, tier: tier, candSec: 1.5, globals: map[*ssa.Global]int{}, gcache: map[*ssa.Global]*gconst{},
		assumptions: map[string]bool{}, libUsed: map[string]bool{}, inlined: map[string]bool{}, loopLog: map[string]*loopStat{}, touched: map[*ssa.Function]bool{}}
	V.indexFuncs()
	S, err := loadSpecs(P, filepath.Join(verif, "contracts"))
	if err != nil {
		return nil, nil, err
	}
	V.specs = S
	V.sess = newSession()
	lo, err := V.loadLemmas()
	if err != nil {
		return nil, nil, err
	}
	return V, lo, nil
}

var usedLemmas = map[string]bool{}

func hideFor(hide [][2]string, o *Obl) (out []string) {
	for _, h := range hide {
		if h[0] != "" && strings.Contains(o.Name, h[0]) {
			out = append(out, h[1])
		}
	}
	return
}

func solveGroup(obls []*Obl, hide [][2]string, s1, s2 float64) []groupRes {
	var order []string
	by := map[string][]*Obl{}
	for _, o := range obls {
		if _, ok := by[o.Name]; !ok {
			order = append(order, o.Name)
		}
		by[o.Name] = append(by[o.Name], o)
		if o.text == "" {
			o.text = buildQueryLocked(append(append([]*Term{}, o.PC...), Not(o.Goal)), hideFor(hide, o)...)
		}
	}
	out := make([]groupRes, len(order))
	var wg sync.WaitGroup
	var mu0 sync.Mutex
	nfail := 0
	gsem := make(chan struct{}, 6)
	for gi, name := range order {
		wg.Add(1)
		gsem <- struct{}{}
		go func(gi int, name string) {
			defer func() { <-gsem }()
			defer wg.Done()
			os_ := by[name]
			g := groupRes{Name: name, Kind: os_[0].Kind, Pos: os_[0].Pos, N: len(os_), Status: "discharged"}
			var mu sync.Mutex
			var iw sync.WaitGroup
			failed := false
			isem := make(chan struct{}, 4)
			mu0.Lock()
			s2 := s2
			if nfail >= 2 {
				s2 = min(s2, 2)
			}
			mu0.Unlock()
			for _, o := range os_ {
				mu.Lock()
				stop := failed
				mu.Unlock()
				if stop {
					break
				}
				iw.Add(1)
				isem <- struct{}{}
				go func(o *Obl) {
					defer iw.Done()
					defer func() { <-isem }()
					if d := os.Getenv("GOVC_DUMPALL"); d != "" {
						os.WriteFile(filepath.Join(d, strings.ReplaceAll(fmt.Sprintf("%s_%s.smt2", sanitize(o.Unit), sanitize(o.Name)), "/", ".")), []byte(o.text), 0o644)
					}
					r := solve(o.text, s1, 0)
					if r.Status == "unknown" {
						t0 := r.Time
						if x, ok := solveSplit(o.PC, o.Goal, s1, s1, hideFor(hide, o)...); ok {
							r = x
						} else {
							r = solve(o.text, 0, s2)
						}
						r.Time += t0
					}
					mu.Lock()
					defer mu.Unlock()
					g.Sec += r.Time.Seconds()
					switch r.Status {
					case "unsat":
						g.Proved++
						g.Solver = r.Solver
					default:
						if d := os.Getenv("GOVC_DUMP"); d != "" {
							os.MkdirAll(d, 0o755)
							os.WriteFile(filepath.Join(d, strings.ReplaceAll(fmt.Sprintf("%s_%s_%d.smt2", sanitize(o.Unit), sanitize(o.Name), len(g.Trace)), "/", ".")), []byte(o.text), 0o644)
						}
						if g.Status != "refuted" {
							g.Status = "undecided"
							if r.Status == "sat" {
								g.Status = "refuted"
							}
							g.Solver, g.Pos, g.Trace = r.Solver, o.Pos, o.Trace
							out := r.Out
							if len(out) > 2000 {
								out = out[:2000]
							}
							g.Output = fmt.Sprintf("%s answered %q: %s", r.Solver, r.Status, out)
						}
						failed = true
						mu0.Lock()
						nfail++
						mu0.Unlock()
						if g.Status == "refuted" {
							g.bad = o
						}
					}
				}(o)
			}
			iw.Wait()
			out[gi] = g
		}(gi, name)
	}
	wg.Wait()
	return out
}

func (V *Verifier) report(c *Contract, s1, s2 float64) *unitReport {
	V.assumptions, V.libUsed, V.inlined, V.loopLog = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]*loopStat{}
	V.touched = map[*ssa.Function]bool{}
	solverMu.Lock()
	solverTime, solverWins = map[string]time.Duration{}, map[string]int{}
	solverMu.Unlock()
	usedLemmas = map[string]bool{}
	hiddenAxioms = map[string]bool{}
	for _, h := range c.Hide {
		if h[0] == "" {
			hiddenAxioms[h[1]] = true
		}
	}
	defer func() { hiddenAxioms = nil }()
	c0 := V.sess.Checks
	res := V.runUnit(c)
	r := &unitReport{Key: c.Key, Err: res.Err, Missing: res.Missing, Trusted: res.Trusted, Trivial: res.Trivial, Paths: res.Paths, Used: res.Used, Sec: res.Time.Seconds()}
	if res.Err == "" || len(res.Obls) > 0 {
		if c.TimeoutX > 0 {
			s1, s2 = s1*c.TimeoutX, s2*c.TimeoutX
		}
		if res.Err == "" {
			// reachability: the assumptions made along the returning paths must not be contradictory
			cov := make(chan bool, 1)
			go func() {
				for i, q := range res.Covers {
					if d := os.Getenv("GOVC_DUMPALL"); d != "" {
						os.WriteFile(fmt.Sprintf("%s/cover%d.smt2", d, i), []byte(q), 0o644)
					}
					if solve(q, 1.2, 0).Status != "unsat" {
						cov <- true
						return
					}
				}
				cov <- len(res.Covers) == 0
			}()
			r.Groups = solveGroup(res.Obls, c.Hide, s1, s2)
			for i := range r.Groups {
				if o := r.Groups[i].bad; o != nil && i < 4 {
					r.Groups[i].Model = modelOf(o, res.Inputs)
				}
			}
			if !<-cov {
				r.Err = "vacuous: no returning path is reachable under the assumptions"
			}
		}
	}
	for _, k := range sortedKeys(V.loopLog) {
		r.Loops = append(r.Loops, V.loopLog[k])
	}
	r.Inlined, r.Lib, r.Assumptions, r.Lemmas = sortedKeys(V.inlined), sortedKeys(V.libUsed), sortedKeys(V.assumptions), sortedKeys(usedLemmas)
	r.SolverSec, r.Wins = map[string]float64{}, map[string]int{}
	solverMu.Lock()
	for k, v := range solverTime {
		r.SolverSec[k] = v.Seconds()
	}
	for k, v := range solverWins {
		r.Wins[k] = v
	}
	solverMu.Unlock()
	r.Checks = V.sess.Checks - c0
	for f := range V.touched {
		r.Touched = append(r.Touched, fnKey(f))
	}
	sort.Strings(r.Touched)
	bad := r.Err != ""
	for _, g := range r.Groups {
		if g.Status != "discharged" {
			bad = true
		}
	}
	if bad {
		r.Consts = V.constsOf(c, r.Inlined)
	}
	return r
}

// constsOf: the literal constants in the function and what was inlined in it, as hints for the replay harness.
func (V *Verifier) constsOf(c *Contract, inl []string) []string {
	m := map[string]bool{}
	var walk func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil {
						switch k.Value.Kind() {
						case constant.Int:
							m["i:"+k.Value.ExactString()] = true
						case constant.String:
							m["s:"+constant.StringVal(k.Value)] = true
						case constant.Float:
							f, _ := constant.Float64Val(k.Value)
							m[fmt.Sprintf("f:%v", f)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(V.findFunc(c.Key))
	for _, k := range inl {
		walk(V.findFunc(k))
	}
	return sortedKeys(m)
}

// ---------- worker ----------

func workerMain(repo, verif, prop, tier string) {
	solverSem = make(chan struct{}, 6)
	enc := json.NewEncoder(os.Stdout)
	V, _, err := newVerifier(repo, verif, prop, tier)
	if err != nil {
		enc.Encode(map[string]string{"fatal": err.Error()})
		return
	}
	enc.Encode(map[string]string{"ready": "1"})
	defer V.sess.close()
	lines := make(chan string, 64)
	go func() {
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<20)
		for in.Scan() {
			if in.Text() == "!" {
				setFailFast()
				continue
			}
			lines <- in.Text()
		}
		close(lines)
	}()
	for k := range lines {
		disc := false
		if strings.HasPrefix(k, "+") {
			disc = true
			k = k[1:]
		}
		c := V.specs.Contracts[k]
		if c == nil {
			enc.Encode(&unitReport{Key: k, Err: "no contract"})
			continue
		}
		c.discipline = disc
		s1, s2 := timeouts(tier)
		if V.sess.dead {
			V.sess = newSession()
		}
		enc.Encode(V.report(c, s1, s2))
	}
}

func timeouts(tier string) (float64, float64) {
	if tier == "thorough" {
		return 15, 60
	}
	return 5, 20
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	mu  sync.Mutex
}

func startWorker(repo, verif, prop, tier string) (*worker, error) {
	self, _ := os.Executable()
	w := &worker{}
	w.cmd = exec.Command(self, "worker", "-repo", repo, "-verif", verif, "-property", prop, "-tier", tier)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)
	w.cmd.Stderr = os.Stderr
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

// ---------- main ----------

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|unit|list|worker ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	disc := fs.Bool("discipline", false, "")
	nw := fs.Int("workers", 0, "")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = "quick"
	}
	if *nw == 0 {
		*nw = runtime.NumCPU() - 2
		if *nw < 1 {
			*nw = 1
		}
		if *nw > 6 {
			*nw = 6
		}
	}
	switch os.Args[1] {
	case "worker":
		workerMain(*repo, *verif, *prop, *tier)
	case "unit":
		t0 := time.Now()
		V, lo, err := newVerifier(*repo, *verif, *prop, *tier)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		defer V.sess.close()
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		for _, k := range fs.Args() {
			if k == "lemmas" {
				for _, g := range solveGroup(lo, nil, 5, 20) {
					printGroup(g)
				}
				continue
			}
			if k == "axioms" {
				bad, n := axiomConsistency(4)
				fmt.Printf("axioms: %d sets tried, %d contradictory\n", n, len(bad))
				for _, b := range bad {
					fmt.Println("  " + b)
				}
				continue
			}
			any := false
			for _, ck := range V.specs.Order {
				if ck == k || (strings.HasSuffix(k, "*") && strings.HasPrefix(ck, strings.TrimSuffix(k, "*"))) {
					any = true
					c := V.specs.Contracts[ck]
					c.discipline = *disc
					s1, s2 := timeouts(*tier)
					r := V.report(c, s1, s2)
					printUnit(r)
				}
			}
			if !any {
				fmt.Println("no contract for", k)
			}
		}
	case "list":
		V, _, err := newVerifier(*repo, *verif, *prop, *tier)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		defer V.sess.close()
		if *disc {
			for _, f := range V.allFuncs {
				fmt.Println(fnKey(f))
			}
			return
		}
		for _, k := range V.specs.Order {
			c := V.specs.Contracts[k]
			fmt.Println(k, c.Props, c.Kind)
		}
	case "check":
		os.Exit(checkMain(*repo, *verif, *prop, *tier, *nw))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func printGroup(g groupRes) {
	if g.Status == "discharged" {
		if os.Getenv("GOVC_V") != "" {
			fmt.Printf("  ok   %-50s n=%d %.2fs %s\n", g.Name, g.N, g.Sec, g.Solver)
		}
		return
	}
	fmt.Printf("  FAIL %-50s %s n=%d proved=%d at %s %.2fs\n", g.Name, g.Status, g.N, g.Proved, g.Pos, g.Sec)
	for _, t := range g.Trace {
		fmt.Printf("         %s\n", t)
	}
	o := g.Output
	if len(o) > 300 {
		o = o[:300]
	}
	fmt.Println("      ", o)
}

func printUnit(r *unitReport) {
	n, d := 0, 0
	for _, g := range r.Groups {
		n += g.N
		d += g.Proved
	}
	fmt.Printf("%s: paths=%d obligations=%d discharged=%d trivial=%d exec=%.2fs checks=%d solver=%v\n", r.Key, r.Paths, n, d, r.Trivial, r.Sec, r.Checks, r.SolverSec)
	if r.Err != "" {
		fmt.Println("  ERR ", r.Err)
	}
	for _, g := range r.Groups {
		printGroup(g)
	}
	if os.Getenv("GOVC_V") != "" {
		for _, l := range r.Loops {
			fmt.Printf("  loop %s cands=%d kept=%d\n", l.Key, l.Cands, l.Kept)
		}
		fmt.Println("  used", r.Used, "inlined", r.Inlined, "lib", r.Lib, "lemmas", r.Lemmas)
		for _, a := range r.Assumptions {
			fmt.Println("  assume:", a)
		}
	}
}

// modelOf: values of the scalar inputs in a model of the failed obligation.
func modelOf(o *Obl, in []inputTerm) string {
	var names []string
	var terms []*Term
	add := func(n string, t *Term) {
		if len(terms) < 60 {
			names = append(names, n)
			terms = append(terms, t)
		}
	}
	for _, i := range in {
		for j, t := range i.V.L {
			n := i.Name
			if len(i.V.L) > 1 {
				n = fmt.Sprintf("%s.%d", i.Name, j)
			}
			switch t.Sort {
			case sInt, sBool, sF64:
				add(n, t)
			case sStr:
				add("len("+n+")", App("slen", sInt, t))
				for k := int64(0); k < 6; k++ {
					add(fmt.Sprintf("%s[%d]", n, k), mkSat(t, Int(k)))
				}
			}
		}
	}
	if len(terms) == 0 {
		return ""
	}
	q := buildQuery(append(append([]*Term{}, o.PC...), Not(o.Goal)), terms)
	r := runBackendSimple("z3-new", 5, q)
	if r.Status != "sat" {
		return ""
	}
	ls := strings.Split(strings.TrimSpace(r.Out), "\n")
	return strings.Join(names, " ") + "\n" + strings.Join(ls[1:], "\n")
}
