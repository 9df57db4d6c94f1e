package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- axioms ----------

type axiom struct {
	keys []string // included when all keys are used function symbols
	text string
	uses []string // further symbols it mentions
}

var baseAxioms = []axiom{
	{keys: []string{"slen"}, text: "(forall ((s Str)) (! (<= 0 (|slen| s)) :pattern ((|slen| s))))"},
	{keys: []string{"slen"}, text: "(forall ((s Str)) (! (=> (= (|slen| s) 0) (= s |lit$empty|)) :pattern ((|slen| s))))", uses: []string{"lit$empty"}},
	{keys: []string{"sat"}, text: "(forall ((s Str) (i Int)) (! (and (<= 0 (|sat| s i)) (<= (|sat| s i) 255)) :pattern ((|sat| s i))))"},
	{keys: []string{"scat"}, text: "(forall ((a Str) (b Str)) (! (= (|slen| (|scat| a b)) (+ (|slen| a) (|slen| b))) :pattern ((|scat| a b))))", uses: []string{"slen"}},
	{keys: []string{"scat", "sat"}, text: "(forall ((a Str) (b Str) (i Int)) (! (= (|sat| (|scat| a b) i) (ite (< i (|slen| a)) (|sat| a i) (|sat| b (- i (|slen| a))))) :pattern ((|sat| (|scat| a b) i))))", uses: []string{"slen"}},
	{keys: []string{"ssub"}, text: "(forall ((a Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (|slen| a))) (= (|slen| (|ssub| a l h)) (- h l))) :pattern ((|ssub| a l h))))", uses: []string{"slen"}},
	{keys: []string{"ssub", "sat"}, text: "(forall ((a Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 i) (<= 0 l) (<= l h) (<= h (|slen| a)) (< i (- h l))) (= (|sat| (|ssub| a l h) i) (|sat| a (+ l i)))) :pattern ((|sat| (|ssub| a l h) i))))", uses: []string{"slen"}},
	{keys: []string{"ssub"}, text: "(forall ((a Str) (l Int) (h Int)) (! (=> (and (= l 0) (= h (|slen| a))) (= (|ssub| a l h) a)) :pattern ((|ssub| a l h))))", uses: []string{"slen"}},
	{keys: []string{"ssub", "scat"}, text: "(forall ((a Str) (b Str) (l Int) (h Int)) (! (and (=> (and (= l (|slen| a)) (= h (+ (|slen| a) (|slen| b)))) (= (|ssub| (|scat| a b) l h) b)) (=> (and (= l 0) (= h (|slen| a))) (= (|ssub| (|scat| a b) l h) a))) :pattern ((|ssub| (|scat| a b) l h))))", uses: []string{"slen"}},
	{keys: []string{"str_of"}, text: "(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (|slen| (|str_of| a o n)) n)) :pattern ((|str_of| a o n))))", uses: []string{"slen"}},
	{keys: []string{"str_of", "sat"}, text: "(forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (|sat| (|str_of| a o n) i) (select a (+ o i)))) :pattern ((|sat| (|str_of| a o n) i))))"},
	{keys: []string{"bytes_of"}, text: "(forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (|slen| s))) (= (select (|bytes_of| s) i) (|sat| s i))) :pattern ((select (|bytes_of| s) i))))", uses: []string{"slen", "sat"}},
	{keys: []string{"bytestr"}, text: "(forall ((x Int)) (! (and (= (|slen| (|bytestr| x)) 1) (=> (and (<= 0 x) (<= x 255)) (= (|sat| (|bytestr| x) 0) x))) :pattern ((|bytestr| x))))", uses: []string{"slen", "sat"}},
	{keys: []string{"isdigit"}, text: "(forall ((x Int)) (! (=> (and (<= 0 x) (<= x 255)) (= (|isdigit| x) (and (<= 48 x) (<= x 57)))) :pattern ((|isdigit| x))))"},
	{keys: []string{"isletter"}, text: "(forall ((x Int)) (! (=> (and (<= 0 x) (<= x 127)) (= (|isletter| x) (or (and (<= 65 x) (<= x 90)) (and (<= 97 x) (<= x 122))))) :pattern ((|isletter| x))))"},
	{keys: []string{"strlt"}, text: "(forall ((a Str) (b Str)) (! (and (not (and (|strlt| a b) (|strlt| b a))) (or (= a b) (|strlt| a b) (|strlt| b a))) :pattern ((|strlt| a b))))"},
	{keys: []string{"strlt"}, text: "(forall ((a Str)) (! (not (|strlt| a a)) :pattern ((|strlt| a a))))"},
	{keys: []string{"strlt"}, text: "(forall ((a Str) (b Str) (c Str)) (! (=> (and (|strlt| a b) (|strlt| b c)) (|strlt| a c)) :pattern ((|strlt| a b) (|strlt| b c))))"},
	{keys: []string{"root"}, text: "(forall ((r Int)) (! (=> (<= 0 r) (= (|root| r) r)) :pattern ((|root| r))))"},
	{keys: []string{"root"}, text: "(forall ((r Int)) (! (<= 0 (|root| r)) :pattern ((|root| r))))"},
	{keys: []string{"elemref"}, text: "(forall ((a Int) (i Int)) (! (and (= (|earr| (|elemref| a i)) a) (= (|eidx| (|elemref| a i)) i) (= (|rkind| (|elemref| a i)) 1) (< (|elemref| a i) 0) (= (|root| (|elemref| a i)) (|root| a))) :pattern ((|elemref| a i))))", uses: []string{"earr", "eidx", "rkind", "root"}},
	{keys: []string{"earr", "elemref"}, text: "(forall ((r Int)) (! (=> (= (|rkind| r) 1) (= r (|elemref| (|earr| r) (|eidx| r)))) :pattern ((|earr| r))))", uses: []string{"eidx", "rkind"}},
	{keys: []string{"f64bits"}, text: "(forall ((x F64)) (! (and (= (|f64frombits| (|f64bits| x)) x) (<= 0 (|f64bits| x)) (<= (|f64bits| x) 18446744073709551615)) :pattern ((|f64bits| x))))", uses: []string{"f64frombits"}},
	{keys: []string{"f64frombits"}, text: "(forall ((b Int)) (! (=> (and (<= 0 b) (<= b 18446744073709551615) (not (fp.isNaN (|f64frombits| b)))) (= (|f64bits| (|f64frombits| b)) b)) :pattern ((|f64frombits| b))))", uses: []string{"f64bits"}},
	{keys: []string{"band"}, text: "(forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (|band| a b)) (<= (|band| a b) a) (<= (|band| a b) b))) :pattern ((|band| a b))))"},
	{keys: []string{"bor"}, text: "(forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= a (|bor| a b)) (<= b (|bor| a b)) (<= (|bor| a b) (+ a b)))) :pattern ((|bor| a b))))"},
	{keys: []string{"iface"}, text: "(forall ((t Int) (v Int)) (! (and (= (|iface.t| (|iface| t v)) t) (= (|iface.v| (|iface| t v)) v)) :pattern ((|iface| t v))))", uses: []string{"iface.t", "iface.v"}},
}

// axioms added at run time (fld injectivity, box injectivity, acopy, spec functions)
var dynAxioms = map[string]*axiom{} // by unique id
var dynOrder []string
var userAxioms []*userAxiom // from spec files
var hiddenAxioms map[string]bool

type userAxiom struct {
	name string
	t    *Term
	keys []string
	file string
}

var builtinSigs = map[string]string{
	"slen": "(Str) Int", "sat": "(Str Int) Int", "scat": "(Str Str) Str", "ssub": "(Str Int Int) Str",
	"str_of": "((Array Int Int) Int Int) Str", "bytes_of": "(Str) (Array Int Int)", "root": "(Int) Int",
	"elemref": "(Int Int) Int", "earr": "(Int) Int", "eidx": "(Int) Int", "rkind": "(Int) Int",
	"f64bits": "(F64) Int", "f64frombits": "(Int) F64", "band": "(Int Int) Int", "bor": "(Int Int) Int", "bxor": "(Int Int) Int",
	"sdiff": "(Str Str) Int", "iface": "(Int Int) Int", "iface.t": "(Int) Int", "iface.v": "(Int) Int",
}

var fldKinds = map[string]int{}

func fldFun(name string) string {
	fn := "fld$" + name
	if _, ok := fldKinds[fn]; !ok {
		k := len(fldKinds) + 2
		fldKinds[fn] = k
		inv := "inv" + fn
		builtinSigs[fn] = "(Int) Int"
		builtinSigs[inv] = "(Int) Int"
		addDyn(fn, &axiom{keys: []string{fn}, uses: []string{inv, "rkind", "root"},
			text: fmt.Sprintf("(forall ((r Int)) (! (and (= (|%s| (|%s| r)) r) (= (|rkind| (|%s| r)) %d) (< (|%s| r) 0) (= (|root| (|%s| r)) (|root| r))) :pattern ((|%s| r))))", inv, fn, fn, k, fn, fn, fn)})
		addDyn("inv$"+fn, &axiom{keys: []string{inv, fn}, uses: []string{"rkind"},
			text: fmt.Sprintf("(forall ((r Int)) (! (=> (= (|rkind| r) %d) (= r (|%s| (|%s| r)))) :pattern ((|%s| r))))", k, fn, inv, inv)})
	}
	return fn
}

func addDyn(id string, a *axiom) {
	if _, ok := dynAxioms[id]; ok {
		return
	}
	dynAxioms[id] = a
	dynOrder = append(dynOrder, id)
}

// acopy(dst,doff,src,soff,n): dst with n elements replaced
func acopyFun(s *Sort) string {
	fn := "acopy$" + sanitize(s.V.Name)
	if _, ok := builtinSigs[fn]; !ok {
		builtinSigs[fn] = fmt.Sprintf("(%s Int %s Int Int) %s", s.Name, s.Name, s.Name)
		addDyn(fn, &axiom{keys: []string{fn},
			text: fmt.Sprintf("(forall ((d %s) (do Int) (s %s) (so Int) (n Int) (i Int)) (! (= (select (|%s| d do s so n) i) (ite (and (<= do i) (< i (+ do n))) (select s (+ so (- i do))) (select d i))) :pattern ((select (|%s| d do s so n) i))))", s.Name, s.Name, fn, fn)})
	}
	return fn
}

// hcopy(H,dst,doff,src,soff,n) on struct field heaps: element refs of dst get the values of src's elements
func hcopyFun(s *Sort) string {
	fn := "hcopy$" + sanitize(s.V.Name)
	if _, ok := builtinSigs[fn]; !ok {
		builtinSigs[fn] = fmt.Sprintf("(%s Int Int Int Int Int) %s", s.Name, s.Name)
		addDyn(fn, &axiom{keys: []string{fn}, uses: []string{"elemref", "earr", "eidx", "rkind"},
			text: fmt.Sprintf("(forall ((h %s) (d Int) (do Int) (s Int) (so Int) (n Int) (r Int)) (! (= (select (|%s| h d do s so n) r) (ite (and (= (|rkind| r) 1) (= (|earr| r) d) (<= do (|eidx| r)) (< (|eidx| r) (+ do n))) (select h (|elemref| s (+ so (- (|eidx| r) do)))) (select h r))) :pattern ((select (|%s| h d do s so n) r))))", s.Name, fn, fn)})
	}
	return fn
}

func fpLit(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		return mk("fplit", "(_ NaN 11 53)", sF64)
	}
	return mk("fplit", fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1)), sF64)
}

// ---------- query printing ----------

type Query struct {
	Text string
	Size int
}

func collect(ts []*Term) (order []*Term, refs map[int]int) {
	refs = map[int]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.ID]++
		if refs[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

// strExt: ground extensionality instances for string equalities
func strExt(ts []*Term) []*Term {
	order, _ := collect(ts)
	var out []*Term
	for _, t := range order {
		if t.Op == "=" && !t.Bound && t.Args[0].Sort == sStr {
			a, b := t.Args[0], t.Args[1]
			d := mkApp("sdiff", sInt, a, b)
			sl := func(x *Term) *Term { return App("slen", sInt, x) }
			out = append(out, mk("or", "", sBool, t, Neq(sl(a), sl(b)),
				And(Le(Int(0), d), Lt(d, sl(a)), mk("not", "", sBool, mk("=", "", sBool, mkSat(a, d), mkSat(b, d))))))
			_ = b
		}
	}
	return out
}
func mkSat(s, i *Term) *Term { return App("sat", sInt, s, i) }

var skolMemo = map[int]*Term{}

// skolemize replaces universally quantified formulas in negative position (and existentials in positive
// position) that are not under another quantifier by instances at fresh constants.
func skolemize(t *Term, neg bool) *Term {
	if t.Bound || t.Sort != sBool {
		return t
	}
	switch t.Op {
	case "not":
		return Not(skolemize(t.Args[0], !neg))
	case "and", "or":
		out := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			out[i] = skolemize(a, neg)
			ch = ch || out[i] != a
		}
		if !ch {
			return t
		}
		if t.Op == "and" {
			return And(out...)
		}
		return Or(out...)
	case "=>":
		return Implies(skolemize(t.Args[0], !neg), skolemize(t.Args[1], neg))
	case "forall", "exists":
		if (t.Op == "forall") != neg {
			return t
		}
		if r, ok := skolMemo[t.ID]; ok {
			return r
		}
		m := map[int]*Term{}
		for _, b := range t.BVs {
			n := b.Name
			if i := strings.Index(n, "?"); i >= 0 {
				n = n[:i]
			}
			m[b.ID] = Fresh("sk$"+n, b.Sort)
		}
		r := skolemize(Subst(t.Args[0], m), neg)
		skolMemo[t.ID] = r
		return r
	}
	return t
}

func buildQuery(asserts []*Term, values []*Term) string {
	sk := make([]*Term, len(asserts))
	for i, a := range asserts {
		sk[i] = skolemize(a, false)
	}
	sk = witnessHints(sk)
	for i, a := range sk {
		sk[i] = reindex(a, false)
	}
	asserts = sk
	asserts = append(append([]*Term{}, asserts...), strExt(asserts)...)
	all := append(append([]*Term{}, asserts...), values...)
	// user axioms: include transitively
	used := map[string]bool{}
	lits := map[string]*Term{}
	vars := map[string]*Term{}
	note := func(ts []*Term) {
		order, _ := collect(ts)
		for _, t := range order {
			switch t.Op {
			case "app":
				used[t.Name] = true
			case "var":
				if _, ok := litOf[t.Name]; ok && t.Sort == sStr {
					lits[t.Name] = t
				} else {
					vars[t.Name] = t
				}
			}
		}
	}
	note(all)
	included := map[*userAxiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, ua := range userAxioms {
			if included[ua] || hiddenAxioms[ua.name] {
				continue
			}
			ok := true
			for _, k := range ua.keys {
				if !used[k] {
					ok = false
				}
			}
			if ok {
				included[ua] = true
				usedLemmas[ua.name] = true
				note([]*Term{ua.t})
				asserts = append(asserts, ua.t)
				all = append(all, ua.t)
				ch = true
			}
		}
	}
	// literal facts
	if len(lits) > 0 {
		used["slen"] = true
		used["sat"] = true
	}
	var axTexts []string
	incl := map[string]bool{}
	for ch := true; ch; {
		ch = false
		try := func(id string, a *axiom) {
			if incl[id] {
				return
			}
			for _, k := range a.keys {
				if !used[k] {
					return
				}
			}
			incl[id] = true
			ch = true
			axTexts = append(axTexts, a.text)
			for _, u := range a.uses {
				if strings.HasPrefix(u, "lit$") {
					lits[u] = Var(u, sStr)
					litOf["lit$empty"] = ""
					litNames[""] = "lit$empty"
					used["slen"] = true
				} else {
					used[u] = true
				}
			}
		}
		for i := range baseAxioms {
			try(fmt.Sprintf("base%d", i), &baseAxioms[i])
		}
		for _, id := range dynOrder {
			try(id, dynAxioms[id])
		}
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	var fs []string
	for f := range used {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasPrefix(f, "fp.") {
			continue
		}
		if s, ok := builtinSigs[f]; ok {
			fmt.Fprintf(&sb, "(declare-fun |%s| %s)\n", f, s)
			continue
		}
		g := funSigs[f]
		if g == nil {
			panic("no signature for " + f)
		}
		var as []string
		for _, a := range g.Args {
			as = append(as, a.Name)
		}
		fmt.Fprintf(&sb, "(declare-fun |%s| (%s) %s)\n", f, strings.Join(as, " "), g.Ret.Name)
	}
	var vs []string
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		fmt.Fprintf(&sb, "(declare-fun |%s| () %s)\n", v, vars[v].Sort.Name)
	}
	// memory of bytes holds bytes: said of heap variables only (the heaps the
	// code can be handed), never of arbitrary array terms
	if used["str_of"] {
		holds := map[string]bool{}
		var down func(t *Term)
		down = func(t *Term) {
			switch t.Op {
			case "var":
				holds[t.Name] = true
			case "select", "store":
				down(t.Args[0])
				if t.Op == "store" && t.Sort == arrSort(sInt, arrSort(sInt, sInt)) {
					down(t.Args[2])
				}
			case "ite":
				down(t.Args[1])
				down(t.Args[2])
			}
		}
		order, _ := collect(all)
		for _, t := range order {
			if t.Op == "app" && t.Name == "str_of" {
				down(t.Args[0])
			}
		}
		for _, v := range vs {
			x := vars[v]
			if !strings.Contains(v, "E$uint8") && !holds[v] {
				continue
			}
			switch x.Sort {
			case arrSort(sInt, arrSort(sInt, sInt)):
				fmt.Fprintf(&sb, "(assert (forall ((r Int) (i Int)) (! (and (<= 0 (select (select |%s| r) i)) (<= (select (select |%s| r) i) 255)) :pattern ((select (select |%s| r) i)))))\n", v, v, v)
			case arrSort(sInt, sInt):
				fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (and (<= 0 (select |%s| i)) (<= (select |%s| i) 255)) :pattern ((select |%s| i)))))\n", v, v, v)
			}
		}
	}
	var ls []string
	for l := range lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Fprintf(&sb, "(declare-fun |%s| () Str)\n", l)
		s := litOf[l]
		fmt.Fprintf(&sb, "(assert (= (|slen| |%s|) %d)) ; %q\n", l, len(s), s)
		if len(s) <= 100 {
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&sb, "(assert (= (|sat| |%s| %d) %d))\n", l, i, s[i])
			}
		}
	}
	if len(ls) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range ls {
			fmt.Fprintf(&sb, " |%s|", l)
		}
		sb.WriteString("))\n")
	}
	for _, a := range axTexts {
		sb.WriteString("(assert " + a + ")\n")
	}
	// DAG definitions
	order, refs := collect(all)
	named := map[int]string{}
	for _, t := range order {
		if t.Bound || len(t.Args) == 0 || refs[t.ID] < 2 {
			continue
		}
		if t.Op == "forall" || t.Op == "exists" {
			continue
		}
		n := fmt.Sprintf("$%d", t.ID)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.Sort.Name, printTerm(t, named))
		named[t.ID] = n
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + printTerm(a, named) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(values) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range values {
			sb.WriteString(printTerm(v, named) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// ---------- one-shot portfolio ----------

type solveRes struct {
	Status string // unsat sat unknown
	Solver string
	Time   time.Duration
	Out    string
}

type backend struct {
	name string
	args []string
	pre  string
	wall time.Duration
}

func bk(name string, sec float64) backend {
	b := bk0(name, sec)
	b.wall = time.Duration(sec*3000+3000) * time.Millisecond
	return b
}

func bk0(name string, sec float64) backend {
	// the budget is counted in the solver's own steps, so that a busy machine does not
	// change the answer; the clock only stops runaways
	ms := int(sec*3000) + 1000
	lim := []string{"-in", fmt.Sprintf("-t:%d", ms), fmt.Sprintf("rlimit=%d", int(sec*2.5e6))}
	switch name {
	case "z3-new":
		return backend{name: "z3-new", args: append([]string{"z3-new"}, lim...), pre: ""}
	case "z3-new-nombqi":
		return backend{name: "z3-new(mbqi=false)", args: append([]string{"z3-new", "smt.mbqi=false", "auto_config=false"}, lim...), pre: ""}
	case "z3-new-split":
		return backend{name: "z3-new(mbqi=false,split)", args: append([]string{"z3-new", "smt.mbqi=false", "smt.case_split=3", "smt.arith.solver=2"}, lim...), pre: ""}
	case "z3":
		return backend{name: "z3", args: append([]string{"z3"}, lim...), pre: ""}
	case "z3-nombqi":
		return backend{name: "z3(mbqi=false)", args: append([]string{"z3", "smt.mbqi=false", "auto_config=false"}, lim...), pre: ""}
	case "z3-auto":
		return backend{name: "z3(mbqi=false,auto)", args: append([]string{"z3", "smt.mbqi=false"}, lim...), pre: ""}
	case "cvc5":
		return backend{name: "cvc5", args: []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms), "-q"}, pre: "(set-logic ALL)\n"}
	}
	panic(name)
}

var solverSem = make(chan struct{}, 8)

func runBackend(ctx context.Context, b backend, text string) solveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return solveRes{Status: "unknown", Solver: b.name}
	}
	t0 := time.Now()
	if b.wall > 0 {
		c, cancel := context.WithTimeout(ctx, b.wall)
		defer cancel()
		ctx = c
	}
	cmd := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
	cmd.Stdin = strings.NewReader(b.pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	r := solveRes{Solver: b.name, Time: time.Since(t0), Out: out.String()}
	first := ""
	for _, l := range strings.Split(r.Out, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING:") {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat":
		r.Status = first
	default:
		r.Status = "unknown"
		if strings.Contains(first, "rror") && ctx.Err() == nil {
			if os.Getenv("GOVC_DEBUG") != "" {
				f, _ := os.CreateTemp("", "govcerr*.smt2")
				f.WriteString(text)
				f.Close()
				fmt.Fprintf(os.Stderr, "solver error (%s) %s: %s\n", b.name, f.Name(), first)
			}
		}
	}
	return r
}

var solverTime = map[string]time.Duration{}
var solverWins = map[string]int{}
var solverMu sync.Mutex

// failFast is set once the check is known to fail (a counterexample was replayed, or an obligation
// of another function is not discharged); it cuts the solver races short.
var failFast atomic.Bool
var raceMu sync.Mutex
var raceCtx, raceCancel = context.WithCancel(context.Background())

func raceContext() context.Context {
	raceMu.Lock()
	defer raceMu.Unlock()
	return raceCtx
}

func setFailFast() {
	if failFast.Swap(true) {
		return
	}
	raceMu.Lock()
	raceCancel()
	raceCtx, raceCancel = context.WithCancel(context.Background())
	raceMu.Unlock()
}

// solve decides text; sec1 is the first-stage time, sec2 the race time (0: no race)
func solve(text string, sec1, sec2 float64) solveRes {
	ctx := context.Background()
	tot := time.Duration(0)
	noteT := func(r solveRes) {
		solverMu.Lock()
		solverTime[r.Solver] += r.Time
		solverMu.Unlock()
		tot += r.Time
	}
	win := func(r solveRes) solveRes {
		solverMu.Lock()
		solverWins[r.Solver]++
		solverMu.Unlock()
		r.Time = tot
		return r
	}
	pctx := raceContext()
	if failFast.Load() {
		// the verdict is already a violation: the remaining obligations get a short attempt
		sec1, sec2 = min(sec1, 2), min(sec2, 1.5)
	}
	if sec1 > 0 {
		r := runBackend(ctx, bk("z3-new", sec1), text)
		noteT(r)
		if r.Status != "unknown" {
			return win(r)
		}
		if sec2 <= 0 {
			r.Time = tot
			return r
		}
	}
	cctx, cancel := context.WithCancel(pctx)
	defer cancel()
	names := []string{"z3-auto", "z3-nombqi", "z3-new-split", "cvc5", "z3-new-nombqi", "z3", "z3-new"}
	ch := make(chan solveRes, len(names))
	for _, n := range names {
		go func(n string) { ch <- runBackend(cctx, bk(n, sec2), text) }(n)
	}
	best := solveRes{Status: "unknown", Solver: "portfolio"}
	for range names {
		x := <-ch
		noteT(x)
		if x.Status == "unsat" {
			return win(x)
		}
		if x.Status == "sat" && strings.Contains(x.Solver, "mbqi=false") {
			x.Status = "unknown" // incomplete instantiation: not trusted as sat
		}
		if x.Status == "sat" {
			best = x
			return win(x)
		}
		if best.Out == "" {
			best.Out = x.Out
		}
	}
	best.Time = tot
	return best
}

// ---------- incremental feasibility session ----------

type Session struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defined map[int]bool
	decl    map[string]bool
	Checks  int
	dead    bool
	cache   map[string]bool
}

func newSession() *Session {
	s := &Session{defined: map[int]bool{}, decl: map[string]bool{}, cache: map[string]bool{}}
	s.cmd = exec.Command("z3-new", "-in", "-t:300")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return s
	}
	io.WriteString(s.in, "(set-option :global-declarations true)\n(declare-sort Str 0)\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	return s
}

func (s *Session) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func hasQuant(t *Term) bool {
	if v, ok := quantCache[t.ID]; ok {
		return v
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantCache[t.ID] = r
	return r
}

var quantCache = map[int]bool{}

func (s *Session) name(t *Term, sb *strings.Builder) string {
	switch t.Op {
	case "int":
		return intLit(t.Int)
	case "true", "false":
		return t.Op
	case "fplit":
		return t.Name
	case "var":
		if !s.decl["v"+t.Name] {
			s.decl["v"+t.Name] = true
			fmt.Fprintf(sb, "(declare-fun |%s| () %s)\n", t.Name, t.Sort.Name)
			if l, ok := litOf[t.Name]; ok && t.Sort == sStr {
				s.fun("slen", sb)
				s.fun("lit$id", sb)
				fmt.Fprintf(sb, "(assert (= (|slen| |%s|) %d))(assert (= (|lit$id| |%s|) %s))\n", t.Name, len(l), t.Name, strings.TrimPrefix(strings.Replace(t.Name, "empty", "999999", 1), "lit$"))
			}
		}
		return smtName(t.Name)
	}
	n := fmt.Sprintf("$%d", t.ID)
	if s.defined[t.ID] {
		return n
	}
	s.defined[t.ID] = true
	var as []string
	for _, a := range t.Args {
		as = append(as, s.name(a, sb))
	}
	op := t.Op
	if op == "app" {
		op = smtFun(t.Name)
		s.fun(t.Name, sb)
	}
	if op == "constarr" {
		fmt.Fprintf(sb, "(define-fun %s () %s ((as const %s) %s))\n", n, t.Sort.Name, t.Sort.Name, as[0])
		return n
	}
	if len(as) == 0 {
		fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, t.Sort.Name, op)
		return n
	}
	fmt.Fprintf(sb, "(define-fun %s () %s (%s %s))\n", n, t.Sort.Name, op, strings.Join(as, " "))
	if t.Op == "app" && t.Name == "slen" {
		fmt.Fprintf(sb, "(assert (<= 0 %s))\n", n)
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "fld$") || t.Op == "app" && t.Name == "elemref" {
		fmt.Fprintf(sb, "(assert (< %s 0))\n", n)
	}
	return n
}

func (s *Session) fun(name string, sb *strings.Builder) {
	if strings.HasPrefix(name, "fp.") || s.decl["f"+name] {
		return
	}
	s.decl["f"+name] = true
	if name == "lit$id" {
		sb.WriteString("(declare-fun |lit$id| (Str) Int)\n")
		return
	}
	if sg, ok := builtinSigs[name]; ok {
		fmt.Fprintf(sb, "(declare-fun |%s| %s)\n", name, sg)
		return
	}
	g := funSigs[name]
	var as []string
	for _, a := range g.Args {
		as = append(as, a.Name)
	}
	fmt.Fprintf(sb, "(declare-fun |%s| (%s) %s)\n", name, strings.Join(as, " "), g.Ret.Name)
}

// feasible: is pc /\ extra satisfiable (unknown counts as yes)?
func (s *Session) feasible(pc []*Term, extra *Term) bool {
	if extra == tFalse {
		return false
	}
	if s.dead {
		return true
	}
	var key strings.Builder
	for _, t := range pc {
		fmt.Fprintf(&key, "%d,", t.ID)
	}
	fmt.Fprintf(&key, ":%d", extra.ID)
	if r, ok := s.cache[key.String()]; ok {
		return r
	}
	var sb strings.Builder
	// filter
	var f []*Term
	for _, t := range pc {
		if !hasQuant(t) {
			f = append(f, t)
		}
	}
	n := 0
	for n < len(f) && n < len(s.stack) && f[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range f[n:] {
		// names must be defined before push? global-declarations keeps them, but
		// side assertions made while naming are scoped: acceptable
		nm := s.name(t, &sb)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", nm)
		s.stack = append(s.stack, t)
	}
	if !hasQuant(extra) {
		nm := s.name(extra, &sb)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n(check-sat)\n(pop 1)\n", nm)
	} else {
		sb.WriteString("(check-sat)\n")
	}
	s.Checks++
	t0 := time.Now()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.dead = true
		return true
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return true
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			solverMu.Lock()
			solverTime["z3-new(paths)"] += time.Since(t0)
			solverMu.Unlock()
			r := line != "unsat"
			s.cache[key.String()] = r
			return r
		}
		if strings.Contains(line, "error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "session:", line)
			}
			if strings.Contains(line, "canceled") {
				continue
			}
		}
	}
}

var queryMu sync.Mutex

// buildQueryLocked: term construction is not concurrent
func buildQueryLocked(asserts []*Term, hide ...string) string {
	queryMu.Lock()
	defer queryMu.Unlock()
	if len(hide) > 0 {
		old := hiddenAxioms
		hiddenAxioms = map[string]bool{}
		for k := range old {
			hiddenAxioms[k] = true
		}
		for _, k := range hide {
			hiddenAxioms[k] = true
		}
		defer func() { hiddenAxioms = old }()
	}
	return buildQuery(asserts, nil)
}

func runBackendSimple(name string, sec float64, text string) solveRes {
	r := runBackend(context.Background(), bk(name, sec), text)
	solverMu.Lock()
	solverTime[r.Solver] += r.Time
	solverMu.Unlock()
	return r
}
