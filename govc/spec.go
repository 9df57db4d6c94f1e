package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ================= syntax =================

type SExpr struct {
	Op   string // id num str nil true false call sel idx sub un bin forall exists
	S    string
	Args []*SExpr
	Vars []SVar
	Trig [][]*SExpr
	Line string
}

type SVar struct{ Name, Type string }

type lexer struct {
	src   string
	pos   int
	toks  []tok
	i     int
	where string
}
type tok struct{ k, s string }

func lexSpec(s, where string) (*lexer, error) {
	l := &lexer{src: s, where: where}
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "&^", "<<", ">>", "..."}
outer:
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			l.toks = append(l.toks, tok{"id", s[i:j]})
			i = j
			continue
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || unicode.IsLetter(rune(s[j])) || s[j] == '.' && j+1 < len(s) && unicode.IsDigit(rune(s[j+1]))) {
				j++
			}
			l.toks = append(l.toks, tok{"num", s[i:j]})
			i = j
			continue
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("%s: unterminated string", where)
			}
			l.toks = append(l.toks, tok{"str", s[i : j+1]})
			i = j + 1
			continue
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				return nil, fmt.Errorf("%s: bad char", where)
			}
			l.toks = append(l.toks, tok{"num", strconv.Itoa(int(r))})
			i = j + 1
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				l.toks = append(l.toks, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		l.toks = append(l.toks, tok{"op", string(c)})
		i++
	}
	l.toks = append(l.toks, tok{"eof", ""})
	return l, nil
}

func (l *lexer) peek() tok { return l.toks[l.i] }
func (l *lexer) next() tok { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(fmt.Errorf("%s: expected %q, got %q", l.where, s, l.peek().s))
	}
}

func parseSpec(s, where string) (e *SExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	l, err := lexSpec(s, where)
	if err != nil {
		return nil, err
	}
	e = l.expr(0)
	if l.peek().k != "eof" {
		return nil, fmt.Errorf("%s: trailing %q in %q", where, l.peek().s, s)
	}
	e.Line = s
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "&": 7, "&^": 7, "<<": 7, ">>": 7}

func (l *lexer) expr(min int) *SExpr {
	lhs := l.unary()
	for {
		t := l.peek()
		p, ok := prec[t.s]
		if t.k != "op" || !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *SExpr
		if t.s == "==>" {
			rhs = l.expr(p)
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &SExpr{Op: "bin", S: t.s, Args: []*SExpr{lhs, rhs}}
		// chained comparison a <= b < c
		for (t.s == "<" || t.s == "<=") && (l.is("<") || l.is("<=")) {
			o := l.next().s
			r2 := l.expr(p + 1)
			lhs = &SExpr{Op: "bin", S: "&&", Args: []*SExpr{lhs, {Op: "bin", S: o, Args: []*SExpr{rhs, r2}}}}
			rhs = r2
		}
	}
}

func (l *lexer) typeText() string {
	// parse a Go type as text
	var sb strings.Builder
	for {
		switch {
		case l.accept("*"):
			sb.WriteString("*")
			continue
		case l.is("["):
			l.next()
			sb.WriteString("[")
			for !l.is("]") {
				sb.WriteString(l.next().s)
			}
			l.next()
			sb.WriteString("]")
			continue
		case l.is("map"):
			l.next()
			l.expect("[")
			k := l.typeText()
			l.expect("]")
			sb.WriteString("map[" + k + "]" + l.typeText())
			return sb.String()
		case l.is("interface"):
			l.next()
			l.expect("{")
			l.expect("}")
			sb.WriteString("interface{}")
			return sb.String()
		case l.is("func"):
			l.next()
			l.expect("(")
			l.expect(")")
			sb.WriteString("func()")
			return sb.String()
		case l.is("chan"):
			l.next()
			sb.WriteString("chan " + l.typeText())
			return sb.String()
		case l.is("struct"):
			l.next()
			l.expect("{")
			l.expect("}")
			sb.WriteString("struct{}")
			return sb.String()
		}
		t := l.next()
		if t.k != "id" {
			panic(fmt.Errorf("%s: expected type, got %q", l.where, t.s))
		}
		sb.WriteString(t.s)
		if l.accept(".") {
			sb.WriteString("." + l.next().s)
		}
		return sb.String()
	}
}

func (l *lexer) unary() *SExpr {
	t := l.peek()
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		l.next()
		e := &SExpr{Op: t.s}
		for {
			n := l.next().s
			names := []string{n}
			for l.accept(",") {
				names = append(names, l.next().s)
			}
			ty := l.typeText()
			for _, n := range names {
				e.Vars = append(e.Vars, SVar{n, ty})
			}
			if !l.accept(",") {
				break
			}
		}
		for l.accept("{") {
			var tr []*SExpr
			for {
				tr = append(tr, l.expr(0))
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		l.expect("::")
		e.Args = []*SExpr{l.expr(0)}
		return e
	}
	if t.k == "id" && t.s == "let" {
		l.next()
		n := l.next().s
		l.expect("=")
		v := l.expr(0)
		l.expect("in")
		b := l.expr(0)
		return &SExpr{Op: "let", S: n, Args: []*SExpr{v, b}}
	}
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&" || t.s == "^") {
		l.next()
		return &SExpr{Op: "un", S: t.s, Args: []*SExpr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) primary() *SExpr {
	t := l.next()
	switch t.k {
	case "id":
		switch t.s {
		case "nil", "true", "false":
			return &SExpr{Op: t.s}
		}
		return &SExpr{Op: "id", S: t.s}
	case "num":
		return &SExpr{Op: "num", S: t.s}
	case "str":
		u, err := strconv.Unquote(t.s)
		if err != nil {
			panic(fmt.Errorf("%s: bad string %s", l.where, t.s))
		}
		return &SExpr{Op: "str", S: u}
	case "op":
		if t.s == "(" {
			e := l.expr(0)
			l.expect(")")
			return e
		}
		if t.s == "[" { // type expression used as argument: [N]T or []T
			l.i--
			return &SExpr{Op: "type", S: l.typeText()}
		}
	}
	panic(fmt.Errorf("%s: unexpected %q", l.where, t.s))
}

func (l *lexer) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case l.accept("."):
			e = &SExpr{Op: "sel", S: l.next().s, Args: []*SExpr{e}}
		case l.accept("["):
			var lo, hi *SExpr
			if !l.is(":") {
				lo = l.expr(0)
			}
			if l.accept(":") {
				if !l.is("]") {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &SExpr{Op: "sub", Args: []*SExpr{e, lo, hi}}
			} else {
				l.expect("]")
				e = &SExpr{Op: "idx", Args: []*SExpr{e, lo}}
			}
		case l.accept("("):
			c := &SExpr{Op: "call", Args: []*SExpr{e}}
			tn := ""
			if e.Op == "id" {
				tn = e.S
			}
			for !l.is(")") {
				if (tn == "typeis" || tn == "as") && len(c.Args) == 2 || tn == "zero" || tn == "tagof" || (tn == "mk" && len(c.Args) == 1) || (tn == "impl" && len(c.Args) == 2) {
					c.Args = append(c.Args, &SExpr{Op: "type", S: l.typeText()})
				} else {
					c.Args = append(c.Args, l.expr(0))
				}
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			e = c
		default:
			return e
		}
	}
}

// ================= contract files =================

type Clause struct {
	E     *SExpr
	Label string
	Where string
}

type LoopTmpl struct {
	Holes []SVar
	E     *SExpr
	Where string
}

type Contract struct {
	Key      string
	Kind     string // func, iface, extern
	Pkg      *types.Package
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Panics   []Clause
	Modifies []Clause
	Loops    []LoopTmpl
	Lets     []Clause // label = name
	Props    []string
	Inline   bool
	Trusted  bool
	mayPanic bool
	anyFrame bool
	Pure     bool
	Where    string
	Holds    []Clause // mutexes held on entry (and exit)
	NoInline []string
	Note     string
	Imports  map[string]string
	used     bool
	Opaque   map[string]bool // callee keys treated by contract even inside
	InlineOf map[string]bool // callee contracts to ignore (inline the body instead)
	MaxPaths int
	TimeoutX float64
	Hide     [][2]string // (label or "", name): axioms and lemmas not offered to the solver in this unit
	discipline bool
}

type SFun struct {
	Name    string
	Params  []SVar
	Ret     string
	Body    *SExpr // macro
	Pkg     *types.Package
	Imports map[string]string
}

type Ghost struct {
	Name    string
	Key     string
	Type    string
	Pkg     *types.Package
	Imports map[string]string
}

type Lemma struct {
	Name    string
	Vars    []SVar
	Induct  string
	E       *SExpr
	Kind    string // axiom lemma
	Pkg     *types.Package
	Imports map[string]string
	Where   string
	Props   []string
	Final   bool
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Funs      map[string]*SFun
	Ghosts    map[string]*Ghost
	Lemmas    []*Lemma
	Guards    []*Guard
	Atomics   map[string]bool
	Published []*Published
	Types     map[string]*types.Package
	Trusted   []string
	P         *Program
}

type Published struct {
	Where        string
	Pkg          *types.Package
	Imports      map[string]string
	Var, Mu, Inv *SExpr
}

type Guard struct {
	Field   string // heap name H$T.f (or prefix), map key etc.
	Mutex   string
	E       *SExpr // lock expression over 'self' (object reference)
	Read    bool
	Where   string
	Pkg     *types.Package
	Imports map[string]string
	Kind    string
	Type    string
	Props   []string
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "panics": true, "inline": true, "trusted": true,
	"props": true, "let": true, "maypanic": true, "anyframe": true, "holds": true, "note": true, "end": true, "pure": true, "opaque": true, "inlineof": true, "maxpaths": true, "timeoutx": true, "hide": true}

func (S *Specs) loadFile(path string) (err error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	var pkg *types.Package
	imports := map[string]string{}
	lines := strings.Split(string(data), "\n")
	// join continuation lines: a clause continues on following lines that do not start with a keyword
	top := map[string]bool{"package": true, "import": true, "func": true, "iface": true, "extern": true, "def": true, "fun": true, "axiom": true, "lemma": true, "ghost": true, "guard": true, "atomic": true, "published": true}
	type stmt struct {
		text string
		line int
	}
	var stmts []stmt
	for n, ln := range lines {
		if i := strings.Index(ln, "//"); i >= 0 && !strings.Contains(ln[:i], "\"") {
			ln = ln[:i]
		} else if strings.HasPrefix(strings.TrimSpace(ln), "//") {
			ln = ""
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '\t' || r == '[' || r == '(' })
		first := ""
		if len(w) > 0 {
			first = w[0]
		}
		if top[first] || clauseKW[first] {
			stmts = append(stmts, stmt{t, n + 1})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].text += " " + t
		}
	}
	var cur *Contract
	for _, s := range stmts {
		where := fmt.Sprintf("%s:%d", filepath.Base(path), s.line)
		kw := s.text
		rest := ""
		if i := strings.IndexAny(kw, " \t["); i >= 0 {
			rest = strings.TrimSpace(kw[i:])
			kw = kw[:i]
		}
		fail := func(f string, a ...any) { panic(fmt.Errorf("%s: %s", where, fmt.Sprintf(f, a...))) }
		parse := func(x string) *SExpr {
			e, err := parseSpec(x, where)
			if err != nil {
				panic(err)
			}
			return e
		}
		label := func(x string) (string, string) {
			if strings.HasPrefix(x, "[") {
				j, d := 0, 0
				for ; j < len(x); j++ {
					if x[j] == '[' {
						d++
					} else if x[j] == ']' {
						if d--; d == 0 {
							break
						}
					}
				}
				return strings.TrimSpace(x[1:j]), strings.TrimSpace(x[j+1:])
			}
			return "", x
		}
		switch kw {
		case "package":
			p := rest
			if p == "opencensus" {
				p = modPath
			} else {
				p = modPath + "/" + p
			}
			pkg = S.P.Types[p]
			if pkg == nil {
				return fmt.Errorf("%s: package %s not loaded", where, p)
			}
			imports = map[string]string{}
		case "import":
			f := strings.Fields(rest)
			p := f[len(f)-1]
			name := p[strings.LastIndex(p, "/")+1:]
			if len(f) == 2 {
				name = f[0]
			}
			if S.P.Types[p] == nil {
				p = modPath + "/" + p
			}
			imports[name] = p
		case "func", "iface", "extern":
			cur = &Contract{Kind: kw, Pkg: pkg, Where: where, Imports: imports}
			parseHeader(cur, rest, where)
			if kw == "extern" {
				cur.Trusted = true
			}
			if _, dup := S.Contracts[cur.Key]; dup {
				fail("duplicate contract %s", cur.Key)
			}
			S.Contracts[cur.Key] = cur
			S.Order = append(S.Order, cur.Key)
		case "def", "fun":
			f := &SFun{Pkg: pkg, Imports: imports}
			l, _ := lexSpec(rest, where)
			f.Name = l.next().s
			l.expect("(")
			for !l.is(")") {
				v := SVar{Name: l.next().s}
				if !l.is(",") && !l.is(")") {
					v.Type = l.typeText()
				}
				f.Params = append(f.Params, v)
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			if kw == "def" {
				l.expect("=")
				f.Body = l.expr(0)
				if l.peek().k != "eof" {
					fail("trailing %q", l.peek().s)
				}
			} else {
				f.Ret = l.typeText()
			}
			if _, dup := S.Funs[f.Name]; dup {
				fail("duplicate function %s", f.Name)
			}
			S.Funs[f.Name] = f
		case "axiom", "lemma":
			// name [induct n] : expr
			i := strings.Index(rest, ":")
			h := strings.Fields(rest[:i])
			lm := &Lemma{Kind: kw, Pkg: pkg, Imports: imports, Where: where}
			lm.Name = h[0]
			for j := 1; j < len(h); j++ {
				if h[j] == "induct" && j+1 < len(h) {
					lm.Induct = h[j+1]
					j++
				} else if h[j] == "final" { // a stated theorem, not offered to the solver elsewhere
					lm.Final = true
				} else if h[j] == "props" {
					lm.Props = h[j+1:]
					break
				}
			}
			lm.E = parse(rest[i+1:])
			S.Lemmas = append(S.Lemmas, lm)
		case "ghost":
			f := strings.Fields(rest)
			S.Ghosts[f[0]] = &Ghost{Name: f[0], Key: f[1], Type: strings.Join(f[2:], " "), Pkg: pkg, Imports: imports}
		case "guard":
			// guard [C13] field <Type.f> by <expr over self> | guard map <Type> ...
			lb, x := label(rest)
			g := &Guard{Where: where, Pkg: pkg, Imports: imports, Props: strings.Fields(lb)}
			i := strings.Index(x, " by ")
			f := strings.Fields(x[:i])
			g.Kind, g.Type = f[0], f[1]
			g.E = parse(x[i+4:])
			S.Guards = append(S.Guards, g)
		case "atomic":
			S.Atomics["H$"+rest] = true
		case "published":
			// published <atomic.Value variable> by <mutex> inv <expr>: only replaced with the mutex
			// held; whoever takes the mutex finds what the last holder left, which satisfies inv
			i, j := strings.Index(rest, " by "), strings.Index(rest, " inv ")
			S.Published = append(S.Published, &Published{Where: where, Pkg: pkg, Imports: imports, Var: parse(rest[:i]), Mu: parse(rest[i+4 : j]), Inv: parse(rest[j+5:])})
		default:
			if cur == nil {
				fail("clause outside a contract")
			}
			lb, x := label(rest)
			cl := Clause{Label: lb, Where: where}
			switch kw {
			case "requires", "ensures", "panics", "holds":
				cl.E = parse(x)
				switch kw {
				case "requires":
					cur.Requires = append(cur.Requires, cl)
				case "ensures":
					cur.Ensures = append(cur.Ensures, cl)
				case "panics":
					cur.Panics = append(cur.Panics, cl)
				case "holds":
					cur.Holds = append(cur.Holds, cl)
				}
			case "modifies":
				l, _ := lexSpec(x, where)
				for {
					c := cl
					c.E = l.expr(0)
					cur.Modifies = append(cur.Modifies, c)
					if !l.accept(",") {
						break
					}
				}
				if l.peek().k != "eof" {
					fail("trailing %q", l.peek().s)
				}
			case "loop":
				t := LoopTmpl{Where: where}
				if lb != "" {
					l, _ := lexSpec(lb, where)
					for l.peek().k != "eof" {
						v := SVar{Name: l.next().s}
						v.Type = l.typeText()
						t.Holes = append(t.Holes, v)
						if !l.accept(",") {
							break
						}
					}
				}
				t.E = parse(x)
				cur.Loops = append(cur.Loops, t)
			case "let":
				i := strings.Index(x, "=")
				cl.Label = strings.TrimSpace(x[:i])
				cl.E = parse(x[i+1:])
				cur.Lets = append(cur.Lets, cl)
			case "props":
				cur.Props = strings.Fields(rest)
			case "inline":
				cur.Inline = true
			case "trusted":
				cur.Trusted = true
			case "maypanic":
				cur.mayPanic = true
			case "anyframe":
				cur.anyFrame = true
			case "pure":
				cur.Pure = true
			case "note":
				cur.Note = rest
			case "maxpaths":
				cur.MaxPaths, _ = strconv.Atoi(rest)
			case "hide":
				for _, n := range strings.Fields(x) {
					cur.Hide = append(cur.Hide, [2]string{lb, n})
				}
			case "timeoutx":
				cur.TimeoutX, _ = strconv.ParseFloat(rest, 64)
			case "opaque":
				if cur.Opaque == nil {
					cur.Opaque = map[string]bool{}
				}
				for _, k := range strings.Fields(rest) {
					cur.Opaque[k] = true
				}
			case "inlineof":
				if cur.InlineOf == nil {
					cur.InlineOf = map[string]bool{}
				}
				for _, k := range strings.Fields(rest) {
					cur.InlineOf[k] = true
				}
			case "end":
				cur = nil
			}
		}
	}
	return nil
}

// header: key(params) (results)     key is e.g. tag.New or (*tag.Map).insert
func parseHeader(c *Contract, h, where string) {
	// key: up to the '(' that starts params; keys starting with '(' contain a receiver type
	i := 0
	if strings.HasPrefix(h, "(") {
		i = strings.Index(h, ")") + 1
	}
	j := strings.Index(h[i:], "(")
	if j < 0 {
		panic(fmt.Errorf("%s: bad header %q", where, h))
	}
	c.Key = strings.TrimSpace(h[:i+j])
	rest := h[i+j:]
	k := strings.Index(rest, ")")
	split := func(s string) []string {
		var out []string
		for _, x := range strings.Split(s, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	c.Params = split(rest[1:k])
	r := strings.TrimSpace(rest[k+1:])
	r = strings.TrimPrefix(r, "(")
	r = strings.TrimSuffix(r, ")")
	c.Results = split(r)
}

// ================= evaluation =================

type SpecEnv struct {
	ex      *Exec
	pkg     *types.Package
	imports map[string]string
	vars    map[string]Val
	cur     memView
	alloc   *Term
	old     *Snap
	pre     *Snap
	st      *State // where facts about loaded values may be assumed (nil: none)
	iter    *Term  // current map iterator
	iterKey *Sort
	inQuant int
	gst     *State // inside a quantifier: where facts about package constants may be assumed
}

func (e *SpecEnv) clone() *SpecEnv {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+4)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

// withSnap evaluates over the memory of snap
func (e *SpecEnv) withSnap(s *Snap, st *State) *SpecEnv {
	n := *e
	n.cur = memView{e.ex, s.heaps}
	n.alloc = s.alloc
	n.st = st
	return &n
}

type specErr struct{ msg string }

func (s *specErr) Error() string { return s.msg }
func sfail(e *SExpr, f string, a ...any) {
	panic(&specErr{fmt.Sprintf(f, a...) + " in " + exprStr(e)})
}

func exprStr(e *SExpr) string {
	if e == nil {
		return "?"
	}
	if e.Line != "" {
		return e.Line
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, exprStr(a))
	}
	return e.Op + ":" + e.S + "(" + strings.Join(as, ",") + ")"
}

func (e *SpecEnv) Bool(x *SExpr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 || v.L[0].Sort != sBool {
		sfail(x, "not boolean")
	}
	return v.L[0]
}

var mathInt types.Type = types.Typ[types.UntypedInt]

func intV(t *Term) Val  { return Val{mathInt, []*Term{t}} }
func boolV(t *Term) Val { return Val{types.Typ[types.Bool], []*Term{t}} }

func (e *SpecEnv) resolveType(s string) types.Type {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(&specErr{"bad type " + s})
	}
	return e.typeExpr(x)
}

func (e *SpecEnv) typeExpr(x ast.Expr) types.Type {
	switch t := x.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		panic(&specErr{"unknown type " + t.Name})
	case *ast.SelectorExpr:
		p := e.lookupPkg(t.X.(*ast.Ident).Name)
		if p != nil {
			if o, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		panic(&specErr{"unknown type " + t.Sel.Name})
	case *ast.StarExpr:
		return types.NewPointer(e.typeExpr(t.X))
	case *ast.ArrayType:
		if t.Len == nil {
			return types.NewSlice(e.typeExpr(t.Elt))
		}
		n, _ := strconv.ParseInt(t.Len.(*ast.BasicLit).Value, 0, 64)
		return types.NewArray(e.typeExpr(t.Elt), n)
	case *ast.MapType:
		return types.NewMap(e.typeExpr(t.Key), e.typeExpr(t.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.FuncType:
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	case *ast.ChanType:
		return types.NewChan(types.SendRecv, e.typeExpr(t.Value))
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.ParenExpr:
		return e.typeExpr(t.X)
	}
	panic(&specErr{fmt.Sprintf("bad type %T", x)})
}

func (e *SpecEnv) lookupPkg(name string) *types.Package {
	if p, ok := e.imports[name]; ok {
		return e.ex.P.Types[p]
	}
	if e.pkg != nil {
		for _, i := range e.pkg.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	return nil
}

func (e *SpecEnv) load(p *Term, t types.Type) Val {
	v := e.cur.load(p, t)
	if e.st != nil {
		e.st.assumeVal(v)
	}
	return v
}

func (e *SpecEnv) lookupObj(o types.Object, x *SExpr) Val {
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			return Val{c.Type(), []*Term{constInt(c.Val())}}
		case constant.String:
			return Val{c.Type(), []*Term{StrLit(constant.StringVal(c.Val()))}}
		case constant.Bool:
			return boolV(Bool(constant.BoolVal(c.Val())))
		case constant.Float:
			f, _ := constant.Float64Val(c.Val())
			return Val{types.Typ[types.Float64], []*Term{fpLit(f)}}
		}
	case *types.Var:
		sp := e.ex.P.Pkgs[c.Pkg().Path()]
		if g := sp.Var(c.Name()); g != nil {
			gst := e.st
			if gst == nil {
				gst = e.gst
			}
			if gst != nil {
				if v, ok := e.ex.V.globalConst(e.ex, gst, g); ok {
					return v
				}
			}
			return e.load(e.ex.V.globalRef(g), c.Type())
		}
	case *types.Func:
		sp := e.ex.P.Pkgs[c.Pkg().Path()]
		if f := sp.Func(c.Name()); f != nil {
			return Val{c.Type(), []*Term{e.ex.funcTerm(f)}}
		}
	}
	sfail(x, "cannot use %s", o.Name())
	return Val{}
}

func (e *SpecEnv) eval(x *SExpr) Val {
	switch x.Op {
	case "num":
		if strings.Contains(x.S, ".") || (strings.Contains(x.S, "e") && !strings.HasPrefix(x.S, "0x")) {
			f, _ := strconv.ParseFloat(x.S, 64)
			return Val{types.Typ[types.Float64], []*Term{fpLit(f)}}
		}
		b, ok := new(big.Int).SetString(x.S, 0)
		if !ok {
			sfail(x, "bad number")
		}
		return intV(BigInt(b))
	case "str":
		return Val{types.Typ[types.String], []*Term{StrLit(x.S)}}
	case "true", "false":
		return boolV(Bool(x.Op == "true"))
	case "nil":
		return Val{types.Typ[types.UntypedNil], []*Term{Int(0)}}
	case "id":
		if v, ok := e.vars[x.S]; ok {
			return v
		}
		if f, ok := e.ex.V.specs.Funs[x.S]; ok && len(f.Params) == 0 {
			return e.call(f, nil, x)
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(x.S); o != nil {
				return e.lookupObj(o, x)
			}
		}
		sfail(x, "unknown identifier %s", x.S)
	case "let":
		v := e.eval(x.Args[0])
		n := e.clone()
		n.vars[x.S] = v
		return n.eval(x.Args[1])
	case "sel":
		return e.sel(x)
	case "idx":
		return e.index(x)
	case "sub":
		return e.subslice(x)
	case "un":
		return e.unary(x)
	case "bin":
		return e.binary(x)
	case "forall", "exists":
		n := e.clone()
		n.inQuant++
		if n.st != nil {
			n.gst, n.st = n.st, nil
		}
		var bvs []*Term
		var bounds []*Term
		for _, v := range x.Vars {
			t := e.resolveType(v.Type)
			var l []*Term
			for _, li := range leaves(t) {
				b := BVar(v.Name, li.Sort)
				bvs = append(bvs, b)
				l = append(l, b)
			}
			if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Int {
				t = mathInt
			} else if lo, hi, ok := intBounds(t); ok {
				bounds = append(bounds, Le(BigInt(lo), l[0]), Le(l[0], BigInt(hi)))
			}
			n.vars[v.Name] = Val{t, l}
		}
		body := n.Bool(x.Args[0])
		if len(bounds) > 0 {
			if x.Op == "forall" {
				body = Implies(And(bounds...), body)
			} else {
				body = And(append(bounds, body)...)
			}
		}
		var pats [][]*Term
		for _, tr := range x.Trig {
			var ps []*Term
			for _, t := range tr {
				v := n.eval(t)
				ps = append(ps, trigTerm(v.L[0]))
			}
			pats = append(pats, ps)
		}
		if x.Op == "forall" {
			return boolV(Forall(bvs, pats, body))
		}
		return boolV(quant("exists", bvs, pats, body))
	case "call":
		return e.callExpr(x)
	}
	sfail(x, "cannot evaluate %s", x.Op)
	return Val{}
}

func (e *SpecEnv) sel(x *SExpr) Val {
	if x.Args[0].Op == "id" {
		if _, bound := e.vars[x.Args[0].S]; !bound {
			if p := e.lookupPkg(x.Args[0].S); p != nil {
				if o := p.Scope().Lookup(x.S); o != nil {
					return e.lookupObj(o, x)
				}
				sfail(x, "no %s in package", x.S)
			}
		}
	}
	v := e.eval(x.Args[0])
	return e.fieldOf(v, x.S, x)
}

func (e *SpecEnv) fieldOf(v Val, name string, x *SExpr) Val {
	if v.T == nil {
		sfail(x, "field of spec value")
	}
	obj, path, _ := types.LookupFieldOrMethod(v.T, true, e.pkgOf(v.T), name)
	if _, ok := obj.(*types.Var); !ok {
		sfail(x, "no field %s in %s", name, v.T)
	}
	for _, i := range path {
		if pt, ok := under(v.T).(*types.Pointer); ok {
			st := pt.Elem()
			f := under(st).(*types.Struct).Field(i)
			v = e.load(fieldAddr(v.L[0], st, i), f.Type())
		} else {
			v = v.field(i)
		}
	}
	return v
}

func (e *SpecEnv) pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

// addr computes the address of an lvalue
func (e *SpecEnv) addr(x *SExpr) (*Term, types.Type) {
	switch x.Op {
	case "sel":
		if x.Args[0].Op == "id" {
			if _, bound := e.vars[x.Args[0].S]; !bound {
				if p := e.lookupPkg(x.Args[0].S); p != nil {
					if o, ok := p.Scope().Lookup(x.S).(*types.Var); ok {
						g := e.ex.P.Pkgs[p.Path()].Var(o.Name())
						return e.ex.V.globalRef(g), o.Type()
					}
				}
			}
		}
		var p *Term
		var t types.Type
		v, isVal := e.tryPtr(x.Args[0])
		if isVal {
			p, t = v.L[0], derefType(v.T)
		} else {
			p, t = e.addr(x.Args[0])
		}
		obj, path, _ := types.LookupFieldOrMethod(t, true, e.pkgOf(t), x.S)
		if _, ok := obj.(*types.Var); !ok {
			sfail(x, "no field %s", x.S)
		}
		for k, i := range path {
			if k > 0 {
				if pt, ok := under(t).(*types.Pointer); ok {
					p = e.load(p, t).L[0]
					t = pt.Elem()
				}
			}
			f := under(t).(*types.Struct).Field(i)
			p = fieldAddr(p, t, i)
			t = f.Type()
		}
		return p, t
	case "id":
		if _, bound := e.vars[x.S]; !bound && e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(x.S).(*types.Var); ok {
				g := e.ex.P.Pkgs[e.pkg.Path()].Var(o.Name())
				return e.ex.V.globalRef(g), o.Type()
			}
		}
	case "un":
		if x.S == "*" {
			v := e.eval(x.Args[0])
			return v.L[0], derefType(v.T)
		}
	case "idx":
		i := e.eval(x.Args[1]).L[0]
		v, ok := e.tryEval(x.Args[0])
		if ok {
			if s, isS := under(v.T).(*types.Slice); isS {
				return elemAddr(v.L[0], Add(v.L[1], i), s.Elem()), s.Elem()
			}
			if p, isP := under(v.T).(*types.Pointer); isP {
				if a, isA := under(p.Elem()).(*types.Array); isA {
					return elemAddr(v.L[0], i, a.Elem()), a.Elem()
				}
			}
		}
		p, t := e.addr(x.Args[0])
		if a, isA := under(t).(*types.Array); isA {
			return elemAddr(p, i, a.Elem()), a.Elem()
		}
	}
	sfail(x, "not an lvalue")
	return nil, nil
}

func (e *SpecEnv) tryEval(x *SExpr) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return e.eval(x), true
}

func (e *SpecEnv) tryPtr(x *SExpr) (v Val, ok bool) {
	v, ok = e.tryEval(x)
	if !ok || v.T == nil {
		return v, false
	}
	_, isP := under(v.T).(*types.Pointer)
	return v, isP
}

func (e *SpecEnv) index(x *SExpr) Val {
	v := e.eval(x.Args[0])
	if v.T == nil { // spec array
		i := e.eval(x.Args[1])
		r := Select(v.L[0], keyTerm(i))
		return specVal(r)
	}
	switch u := under(v.T).(type) {
	case *types.Slice:
		i := e.eval(x.Args[1]).L[0]
		return e.load(elemAddr(v.L[0], Add(v.L[1], i), u.Elem()), u.Elem())
	case *types.Array:
		i := e.eval(x.Args[1]).L[0]
		var l []*Term
		for _, a := range v.L {
			l = append(l, Select(a, i))
		}
		r := Val{u.Elem(), l}
		if e.st != nil {
			e.st.assumeVal(r)
		}
		return r
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			i := e.eval(x.Args[1]).L[0]
			return e.load(elemAddr(v.L[0], i, a.Elem()), a.Elem())
		}
	case *types.Map:
		m := mapInfo(v.T)
		k := e.coerce(e.eval(x.Args[1]), m.kt)
		r, _ := e.cur.mapGet(m, v.L[0], keyTerm(k))
		if e.st != nil {
			e.st.assumeVal(r)
		}
		return r
	case *types.Basic:
		i := e.eval(x.Args[1]).L[0]
		return Val{types.Typ[types.Uint8], []*Term{App("sat", sInt, v.L[0], i)}}
	}
	sfail(x, "cannot index %s", v.T)
	return Val{}
}

func specVal(t *Term) Val {
	switch t.Sort {
	case sInt:
		return intV(t)
	case sBool:
		return boolV(t)
	case sStr:
		return Val{types.Typ[types.String], []*Term{t}}
	case sF64:
		return Val{types.Typ[types.Float64], []*Term{t}}
	}
	return Val{nil, []*Term{t}}
}

func (e *SpecEnv) subslice(x *SExpr) Val {
	v := e.eval(x.Args[0])
	lo := Int(0)
	if x.Args[1] != nil {
		lo = e.eval(x.Args[1]).L[0]
	}
	switch under(v.T).(type) {
	case *types.Basic:
		hi := App("slen", sInt, v.L[0])
		if x.Args[2] != nil {
			hi = e.eval(x.Args[2]).L[0]
		}
		return Val{v.T, []*Term{App("ssub", sStr, v.L[0], lo, hi)}}
	case *types.Slice:
		hi := v.L[2]
		if x.Args[2] != nil {
			hi = e.eval(x.Args[2]).L[0]
		}
		return Val{v.T, []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
	}
	sfail(x, "cannot slice %s", v.T)
	return Val{}
}

func (e *SpecEnv) unary(x *SExpr) Val {
	switch x.S {
	case "!":
		return boolV(Not(e.Bool(x.Args[0])))
	case "-":
		v := e.eval(x.Args[0])
		if v.L[0].Sort == sF64 {
			if v.L[0].Op == "fplit" {
				return Val{v.T, []*Term{fpLit(-fpVal(v.L[0]))}}
			}
			return Val{v.T, []*Term{App("fp.neg", sF64, v.L[0])}}
		}
		return intV(Neg(v.L[0]))
	case "*":
		v := e.eval(x.Args[0])
		return e.load(v.L[0], derefType(v.T))
	case "&":
		p, t := e.addr(x.Args[0])
		return Val{types.NewPointer(t), []*Term{p}}
	}
	sfail(x, "unary %s", x.S)
	return Val{}
}

// coerce adapts untyped constants and concrete values to type t
func (e *SpecEnv) coerce(v Val, t types.Type) Val {
	if v.T == nil || t == nil {
		return v
	}
	if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroVal(t)
	}
	if _, ok := under(t).(*types.Interface); ok {
		if _, ok := under(v.T).(*types.Interface); !ok {
			return mkIface(t, v)
		}
		return Val{t, v.L}
	}
	if len(v.L) == 1 && v.L[0].Sort == sInt {
		if ls := leaves(t); len(ls) == 1 && ls[0].Sort == sF64 && isInt(v.L[0]) {
			f, _ := new(big.Float).SetInt(v.L[0].Int).Float64()
			return Val{t, []*Term{fpLit(f)}}
		}
	}
	return Val{t, v.L}
}

func isNilV(v Val) bool {
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *SpecEnv) binary(x *SExpr) Val {
	switch x.S {
	case "&&":
		return boolV(And(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	case "||":
		return boolV(Or(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	case "==>":
		return boolV(Implies(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	case "<==>":
		return boolV(Eq(e.Bool(x.Args[0]), e.Bool(x.Args[1])))
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.S {
	case "==", "!=":
		var r *Term
		switch {
		case isNilV(a) && isNilV(b):
			r = tTrue
		case isNilV(b):
			r = Eq(a.L[0], Int(0))
		case isNilV(a):
			r = Eq(b.L[0], Int(0))
		case a.T == nil || b.T == nil:
			r = Eq(a.L[0], b.L[0])
		default:
			_, ai := under(a.T).(*types.Interface)
			_, bi := under(b.T).(*types.Interface)
			if ai && !bi {
				b = e.coerce(b, a.T)
			} else if bi && !ai {
				a = e.coerce(a, b.T)
			}
			if len(a.L) == 1 && len(b.L) == 1 && a.L[0].Sort != b.L[0].Sort {
				if a.L[0].Sort == sF64 {
					b = e.coerce(b, a.T)
				} else {
					a = e.coerce(a, b.T)
				}
			}
			if len(a.L) != len(b.L) {
				sfail(x, "comparing %s with %s", a.T, b.T)
			}
			r = eqVal(a, b, true)
		}
		if x.S == "!=" {
			r = Not(r)
		}
		return boolV(r)
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		sfail(x, "operator on composite")
	}
	p, q := a.L[0], b.L[0]
	if p.Sort == sF64 || q.Sort == sF64 {
		a, b = e.coerce(a, types.Typ[types.Float64]), e.coerce(b, types.Typ[types.Float64])
		ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}
		o, ok := ops[x.S]
		if !ok {
			sfail(x, "float operator")
		}
		r := e.ex.binop(o, a, b, types.Typ[types.Float64])
		if r.L[0].Sort == sBool {
			r.T = types.Typ[types.Bool]
		}
		return r
	}
	if p.Sort == sStr {
		switch x.S {
		case "+":
			return Val{a.T, []*Term{App("scat", sStr, p, q)}}
		case "<":
			return boolV(App("strlt", sBool, p, q))
		case "<=":
			return boolV(Not(App("strlt", sBool, q, p)))
		}
	}
	switch x.S {
	case "+":
		return intV(Add(p, q))
	case "-":
		return intV(Sub(p, q))
	case "*":
		return intV(Mul(p, q))
	case "/":
		return intV(Div(p, q))
	case "%":
		return intV(Mod(p, q))
	case "<":
		return boolV(Lt(p, q))
	case "<=":
		return boolV(Le(p, q))
	case ">":
		return boolV(Lt(q, p))
	case ">=":
		return boolV(Le(q, p))
	case "<<":
		if isInt(q) {
			return intV(Mul(BigInt(pow2(uint(q.Int.Int64()))), p))
		}
	case ">>":
		if isInt(q) {
			return intV(Div(p, BigInt(pow2(uint(q.Int.Int64())))))
		}
	case "&", "|", "^", "&^":
		op := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT}[x.S]
		t := a.T
		if t == mathInt {
			t = b.T
		}
		if t == mathInt {
			t = types.Typ[types.Uint64]
		}
		return Val{t, []*Term{bitop(op, p, q, t)}}
	}
	sfail(x, "operator %s", x.S)
	return Val{}
}

func (e *SpecEnv) call(f *SFun, args []Val, x *SExpr) Val {
	fe := &SpecEnv{ex: e.ex, pkg: f.Pkg, imports: f.Imports, cur: e.cur, alloc: e.alloc, old: e.old, pre: e.pre, st: e.st, gst: e.gst, iter: e.iter, iterKey: e.iterKey, inQuant: e.inQuant}
	if len(args) != len(f.Params) {
		sfail(x, "arity of %s", f.Name)
	}
	if f.Body != nil {
		fe.vars = map[string]Val{}
		for i, p := range f.Params {
			v := args[i]
			if p.Type != "" && v.T != nil {
				v = fe.coerce(v, fe.resolveType(p.Type))
			}
			fe.vars[p.Name] = v
		}
		return fe.eval(f.Body)
	}
	var l []*Term
	for i, p := range f.Params {
		v := args[i]
		if p.Type != "" && v.T != nil {
			t := fe.specType(p.Type)
			if t != nil {
				v = fe.coerce(v, t)
			}
		}
		l = append(l, v.L...)
	}
	if s := specSort(f.Ret); s != nil {
		return Val{nil, []*Term{App("sf$"+f.Name, s, l...)}}
	}
	rt := fe.resolveType(f.Ret)
	var out []*Term
	for _, li := range leaves(rt) {
		out = append(out, App("sf$"+f.Name+li.Suffix, li.Sort, l...))
	}
	if b, ok := rt.(*types.Basic); ok && b.Kind() == types.Int {
		rt = mathInt
	}
	r := Val{rt, out}
	if e.st != nil && rt != mathInt {
		e.st.assumeVal(r)
	}
	return r
}

func (e *SpecEnv) specType(s string) types.Type {
	if specSort(s) != nil {
		return nil
	}
	return e.resolveType(s)
}

// spec-only sorts: intset, strset, arr (Array Int Int), strarr (Array Int Str)
func specSort(s string) *Sort {
	switch s {
	case "bytes_":
		return arrSort(sInt, sInt)
	case "strset_":
		return arrSort(sStr, sBool)
	case "strs_":
		return arrSort(sInt, sStr)
	case "strmap_":
		return arrSort(sStr, sStr)
	case "strint_":
		return arrSort(sStr, sInt)
	case "intset_":
		return arrSort(sInt, sBool)
	case "strtags_":
		return arrSort(sStr, sInt)
	}
	return nil
}

func (e *SpecEnv) callExpr(x *SExpr) Val {
	fn := x.Args[0]
	args := x.Args[1:]
	if fn.Op == "type" {
		return e.convertTo(e.resolveType(fn.S), e.eval(args[0]), x)
	}
	if fn.Op == "sel" {
		// package-qualified conversion or spec function
		if fn.Args[0].Op == "id" {
			if p := e.lookupPkg(fn.Args[0].S); p != nil {
				if tn, ok := p.Scope().Lookup(fn.S).(*types.TypeName); ok {
					return e.convertTo(tn.Type(), e.eval(args[0]), x)
				}
			}
		}
		sfail(x, "call of %s", fn.S)
	}
	if fn.Op != "id" {
		sfail(x, "bad call")
	}
	ev := func(i int) Val {
		if i >= len(args) {
			sfail(x, "missing argument")
		}
		return e.eval(args[i])
	}
	switch fn.S {
	case "old":
		if e.old == nil {
			sfail(x, "old not available")
		}
		return e.withSnap(e.old, e.st).eval(args[0])
	case "pre":
		if e.pre == nil {
			sfail(x, "pre not available")
		}
		return e.withSnap(e.pre, e.st).eval(args[0])
	case "len", "cap":
		v := ev(0)
		switch u := under(v.T).(type) {
		case *types.Slice:
			if fn.S == "cap" {
				return intV(v.L[3])
			}
			return intV(v.L[2])
		case *types.Basic:
			return intV(App("slen", sInt, v.L[0]))
		case *types.Map:
			m := mapInfo(v.T)
			if e.st != nil && e.inQuant == 0 {
				e.st.mapFacts(m, v.L[0])
			}
			c := e.cur.mapCard(m, v.L[0])
			return intV(Ite(Eq(v.L[0], Int(0)), Int(0), c))
		case *types.Array:
			return intV(Int(u.Len()))
		}
		sfail(x, "len of %s", v.T)
	case "has":
		v := ev(0)
		if v.T == nil {
			return boolV(Select(v.L[0], keyTerm(ev(1))))
		}
		m := mapInfo(v.T)
		k := e.coerce(ev(1), m.kt)
		_, d := e.cur.mapGet(m, v.L[0], keyTerm(k))
		if e.st != nil {
			e.st.mapKeyFacts(m, v.L[0], keyTerm(k))
		}
		if !isAllocTerm(v.L[0]) {
			d = And(Neq(v.L[0], Int(0)), d)
		}
		return boolV(d)
	case "dom":
		v := ev(0)
		return Val{nil, []*Term{e.cur.mapDom(mapInfo(v.T), v.L[0])}}
	case "vals":
		v := ev(0)
		return Val{nil, []*Term{e.cur.mapValLeafs(mapInfo(v.T), v.L[0])[0]}}
	case "fresh":
		v := ev(0)
		if e.old == nil {
			sfail(x, "fresh outside postcondition")
		}
		r := App("root", sInt, refLeaf(v))
		return boolV(And(Le(e.old.alloc, r), Lt(r, e.alloc)))
	case "allocated":
		v := ev(0)
		return boolV(Lt(App("root", sInt, refLeaf(v)), e.alloc))
	case "typeis":
		v := ev(0)
		return boolV(Eq(v.L[0], typeID(e.resolveType(args[1].S))))
	case "as":
		v := ev(0)
		r := unbox(v.L[1], e.resolveType(args[1].S))
		if e.st != nil {
			// facts only valid if the dynamic type matches; pointer facts are harmless
		}
		return r
	case "impl":
		v := ev(0)
		t := e.resolveType(args[1].S)
		return boolV(e.ex.implementsTerm(v.L[0], under(t).(*types.Interface), t))
	case "tagof":
		return intV(typeID(e.resolveType(args[0].S)))
	case "dyntag":
		return intV(ev(0).L[0])
	case "dynval":
		return intV(ev(0).L[1])
	case "mk": // struct value from its fields
		t := e.resolveType(args[0].S)
		var l []*Term
		for i := 1; i < len(args); i++ {
			l = append(l, ev(i).L...)
		}
		if n := len(leaves(t)); n != len(l) {
			sfail(x, "mk(%s): %d parts, want %d", args[0].S, len(l), n)
		}
		return Val{t, l}
	case "zero":
		return zeroVal(e.resolveType(args[0].S))
	case "ite":
		c := e.Bool(args[0])
		a, b := ev(1), ev(2)
		if isNilV(a) {
			a = e.coerce(a, b.T)
		}
		if isNilV(b) {
			b = e.coerce(b, a.T)
		}
		if a.T == mathInt && b.T != nil {
			a = e.coerce(a, b.T)
		} else if b.T == mathInt && a.T != nil {
			b = e.coerce(b, a.T)
		}
		var l []*Term
		for i := range a.L {
			l = append(l, Ite(c, a.L[i], b.L[i]))
		}
		return Val{a.T, l}
	case "same":
		a, b := ev(0), ev(1)
		var cs []*Term
		for i := range a.L {
			cs = append(cs, Eq(a.L[i], b.L[i]))
		}
		return boolV(And(cs...))
	case "str": // bytes -> string
		v := ev(0)
		if a, ok := under(v.T).(*types.Array); ok {
			return Val{types.Typ[types.String], []*Term{strOf(v.L[0], Int(0), Int(a.Len()))}}
		}
		et := under(v.T).(*types.Slice).Elem()
		h := e.cur.get("E$"+typeKey(et), arrSort(sInt, arrSort(sInt, sInt)))
		return Val{types.Typ[types.String], []*Term{strOf(Select(h, v.L[0]), v.L[1], v.L[2])}}
	case "content": // element array of a slice (first leaf), indexed from 0 of the backing array
		v := ev(0)
		et := under(v.T).(*types.Slice).Elem()
		li := leaves(et)[0]
		h := e.cur.get("E$"+typeKey(et)+li.Suffix, arrSort(sInt, arrSort(sInt, li.Sort)))
		return Val{nil, []*Term{Select(h, v.L[0])}}
	case "base": // offset of a slice in its backing array
		return intV(ev(0).L[1])
	case "arrof":
		v := ev(0)
		if _, ok := under(v.T).(*types.Slice); ok {
			return intV(v.L[0])
		}
		return intV(v.L[0])
	case "ref":
		return intV(ev(0).L[0])
	case "rootof":
		return intV(App("root", sInt, ev(0).L[0]))
	case "held":
		p, _ := e.addr(args[0])
		return intV(Select(e.cur.get("held", arrSort(sInt, sInt)), p))
	case "heldp":
		return intV(Select(e.cur.get("held", arrSort(sInt, sInt)), ev(0).L[0]))
	case "visited":
		if e.iter == nil {
			sfail(x, "no map iterator")
		}
		k := ev(0)
		vis := Select(e.cur.get("It$vis$"+e.iterKey.Name, arrSort(sInt, arrSort(e.iterKey, sBool))), e.iter)
		kt := keyTerm(k)
		if kt.Sort != e.iterKey {
			sfail(x, "iterator key sort")
		}
		return boolV(Select(vis, kt))
	case "iterN":
		if e.iter == nil {
			sfail(x, "no iterator")
		}
		return intV(Select(e.cur.get("It$n", arrSort(sInt, sInt)), e.iter))
	case "chsent", "chrecvd":
		return intV(Select(e.cur.get(map[string]string{"chsent": "Ch$sent", "chrecvd": "Ch$recvd"}[fn.S], arrSort(sInt, sInt)), ev(0).L[0]))
	case "chclosed":
		return boolV(Select(e.cur.get("Ch$closed", arrSort(sInt, sBool)), ev(0).L[0]))
	case "chlast":
		v := ev(0)
		et := under(v.T).(*types.Chan).Elem()
		var l []*Term
		for _, li := range leaves(et) {
			l = append(l, Select(e.cur.get("Ch$last$"+typeKey(et)+li.Suffix, arrSort(sInt, li.Sort)), v.L[0]))
		}
		return Val{et, l}
	case "spawned":
		return intV(Select(e.cur.get("Go$"+args[0].S, arrSort(sInt, sInt)), Int(0)))
	case "builder": // contents of a strings.Builder / bytes.Buffer at address
		p := ev(0)
		return Val{types.Typ[types.String], []*Term{Select(e.cur.get("Buf", arrSort(sInt, sStr)), p.L[0])}}
	case "oncedone":
		p, _ := e.addr(args[0])
		return boolV(Select(e.cur.get("Once", arrSort(sInt, sBool)), p))
	case "avalue": // current content of an atomic.Value lvalue
		p, _ := e.addr(args[0])
		t := types.NewInterfaceType(nil, nil)
		return Val{t, []*Term{Select(e.cur.get("AV#tag", arrSort(sInt, sInt)), p), Select(e.cur.get("AV#val", arrSort(sInt, sInt)), p)}}
	case "lockavalue": // content of a published atomic.Value when its mutex was last taken
		p, _ := e.addr(args[0])
		t := types.NewInterfaceType(nil, nil)
		return Val{t, []*Term{Select(e.cur.get("AVL#tag", arrSort(sInt, sInt)), p), Select(e.cur.get("AVL#val", arrSort(sInt, sInt)), p)}}
	case "smhas", "smget": // sync.Map lvalue, key
		p, _ := e.addr(args[0])
		et := types.NewInterfaceType(nil, nil)
		k := keyTerm(e.coerce(ev(1), et))
		mh := mapHeaps{key: "syncmap", kt: et, vt: et, ks: sInt}
		v, d := e.cur.mapGet(mh, p, k)
		if fn.S == "smhas" {
			return boolV(d)
		}
		return Val{et, v.L}
	case "commits", "cbefore", "cafter":
		p, t := e.addr(args[0])
		nm := map[string]string{"commits": "Atom$n", "cbefore": "Atom$before", "cafter": "Atom$after"}[fn.S]
		r := Select(e.cur.get(nm, arrSort(sInt, sInt)), p)
		if fn.S == "commits" {
			return intV(r)
		}
		return Val{t, []*Term{r}}
	case "f64bits":
		return intV(App("f64bits", sInt, ev(0).L[0]))
	case "f64frombits":
		return Val{types.Typ[types.Float64], []*Term{App("f64frombits", sF64, ev(0).L[0])}}
	case "i2f":
		return e.ex.convert(&State{ex: e.ex, assumed: map[int]bool{}}, Val{types.Typ[types.Int64], ev(0).L}, types.Typ[types.Float64])
	case "f2i": // f2i(x) conversion to uint64
		return intV(App("f2i$uint64", sInt, ev(0).L[0]))
	case "f2i64":
		return intV(App("f2i$int64", sInt, ev(0).L[0]))
	case "chr":
		return Val{types.Typ[types.String], []*Term{App("bytestr", sStr, ev(0).L[0])}}
	case "runes":
		if e.st != nil {
			e.st.runeFacts(ev(0).L[0])
		}
		return intV(App("rcount", sInt, ev(0).L[0]))
	case "runeat":
		if e.st != nil {
			e.st.runeFacts(ev(0).L[0])
		}
		return intV(App("rat", sInt, ev(0).L[0], ev(1).L[0]))
	case "isletter":
		return boolV(App("isletter", sBool, ev(0).L[0]))
	case "isdigit":
		return boolV(App("isdigit", sBool, ev(0).L[0]))
	case "feq":
		return boolV(App("fp.eq", sBool, ev(0).L[0], ev(1).L[0]))
	case "isnan":
		return boolV(App("fp.isNaN", sBool, ev(0).L[0]))
	case "apply": // deterministic meaning of an unknown function value
		f := ev(0)
		sig := under(f.T).(*types.Signature)
		var as []Val
		for i := 1; i < len(args); i++ {
			as = append(as, e.coerce(ev(i), sig.Params().At(i-1).Type()))
		}
		return e.ex.applyTerm(f, as, sig)
	case "mapsame": // whole-content equality of two maps (possibly in different states)
		sfail(x, "mapsame needs old")
	case "ghost":
		sfail(x, "ghost")
	case "unchanged":
		// unchanged(lvalue): same value now as in old
		now := e.eval(args[0])
		old := e.withSnap(e.old, e.st).eval(args[0])
		var cs []*Term
		for i := range now.L {
			cs = append(cs, Eq(now.L[i], old.L[i]))
		}
		return boolV(And(cs...))
	case "mapunchanged":
		v := ev(0)
		m := mapInfo(v.T)
		o := e.withSnap(e.old, nil)
		cs := []*Term{Eq(e.cur.mapDom(m, v.L[0]), o.cur.mapDom(m, v.L[0])), Eq(e.cur.mapCard(m, v.L[0]), o.cur.mapCard(m, v.L[0]))}
		a, b := e.cur.mapValLeafs(m, v.L[0]), o.cur.mapValLeafs(m, v.L[0])
		for i := range a {
			cs = append(cs, Eq(a[i], b[i]))
		}
		return boolV(And(cs...))
	case "ctxval":
		c := ev(0)
		et := types.NewInterfaceType(nil, nil)
		k := keyTerm(e.coerce(ev(1), et))
		return Val{et, []*Term{App("ctxval.t", sInt, keyTerm(c), k), App("ctxval.v", sInt, keyTerm(c), k)}}
	case "box":
		v := ev(0)
		return mkIface(types.NewInterfaceType(nil, nil), v)
	case "ifkey":
		return intV(keyTerm(ev(0)))
	}
	if g, ok := e.ex.V.specs.Ghosts[fn.S]; ok {
		ge := &SpecEnv{ex: e.ex, pkg: g.Pkg, imports: g.Imports}
		k := keyTerm(ev(0))
		if k.Sort == sStr {
			k = App("box$string", sInt, k)
		}
		t := ge.resolveType(g.Type)
		var l []*Term
		for _, li := range leaves(t) {
			l = append(l, Select(e.cur.get("Gh$"+g.Name+li.Suffix, arrSort(sInt, li.Sort)), k))
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Int {
			t = mathInt
		}
		return Val{t, l}
	}
	if f, ok := e.ex.V.specs.Funs[fn.S]; ok {
		var as []Val
		for i := range args {
			as = append(as, ev(i))
		}
		return e.call(f, as, x)
	}
	// conversion
	if o := types.Universe.Lookup(fn.S); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return e.convertTo(tn.Type(), ev(0), x)
		}
	}
	if e.pkg != nil {
		if tn, ok := e.pkg.Scope().Lookup(fn.S).(*types.TypeName); ok {
			return e.convertTo(tn.Type(), ev(0), x)
		}
	}
	sfail(x, "unknown function %s", fn.S)
	return Val{}
}

func (e *SpecEnv) convertTo(t types.Type, v Val, x *SExpr) Val {
	if _, _, ok := intInfo(t); ok {
		if v.L[0].Sort == sInt {
			return Val{t, []*Term{wrap(v.L[0], t)}}
		}
		if v.L[0].Sort == sF64 {
			return Val{t, []*Term{App("f2i$"+typeKey(under(t)), sInt, v.L[0])}}
		}
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 && v.L[0].Sort == sInt {
		if isInt(v.L[0]) {
			return e.coerce(v, t)
		}
		return Val{t, []*Term{App("i2f", sF64, v.L[0])}}
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := under(v.T).(*types.Slice); ok {
			h := e.cur.get("E$"+typeKey(s.Elem()), arrSort(sInt, arrSort(sInt, sInt)))
			return Val{t, []*Term{strOf(Select(h, v.L[0]), v.L[1], v.L[2])}}
		}
	}
	v = e.coerce(v, t)
	if len(v.L) != len(leaves(t)) {
		sfail(x, "conversion to %s", t)
	}
	return Val{t, v.L}
}

// ================= modifies =================

type physHeap struct {
	Name string
	Sort *Sort
}

type ModItem struct {
	Logical string
	Ref     *Term // nil: everything, unless Root is set
	Root    *Term // every object inside the allocation that Root belongs to
	Phys    []physHeap
}

func scalarPhys(base string, t types.Type, elem bool) []physHeap {
	var out []physHeap
	for _, li := range leaves(t) {
		s := li.Sort
		if elem {
			s = arrSort(sInt, s)
		}
		out = append(out, physHeap{base + li.Suffix, arrSort(sInt, s)})
	}
	return out
}

func mapPhys(m mapHeaps) []physHeap {
	out := []physHeap{{m.domName(), m.domSort()}, {m.cardName(), arrSort(sInt, sInt)}}
	for _, li := range leaves(m.vt) {
		out = append(out, physHeap{m.valName(li.Suffix), arrSort(sInt, arrSort(m.ks, li.Sort))})
	}
	return out
}

// locItems lists the heap locations making up the object of type t at p.
func locItems(p *Term, t types.Type) []ModItem {
	if opaqueKind(t) == "empty" {
		return nil
	}
	if s, ok := isStruct(t); ok {
		var out []ModItem
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, locItems(fieldAddr(p, t, i), s.Field(i).Type())...)
		}
		return out
	}
	if a, ok := under(t).(*types.Array); ok {
		if _, isS := isStruct(a.Elem()); isS {
			var out []ModItem
			if a.Len() <= 64 {
				for i := int64(0); i < a.Len(); i++ {
					out = append(out, locItems(App("elemref", sInt, p, Int(i)), a.Elem())...)
				}
			}
			return out
		}
		b := "E$" + typeKey(a.Elem())
		return []ModItem{{Logical: b, Ref: p, Phys: scalarPhys(b, a.Elem(), true)}}
	}
	ad := resolveAddr(p, t)
	return []ModItem{{Logical: ad.base, Ref: ad.ref, Phys: scalarPhys(ad.base, t, ad.kind == "E")}}
}

func (e *SpecEnv) modItems(x *SExpr) []ModItem {
	if x.Op == "call" && x.Args[0].Op == "id" {
		switch x.Args[0].S {
		case "ite":
			// conditional modifies: ite(cond, loc) -- location only if cond
			c := e.Bool(x.Args[1])
			items := e.modItems(x.Args[2])
			if c == tFalse {
				return nil
			}
			for i := range items {
				if items[i].Ref != nil {
					none := Int(0) // no object has reference 0
					if strings.HasPrefix(items[i].Logical, "Gh$") {
						none = Int(-77777777) // ghost keys: 0 is in use
					}
					items[i].Ref = Ite(c, items[i].Ref, none)
				}
				if items[i].Root != nil {
					items[i].Root = Ite(c, items[i].Root, Int(0))
				}
			}
			return items
		case "elems":
			v := e.eval(x.Args[1])
			if s, ok := under(v.T).(*types.Slice); ok {
				if _, isS := isStruct(s.Elem()); isS {
					// all fields of all elements: modelled as whole-heap items
					var out []ModItem
					for _, it := range locItems(Int(0), s.Elem()) {
						it.Ref, it.Root = nil, v.L[0]
						out = append(out, it)
					}
					return out
				}
				b := "E$" + typeKey(s.Elem())
				return []ModItem{{Logical: b, Ref: v.L[0], Phys: scalarPhys(b, s.Elem(), true)}}
			}
			sfail(x, "elems of non-slice")
		case "mapof":
			v := e.eval(x.Args[1])
			m := mapInfo(v.T)
			return []ModItem{{Logical: "M$" + m.key, Ref: v.L[0], Phys: mapPhys(m)}}
		case "syncmap":
			p, _ := e.addr(x.Args[1])
			et := types.NewInterfaceType(nil, nil)
			m := mapHeaps{key: "syncmap", kt: et, vt: et, ks: sInt}
			return []ModItem{{Logical: "M$syncmap", Ref: p, Phys: mapPhys(m)}}
		case "allmaps": // allmaps(m): contents of every map of m's type
			v := e.eval(x.Args[1])
			m := mapInfo(v.T)
			return []ModItem{{Logical: "M$" + m.key, Ref: nil, Phys: mapPhys(m)}}
		case "all": // all(p.f): the field of every object
			var out []ModItem
			p, t := e.addr(x.Args[1])
			for _, it := range locItems(p, t) {
				it.Ref = nil
				out = append(out, it)
			}
			return out
		case "ghost":
			g := e.ex.V.specs.Ghosts[x.Args[1].S]
			if g == nil {
				sfail(x, "unknown ghost")
			}
			ge := &SpecEnv{ex: e.ex, pkg: g.Pkg, imports: g.Imports}
			t := ge.resolveType(g.Type)
			it := ModItem{Logical: "Gh$" + g.Name, Phys: scalarPhys("Gh$"+g.Name, t, false)}
			if len(x.Args) > 2 {
				k := keyTerm(e.eval(x.Args[2]))
				if k.Sort == sStr {
					k = App("box$string", sInt, k)
				}
				it.Ref = k
			}
			return []ModItem{it}
		case "avalue":
			p, _ := e.addr(x.Args[1])
			return []ModItem{{Logical: "AV", Ref: p, Phys: []physHeap{{"AV#tag", arrSort(sInt, sInt)}, {"AV#val", arrSort(sInt, sInt)}}}}
		case "builder":
			p := e.eval(x.Args[1])
			return []ModItem{{Logical: "Buf", Ref: p.L[0], Phys: []physHeap{{"Buf", arrSort(sInt, sStr)}}}}
		case "once":
			p, _ := e.addr(x.Args[1])
			return []ModItem{{Logical: "Once", Ref: p, Phys: []physHeap{{"Once", arrSort(sInt, sBool)}}}}
		}
	}
	p, t := e.addr(x)
	return locItems(p, t)
}

func sortedContractKeys(m map[string]*Contract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// refLeaf is the reference in a pointer, slice, map, channel or interface value.
func refLeaf(v Val) *Term {
	if v.T != nil {
		if _, ok := under(v.T).(*types.Interface); ok {
			return v.L[1]
		}
	}
	return v.L[0]
}

// trigTerm: membership in a map reads "m is not nil and …"; only the lookup can be a pattern.
func trigTerm(t *Term) *Term {
	if t.Op == "and" {
		for i := len(t.Args) - 1; i >= 0; i-- {
			if r := trigTerm(t.Args[i]); r.Bound && r.Op == "select" {
				return r
			}
		}
	}
	return t
}
