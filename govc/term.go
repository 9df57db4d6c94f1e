package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- sorts ----

type Sort struct {
	Name string
	K, V *Sort
}

var (
	sInt  = &Sort{Name: "Int"}
	sBool = &Sort{Name: "Bool"}
	sF64  = &Sort{Name: "F64"}
	sStr  = &Sort{Name: "Str"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func arrSort(k, v *Sort) *Sort {
	if s, ok := arrSorts[[2]*Sort{k, v}]; ok {
		return s
	}
	s := &Sort{Name: "(Array " + k.Name + " " + v.Name + ")", K: k, V: v}
	arrSorts[[2]*Sort{k, v}] = s
	return s
}

// ---- terms (hash-consed) ----

type Term struct {
	Op    string // int,true,false,var,bvar,app, + * div mod < <= = and or not => ite select store forall exists constarr fplit
	Args  []*Term
	Sort  *Sort
	Name  string // var / app name / literal text
	Int   *big.Int
	ID    int
	Bound bool // contains bound variables
	Pats  [][]*Term
	BVs   []*Term
	QD    int // nesting depth of quantifiers
}

var termTab = map[string]*Term{}
var termCount int
var allTerms []*Term

func mk(op, name string, sort *Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort.Name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Args: args, Sort: sort, Name: name, ID: termCount}
	if op == "bvar" {
		t.Bound = true
	}
	for _, a := range args {
		if a.Bound {
			t.Bound = true
		}
		if a.QD > t.QD {
			t.QD = a.QD
		}
	}
	if op == "forall" || op == "exists" {
		t.QD++
	}
	termTab[key] = t
	return t
}

var tTrue = mk("true", "", sBool)
var tFalse = mk("false", "", sBool)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func BigInt(b *big.Int) *Term {
	t := mk("int", b.String(), sInt)
	if t.Int == nil {
		t.Int = new(big.Int).Set(b)
	}
	return t
}
func Int(n int64) *Term { return BigInt(big.NewInt(n)) }

var freshCtr = map[string]int{}

func Var(name string, s *Sort) *Term { return mk("var", name, s) }
func Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	freshCtr[prefix]++
	return mk("var", fmt.Sprintf("%s!%d", prefix, freshCtr[prefix]), s)
}
func BVar(prefix string, s *Sort) *Term {
	freshCtr["$"+prefix]++
	return mk("bvar", fmt.Sprintf("%s?%d", sanitize(prefix), freshCtr["$"+prefix]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '?' || c == '$' || c == '%' || c == '-' || c == '/' || c == '*' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(name string, s *Sort, args ...*Term) *Term {
	// built-in simplifications on theory functions
	if r := simpApp(name, s, args); r != nil {
		return r
	}
	recordFun(name, s, args)
	return mk("app", name, s, args...)
}

type funSig struct {
	Args []*Sort
	Ret  *Sort
}

var funSigs = map[string]*funSig{}

func recordFun(name string, s *Sort, args []*Term) {
	if _, ok := funSigs[name]; ok {
		return
	}
	f := &funSig{Ret: s}
	for _, a := range args {
		f.Args = append(f.Args, a.Sort)
	}
	funSigs[name] = f
}

func isInt(t *Term) bool { return t.Op == "int" }

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", "", sBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t.ID] {
			seen[t.ID] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].ID] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "", sBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == tFalse {
			continue
		}
		if t == tTrue {
			return tTrue
		}
		l := []*Term{t}
		if t.Op == "or" {
			l = t.Args
		}
		for _, a := range l {
			if !seen[a.ID] {
				seen[a.ID] = true
				out = append(out, a)
			}
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].ID] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", "", sBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", "", sBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// linear arithmetic normal form

type linForm struct {
	c     *big.Int
	atoms map[int]*Term
	coef  map[int]*big.Int
}

func linear(t *Term) *linForm {
	l := &linForm{c: new(big.Int), atoms: map[int]*Term{}, coef: map[int]*big.Int{}}
	l.addScaled(t, big.NewInt(1))
	return l
}
func (l *linForm) addScaled(t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
	case "+":
		for _, a := range t.Args {
			l.addScaled(a, k)
		}
	case "*":
		if isInt(t.Args[0]) {
			l.addScaled(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
		l.atom(t, k)
	default:
		l.atom(t, k)
	}
}
func (l *linForm) atom(t *Term, k *big.Int) {
	if c, ok := l.coef[t.ID]; ok {
		c.Add(c, k)
		if c.Sign() == 0 {
			delete(l.coef, t.ID)
			delete(l.atoms, t.ID)
		}
		return
	}
	if k.Sign() == 0 {
		return
	}
	l.coef[t.ID] = new(big.Int).Set(k)
	l.atoms[t.ID] = t
}
func (l *linForm) isConst() bool { return len(l.atoms) == 0 }
func (l *linForm) term() *Term {
	ids := make([]int, 0, len(l.atoms))
	for id := range l.atoms {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		c := l.coef[id]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, l.atoms[id])
		} else {
			args = append(args, mk("*", "", sInt, BigInt(c), l.atoms[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", sInt, args...)
}

func Add(ts ...*Term) *Term {
	l := &linForm{c: new(big.Int), atoms: map[int]*Term{}, coef: map[int]*big.Int{}}
	for _, t := range ts {
		l.addScaled(t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linear(a)
	l.addScaled(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	if isInt(a) {
		l := &linForm{c: new(big.Int), atoms: map[int]*Term{}, coef: map[int]*big.Int{}}
		l.addScaled(b, a.Int)
		return l.term()
	}
	if isInt(b) {
		return Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("*", "", sInt, a, b)
}

// Euclidean div / mod by positive constants
func Div(a, b *Term) *Term {
	if isInt(b) && b.Int.Sign() > 0 {
		if isInt(a) {
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(a.Int, b.Int, m)
			return BigInt(q)
		}
		if b.Int.IsInt64() && b.Int.Int64() == 1 {
			return a
		}
	}
	return mk("div", "", sInt, a, b)
}
func Mod(a, b *Term) *Term {
	if isInt(b) && b.Int.Sign() > 0 {
		if isInt(a) {
			return BigInt(new(big.Int).Mod(a.Int, b.Int))
		}
		if b.Int.IsInt64() && b.Int.Int64() == 1 {
			return Int(0)
		}
		if lo, hi, ok := rangeOf(a); ok && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return a
		}
		if a.Op == "mod" && isInt(a.Args[1]) && new(big.Int).Mod(a.Args[1].Int, b.Int).Sign() == 0 {
			return Mod(a.Args[0], b)
		}
	}
	return mk("mod", "", sInt, a, b)
}

func Le(a, b *Term) *Term {
	l := linear(a)
	l.addScaled(b, big.NewInt(-1))
	if l.isConst() {
		return Bool(l.c.Sign() <= 0)
	}
	if lo, hi, ok := rangeLin(l); ok {
		if hi != nil && hi.Sign() <= 0 {
			return tTrue
		}
		if lo != nil && lo.Sign() > 0 {
			return tFalse
		}
	}
	// canonical: move negatives to the right
	x, y := l.split()
	return mk("<=", "", sBool, x, y)
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func (l *linForm) split() (*Term, *Term) {
	p := &linForm{c: new(big.Int), atoms: map[int]*Term{}, coef: map[int]*big.Int{}}
	n := &linForm{c: new(big.Int), atoms: map[int]*Term{}, coef: map[int]*big.Int{}}
	for id, c := range l.coef {
		if c.Sign() > 0 {
			p.coef[id], p.atoms[id] = c, l.atoms[id]
		} else {
			n.coef[id], n.atoms[id] = new(big.Int).Neg(c), l.atoms[id]
		}
	}
	if l.c.Sign() > 0 {
		p.c = l.c
	} else {
		n.c = new(big.Int).Neg(l.c)
	}
	return p.term(), n.term()
}

// value ranges known by type for certain terms (sound facts asserted at
// creation of the term, see State.assumeType)
type rng struct{ lo, hi *big.Int }

var knownRange = map[int]rng{}

func setRange(t *Term, lo, hi *big.Int) {
	if isInt(t) || t.Bound {
		return
	}
	if o, ok := knownRange[t.ID]; ok {
		if lo.Cmp(o.lo) < 0 {
			lo = o.lo
		}
		if hi.Cmp(o.hi) > 0 {
			hi = o.hi
		}
	}
	knownRange[t.ID] = rng{lo, hi}
}

func rangeOf(t *Term) (lo, hi *big.Int, ok bool) {
	if isInt(t) {
		return t.Int, t.Int, true
	}
	if r, ok := knownRange[t.ID]; ok {
		return r.lo, r.hi, true
	}
	switch t.Op {
	case "+", "*":
		l := linear(t)
		if len(l.atoms) == 1 {
			for _, a := range l.atoms {
				if a == t {
					return nil, nil, false
				}
			}
		}
		lo, hi, ok := rangeLin(l)
		if ok && lo != nil && hi != nil {
			return lo, hi, true
		}
	case "mod":
		if isInt(t.Args[1]) {
			return new(big.Int), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1)), true
		}
	case "div":
		if isInt(t.Args[1]) && t.Args[1].Int.Sign() > 0 {
			if lo, hi, ok := rangeOf(t.Args[0]); ok {
				d := t.Args[1].Int
				m := new(big.Int)
				a, _ := new(big.Int).DivMod(lo, d, m)
				b, _ := new(big.Int).DivMod(hi, d, new(big.Int))
				return a, b, true
			}
		}
	case "ite":
		if t.Sort != sInt {
			return nil, nil, false
		}
		lo1, hi1, ok1 := rangeOf(t.Args[1])
		lo2, hi2, ok2 := rangeOf(t.Args[2])
		if ok1 && ok2 {
			if lo2.Cmp(lo1) < 0 {
				lo1 = lo2
			}
			if hi2.Cmp(hi1) > 0 {
				hi1 = hi2
			}
			return lo1, hi1, true
		}
	}
	return nil, nil, false
}

func rangeLin(l *linForm) (lo, hi *big.Int, ok bool) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for id, c := range l.coef {
		a := l.atoms[id]
		if a.Op == "+" {
			return nil, nil, false
		}
		x, y, ok := rangeOf(a)
		if !ok {
			return nil, nil, false
		}
		p, q := new(big.Int).Mul(x, c), new(big.Int).Mul(y, c)
		if c.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return lo, hi, true
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s : %s  vs %s : %s", a, a.Sort.Name, b, b.Sort.Name))
	}
	if a.Sort == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	if a.Sort == sInt {
		l := linear(a)
		l.addScaled(b, big.NewInt(-1))
		if l.isConst() {
			return Bool(l.c.Sign() == 0)
		}
		if lo, hi, ok := rangeLin(l); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
			return tFalse
		}
		if provablyDistinct(a, b) {
			return tFalse
		}
		// injective functions
		if a.Op == "app" && b.Op == "app" && a.Name == b.Name && injective(a.Name) {
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		x, y := l.split()
		if x.ID > y.ID {
			x, y = y, x
		}
		return mk("=", "", sBool, x, y)
	}
	if a.Sort == sStr && a.Op == "var" && b.Op == "var" && strings.HasPrefix(a.Name, "lit$") && strings.HasPrefix(b.Name, "lit$") {
		return tFalse
	}
	if a.Sort == sF64 && a.Op == "fplit" && b.Op == "fplit" {
		return tFalse
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && injective(a.Name) {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", sBool, a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func injective(name string) bool {
	return strings.HasPrefix(name, "fld$") || strings.HasPrefix(name, "box$") || name == "elemref" || strings.HasPrefix(name, "mk$")
}

// provablyDistinct decides some disequalities between references syntactically.
func provablyDistinct(a, b *Term) bool {
	ka, kb := refKind(a), refKind(b)
	if ka != "" && kb != "" && ka != kb {
		return true
	}
	return false
}

// refKind: "root" for terms known to be nonnegative references, fld name, "elem"
func refKind(t *Term) string {
	if t.Op == "app" {
		if strings.HasPrefix(t.Name, "fld$") {
			return t.Name
		}
		if t.Name == "elemref" {
			return "elem"
		}
	}
	if isInt(t) && t.Int.Sign() >= 0 {
		return "root"
	}
	if isAllocTerm(t) {
		return "root"
	}
	return ""
}

// isAllocTerm: of the form alloc!k (+ c)
func isAllocTerm(t *Term) bool {
	if t.Op == "var" && strings.HasPrefix(t.Name, "alloc!") {
		return true
	}
	if t.Op == "+" && len(t.Args) == 2 && isInt(t.Args[1]) && t.Args[1].Int.Sign() >= 0 && t.Args[0].Op == "var" && strings.HasPrefix(t.Args[0].Name, "alloc!") {
		return true
	}
	return false
}

func Select(a, i *Term) *Term {
	if a.Sort.V == nil {
		panic("select on non-array " + a.String() + " : " + a.Sort.Name)
	}
	for {
		switch a.Op {
		case "store":
			j := a.Args[1]
			e := Eq(i, j)
			if e == tTrue {
				return a.Args[2]
			}
			if e == tFalse {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			if a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr" {
				// leave
			}
		case "app":
			if a.Name == "bytes_of" && a.Args[0].Op == "var" && strings.HasPrefix(a.Args[0].Name, "lit$") && isInt(i) {
				lit := litOf[a.Args[0].Name]
				if i.Int.Sign() >= 0 && i.Int.Cmp(big.NewInt(int64(len(lit)))) < 0 {
					return Int(int64(lit[i.Int.Int64()]))
				}
			}
		}
		break
	}
	if a.Op == "var" && len(frameHeaps) > 0 {
		if r := frameSelect(a, i); r != nil {
			return r
		}
	}
	return mk("select", "", a.Sort.V, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Sort.V != v.Sort || a.Sort.K != i.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s [%s] := %s", a.Sort.Name, i.Sort.Name, v.Sort.Name))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func Forall(bvs []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", bvs, pats, body) }
func Exists(bvs []*Term, body *Term) *Term                 { return quant("exists", bvs, nil, body) }
func quant(op string, bvs []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(bvs) == 0 {
		return body
	}
	// canonical bound variables: formulas equal up to renaming become the same term
	d := body.QD
	for _, p := range pats {
		for _, t := range p {
			if t.QD > d {
				d = t.QD
			}
		}
	}
	fv := freeBVars(body)
	for _, b := range bvs {
		delete(fv, b.ID)
	}
	canon := make([]*Term, len(bvs))
	for clash := true; clash; d++ { // d+1 is above every quantifier inside; step over free variables
		clash = false
		for i, b := range bvs {
			canon[i] = mk("bvar", fmt.Sprintf("q?%d.%d", d+1, i), b.Sort)
			clash = clash || fv[canon[i].ID] != nil
		}
	}
	m := map[int]*Term{}
	for i, b := range bvs {
		if canon[i] != b {
			m[b.ID] = canon[i]
		}
	}
	if len(m) > 0 {
		body = Subst(body, m)
		np := make([][]*Term, len(pats))
		for i, p := range pats {
			for _, t := range p {
				np[i] = append(np[i], Subst(t, m))
			}
		}
		pats = np
		if body == tTrue || body == tFalse {
			return body
		}
	}
	bvs = canon
	pats = usablePats(bvs, pats)
	var name strings.Builder
	for _, b := range bvs {
		fmt.Fprintf(&name, "%d,", b.ID)
	}
	for _, p := range pats {
		name.WriteByte(';')
		for _, t := range p {
			fmt.Fprintf(&name, "%d,", t.ID)
		}
	}
	t := mk(op, name.String(), sBool, body)
	if t.BVs == nil {
		t.BVs = bvs
		t.Pats = pats
		t.QD = d
		t.Bound = len(freeBVars(t)) > 0
	}
	return t
}

// usablePats drops patterns that simplification has made useless (constants, connectives).
func usablePats(bvs []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		var q []*Term
		got := map[int]bool{}
		for _, t := range p {
			if !t.Bound || t.Op != "app" && t.Op != "select" && t.Op != "store" && t.Op != "*" {
				continue
			}
			q = append(q, t)
			for id := range freeBVars(t) {
				got[id] = true
			}
		}
		all := len(q) > 0
		for _, b := range bvs {
			all = all && got[b.ID]
		}
		if all {
			out = append(out, q)
		}
	}
	return out
}

func freeBVars(t *Term) map[int]*Term {
	out := map[int]*Term{}
	var walk func(t *Term, bound map[int]bool)
	walk = func(t *Term, bound map[int]bool) {
		if t.Op == "bvar" {
			if !bound[t.ID] {
				out[t.ID] = t
			}
			return
		}
		if t.BVs != nil {
			nb := map[int]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.BVs {
				nb[b.ID] = true
			}
			walk(t.Args[0], nb)
			return
		}
		for _, a := range t.Args {
			if a.Bound {
				walk(a, bound)
			}
		}
	}
	walk(t, map[int]bool{})
	return out
}

// Subst replaces terms by id.
func Subst(t *Term, m map[int]*Term) *Term {
	cache := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t.ID]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		cache[t.ID] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.Sort, a[0])
	case "app":
		return App(t.Name, t.Sort, a...)
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return quant(t.Op, t.BVs, pats, a[0])
	}
	panic("rebuild " + t.Op)
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func smtName(s string) string {
	return "|" + s + "|"
}

func intLit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func printTerm(t *Term, named map[int]string) string {
	var sb strings.Builder
	writeTerm(&sb, t, named)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, named map[int]string) {
	if named != nil {
		if n, ok := named[t.ID]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		sb.WriteString(intLit(t.Int))
	case "true", "false":
		sb.WriteString(t.Op)
	case "var", "bvar":
		sb.WriteString(smtName(t.Name))
	case "fplit":
		sb.WriteString(t.Name)
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString(smtFun(t.Name))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(smtFun(t.Name))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			writeTerm(sb, a, named)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + t.Sort.Name + ") ")
		writeTerm(sb, t.Args[0], named)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.BVs {
			sb.WriteString("(" + smtName(b.Name) + " " + b.Sort.Name + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[0], named)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, named)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		sb.WriteByte('(')
		sb.WriteString(t.Op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			writeTerm(sb, a, named)
		}
		sb.WriteByte(')')
	}
}

func smtFun(n string) string {
	if strings.HasPrefix(n, "fp.") {
		return n
	}
	return smtName(n)
}

// ---- string literals ----

var litOf = map[string]string{}
var litNames = map[string]string{}

func StrLit(s string) *Term {
	if n, ok := litNames[s]; ok {
		return Var(n, sStr)
	}
	n := fmt.Sprintf("lit$%d", len(litNames))
	if s == "" {
		n = "lit$empty"
	}
	litNames[s] = n
	litOf[n] = s
	return Var(n, sStr)
}
func isLit(t *Term) (string, bool) {
	if t.Op == "var" && t.Sort == sStr {
		s, ok := litOf[t.Name]
		return s, ok
	}
	return "", false
}

// theory simplifications
func simpApp(name string, s *Sort, a []*Term) *Term {
	switch name {
	case "slen":
		if l, ok := isLit(a[0]); ok {
			return Int(int64(len(l)))
		}
		if a[0].Op == "app" {
			switch a[0].Name {
			case "scat":
				return Add(App("slen", sInt, a[0].Args[0]), App("slen", sInt, a[0].Args[1]))
			}
		}
	case "sat":
		if l, ok := isLit(a[0]); ok && isInt(a[1]) && a[1].Int.IsInt64() {
			if i := a[1].Int.Int64(); i >= 0 && i < int64(len(l)) {
				return Int(int64(l[i]))
			}
		}
	case "scat":
		if l, ok := isLit(a[0]); ok {
			if l == "" {
				return a[1]
			}
			if r, ok := isLit(a[1]); ok {
				return StrLit(l + r)
			}
			// (l . (r . x)) -> ((lr) . x)
			if a[1].Op == "app" && a[1].Name == "scat" {
				if r, ok := isLit(a[1].Args[0]); ok {
					return App("scat", sStr, StrLit(l+r), a[1].Args[1])
				}
			}
		}
		if r, ok := isLit(a[1]); ok && r == "" {
			return a[0]
		}
		// right-associate
		if a[0].Op == "app" && a[0].Name == "scat" {
			return App("scat", sStr, a[0].Args[0], App("scat", sStr, a[0].Args[1], a[1]))
		}
	case "ssub":
		if l, ok := isLit(a[0]); ok && isInt(a[1]) && isInt(a[2]) {
			lo, hi := a[1].Int.Int64(), a[2].Int.Int64()
			if 0 <= lo && lo <= hi && hi <= int64(len(l)) {
				return StrLit(l[lo:hi])
			}
		}
		if isInt(a[1]) && a[1].Int.Sign() == 0 && a[2] == App("slen", sInt, a[0]) {
			return a[0]
		}
	case "str_of":
		// str_of(bytes_of(s),0,slen s) = s
		if a[0].Op == "app" && a[0].Name == "bytes_of" && isInt(a[1]) && a[1].Int.Sign() == 0 && a[2] == App("slen", sInt, a[0].Args[0]) {
			return a[0].Args[0]
		}
	case "root":
		t := a[0]
		for t.Op == "app" && (strings.HasPrefix(t.Name, "fld$") || t.Name == "elemref") {
			t = t.Args[0]
		}
		if isInt(t) && t.Int.Sign() >= 0 || isAllocTerm(t) {
			return t
		}
		if t != a[0] {
			return App("root", sInt, t)
		}
	case "f64frombits":
		if a[0].Op == "app" && a[0].Name == "f64bits" {
			return a[0].Args[0]
		}
	case "f.add", "f.mul":
		if a[0].ID > a[1].ID {
			return mkApp(name, s, a[1], a[0])
		}
	case "f.neg":
		if a[0].Op == "app" && a[0].Name == "f.neg" {
			return a[0].Args[0]
		}
	case "fp.leq", "fp.lt", "fp.eq":
		// left to solver
	}
	if strings.HasPrefix(name, "unbox$") {
		x := a[0]
		if x.Op == "app" && strings.HasPrefix(x.Name, "box$") {
			// unbox$<type>$<i>
			k := strings.LastIndex(name, "$")
			if "box$"+name[len("unbox$"):k] == x.Name {
				var i int
				fmt.Sscanf(name[k+1:], "%d", &i)
				return x.Args[i]
			}
		}
	}
	return nil
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	recordFun(name, s, args)
	return mk("app", name, s, args...)
}
