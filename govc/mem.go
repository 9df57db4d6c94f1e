package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Write struct {
	Heap string
	Ref  *Term // nil: any object, unless Root is set
	Root *Term // every object inside the allocation that Root belongs to
}

type State struct {
	ex         *Exec
	frames     []*Frame
	heaps      map[string]*Term
	alloc      *Term
	pc         []*Term
	writes     []Write
	assumed    map[int]bool
	trace      []string
	dead       bool
	locksTaken map[int]bool // mutex refs locked once already in this unit run
	nondets    []string
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{ex: st.ex, alloc: st.alloc, dead: st.dead}
	n.heaps = make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.assumed = make(map[int]bool, len(st.assumed))
	for k := range st.assumed {
		n.assumed[k] = true
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.writes = st.writes[:len(st.writes):len(st.writes)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.locksTaken = map[int]bool{}
	for k := range st.locksTaken {
		n.locksTaken[k] = true
	}
	for _, f := range st.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}

// snapshot of the memory for old()/pre()
type Snap struct {
	heaps map[string]*Term
	alloc *Term
}

func (st *State) snap() *Snap {
	h := make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		h[k] = v
	}
	return &Snap{h, st.alloc}
}

func (st *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if st.assumed[t.ID] {
		return
	}
	st.assumed[t.ID] = true
	if t == tFalse {
		st.dead = true
	}
	if st.assumed[Not(t).ID] {
		st.dead = true
	}
	st.pc = append(st.pc, t)
}

// heap access; the initial version of a heap is shared by all states of a unit
func (st *State) heap(name string, s *Sort) *Term {
	return heapIn(st.ex, st.heaps, name, s)
}

func heapIn(ex *Exec, m map[string]*Term, name string, s *Sort) *Term {
	if h, ok := m[name]; ok {
		return h
	}
	h := ex.initialHeap(name, s)
	m[name] = h
	return h
}

func (ex *Exec) initialHeap(name string, s *Sort) *Term {
	if h, ok := ex.heap0[name]; ok {
		return h
	}
	var h *Term
	switch {
	case name == "held":
		h = ConstArr(s, Int(0))
	default:
		h = Var("h0$"+name, s)
	}
	ex.heap0[name] = h
	return h
}

func (st *State) logWrite(heap string, ref *Term) {
	st.writes = append(st.writes, Write{Heap: heap, Ref: ref})
}

func fieldHeap(structT types.Type, f *types.Var, suffix string) string {
	return "H$" + typeKey(structT) + "." + f.Name() + suffix
}

// resolved scalar address
type saddr struct {
	kind string // "H","E","C"
	base string // heap name prefix (without leaf suffix)
	ref  *Term
	idx  *Term
}

// addr names: fld$<structkey>.<field> ; selem$<elemkey>
func resolveAddr(p *Term, t types.Type) saddr {
	if p.Op == "app" && strings.HasPrefix(p.Name, "fld$") {
		return saddr{kind: "H", base: "H$" + p.Name[4:], ref: p.Args[0]}
	}
	if p.Op == "app" && strings.HasPrefix(p.Name, "selem$") {
		return saddr{kind: "E", base: "E$" + p.Name[6:], ref: p.Args[0], idx: p.Args[1]}
	}
	return saddr{kind: "C", base: "C$" + typeKey(t), ref: p}
}

type memView struct {
	ex    *Exec
	heaps map[string]*Term
}

func (m memView) get(name string, s *Sort) *Term { return heapIn(m.ex, m.heaps, name, s) }

func (m memView) loadScalar(p *Term, t types.Type) Val {
	a := resolveAddr(p, t)
	var l []*Term
	for _, li := range leaves(t) {
		switch a.kind {
		case "H", "C":
			l = append(l, Select(m.get(a.base+li.Suffix, arrSort(sInt, li.Sort)), a.ref))
		case "E":
			l = append(l, Select(Select(m.get(a.base+li.Suffix, arrSort(sInt, arrSort(sInt, li.Sort))), a.ref), a.idx))
		}
	}
	return Val{t, l}
}

func (m memView) load(p *Term, t types.Type) Val {
	if s, ok := isStruct(t); ok {
		var l []*Term
		if opaqueKind(t) == "empty" {
			return Val{t, nil}
		}
		for i := 0; i < s.NumFields(); i++ {
			fv := m.load(fieldAddr(p, t, i), s.Field(i).Type())
			l = append(l, fv.L...)
		}
		return Val{t, l}
	}
	if a, ok := under(t).(*types.Array); ok {
		if _, ok := isStruct(a.Elem()); ok {
			// element structs live at elemref(p,i): only tiny arrays are materialised
			if a.Len() > 64 {
				panic(unsupported("load of large array of structs"))
			}
			ls := leaves(t)
			out := make([]*Term, len(ls))
			for j := range out {
				out[j] = zeroLeaf(ls[j].Sort)
			}
			for i := int64(0); i < a.Len(); i++ {
				ev := m.load(App("elemref", sInt, p, Int(i)), a.Elem())
				for j := range out {
					out[j] = Store(out[j], Int(i), ev.L[j])
				}
			}
			return Val{t, out}
		}
		if _, ok := under(a.Elem()).(*types.Array); ok {
			panic(unsupported("load of nested array"))
		}
		var l []*Term
		for _, li := range leaves(a.Elem()) {
			l = append(l, Select(m.get("E$"+typeKey(a.Elem())+li.Suffix, arrSort(sInt, arrSort(sInt, li.Sort))), p))
		}
		return Val{t, l}
	}
	return m.loadScalar(p, t)
}

func (st *State) mem() memView { return memView{st.ex, st.heaps} }

func fieldAddr(p *Term, structT types.Type, i int) *Term {
	s := under(structT).(*types.Struct)
	return App(fldFun(typeKey(structT)+"."+s.Field(i).Name()), sInt, p)
}

func (st *State) load(p *Term, t types.Type) Val {
	v := st.mem().load(p, t)
	st.assumeVal(v)
	return v
}

func (st *State) store(p *Term, v Val, t types.Type) {
	if s, ok := isStruct(t); ok {
		if opaqueKind(t) == "empty" {
			return
		}
		v = Val{t, v.L}
		for i := 0; i < s.NumFields(); i++ {
			st.store(fieldAddr(p, t, i), v.field(i), s.Field(i).Type())
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		if _, ok := isStruct(a.Elem()); ok {
			if a.Len() > 64 {
				panic(unsupported("store of large array of structs"))
			}
			for i := int64(0); i < a.Len(); i++ {
				var l []*Term
				for j := range v.L {
					l = append(l, Select(v.L[j], Int(i)))
				}
				st.store(App("elemref", sInt, p, Int(i)), Val{a.Elem(), l}, a.Elem())
			}
			return
		}
		for j, li := range leaves(a.Elem()) {
			n := "E$" + typeKey(a.Elem()) + li.Suffix
			st.heaps[n] = Store(st.heap(n, arrSort(sInt, arrSort(sInt, li.Sort))), p, v.L[j])
		}
		st.logWrite("E$"+typeKey(a.Elem()), p)
		return
	}
	a := resolveAddr(p, t)
	for j, li := range leaves(t) {
		n := a.base + li.Suffix
		switch a.kind {
		case "H", "C":
			st.heaps[n] = Store(st.heap(n, arrSort(sInt, li.Sort)), a.ref, v.L[j])
		case "E":
			h := st.heap(n, arrSort(sInt, arrSort(sInt, li.Sort)))
			st.heaps[n] = Store(h, a.ref, Store(Select(h, a.ref), a.idx, v.L[j]))
		}
	}
	st.logWrite(a.base, a.ref)
}

// alloc
func (st *State) newRef() *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

func (st *State) newObj(t types.Type) *Term {
	r := st.newRef()
	st.zeroInit(r, t)
	return r
}

func (st *State) zeroInit(p *Term, t types.Type) {
	if a, ok := under(t).(*types.Array); ok && opaqueKind(t) == "" {
		if _, isS := isStruct(a.Elem()); isS {
			st.zeroElems(p, Int(0), Int(a.Len()), a.Elem())
			return
		}
	}
	if s, ok := isStruct(t); ok {
		if opaqueKind(t) == "empty" {
			st.zeroOpaque(p, t)
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			st.zeroInit(fieldAddr(p, t, i), s.Field(i).Type())
		}
		return
	}
	st.store(p, zeroVal(t), t)
}

// zeroElems assumes that elements [lo,hi) of the fresh array p hold zero structs.
func (st *State) zeroElems(p, lo, hi *Term, elem types.Type) {
	i := BVar("zi", sInt)
	er := App("elemref", sInt, p, i)
	var rec func(q *Term, t types.Type)
	rec = func(q *Term, t types.Type) {
		if opaqueKind(t) == "empty" {
			return
		}
		if s, ok := isStruct(t); ok {
			for k := 0; k < s.NumFields(); k++ {
				rec(fieldAddr(q, t, k), s.Field(k).Type())
			}
			return
		}
		cur := st.mem().load(q, t)
		z := zeroVal(t)
		for j := range cur.L {
			body := Implies(And(Le(lo, i), Lt(i, hi)), Eq(cur.L[j], z.L[j]))
			pat := cur.L[j]
			st.assume(Forall([]*Term{i}, [][]*Term{{pat}}, body))
		}
	}
	if s, ok := isStruct(elem); ok {
		for k := 0; k < s.NumFields(); k++ {
			rec(fieldAddr(er, elem, k), s.Field(k).Type())
		}
	}
}

// fresh unknown value of a type
func (st *State) freshVal(prefix string, t types.Type) Val {
	var l []*Term
	for _, li := range leaves(t) {
		l = append(l, Fresh(prefix+li.Suffix, li.Sort))
	}
	v := Val{t, l}
	st.assumeVal(v)
	return v
}

var bigMaxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// assumeVal adds the facts every value of the type satisfies.
func (st *State) assumeVal(v Val) {
	st.assumeValT(v.L, v.T)
}

func (st *State) assumeValT(l []*Term, t types.Type) {
	if len(l) == 0 || opaqueKind(t) != "" {
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			st.strFacts(l[0])
		}
		if lo, hi, ok := intBounds(t); ok {
			x := l[0]
			if isInt(x) || x.Bound {
				return
			}
			if a, b, ok := rangeOf(x); ok && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
				if _, k := knownRange[x.ID]; !k {
					return
				}
			}
			st.assumeRange(x, lo, hi)
		}
	case *types.Pointer:
		st.assumeRef(l[0], false)
	case *types.Map, *types.Chan, *types.Signature:
		st.assumeRef(l[0], true)
	case *types.Slice:
		arr, off, ln, cp := l[0], l[1], l[2], l[3]
		if isInt(ln) && isInt(cp) && (isInt(arr) || isAllocTerm(arr)) {
			return
		}
		st.assumeRef(arr, false)
		st.assumeRange(off, new(big.Int), bigMaxLen)
		st.assumeRange(ln, new(big.Int), bigMaxLen)
		st.assumeRange(cp, new(big.Int), bigMaxLen)
		if !arr.Bound {
			st.assume(Le(ln, cp))
			st.assume(Implies(Eq(arr, Int(0)), And(Eq(cp, Int(0)), Eq(off, Int(0)), Eq(ln, Int(0)))))
			if arr.Op == "var" {
				st.assume(Or(Eq(arr, Int(0)), Lt(Int(0), App("root", sInt, arr)))) // no slice of an array inside a nil object
			}
		}
	case *types.Interface:
		if !l[0].Bound && !isInt(l[0]) {
			st.assumeRange(l[0], new(big.Int), big.NewInt(1<<40))
			st.assume(Implies(Eq(l[0], Int(0)), Eq(l[1], Int(0))))
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leaves(u.Field(i).Type()))
			st.assumeValT(l[o:o+n], u.Field(i).Type())
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			n := len(leaves(u.At(i).Type()))
			st.assumeValT(l[o:o+n], u.At(i).Type())
			o += n
		}
	}
}

func (st *State) assumeRange(x *Term, lo, hi *big.Int) {
	if isInt(x) || x.Bound {
		return
	}
	if st.assumed[-x.ID] {
		return
	}
	st.assumed[-x.ID] = true
	if _, ok := knownRange[x.ID]; ok {
		delete(knownRange, x.ID)
		f := And(mk("<=", "", sBool, BigInt(lo), x), mk("<=", "", sBool, x, BigInt(hi)))
		st.pcRaw(f)
	} else {
		f := And(mk("<=", "", sBool, BigInt(lo), x), mk("<=", "", sBool, x, BigInt(hi)))
		st.pcRaw(f)
	}
	setRange(x, lo, hi)
}

func (st *State) pcRaw(f *Term) {
	for _, a := range f.Args {
		if !st.assumed[a.ID] {
			st.assumed[a.ID] = true
			st.pc = append(st.pc, a)
		}
	}
}

func (st *State) assumeRef(x *Term, rootOnly bool) {
	if x.Bound || isInt(x) || isAllocTerm(x) || x.Op == "app" && (strings.HasPrefix(x.Name, "fld$") || x.Name == "elemref" || strings.HasPrefix(x.Name, "selem$")) {
		return
	}
	if _, ok := st.ex.closures[x.ID]; ok {
		return
	}
	if rootOnly {
		st.assume(Le(Int(0), x))
		st.assume(Lt(x, st.alloc))
		return
	}
	st.assume(Lt(App("root", sInt, x), st.alloc))
}

// ---- maps ----

type mapHeaps struct {
	key string
	kt  types.Type
	vt  types.Type
	ks  *Sort
}

func mapInfo(t types.Type) mapHeaps {
	m := under(t).(*types.Map)
	return mapHeaps{key: typeKey(m.Key()) + "->" + typeKey(m.Elem()), kt: m.Key(), vt: m.Elem(), ks: keySort(m.Key())}
}

func (m mapHeaps) domName() string  { return "Mdom$" + m.key }
func (m mapHeaps) cardName() string { return "Mcard$" + m.key }
func (m mapHeaps) valName(suffix string) string {
	return "Mval$" + m.key + suffix
}
func (m mapHeaps) domSort() *Sort { return arrSort(sInt, arrSort(m.ks, sBool)) }

func (mv memView) mapDom(m mapHeaps, ref *Term) *Term {
	return Select(mv.get(m.domName(), m.domSort()), ref)
}
func (mv memView) mapCard(m mapHeaps, ref *Term) *Term {
	return Select(mv.get(m.cardName(), arrSort(sInt, sInt)), ref)
}
func (mv memView) mapValLeafs(m mapHeaps, ref *Term) []*Term {
	var out []*Term
	for _, li := range leaves(m.vt) {
		out = append(out, Select(mv.get(m.valName(li.Suffix), arrSort(sInt, arrSort(m.ks, li.Sort))), ref))
	}
	return out
}
func (mv memView) mapGet(m mapHeaps, ref, k *Term) (Val, *Term) {
	dom := Select(mv.mapDom(m, ref), k)
	var l []*Term
	for _, a := range mv.mapValLeafs(m, ref) {
		l = append(l, Select(a, k))
	}
	return Val{m.vt, l}, dom
}

func (st *State) mapUpdate(m mapHeaps, ref, k *Term, v Val) {
	mv := st.mem()
	dom := mv.mapDom(m, ref)
	card := mv.mapCard(m, ref)
	st.heaps[m.cardName()] = Store(mv.get(m.cardName(), arrSort(sInt, sInt)), ref, Add(card, Ite(Select(dom, k), Int(0), Int(1))))
	st.heaps[m.domName()] = Store(mv.get(m.domName(), m.domSort()), ref, Store(dom, k, tTrue))
	for j, li := range leaves(m.vt) {
		n := m.valName(li.Suffix)
		h := mv.get(n, arrSort(sInt, arrSort(m.ks, li.Sort)))
		st.heaps[n] = Store(h, ref, Store(Select(h, ref), k, v.L[j]))
	}
	st.logWrite("M$"+m.key, ref)
}

func (st *State) mapDelete(m mapHeaps, ref, k *Term) {
	mv := st.mem()
	dom := mv.mapDom(m, ref)
	card := mv.mapCard(m, ref)
	st.heaps[m.cardName()] = Store(mv.get(m.cardName(), arrSort(sInt, sInt)), ref, Sub(card, Ite(Select(dom, k), Int(1), Int(0))))
	st.heaps[m.domName()] = Store(mv.get(m.domName(), m.domSort()), ref, Store(dom, k, tFalse))
	st.logWrite("M$"+m.key, ref)
}

func (st *State) newMap(m mapHeaps) *Term {
	r := st.newRef()
	mv := st.mem()
	st.heaps[m.domName()] = Store(mv.get(m.domName(), m.domSort()), r, ConstArr(arrSort(m.ks, sBool), tFalse))
	st.heaps[m.cardName()] = Store(mv.get(m.cardName(), arrSort(sInt, sInt)), r, Int(0))
	st.logWrite("M$"+m.key, r)
	return r
}

// facts about a map's cardinality
func (st *State) mapFacts(m mapHeaps, ref *Term) {
	mv := st.mem()
	card := mv.mapCard(m, ref)
	dom := mv.mapDom(m, ref)
	if card.Bound {
		return
	}
	st.assume(Le(Int(0), card))
	st.assume(Le(card, BigInt(bigMaxLen)))
	if isInt(card) {
		return
	}
	k := BVar("mk", m.ks)
	st.assume(Implies(Or(Eq(card, Int(0)), Eq(ref, Int(0))), Forall([]*Term{k}, [][]*Term{{Select(dom, k)}}, Not(Select(dom, k)))))
	st.assume(Implies(Eq(ref, Int(0)), Eq(card, Int(0))))
	// nonempty maps have a witness
	w := App("mapwit$"+sanitize(m.key), m.ks, dom)
	st.assume(Implies(Lt(Int(0), card), Select(dom, w)))
}

func (st *State) mapKeyFacts(m mapHeaps, ref, k *Term) {
	mv := st.mem()
	card := mv.mapCard(m, ref)
	dom := Select(mv.mapDom(m, ref), k)
	if dom == tTrue || dom == tFalse {
		return
	}
	if !isInt(ref) && !isAllocTerm(ref) {
		st.assume(Implies(Eq(ref, Int(0)), Not(dom)))
	}
	st.assume(Implies(dom, Le(Int(1), card)))
}

// heapsOf expands a logical heap name (H$.., E$.., C$.., M$..) to the actual heap arrays known in m.
func heapsOf(ex *Exec, logical string, m map[string]*Term) []string {
	var out []string
	if strings.HasPrefix(logical, "M$") {
		k := logical[2:]
		for n := range m {
			if n == "Mdom$"+k || n == "Mcard$"+k || n == "Mval$"+k || strings.HasPrefix(n, "Mval$"+k+".") || strings.HasPrefix(n, "Mval$"+k+"#") || strings.HasPrefix(n, "Mval$"+k+"[") {
				out = append(out, n)
			}
		}
	} else {
		for n := range m {
			if n == logical || strings.HasPrefix(n, logical+"#") || strings.HasPrefix(n, logical+"[]") || strings.HasPrefix(logical, "E$") && strings.HasPrefix(n, logical+".") || strings.HasPrefix(logical, "C$") && strings.HasPrefix(n, logical+".") {
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

var _ = fmt.Sprint

// zeroOpaque initialises the ghost state of a library object.
func (st *State) zeroOpaque(p *Term, t types.Type) {
	switch typeKey(t) {
	case "sync.Map":
		et := types.NewInterfaceType(nil, nil)
		m := mapHeaps{key: "syncmap", kt: et, vt: et, ks: sInt}
		mv := st.mem()
		st.heaps[m.domName()] = Store(mv.get(m.domName(), m.domSort()), p, ConstArr(arrSort(m.ks, sBool), tFalse))
		st.heaps[m.cardName()] = Store(mv.get(m.cardName(), arrSort(sInt, sInt)), p, Int(0))
	case "strings.Builder", "bytes.Buffer":
		st.putGhost("Buf", p, StrLit(""))
	case "sync.Once":
		st.putGhost("Once", p, tFalse)
	case "sync/atomic.Value":
		st.heaps["AV#tag"] = Store(st.heap("AV#tag", arrSort(sInt, sInt)), p, Int(0))
		st.heaps["AV#val"] = Store(st.heap("AV#val", arrSort(sInt, sInt)), p, Int(0))
	}
}
