package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"
)

// Val is a Go value flattened into SMT leaves.
type Val struct {
	T types.Type
	L []*Term
}

type leafInfo struct {
	Suffix string
	Sort   *Sort
	T      types.Type // scalar type of the leaf
	Role   string     // "", slice: arr off len cap; iface: tag val
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	typeKeyMu.Lock()
	defer typeKeyMu.Unlock()
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath+"/"), modPath)
	})
	// identical types get identical keys
	k = aliasRE.ReplaceAllStringFunc(k, func(m string) string {
		i := len(m) - 4
		return m[:i] + map[string]string{"byte": "uint8", "rune": "int32"}[m[i:]]
	})
	k = anyRE.ReplaceAllString(k, "${1}interface{}")
	k = strings.ReplaceAll(k, "interface {}", "interface{}")
	typeKeys[t] = k
	return k
}

var (
	typeKeyMu sync.Mutex
	typeKeys  = map[types.Type]string{}
	aliasRE   = regexp.MustCompile(`(^|[^.\w/])(byte|rune)\b`)
	anyRE     = regexp.MustCompile(`(^|[^.\w/])any\b`)
)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

// opaqueKind: "time" single Int leaf; "empty" no leaves; "" ordinary
func opaqueKind(t types.Type) string {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case "time":
		if n.Obj().Name() == "Time" {
			return "time"
		}
		return "empty"
	case "sync", "sync/atomic", "math/rand", "bytes", "strings", "regexp", "text/tabwriter", "html/template":
		return "empty"
	}
	return ""
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if opaqueKind(t) == "time" {
		return nil, false
	}
	s, ok := under(t).(*types.Struct)
	return s, ok
}

var leafCache = map[string][]leafInfo{}

func leaves(t types.Type) []leafInfo {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := computeLeaves(t)
	leafCache[k] = l
	return l
}

func computeLeaves(t types.Type) []leafInfo {
	switch opaqueKind(t) {
	case "time":
		return []leafInfo{{Sort: sInt, T: t}}
	case "empty":
		return nil
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Invalid:
			return nil
		case u.Info()&types.IsBoolean != 0:
			return []leafInfo{{Sort: sBool, T: t}}
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []leafInfo{{Sort: sInt, T: t}}
		case u.Info()&types.IsFloat != 0:
			return []leafInfo{{Sort: sF64, T: t}}
		case u.Info()&types.IsString != 0:
			return []leafInfo{{Sort: sStr, T: t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leafInfo{{Sort: sInt, T: t}}
	case *types.Slice:
		return []leafInfo{{"#arr", sInt, t, "arr"}, {"#off", sInt, t, "off"}, {"#len", sInt, t, "len"}, {"#cap", sInt, t, "cap"}}
	case *types.Interface:
		return []leafInfo{{"#tag", sInt, t, "tag"}, {"#val", sInt, t, "val"}}
	case *types.Struct:
		var out []leafInfo
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Suffix = "." + f.Name() + l.Suffix
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []leafInfo
		for _, l := range leaves(u.Elem()) {
			out = append(out, leafInfo{"[]" + l.Suffix, arrSort(sInt, l.Sort), t, "array:" + l.Role})
		}
		return out
	case *types.Tuple:
		var out []leafInfo
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Suffix = fmt.Sprintf(".%d%s", i, l.Suffix)
				out = append(out, l)
			}
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }
func (e *unsupportedErr) Error() string      { return "unsupported: " + e.msg }

func fieldRange(s *types.Struct, i int) (lo, hi int) {
	for j := 0; j < i; j++ {
		lo += len(leaves(s.Field(j).Type()))
	}
	return lo, lo + len(leaves(s.Field(i).Type()))
}

func (v Val) field(i int) Val {
	s := under(v.T).(*types.Struct)
	lo, hi := fieldRange(s, i)
	return Val{s.Field(i).Type(), v.L[lo:hi]}
}

func (v Val) withField(i int, x Val) Val {
	s := under(v.T).(*types.Struct)
	lo, hi := fieldRange(s, i)
	l := append([]*Term{}, v.L...)
	copy(l[lo:hi], x.L)
	return Val{v.T, l}
}

func tupleAt(v Val, i int) Val {
	t := v.T.(*types.Tuple)
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(leaves(t.At(j).Type()))
	}
	return Val{t.At(i).Type(), v.L[lo : lo+len(leaves(t.At(i).Type()))]}
}

func zeroLeaf(s *Sort) *Term {
	switch s {
	case sInt:
		return Int(0)
	case sBool:
		return tFalse
	case sF64:
		return fpLit(0)
	case sStr:
		return StrLit("")
	}
	return ConstArr(s, zeroLeaf(s.V))
}

const timeZeroNS = -62135596800000000000 / 1 // year 1 in ns before epoch: used symbolically only

func zeroTime() *Term {
	b, _ := new(big.Int).SetString("-62135596800000000000", 10)
	return BigInt(b)
}

func zeroVal(t types.Type) Val {
	var l []*Term
	for _, li := range leaves(t) {
		if opaqueKind(li.T) == "time" {
			l = append(l, zeroTime())
			continue
		}
		l = append(l, zeroLeaf(li.Sort))
	}
	return Val{t, l}
}

// ---- integer types ----

func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	bits, signed, ok := intInfo(t)
	if !ok {
		return nil, nil, false
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
}

// wrap reduces a mathematical integer to the machine type (exact two's complement).
func wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intBounds(t)
	if !ok {
		return x
	}
	if a, b, ok := rangeOf(x); ok && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return x
	}
	bits, signed, _ := intInfo(t)
	m := BigInt(pow2(bits))
	var mod *Term
	if signed {
		h := BigInt(pow2(bits - 1))
		mod = Sub(Mod(Add(x, h), m), h)
	} else {
		mod = Mod(x, m)
	}
	if isInt(x) {
		return mod
	}
	r := Ite(And(Le(BigInt(lo), x), Le(x, BigInt(hi))), x, mod)
	if r != x {
		setRange(r, lo, hi)
	}
	return r
}

// ---- type ids ----

var typeIDs = map[string]int{}
var typeByID = map[int]types.Type{}

func typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := typeIDs[k]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[k] = id
		typeByID[id] = t
	}
	return Int(int64(id))
}

func isPointerLike(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// box encodes a concrete value as the value part of an interface.
func box(v Val) *Term {
	if isPointerLike(v.T) {
		return v.L[0]
	}
	k := typeKey(v.T)
	fn := "box$" + sanitize(k)
	if len(v.L) == 0 {
		return App(fn, sInt)
	}
	if _, ok := dynAxioms[fn]; !ok {
		var bv, as, cs []string
		var uses []string
		for i, l := range v.L {
			bv = append(bv, fmt.Sprintf("(x%d %s)", i, l.Sort.Name))
			as = append(as, fmt.Sprintf("x%d", i))
			un := fmt.Sprintf("unbox$%s$%d", sanitize(k), i)
			uses = append(uses, un)
			if _, ok := funSigs[un]; !ok {
				funSigs[un] = &funSig{Args: []*Sort{sInt}, Ret: l.Sort}
			}
		}
		ap := fmt.Sprintf("(|%s| %s)", fn, strings.Join(as, " "))
		for i := range v.L {
			cs = append(cs, fmt.Sprintf("(= (|%s| %s) x%d)", uses[i], ap, i))
		}
		addDyn(fn, &axiom{keys: []string{fn}, uses: uses, text: fmt.Sprintf("(forall (%s) (! (and %s) :pattern (%s)))", strings.Join(bv, " "), strings.Join(cs, " "), ap)})
	}
	return App(fn, sInt, v.L...)
}

func unbox(val *Term, t types.Type) Val {
	if isPointerLike(t) {
		return Val{t, []*Term{val}}
	}
	k := sanitize(typeKey(t))
	var l []*Term
	for i, li := range leaves(t) {
		l = append(l, App(fmt.Sprintf("unbox$%s$%d", k, i), li.Sort, val))
	}
	return Val{t, l}
}

func mkIface(t types.Type, v Val) Val {
	return Val{t, []*Term{typeID(v.T), box(v)}}
}

// keyTerm encodes a map key as a single term.
func keyTerm(v Val) *Term {
	if len(v.L) == 1 {
		return v.L[0]
	}
	if _, ok := under(v.T).(*types.Interface); ok {
		return App("iface", sInt, v.L[0], v.L[1])
	}
	fn := "mk$" + sanitize(typeKey(v.T))
	if len(v.L) == 0 {
		return App(fn, sInt)
	}
	if _, ok := dynAxioms[fn]; !ok {
		var bv, as, cs, uses []string
		for i, l := range v.L {
			bv = append(bv, fmt.Sprintf("(x%d %s)", i, l.Sort.Name))
			as = append(as, fmt.Sprintf("x%d", i))
			un := fmt.Sprintf("un%s$%d", fn, i)
			uses = append(uses, un)
			funSigs[un] = &funSig{Args: []*Sort{sInt}, Ret: l.Sort}
		}
		ap := fmt.Sprintf("(|%s| %s)", fn, strings.Join(as, " "))
		for i := range v.L {
			cs = append(cs, fmt.Sprintf("(= (|%s| %s) x%d)", uses[i], ap, i))
		}
		addDyn(fn, &axiom{keys: []string{fn}, uses: uses, text: fmt.Sprintf("(forall (%s) (! (and %s) :pattern (%s)))", strings.Join(bv, " "), strings.Join(cs, " "), ap)})
	}
	return App(fn, sInt, v.L...)
}

// unkey recovers a key value from its term.
func unkey(k *Term, t types.Type) Val {
	ls := leaves(t)
	if len(ls) == 1 {
		return Val{t, []*Term{k}}
	}
	if _, ok := under(t).(*types.Interface); ok {
		return Val{t, []*Term{App("iface.t", sInt, k), App("iface.v", sInt, k)}}
	}
	fn := "mk$" + sanitize(typeKey(t))
	var l []*Term
	for i, li := range ls {
		l = append(l, App(fmt.Sprintf("un%s$%d", fn, i), li.Sort, k))
	}
	return Val{t, l}
}

func keySort(t types.Type) *Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].Sort
	}
	return sInt
}

// eqVal: Go equality (floats by identity when ident is set)
func eqVal(a, b Val, ident bool) *Term {
	return eqValT(a, b, a.T, ident)
}

func eqValT(a, b Val, t types.Type, ident bool) *Term {
	if opaqueKind(t) == "time" {
		return Eq(a.L[0], b.L[0])
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			x, y := a.field(i), b.field(i)
			cs = append(cs, eqValT(x, y, u.Field(i).Type(), ident))
		}
		return And(cs...)
	case *types.Array:
		if u.Len() > 64 {
			var cs []*Term
			for i := range a.L {
				cs = append(cs, Eq(a.L[i], b.L[i]))
			}
			return And(cs...)
		}
		var cs []*Term
		for i := int64(0); i < u.Len(); i++ {
			for j := range a.L {
				cs = append(cs, Eq(Select(a.L[j], Int(i)), Select(b.L[j], Int(i))))
			}
		}
		return And(cs...)
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 && !ident {
			return App("fp.eq", sBool, a.L[0], b.L[0])
		}
	}
	if len(a.L) != len(b.L) {
		panic(unsupported(fmt.Sprintf("comparison of %s and %s", a.T, b.T)))
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}
