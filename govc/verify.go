package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Verifier struct {
	repo, verif string
	P           *Program
	specs       *Specs
	trivial     int
	prop        string
	tier        string
	candSec     float64
	globals     map[*ssa.Global]int
	gcache      map[*ssa.Global]*gconst
	garrays map[*ssa.Global]map[int64]*ssa.Const
	funcsByKey  map[string]*ssa.Function
	allFuncs    []*ssa.Function
	obls        []*Obl
	sess        *Session
	units       []*unitResult
	assumptions map[string]bool
	libUsed     map[string]bool
	inlined     map[string]bool
	loopLog     map[string]*loopStat
	touched     map[*ssa.Function]bool // functions whose body was executed
}

type unitResult struct {
	Key     string
	Obls    []*Obl
	Trivial int
	Paths   int
	Err     string
	Used    []string
	Time    time.Duration
	Trusted bool
	Covers  []string
	Missing bool
	Inputs  []inputTerm
}

// ---------- functions ----------

func (V *Verifier) indexFuncs() {
	V.funcsByKey = map[string]*ssa.Function{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		k := fnKey(f)
		if _, dup := V.funcsByKey[k]; dup && V.funcsByKey[k] != f {
			return
		}
		V.funcsByKey[k] = f
		V.allFuncs = append(V.allFuncs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for p := range V.P.Repo {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := V.P.Pkgs[p]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if _, isI := m.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if nn, ok := m.Type().(*types.Named); ok && nn.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := V.P.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := V.P.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

// ---------- globals ----------

func (V *Verifier) globalRef(g *ssa.Global) *Term {
	n, ok := V.globals[g]
	if !ok {
		n = 1000 + len(V.globals)*4
		V.globals[g] = n
		if n > 95000 {
			panic(unsupported("too many globals"))
		}
	}
	return Int(int64(n))
}

type gconst struct {
	ok     bool
	val    func(ex *Exec, st *State) Val
	reason string
}

// globalConst: the value of a package variable that is only assigned by package initialisation.
func (V *Verifier) globalConst(ex *Exec, st *State, g *ssa.Global) (Val, bool) {
	c, ok := V.gcache[g]
	if !ok {
		c = V.computeGlobal(g)
		V.gcache[g] = c
	}
	if !c.ok {
		return Val{}, false
	}
	if g.Object() != nil && g.Object().Exported() {
		ex.assumptions["exported package variable "+shortName(g.String())+" is not reassigned by other packages"] = true
	}
	return c.val(ex, st), true
}

func (V *Verifier) computeGlobal(g *ssa.Global) *gconst {
	no := &gconst{}
	if g.Pkg == nil {
		return no
	}
	pp := g.Pkg.Pkg.Path()
	t := derefType(g.Type())
	if !V.P.Repo[pp] {
		// variable of a dependency: a fixed unknown value; error variables are non-nil and distinct
		id := V.globalRef(g)
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
				return Val{t, []*Term{typeID(errorStringType(ex.P)), Add(id, Int(1))}}
			}}
		}
		return V.fixedUnknown(g, t, false)
	}
	initFn := g.Pkg.Func("init")
	var stores []*ssa.Store
	fieldInit := false
	mutable := false
	for _, f := range V.allFuncs {
		if f.Pkg != g.Pkg && !(g.Object() != nil && g.Object().Exported()) {
			continue
		}
		V.scanGlobal(f, g, f == initFn, &stores, &fieldInit, &mutable)
	}
	if initFn != nil {
		V.scanGlobal(initFn, g, true, &stores, &fieldInit, &mutable)
	}
	if mutable {
		return no
	}
	seen := map[*ssa.Store]bool{}
	var uniq []*ssa.Store
	for _, s := range stores {
		if !seen[s] {
			seen[s] = true
			uniq = append(uniq, s)
		}
	}
	if fieldInit {
		return no
	}
	switch len(uniq) {
	case 0:
		return &gconst{ok: true, val: func(ex *Exec, st *State) Val { return zeroVal(t) }}
	case 1:
		return V.evalInit(g, t, uniq[0].Val)
	}
	return no
}

func (V *Verifier) scanGlobal(f *ssa.Function, g *ssa.Global, isInit bool, stores *[]*ssa.Store, fieldInit, mutable *bool) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range ins.Operands(ops[:0]) {
				if *o != ssa.Value(g) {
					continue
				}
				switch i := ins.(type) {
				case *ssa.UnOp:
				case *ssa.DebugRef:
				case *ssa.Store:
					if i.Addr == ssa.Value(g) && isInit {
						*stores = append(*stores, i)
					} else {
						*mutable = true
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if isInit {
						*fieldInit = true
					} else {
						// reading a field of a global struct is fine only if it is not a constant anyway
						*fieldInit = true
					}
				default:
					*mutable = true
				}
			}
		}
	}
}

// globalArray: the elements of an array variable that is filled with constants by package initialisation
// and only read afterwards (nil if it is not such a variable)
func (V *Verifier) globalArray(g *ssa.Global) map[int64]*ssa.Const {
	if r, ok := V.garrays[g]; ok {
		return r
	}
	if V.garrays == nil {
		V.garrays = map[*ssa.Global]map[int64]*ssa.Const{}
	}
	V.garrays[g] = nil
	at, ok := under(derefType(g.Type())).(*types.Array)
	if !ok || g.Pkg == nil || !V.P.Repo[g.Pkg.Pkg.Path()] || len(leaves(at.Elem())) != 1 || (g.Object() != nil && g.Object().Exported()) {
		return nil
	}
	if _, ok := under(at.Elem()).(*types.Basic); !ok {
		return nil
	}
	vals := map[int64]*ssa.Const{}
	initFn := g.Pkg.Func("init")
	scan := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o != ssa.Value(g) {
						continue
					}
					switch i := ins.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store: // g = [...]T{...}, built in a local first
						ld, ok := i.Val.(*ssa.UnOp)
						if f != initFn || i.Addr != ssa.Value(g) || !ok || len(vals) > 0 {
							return false
						}
						al, ok := ld.X.(*ssa.Alloc)
						if !ok {
							return false
						}
						for _, r := range *al.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.IndexAddr:
								for _, r2 := range *r.Referrers() {
									st, ok := r2.(*ssa.Store)
									ic, ok1 := r.Index.(*ssa.Const)
									if !ok || !ok1 {
										return false
									}
									c, ok2 := st.Val.(*ssa.Const)
									if !ok2 || st.Addr != ssa.Value(r) || vals[ic.Int64()] != nil {
										return false
									}
									vals[ic.Int64()] = c
								}
							default:
								return false
							}
						}
					case *ssa.IndexAddr:
						for _, r := range *i.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								ic, ok1 := i.Index.(*ssa.Const)
								c, ok2 := r.Val.(*ssa.Const)
								if f != initFn || r.Addr != ssa.Value(i) || !ok1 || !ok2 || vals[ic.Int64()] != nil {
									return false
								}
								vals[ic.Int64()] = c
							default:
								return false
							}
						}
					default:
						debugf("global array %s: %T in %s", g, ins, f)
						return false
					}
				}
			}
		}
		return true
	}
	for _, f := range V.allFuncs {
		if f.Pkg == g.Pkg && f != initFn && !scan(f) {
			return nil
		}
	}
	if initFn == nil || !scan(initFn) {
		return nil
	}
	V.garrays[g] = vals
	return vals
}

func (ex *Exec) assumeGlobalArray(st *State, g *ssa.Global) {
	vals := ex.V.globalArray(g)
	if vals == nil {
		return
	}
	at := under(derefType(g.Type())).(*types.Array)
	ref := ex.V.globalRef(g)
	for i := int64(0); i < at.Len(); i++ {
		x := zeroVal(at.Elem())
		if c := vals[i]; c != nil {
			x = constVal(c)
		}
		cur := st.mem().load(elemAddr(ref, Int(i), at.Elem()), at.Elem())
		st.assume(Eq(cur.L[0], x.L[0]))
	}
}

func (V *Verifier) fixedUnknown(g *ssa.Global, t types.Type, nonNil bool) *gconst {
	return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
		var l []*Term
		for _, li := range leaves(t) {
			l = append(l, Var("gv$"+shortName(g.String())+li.Suffix, li.Sort))
		}
		v := Val{t, l}
		st.assumeVal(v)
		// the object existed before the unit started
		if _, ok := under(t).(*types.Pointer); ok {
			st.assume(Lt(App("root", sInt, l[0]), ex.entryAlloc()))
		}
		if nonNil && len(l) > 0 && l[0].Sort == sInt {
			st.assume(Lt(Int(0), l[0]))
		}
		return v
	}}
}

func (ex *Exec) entryAlloc() *Term {
	if ex.entry != nil {
		return ex.entry.alloc
	}
	return Int(1 << 40)
}

func (V *Verifier) evalInit(g *ssa.Global, t types.Type, v ssa.Value) *gconst {
	switch i := v.(type) {
	case *ssa.Const:
		return &gconst{ok: true, val: func(ex *Exec, st *State) Val { x := constVal(i); return Val{t, x.L} }}
	case *ssa.Function:
		return &gconst{ok: true, val: func(ex *Exec, st *State) Val { return Val{t, []*Term{ex.funcTerm(i)}} }}
	case *ssa.MakeInterface:
		in := V.evalInit(g, i.X.Type(), i.X)
		if in.ok {
			return &gconst{ok: true, val: func(ex *Exec, st *State) Val { return mkIface(t, in.val(ex, st)) }}
		}
	case *ssa.ChangeType:
		in := V.evalInit(g, i.X.Type(), i.X)
		if in.ok {
			return &gconst{ok: true, val: func(ex *Exec, st *State) Val { return Val{t, in.val(ex, st).L} }}
		}
	case *ssa.MakeClosure:
		return V.fixedUnknown(g, t, true)
	case *ssa.UnOp:
		// load of a composite literal built in init
		if al, ok := i.X.(*ssa.Alloc); ok {
			if c := V.evalLocalStruct(al, t); c != nil {
				return c
			}
		}
		if g2, ok := i.X.(*ssa.Global); ok {
			return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
				x, ok := ex.V.globalConst(ex, st, g2)
				if !ok {
					panic(unsupported("initialiser of " + g.String()))
				}
				return x
			}}
		}
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil {
			k := fnKey(f)
			id := V.globalRef(g)
			switch k {
			case "errors.New", "fmt.Errorf":
				return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
					return Val{t, []*Term{typeID(errorStringType(ex.P)), Add(id, Int(1))}}
				}}
			case "regexp.MustCompile":
				if c, ok := i.Call.Args[0].(*ssa.Const); ok {
					pat := constVal(c)
					return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
						r := Add(id, Int(1))
						s, _ := isLit(pat.L[0])
						ex.V.regexps()[r.ID] = s
						return Val{t, []*Term{r}}
					}}
				}
			}
			if V.P.Repo[pkgPathOf(f)] {
				return V.fixedUnknown(g, t, false)
			}
			return V.fixedUnknown(g, t, true)
		}
	case *ssa.MakeMap:
		if c := V.evalMapLit(g, i, t); c != nil {
			return c
		}
		return V.fixedUnknown(g, t, true)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeChan:
		id := V.globalRef(g)
		if _, ok := under(t).(*types.Pointer); ok {
			if _, isS := v.(*ssa.MakeSlice); !isS {
				return &gconst{ok: true, val: func(ex *Exec, st *State) Val { return Val{t, []*Term{Add(id, Int(1))}} }}
			}
		}
		return V.fixedUnknown(g, t, true)
	case *ssa.Slice:
		if al, ok := i.X.(*ssa.Alloc); ok && i.Low == nil && i.High == nil {
			if c := V.evalArrayLit(g, al, t); c != nil {
				return c
			}
		}
	}
	return V.fixedUnknown(g, t, false)
}

var regexpTab = map[int]string{}

func (V *Verifier) regexps() map[int]string { return regexpTab }

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

// evalLocalStruct: *alloc where alloc's scalar fields are stored constants
func (V *Verifier) evalLocalStruct(al *ssa.Alloc, t types.Type) *gconst {
	s, ok := isStruct(t)
	if !ok || opaqueKind(t) != "" {
		return nil
	}
	vals := map[int]ssa.Value{}
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *i.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
					vals[i.Field] = st.Val
				} else {
					return nil
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	subs := map[int]*gconst{}
	for f, v := range vals {
		c, ok := v.(*ssa.Const)
		if !ok {
			return nil
		}
		subs[f] = &gconst{ok: true, val: func(ex *Exec, st *State) Val { return constVal(c) }}
	}
	return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
		z := zeroVal(t)
		for f := 0; f < s.NumFields(); f++ {
			if c := subs[f]; c != nil {
				z = z.withField(f, c.val(ex, st))
			}
		}
		return z
	}}
}

// evalArrayLit: a slice literal of constants held by a package variable; content is asserted when the
// variable is only read.
func (V *Verifier) evalArrayLit(g *ssa.Global, al *ssa.Alloc, t types.Type) *gconst {
	at, ok := under(derefType(al.Type())).(*types.Array)
	if !ok {
		return nil
	}
	et := at.Elem()
	vals := map[int64]*ssa.Const{}
	good := true
	if _, isS := isStruct(et); isS {
		good = false
	}
	if good {
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok {
				good = false
				break
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					good = false
					continue
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					good = false
					continue
				}
				vals[ic.Int64()] = c
			}
		}
	}
	good = good && V.readOnlySlice(g)
	id := V.globalRef(g)
	n := at.Len()
	return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
		arr := Add(id, Int(1))
		if good {
			for i := int64(0); i < n; i++ {
				var x Val
				if c := vals[i]; c != nil {
					x = constVal(c)
				} else {
					x = zeroVal(et)
				}
				cur := st.mem().load(elemAddr(arr, Int(i), et), et)
				for j := range cur.L {
					st.assume(Eq(cur.L[j], x.L[j]))
				}
			}
		}
		return Val{t, []*Term{arr, Int(0), Int(n), Int(n)}}
	}}
}

// evalMapLit: a map literal with constant keys and values held by a package variable that is only read.
func (V *Verifier) evalMapLit(g *ssa.Global, mm *ssa.MakeMap, t types.Type) *gconst {
	if g.Object() == nil || g.Object().Exported() {
		return nil
	}
	mt, ok := under(t).(*types.Map)
	if !ok {
		return nil
	}
	type kv struct{ k, v *ssa.Const }
	var kvs []kv
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := u.Key.(*ssa.Const)
			v, ok2 := u.Value.(*ssa.Const)
			if u.Map != ssa.Value(mm) || !ok1 || !ok2 {
				return nil
			}
			kvs = append(kvs, kv{k, v})
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if _, isI := mt.Key().Underlying().(*types.Interface); isI {
		return nil
	}
	if _, isI := mt.Elem().Underlying().(*types.Interface); isI {
		return nil
	}
	for _, f := range V.allFuncs {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, isU := ins.(*ssa.UnOp)
				if !isU || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch i := r.(type) {
					case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
					case *ssa.Call:
						if bi, isB := i.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	id := V.globalRef(g)
	return &gconst{ok: true, val: func(ex *Exec, st *State) Val {
		ref := Add(id, Int(1))
		m := mapInfo(t)
		dom := ConstArr(arrSort(m.ks, sBool), tFalse)
		vl := st.mem().mapValLeafs(m, ref)
		for _, e := range kvs {
			k := keyTerm(Val{mt.Key(), constVal(e.k).L})
			dom = Store(dom, k, tTrue)
			x := constVal(e.v)
			for j := range vl {
				st.assume(Eq(Select(vl[j], k), x.L[j]))
			}
		}
		st.assume(Eq(st.mem().mapDom(m, ref), dom))
		st.assume(Eq(st.mem().mapCard(m, ref), Int(int64(len(kvs)))))
		return Val{t, []*Term{ref}}
	}}
}

// readOnlySlice: every use of the loaded slice is a read of an element, a range or len.
func (V *Verifier) readOnlySlice(g *ssa.Global) bool {
	if g.Object() == nil || g.Object().Exported() {
		return false
	}
	ok := true
	for _, f := range V.allFuncs {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, isU := ins.(*ssa.UnOp)
				if !isU || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch i := r.(type) {
					case *ssa.DebugRef:
					case *ssa.Call:
						bi, isB := i.Call.Value.(*ssa.Builtin)
						if !isB || bi.Name() != "len" && bi.Name() != "cap" {
							ok = false
						}
					case *ssa.IndexAddr:
						for _, r2 := range *i.Referrers() {
							if x, isL := r2.(*ssa.UnOp); !isL || x.Op != token.MUL {
								ok = false
							}
						}
					default:
						ok = false
					}
				}
			}
		}
	}
	return ok
}

// ---------- access discipline ----------

type origin struct {
	g    *Guard
	self *Term
}

func splitTF(s string) (string, string) {
	i := strings.LastIndex(s, ".")
	return s[:i], s[i+1:]
}

func (V *Verifier) guardType(g *Guard) (types.Type, string) {
	tn, fn := splitTF(g.Type)
	if i := strings.LastIndex(tn, "."); i >= 0 {
		// package-qualified
		p := V.P.Types[modPath+"/"+tn[:i]]
		if p == nil {
			p = g.Pkg
		}
		if o, ok := p.Scope().Lookup(tn[i+1:]).(*types.TypeName); ok {
			return o.Type(), fn
		}
	}
	if o, ok := g.Pkg.Scope().Lookup(tn).(*types.TypeName); ok {
		return o.Type(), fn
	}
	panic(&specErr{"guard: unknown type " + tn})
}

func fieldIndexByName(t types.Type, f string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	panic(&specErr{"no field " + f + " in " + t.String()})
}
func fieldAddrByName(p *Term, t types.Type, f string) *Term { return fieldAddr(p, t, fieldIndexByName(t, f)) }
func fieldTypeByName(t types.Type, f string) types.Type {
	return under(t).(*types.Struct).Field(fieldIndexByName(t, f)).Type()
}

// guardTarget: is mutex p the one protecting guard g's field in some object? returns the object.
func (ex *Exec) guardTarget(st *State, g *Guard, p *Term) (*Term, types.Type, string, bool) {
	t, f := ex.V.guardType(g)
	if p.Op == "app" && strings.HasPrefix(p.Name, "fld$"+typeKey(t)+".") && g.E.Op == "sel" && g.E.S == strings.TrimPrefix(p.Name, "fld$"+typeKey(t)+".") {
		return p.Args[0], t, f, true
	}
	return nil, nil, "", false
}

func (ex *Exec) guardActive(g *Guard) bool {
	if !ex.unit.discipline {
		return false
	}
	for _, p := range g.Props {
		if p == ex.V.prop || ex.V.prop == "" {
			return true
		}
	}
	return false
}

func (ex *Exec) guardOf(base string) *Guard {
	for _, g := range ex.V.specs.Guards {
		if g.Kind != "field" && g.Kind != "deep" {
			continue
		}
		t, f := ex.V.guardType(g)
		if base == "H$"+typeKey(t)+"."+f {
			return g
		}
	}
	return nil
}

func (ex *Exec) guardNeed(st *State, ctl *runCtl, g *Guard, self *Term, write bool, what string, pos token.Pos) {
	t, _ := ex.V.guardType(g)
	e := &SpecEnv{ex: ex, pkg: g.Pkg, imports: g.Imports, vars: map[string]Val{"self": {types.NewPointer(t), []*Term{self}}}, cur: st.mem(), alloc: st.alloc, st: nil}
	mp, _ := e.addr(g.E)
	h := heldOf(st, mp)
	var ok *Term
	if write {
		ok = Eq(h, Int(1))
	} else {
		ok = Le(Int(1), h)
	}
	goal := Or(ok, Le(ex.entry.alloc, App("root", sInt, self)))
	rw := "read"
	if write {
		rw = "write"
	}
	ex.oblige(st, ctl, "lock", fmt.Sprintf("guarded-%s:%s in %s", rw, what, fnKey(st.top().fn)), goal, pos)
}

func (ex *Exec) memCheck(st *State, ctl *runCtl, p *Term, t types.Type, write bool, pos token.Pos) {
	if !ex.unit.discipline {
		return
	}
	for _, it := range locItems(p, t) {
		if ex.V.specs.Atomics[it.Logical] {
			for a := range ex.V.specs.Atomics {
				if a == it.Logical {
					ex.oblige(st, ctl, "atomic", "plain-access:"+it.Logical[2:]+" in "+fnKey(st.top().fn), Le(ex.entry.alloc, App("root", sInt, it.Ref)), pos)
				}
			}
		}
		if g := ex.guardOf(it.Logical); g != nil && ex.guardActive(g) {
			ex.guardNeed(st, ctl, g, it.Ref, write, g.Type, pos)
			if g.Kind == "deep" && !write {
				v := st.mem().load(p, t)
				if _, isS := isStruct(t); !isS {
					ex.origin[v.L[0].ID] = origin{g, it.Ref}
				}
			}
		}
		r := it.Ref
		for r != nil && r.Op == "app" && (strings.HasPrefix(r.Name, "fld$") || r.Name == "elemref") {
			r = r.Args[0]
		}
		if r != nil {
			if o, ok := ex.origin[r.ID]; ok {
				ex.guardNeed(st, ctl, o.g, o.self, write, "*"+o.g.Type, pos)
			}
		}
	}
}

func (ex *Exec) accessCheck(st *State, ctl *runCtl, kind string, ref *Term, key string, write bool, pos token.Pos) {
	if !ex.unit.discipline {
		return
	}
	if o, ok := ex.origin[ref.ID]; ok {
		ex.guardNeed(st, ctl, o.g, o.self, write, "*"+o.g.Type, pos)
	}
}

// ---------- units ----------

func (V *Verifier) findFunc(key string) *ssa.Function { return V.funcsByKey[key] }

func (V *Verifier) runUnit(c *Contract) (res *unitResult) {
	t0 := time.Now()
	res = &unitResult{Key: c.Key}
	fn := V.findFunc(c.Key)
	if c.Trusted || c.Kind == "iface" || c.Kind == "extern" {
		res.Trusted = true
		return res
	}
	if fn == nil {
		res.Err = "function " + c.Key + " not found in the source tree"
		res.Missing = true
		return res
	}
	if np := len(fn.Params); len(c.Params) != np && len(c.Params) != np+len(fn.FreeVars) {
		res.Err = fmt.Sprintf("function %s has %d parameters, its contract names %d", c.Key, np, len(c.Params))
		res.Missing = true
		return res
	}
	ex := &Exec{V: V, unit: c, P: V.P, sess: V.sess, heap0: map[string]*Term{}, closures: map[int]*Closure{}, assumptions: V.assumptions,
		inlined: V.inlined, usedContracts: map[string]bool{}, loopLog: V.loopLog, maxPaths: 4000, libUsed: V.libUsed, origin: map[int]origin{}}
	if c.MaxPaths > 0 {
		ex.maxPaths = c.MaxPaths
	}
	triv0 := V.trivial
	defer func() {
		res.Time = time.Since(t0)
		res.Obls = ex.obls
		res.Trivial = V.trivial - triv0
		res.Paths = ex.retPaths
		res.Inputs = ex.inputs
		for _, pc := range ex.covers {
			res.Covers = append(res.Covers, buildQuery(pc, nil))
		}
		for k := range ex.usedContracts {
			res.Used = append(res.Used, k)
		}
		sort.Strings(res.Used)
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *unsupportedErr:
				res.Err = e.Error() + " (near " + ex.pos(ex.curPos) + ")"
			case *specErr:
				res.Err = "specification: " + e.Error()
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("internal error: %v (near %s)", r, ex.pos(ex.curPos))
			}
		}
	}()
	st := &State{ex: ex, heaps: map[string]*Term{}, assumed: map[int]bool{}, locksTaken: map[int]bool{}}
	st.alloc = Fresh("alloc", sInt)
	st.assume(Le(Int(100000), st.alloc))
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, blk: fn.Blocks[0], loops: map[*ssa.BasicBlock]*LoopInst{}}
	var args []Val
	for _, p := range fn.Params {
		v := st.freshVal("p$"+p.Name(), p.Type())
		fr.env[p] = v
		args = append(args, v)
		ex.inputs = append(ex.inputs, inputTerm{p.Name(), v})
	}
	for _, p := range fn.FreeVars {
		v := st.freshVal("fv$"+p.Name(), p.Type())
		fr.env[p] = v
		if len(c.Params) == len(fn.Params)+len(fn.FreeVars) {
			args = append(args, v)
		}
		st.assume(Neq(v.L[0], Int(0)))
	}
	st.frames = []*Frame{fr}
	env := contractEnv(ex, c, st, args)
	ex.entryEnv = env
	ex.entry = st.snap()
	env.old = ex.entry
	env.addLets(c)
	for _, r := range c.Requires {
		st.assume(env.Bool(r.E))
	}
	for _, h := range c.Holds {
		p, _ := env.addr(h.E)
		st.heaps["held"] = Store(st.heap("held", arrSort(sInt, sInt)), p, Int(1))
		st.locksTaken[p.ID] = true
	}
	env.cur = st.mem()
	ex.entry = st.snap()
	env.old = ex.entry
	// the precondition must be satisfiable
	if len(c.Requires)+len(c.Holds) > 0 {
		if r := solve(buildQuery(st.pc, nil), 1, 0); r.Status == "unsat" {
			res.Err = "vacuous: the precondition is unsatisfiable"
			return res
		}
	}
	env.st = nil
	// frame
	var frame []ModItem
	for _, m := range c.Modifies {
		me := env.clone()
		me.st = st
		frame = append(frame, me.modItems(m.E)...)
	}
	ex.frame = frame
	if st.dead {
		res.Err = "vacuous: contradictory precondition"
		return res
	}
	ctl := &runCtl{onReturn: func(s *State, rs []Val) {
		if s.dead {
			return
		}
		ex.retPaths++
		if len(ex.covers) < 6 {
			ex.covers = append(ex.covers, s.pc[:len(s.pc):len(s.pc)])
		}
		pe := ex.entryEnv.clone()
		pe.cur, pe.alloc, pe.old, pe.st = s.mem(), s.alloc, ex.entry, s
		for i, r := range rs {
			if i < len(c.Results) {
				pe.vars[c.Results[i]] = r
			}
		}
		ctl := &runCtl{}
		for i, e := range c.Ensures {
			nm := e.Label
			if nm == "" {
				nm = fmt.Sprint(i + 1)
			}
			g := pe.Bool(e.E)
			s2 := s.clone()
			ex.oblige(s2, ctl, "postcondition", "ensures#"+nm, g, fn.Pos())
		}
		if !c.anyFrame {
			ex.frameObl(s, ctl, frame, fn.Pos())
		}
		// locks restored
		seen := map[int]bool{}
		for _, w := range s.writes {
			if w.Heap == "held" && w.Ref != nil && !seen[w.Ref.ID] {
				seen[w.Ref.ID] = true
				before := Select(heapIn(ex, ex.entry.heaps, "held", arrSort(sInt, sInt)), w.Ref)
				ex.oblige(s.clone(), ctl, "lock", "lock-balance", Eq(heldOf(s, w.Ref), before), fn.Pos())
			}
		}
	}}
	ex.run(st, ctl)
	if ex.retPaths == 0 && len(c.Panics) == 0 && !c.mayPanic {
		res.Err = "vacuous: no path of the function returns"
	}
	return res
}

func ghostHeap(n string) bool {
	return n == "held" || strings.HasPrefix(n, "AVL#") || strings.HasPrefix(n, "It$") || strings.HasPrefix(n, "Go$") || strings.HasPrefix(n, "Atom$") || strings.HasPrefix(n, "Ch$")
}

func (ex *Exec) frameObl(s *State, ctl *runCtl, frame []ModItem, pos token.Pos) {
	seen := map[string]bool{}
	goals := map[string][]*Term{}
	for _, w := range s.writes {
		if ghostHeap(w.Heap) {
			continue
		}
		k := w.Heap + "|"
		if w.Ref != nil {
			k += fmt.Sprint(w.Ref.ID)
		}
		if w.Root != nil {
			k += fmt.Sprint("root", w.Root.ID)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		var cs []*Term
		if w.Ref != nil {
			cs = append(cs, Le(ex.entry.alloc, App("root", sInt, w.Ref)))
		}
		if w.Root != nil {
			cs = append(cs, Eq(w.Root, Int(0)), Le(ex.entry.alloc, App("root", sInt, w.Root)))
		}
		for _, it := range frame {
			if it.Logical != w.Heap {
				continue
			}
			if it.Root != nil {
				for _, x := range []*Term{w.Ref, w.Root} {
					if x != nil {
						cs = append(cs, Eq(App("root", sInt, x), App("root", sInt, it.Root)))
					}
				}
			} else if it.Ref == nil {
				cs = append(cs, tTrue)
			} else if w.Ref != nil {
				cs = append(cs, Eq(w.Ref, it.Ref))
			}
		}
		goals[w.Heap] = append(goals[w.Heap], Or(cs...))
	}
	for _, h := range sortedKeys(goals) {
		ex.oblige(s.clone(), ctl, "frame", "frame:"+h, And(goals[h]...), pos)
	}
}

// ---------- lemmas and axioms ----------

func (V *Verifier) specOnlyExec() *Exec {
	ex := &Exec{V: V, unit: &Contract{Key: "lemma"}, P: V.P, sess: V.sess, heap0: map[string]*Term{}, closures: map[int]*Closure{}, assumptions: V.assumptions,
		inlined: V.inlined, usedContracts: map[string]bool{}, loopLog: V.loopLog, maxPaths: 100, libUsed: V.libUsed, origin: map[int]origin{}}
	return ex
}

func sfNames(t *Term) []string {
	seen := map[int]bool{}
	m := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "app" && (strings.HasPrefix(t.Name, "sf$") || t.Name == "ctxval.t") {
			m[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return sortedKeys(m)
}

// loadLemmas turns axioms and lemmas into solver axioms; lemma proof obligations are returned.
func (V *Verifier) loadLemmas() (obls []*Obl, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*specErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	ex := V.specOnlyExec()
	for _, l := range V.specs.Lemmas {
		env := &SpecEnv{ex: ex, pkg: l.Pkg, imports: l.Imports, vars: map[string]Val{}, cur: memView{ex, map[string]*Term{}}, alloc: Int(1 << 40)}
		t := env.Bool(l.E)
		for _, pt := range t.Pats {
			have := map[int]bool{}
			var rec func(x *Term)
			rec = func(x *Term) {
				have[x.ID] = true
				for _, a := range x.Args {
					rec(a)
				}
			}
			for _, x := range pt {
				rec(x)
			}
			for _, b := range t.BVs {
				if !have[b.ID] {
					panic(&specErr{"trigger of " + l.Name + " does not mention every variable"})
				}
			}
		}
		if l.Kind == "lemma" {
			// obligations proved with the axioms and lemmas loaded so far
			sv := usedLemmas
			usedLemmas = map[string]bool{}
			obls = append(obls, V.lemmaObls(ex, env, l, t)...)
			lemmaDeps[l.Name] = sortedKeys(usedLemmas)
			usedLemmas = sv
		}
		if l.Final {
			continue
		}
		userAxioms = append(userAxioms, &userAxiom{name: l.Name, t: t, keys: axiomKeys(t)})
	}
	return obls, nil
}

func axiomKeys(t *Term) []string {
	// all spec functions in the patterns if there are patterns, else all mentioned
	if len(t.Pats) > 0 {
		var ks []string
		for _, p := range t.Pats[0] {
			ks = append(ks, sfNames(p)...)
		}
		if len(ks) > 0 {
			return ks
		}
	}
	ks := sfNames(t)
	if len(ks) == 0 {
		return []string{"sf$never"}
	}
	return ks
}

func (V *Verifier) lemmaObls(ex *Exec, env *SpecEnv, l *Lemma, t *Term) []*Obl {
	mkO := func(nm string, pc []*Term, g *Term) *Obl {
		o := &Obl{Unit: "lemma " + l.Name, Name: nm, Kind: "lemma", Pos: l.Where, PC: pc, Goal: g}
		o.text = buildQuery(append(append([]*Term{}, pc...), Not(g)), nil)
		return o
	}
	if l.Induct == "" {
		return []*Obl{mkO("lemma:"+l.Name, nil, t)}
	}
	// forall n, xs :: P(n, xs): show P(0) and P(k) ==> P(k+1) for k >= 0 (instances with n < 0 must hold outright)
	if t.Op != "forall" {
		panic(&specErr{"induction lemma must be a forall: " + l.Name})
	}
	var nb *Term
	var rest []*Term
	at0 := -1
	if n := 0; l.E.Op == "forall" {
		for _, v := range l.E.Vars {
			k := len(leaves(env.resolveType(v.Type)))
			if v.Name == l.Induct && k == 1 {
				at0 = n
			}
			n += k
		}
		if n != len(t.BVs) {
			at0 = -1
		}
	}
	for i, b := range t.BVs {
		if i == at0 {
			nb = b
		} else {
			rest = append(rest, b)
		}
	}
	if nb == nil {
		panic(&specErr{"induction variable not bound: " + l.Name})
	}
	body := t.Args[0]
	at := func(x *Term) *Term {
		b := Subst(body, map[int]*Term{nb.ID: x})
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, y := range p {
				q = append(q, Subst(y, map[int]*Term{nb.ID: x}))
			}
			pats = append(pats, q)
		}
		return Forall(rest, pats, b)
	}
	sk := func(x *Term) *Term { // skolemised instance
		m := map[int]*Term{nb.ID: x}
		for _, r := range rest {
			m[r.ID] = Fresh("sk", r.Sort)
		}
		return Subst(body, m)
	}
	k := Fresh("ind", sInt)
	return []*Obl{
		mkO("lemma:"+l.Name+"#neg", []*Term{Lt(k, Int(0))}, sk(k)),
		mkO("lemma:"+l.Name+"#base", nil, sk(Int(0))),
		mkO("lemma:"+l.Name+"#step", []*Term{Le(Int(0), k), at(k)}, sk(Add(k, Int(1)))),
	}
}

func (S *Specs) init(P *Program) {
	S.Contracts = map[string]*Contract{}
	S.Funs = map[string]*SFun{}
	S.Ghosts = map[string]*Ghost{}
	S.Atomics = map[string]bool{}
	S.P = P
}

func loadSpecs(P *Program, dir string) (*Specs, error) {
	S := &Specs{}
	S.init(P)
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := S.loadFile(f); err != nil {
			return nil, err
		}
	}
	return S, nil
}
