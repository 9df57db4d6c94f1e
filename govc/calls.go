package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	ex    *Exec
	st    *State
	ctl   *runCtl
	args  []Val
	instr ssa.Value
	pos   token.Pos
	key   string
	sig   *types.Signature
}

// bind stores the results of a call in the caller's frame.
func bindRes(st *State, instr ssa.Value, res []Val) {
	if instr == nil {
		return
	}
	var l []*Term
	for _, r := range res {
		l = append(l, r.L...)
	}
	st.top().env[instr] = Val{instr.Type(), l}
}

func (ex *Exec) callArgs(st *State, c *ssa.CallCommon) ([]Val, Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	var fnv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(st, c.Value)
	}
	return args, fnv
}

func (ex *Exec) call(st *State, ctl *runCtl, c *ssa.CallCommon, instr ssa.Value, pos token.Pos) []*State {
	args, fnv := ex.callArgs(st, c)
	return ex.callWith(st, ctl, c, args, fnv, instr, pos)
}

func (ex *Exec) callWith(st *State, ctl *runCtl, c *ssa.CallCommon, args []Val, fnv Val, instr ssa.Value, pos token.Pos) []*State {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, ctl, b, c, args, instr, pos)
	}
	if c.IsInvoke() {
		return ex.invoke(st, ctl, c, fnv, args, instr, pos)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return ex.callFunc(st, ctl, f, args, nil, instr, pos)
	}
	return ex.callValue(st, ctl, fnv, c.Signature(), args, instr, pos)
}

// callValue calls a function value.
func (ex *Exec) callValue(st *State, ctl *runCtl, fnv Val, sig *types.Signature, args []Val, instr ssa.Value, pos token.Pos) []*State {
	t := fnv.L[0]
	if cl, ok := ex.closures[t.ID]; ok {
		return ex.callFunc(st, ctl, cl.fn, args, cl.bind, instr, pos)
	}
	if t.Op == "ite" {
		mkB := func(x *Term) func(*State) []*State {
			return func(s *State) []*State {
				return orSelf(s, ex.callValue(s, ctl, Val{fnv.T, []*Term{x}}, sig, args, instr, pos))
			}
		}
		return ex.branch(st, ctl, t.Args[0], mkB(t.Args[1]), mkB(t.Args[2]))
	}
	// maybe the path condition fixes the function
	for _, p := range st.pc {
		if p.Op == "=" {
			for i := 0; i < 2; i++ {
				if p.Args[i] == t {
					if cl, ok := ex.closures[p.Args[1-i].ID]; ok {
						return ex.callFunc(st, ctl, cl.fn, args, cl.bind, instr, pos)
					}
				}
			}
		}
	}
	ex.check(st, ctl, "nil-func", Neq(t, Int(0)), pos)
	if st.dead {
		return noForks
	}
	// a named function type may carry a contract for its values
	if n, ok := types.Unalias(fnv.T).(*types.Named); ok {
		if ct, ok := ex.V.specs.Contracts[typeKey(n)]; ok && ct.Kind == "iface" {
			return ex.applyContract(st, ctl, ct, append([]Val{fnv}, args...), sig, instr, pos)
		}
	}
	// so may a package variable or type alias of an unnamed function type, for every value of that type
	if ct := ex.V.specs.forSignature(fnv.T); ct != nil {
		return ex.applyContract(st, ctl, ct, append([]Val{fnv}, args...), sig, instr, pos)
	}
	ex.assumptions["calls of caller-supplied function values are modelled as deterministic functions of their scalar arguments that do not modify modelled state"] = true
	r := ex.applyTerm(fnv, args, sig)
	st.assumeVal(r)
	if sig.Results().Len() > 0 {
		if instr != nil {
			st.top().env[instr] = Val{instr.Type(), r.L}
		}
	}
	return nil
}

func orSelf(s *State, f []*State) []*State {
	if f == nil {
		return []*State{s}
	}
	return f
}

func (ex *Exec) applyTerm(f Val, args []Val, sig *types.Signature) Val {
	l := []*Term{f.L[0]}
	for _, a := range args {
		lis := leaves(a.T)
		for i, t := range a.L {
			// a short array is passed element by element, so that equal elements give equal results
			if i < len(lis) {
				if at, ok := under(lis[i].T).(*types.Array); ok && at.Len() <= 32 {
					for j := int64(0); j < at.Len(); j++ {
						l = append(l, Select(t, Int(j)))
					}
					continue
				}
			}
			l = append(l, t)
		}
	}
	var rt types.Type
	switch sig.Results().Len() {
	case 0:
		return Val{sig.Results(), nil}
	case 1:
		rt = sig.Results().At(0).Type()
	default:
		rt = sig.Results()
	}
	nm := "fn$" + sanitize(typeKey(sig.Params())+typeKey(sig.Results()))
	var out []*Term
	for i, li := range leaves(rt) {
		out = append(out, App(fmt.Sprintf("%s$%d", nm, i), li.Sort, l...))
	}
	return Val{rt, out}
}

// ---------- interface method calls ----------

func ifaceMethodKey(t types.Type, m *types.Func) string {
	n := types.Unalias(t)
	if nn, ok := n.(*types.Named); ok {
		return "(" + typeKey(nn) + ")." + m.Name()
	}
	return shortName(m.FullName())
}

func (ex *Exec) invoke(st *State, ctl *runCtl, c *ssa.CallCommon, recv Val, args []Val, instr ssa.Value, pos token.Pos) []*State {
	tag, val := recv.L[0], recv.L[1]
	it := c.Value.Type()
	if tag.Op == "ite" {
		mkB := func(x, v *Term) func(*State) []*State {
			return func(s *State) []*State {
				return orSelf(s, ex.invoke(s, ctl, c, Val{recv.T, []*Term{x, v}}, args, instr, pos))
			}
		}
		v1, v2 := val, val
		if val.Op == "ite" && val.Args[0] == tag.Args[0] {
			v1, v2 = val.Args[1], val.Args[2]
		}
		return ex.branch(st, ctl, tag.Args[0], mkB(tag.Args[1], v1), mkB(tag.Args[2], v2))
	}
	if !isInt(tag) {
		for _, p := range st.pc {
			if p.Op == "=" && (p.Args[0] == tag && isInt(p.Args[1]) || p.Args[1] == tag && isInt(p.Args[0])) {
				if p.Args[0] == tag {
					tag = p.Args[1]
				} else {
					tag = p.Args[0]
				}
				break
			}
		}
	}
	ex.check(st, ctl, "nil-interface", Neq(tag, Int(0)), pos)
	if st.dead {
		return noForks
	}
	if isInt(tag) {
		t := typeByID[int(tag.Int.Int64())]
		return ex.invokeOn(st, ctl, c, t, val, args, instr, pos)
	}
	key := ifaceMethodKey(it, c.Method)
	if ct, ok := ex.V.specs.Contracts[key]; ok && ct.Kind == "iface" {
		all := append([]Val{recv}, args...)
		return ex.applyContract(st, ctl, ct, all, c.Signature(), instr, pos)
	}
	if m, ok := libModels[key]; ok {
		cc := &callCtx{ex, st, ctl, append([]Val{recv}, args...), instr, pos, key, c.Signature()}
		return m(cc)
	}
	// closed interfaces (with unexported methods): dispatch over the package's implementations
	if ts := ex.closedImpls(it); ts != nil {
		var out []*State
		rest := st
		for _, t := range ts {
			t := t
			var next *State
			fs := ex.branch(rest, ctl, Eq(tag, typeID(t)), func(s *State) []*State {
				return orSelf(s, ex.invokeOn(s, ctl, c, t, val, args, instr, pos))
			}, func(s *State) []*State { next = s; return noForks })
			out = append(out, fs...)
			if next == nil {
				return nonNil(out)
			}
			rest = next
		}
		// no other implementation exists
		ex.assumptions["interface "+typeKey(it)+" has unexported methods: only the package's own types implement it"] = true
		return nonNil(out)
	}
	ex.assumptions["calls through interface method "+key+" return arbitrary values and do not modify modelled state"] = true
	ex.havocResults(st, c.Signature(), instr, c.Method.Name())
	return nil
}

func (ex *Exec) havocResults(st *State, sig *types.Signature, instr ssa.Value, name string) {
	var l []*Term
	al := Fresh("alloc", sInt)
	st.assume(Le(st.alloc, al))
	st.alloc = al
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, st.freshVal("res$"+name, sig.Results().At(i).Type()).L...)
	}
	if instr != nil && len(l) > 0 {
		st.top().env[instr] = Val{instr.Type(), l}
	}
}

func (ex *Exec) invokeOn(st *State, ctl *runCtl, c *ssa.CallCommon, t types.Type, val *Term, args []Val, instr ssa.Value, pos token.Pos) []*State {
	rv := unbox(val, t)
	st.assumeVal(rv)
	key := methodKey(t, c.Method.Name())
	if m, ok := libModels[key]; ok {
		if _, has := ex.V.specs.Contracts[key]; !has {
			return m(&callCtx{ex, st, ctl, append([]Val{rv}, args...), instr, pos, key, c.Signature()})
		}
	}
	f := ex.P.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
	if f == nil {
		panic(unsupported("method " + c.Method.Name() + " of " + t.String()))
	}
	return ex.callFunc(st, ctl, f, append([]Val{rv}, args...), nil, instr, pos)
}

func methodKey(t types.Type, name string) string {
	return "(" + typeKey(t) + ")." + name
}

func (ex *Exec) closedImpls(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !ex.P.Repo[n.Obj().Pkg().Path()] {
		return nil
	}
	iface := n.Underlying().(*types.Interface)
	closed := !n.Obj().Exported()
	for i := 0; i < iface.NumMethods(); i++ {
		if !iface.Method(i).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil
	}
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		}
		if pt := types.NewPointer(t); types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

// ---------- calls of known functions ----------

func (ex *Exec) callFunc(st *State, ctl *runCtl, f *ssa.Function, args []Val, bind []Val, instr ssa.Value, pos token.Pos) []*State {
	key := fnKey(f)
	if o := f.Origin(); o != nil {
		key = fnKey(o)
	}
	if c, ok := ex.V.specs.Contracts[key]; ok && !c.Inline && !ex.unit.InlineOf[key] && c.Kind != "iface" && (f.Blocks == nil || len(c.Params) == len(args)) {
		return ex.applyContract(st, ctl, c, args, f.Signature, instr, pos)
	}
	if m, ok := libModels[key]; ok {
		return m(&callCtx{ex, st, ctl, args, instr, pos, key, f.Signature})
	}
	if f.Blocks == nil && f.Pkg == nil && f.Synthetic == "" || f.Blocks == nil {
		return ex.external(st, ctl, f, key, args, instr, pos)
	}
	if len(st.frames) > 40 {
		panic(unsupported("recursion through " + key))
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			panic(unsupported("recursive call of " + key + " without a contract"))
		}
	}
	if len(bind) != len(f.FreeVars) {
		panic(unsupported("call of closure " + key + " without bindings"))
	}
	ex.inlined[key] = true
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, blk: f.Blocks[0], loops: map[*ssa.BasicBlock]*LoopInst{}}
	for i, p := range f.Params {
		fr.env[p] = Val{p.Type(), args[i].L}
	}
	for i, v := range f.FreeVars {
		fr.env[v] = Val{v.Type(), bind[i].L}
	}
	fr.onRet = func(s *State, res []Val) { bindRes(s, instr, res) }
	st.frames = append(st.frames, fr)
	return nil
}

var pureExternPkgs = map[string]bool{
	"strings": true, "strconv": true, "fmt": true, "math": true, "unicode": true, "unicode/utf8": true, "errors": true, "path": true,
	"net/url": true, "encoding/hex": true, "time": true, "regexp": true, "log": true, "os": true, "runtime": true, "net/http": true,
	"runtime/trace": true, "google.golang.org/grpc/status": true, "google.golang.org/grpc/codes": true, "html/template": true, "math/bits": true,
	"google.golang.org/grpc/metadata": true, "google.golang.org/grpc/peer": true, "google.golang.org/grpc": true, "net": true, "path/filepath": true,
	"google.golang.org/grpc/grpclog": true, "bytes": true, "runtime/pprof": true, "go/version": true, "reflect": true,
	"github.com/golang/groupcache/lru": true,
}

func (ex *Exec) external(st *State, ctl *runCtl, f *ssa.Function, key string, args []Val, instr ssa.Value, pos token.Pos) []*State {
	pp := ""
	if f.Pkg != nil {
		pp = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pp = f.Object().Pkg().Path()
	}
	if !pureExternPkgs[pp] {
		panic(unsupported("call of external function " + key))
	}
	ex.assumptions["external function "+key+": result arbitrary, no effect on modelled state, does not panic"] = true
	ex.havocResults(st, f.Signature, instr, f.Name())
	return nil
}

// ---------- contracts ----------

func contractEnv(ex *Exec, c *Contract, st *State, args []Val) *SpecEnv {
	e := &SpecEnv{ex: ex, pkg: c.Pkg, imports: c.Imports, vars: map[string]Val{}, cur: st.mem(), alloc: st.alloc, st: st}
	if len(args) != len(c.Params) {
		panic(&specErr{fmt.Sprintf("%s: contract has %d parameters, function has %d", c.Key, len(c.Params), len(args))})
	}
	for i, p := range c.Params {
		e.vars[p] = args[i]
	}
	return e
}

func (e *SpecEnv) addLets(c *Contract) {
	for _, l := range c.Lets {
		v := e.eval(l.E)
		if e.st != nil && e.inQuant == 0 {
			// a conditional string gets a name, so that it can occur in triggers
			for i, t := range v.L {
				if t.Op == "ite" && t.Sort == sStr {
					c := Fresh("let$"+l.Label, t.Sort)
					e.st.assume(Eq(c, t))
					v.L = append([]*Term(nil), v.L...)
					v.L[i] = c
				}
			}
		}
		e.vars[l.Label] = v
	}
}

func (ex *Exec) applyContract(st *State, ctl *runCtl, c *Contract, args []Val, sig *types.Signature, instr ssa.Value, pos token.Pos) []*State {
	ex.usedContracts[c.Key] = true
	env := contractEnv(ex, c, st, args)
	env.addLets(c)
	for i, r := range c.Requires {
		nm := r.Label
		if nm == "" {
			nm = fmt.Sprint(i + 1)
		}
		ex.oblige(st, ctl, "precondition", "pre:"+c.Key+"#"+nm, env.Bool(r.E), pos)
	}
	for _, h := range c.Holds {
		p, _ := env.addr(h.E)
		ex.oblige(st, ctl, "lock", "holds:"+c.Key, Eq(st.getGhost("held", p, sInt), Int(1)), pos)
	}
	for _, p := range c.Panics {
		ex.check(st, ctl, "callee-panic", Not(env.Bool(p.E)), pos)
	}
	old := st.snap()
	// havoc
	var items []ModItem
	for _, m := range c.Modifies {
		items = append(items, env.modItems(m.E)...) // every location is the one the callee found on entry
	}
	for _, it := range items {
		ex.havocItem(st, it)
	}
	if c.Kind == "func" {
		// channel, goroutine and commit counters are not part of frames: forget them where the callee may move them
		if f := ex.V.funcsByKey[c.Key]; f == nil || touchesCounters(f, map[*ssa.Function]bool{}) {
			for _, n := range []string{"Ch$sent", "Ch$recvd", "Atom$n", "Atom$before", "Atom$after"} {
				st.heap(n, arrSort(sInt, sInt))
			}
			st.heap("Ch$closed", arrSort(sInt, sBool))
			var names []string
			for name := range st.heaps {
				if strings.HasPrefix(name, "Ch$") || strings.HasPrefix(name, "Go$") || strings.HasPrefix(name, "Atom$") {
					names = append(names, name)
				}
			}
			sort.Strings(names)
			for _, name := range names {
				{
					st.heaps[name] = Fresh("hv$"+name, st.heaps[name].Sort)
					st.writes = append(st.writes, Write{Heap: name})
				}
			}
		}
	}
	if c.anyFrame {
		panic(unsupported("call of a function with unrestricted frame: " + c.Key))
	}
	if !c.Pure {
		al := Fresh("alloc", sInt)
		st.assume(Le(st.alloc, al))
		st.alloc = al
	}
	var l []*Term
	post := env.clone()
	post.cur = st.mem()
	post.alloc = st.alloc
	post.old = old
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		v := st.freshVal("r$"+sanitize(c.Key), sig.Results().At(i).Type())
		l = append(l, v.L...)
		if i < len(c.Results) {
			post.vars[c.Results[i]] = v
		}
	}
	for _, e := range c.Ensures {
		st.assume(post.Bool(e.E))
	}
	if instr != nil && n > 0 {
		st.top().env[instr] = Val{instr.Type(), l}
	}
	if st.dead {
		return noForks
	}
	return nil
}

func (ex *Exec) havocItem(st *State, it ModItem) {
	for _, ph := range it.Phys {
		if it.Root != nil {
			h := st.heap(ph.Name, ph.Sort)
			nh := Fresh("hv$"+ph.Name, ph.Sort)
			st.assume(unchangedOutside(nh, h, []*Term{it.Root}, nil, nil))
			st.heaps[ph.Name] = nh
		} else if it.Ref == nil {
			st.heap(ph.Name, ph.Sort)
			st.heaps[ph.Name] = Fresh("hv$"+ph.Name, ph.Sort)
		} else {
			h := st.heap(ph.Name, ph.Sort)
			st.heaps[ph.Name] = Store(h, it.Ref, Fresh("hv$"+ph.Name, ph.Sort.V))
		}
	}
	st.writes = append(st.writes, Write{Heap: it.Logical, Ref: it.Ref, Root: it.Root})
}

// unchangedOutside: heap nh agrees with h on every object older than alloc (if given)
// that is none of refs and not part of the allocations of roots.
func unchangedOutside(nh, h *Term, roots, refs []*Term, alloc *Term) *Term {
	r := BVar("fr", sInt)
	var cond []*Term
	if alloc != nil {
		cond = append(cond, Lt(App("root", sInt, r), alloc))
	}
	for _, b := range refs {
		cond = append(cond, Neq(r, b))
	}
	for _, b := range roots {
		cond = append(cond, Neq(App("root", sInt, r), App("root", sInt, b)))
	}
	sel := mk("select", "", nh.Sort.V, nh, r)
	return Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cond...), Eq(sel, mk("select", "", nh.Sort.V, h, r))))
}

// ---------- builtins ----------

func (ex *Exec) builtin(st *State, ctl *runCtl, b *ssa.Builtin, c *ssa.CallCommon, args []Val, instr ssa.Value, pos token.Pos) []*State {
	set := func(l ...*Term) {
		if instr != nil {
			st.top().env[instr] = Val{instr.Type(), l}
		}
	}
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch u := under(v.T).(type) {
		case *types.Slice:
			if b.Name() == "len" {
				set(v.L[2])
			} else {
				set(v.L[3])
			}
		case *types.Basic:
			st.strFacts(v.L[0])
			set(App("slen", sInt, v.L[0]))
		case *types.Map:
			m := mapInfo(v.T)
			ex.accessCheck(st, ctl, "map", v.L[0], m.key, false, pos)
			st.mapFacts(m, v.L[0])
			set(Ite(Eq(v.L[0], Int(0)), Int(0), st.mem().mapCard(m, v.L[0])))
		case *types.Array:
			set(Int(u.Len()))
		case *types.Pointer:
			set(Int(under(u.Elem()).(*types.Array).Len()))
		case *types.Chan:
			r := Fresh("chlen", sInt)
			st.assume(Le(Int(0), r))
			set(r)
		default:
			panic(unsupported("len of " + v.T.String()))
		}
		return nil
	case "append":
		return ex.appendSlice(st, ctl, args, instr, pos)
	case "copy":
		dst, src := args[0], args[1]
		et := under(dst.T).(*types.Slice).Elem()
		var sn *Term
		isStr := false
		if bt, ok := under(src.T).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			isStr = true
			st.strFacts(src.L[0])
			sn = App("slen", sInt, src.L[0])
		} else {
			sn = src.L[2]
		}
		n := Ite(Le(dst.L[2], sn), dst.L[2], sn)
		if _, isS := isStruct(et); isS {
			ex.copyStructs(st, et, dst.L[0], dst.L[1], src.L[0], src.L[1], n, st.mem())
			set(n)
			return nil
		}
		base := "E$" + typeKey(et)
		for _, li := range leaves(et) {
			s := arrSort(sInt, arrSort(sInt, li.Sort))
			h := st.heap(base+li.Suffix, s)
			var sa, so *Term
			if isStr {
				sa, so = App("bytes_of", s.V, src.L[0]), Int(0)
			} else {
				sa, so = Select(h, src.L[0]), src.L[1]
			}
			st.heaps[base+li.Suffix] = Store(h, dst.L[0], acopy(Select(h, dst.L[0]), dst.L[1], sa, so, n))
		}
		st.logWrite(base, someWritten(st, n, dst.L[0]))
		set(n)
		return nil
	case "delete":
		m := mapInfo(args[0].T)
		ex.accessCheck(st, ctl, "map", args[0].L[0], m.key, true, pos)
		k := keyTerm(args[1])
		ref := args[0].L[0]
		if isAllocTerm(ref) {
			st.mapKeyFacts(m, ref, k)
			st.mapDelete(m, ref, k)
			return nil
		}
		return ex.branch(st, ctl, Neq(ref, Int(0)), func(s *State) []*State {
			s.mapKeyFacts(m, ref, k)
			s.mapDelete(m, ref, k)
			return []*State{s}
		}, func(s *State) []*State { return []*State{s} })
	case "close":
		ch := args[0].L[0]
		ex.check(st, ctl, "close-closed", Not(st.getGhost("Ch$closed", ch, sBool)), pos)
		ex.check(st, ctl, "close-nil", Neq(ch, Int(0)), pos)
		st.putGhost("Ch$closed", ch, tTrue)
		return nil
	case "recover":
		set(Int(0), Int(0))
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].L[0]
		if r.Sort != sInt {
			panic(unsupported("min/max on non-integers"))
		}
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.L[0]), r, a.L[0])
			} else {
				r = Ite(Le(r, a.L[0]), a.L[0], r)
			}
		}
		set(r)
		return nil
	case "ssa:wrapnilchk":
		ex.nilCheck(st, ctl, args[0].L[0], pos)
		set(args[0].L...)
		return nil
	case "clear":
		if _, ok := under(args[0].T).(*types.Map); ok {
			m := mapInfo(args[0].T)
			ref := args[0].L[0]
			ex.accessCheck(st, ctl, "map", ref, m.key, true, pos)
			mv := st.mem()
			st.heaps[m.domName()] = Store(mv.get(m.domName(), m.domSort()), ref, ConstArr(arrSort(m.ks, sBool), tFalse))
			st.heaps[m.cardName()] = Store(mv.get(m.cardName(), arrSort(sInt, sInt)), ref, Int(0))
			st.logWrite("M$"+m.key, ref)
			return nil
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

// someWritten: copying n elements writes the array only if n > 0 (a reference
// nobody had before stands for "nothing written").
func someWritten(st *State, n, arr *Term) *Term {
	if isInt(n) && n.Int.Sign() > 0 || isAllocTerm(arr) {
		return arr
	}
	return Ite(Lt(Int(0), n), arr, st.alloc)
}

func acopy(d, do, s, so, n *Term) *Term {
	if isInt(n) && n.Int.Sign() <= 0 {
		return d
	}
	if isInt(n) && n.Int.IsInt64() && n.Int.Int64() <= 16 {
		r := d
		for i := int64(0); i < n.Int.Int64(); i++ {
			r = Store(r, Add(do, Int(i)), Select(s, Add(so, Int(i))))
		}
		return r
	}
	return App(acopyFun(d.Sort), d.Sort, d, do, s, so, n)
}

type scalarPath struct {
	addr func(q *Term) *Term
	t    types.Type
}

func scalarPaths(t types.Type, addr func(q *Term) *Term) []scalarPath {
	if opaqueKind(t) == "empty" {
		return nil
	}
	if s, ok := isStruct(t); ok {
		var out []scalarPath
		for i := 0; i < s.NumFields(); i++ {
			i := i
			out = append(out, scalarPaths(s.Field(i).Type(), func(q *Term) *Term { return fieldAddr(addr(q), t, i) })...)
		}
		return out
	}
	return []scalarPath{{addr, t}}
}

// copyToFresh states that the struct elements [do,do+n) of the fresh array d equal those of s in src memory.
func (ex *Exec) copyToFresh(st *State, et types.Type, d, do, s, so, n *Term, src memView) {
	if isInt(n) && n.Int.Sign() == 0 {
		return
	}
	for _, sp := range scalarPaths(et, func(q *Term) *Term { return q }) {
		i := BVar("ci", sInt)
		to := st.mem().load(sp.addr(App("elemref", sInt, d, Add(do, i))), sp.t)
		from := src.load(sp.addr(App("elemref", sInt, s, Add(so, i))), sp.t)
		j := BVar("cj", sInt)
		to2 := st.mem().load(sp.addr(App("elemref", sInt, d, j)), sp.t)
		from2 := src.load(sp.addr(App("elemref", sInt, s, Add(so, Sub(j, do)))), sp.t)
		_ = to
		_ = from
		_ = i
		for k := range to2.L {
			st.assume(Forall([]*Term{j}, [][]*Term{{to2.L[k]}}, Implies(And(Le(do, j), Lt(j, Add(do, n))), Eq(to2.L[k], from2.L[k]))))
		}
	}
}

// copyStructs overwrites the struct elements [do,do+n) of d with those of s.
func (ex *Exec) copyStructs(st *State, et types.Type, d, do, s, so, n *Term, src memView) {
	if isInt(n) && n.Int.IsInt64() && n.Int.Int64() <= 8 {
		var vs []Val
		for i := int64(0); i < n.Int.Int64(); i++ {
			vs = append(vs, src.load(App("elemref", sInt, s, Add(so, Int(i))), et))
		}
		for i, v := range vs {
			st.store(App("elemref", sInt, d, Add(do, Int(int64(i)))), v, et)
		}
		return
	}
	for _, sp := range scalarPaths(et, func(q *Term) *Term { return q }) {
		q := sp.addr(App("elemref", sInt, d, Int(0)))
		ad := resolveAddr(q, sp.t)
		if ad.kind != "H" || ad.ref.Op != "app" || ad.ref.Name != "elemref" {
			panic(unsupported("copy of nested structs"))
		}
		for _, li := range leaves(sp.t) {
			h := st.heap(ad.base+li.Suffix, arrSort(sInt, li.Sort))
			st.heaps[ad.base+li.Suffix] = App(hcopyFun(h.Sort), h.Sort, h, d, do, s, so, n)
		}
		st.writes = append(st.writes, Write{Heap: ad.base, Ref: someWritten(st, n, App("elemref", sInt, d, Fresh("anyidx", sInt)))})
	}
}

func (ex *Exec) appendSlice(st *State, ctl *runCtl, args []Val, instr ssa.Value, pos token.Pos) []*State {
	s := args[0]
	et := under(s.T).(*types.Slice).Elem()
	if len(args) == 1 {
		st.top().env[instr] = s
		return nil
	}
	var sn, soff, sarr *Term
	isStr := false
	if bt, ok := under(args[1].T).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
		st.strFacts(args[1].L[0])
		sn, soff = App("slen", sInt, args[1].L[0]), Int(0)
	} else {
		sarr, soff, sn = args[1].L[0], args[1].L[1], args[1].L[2]
	}
	if isInt(sn) && sn.Int.Sign() == 0 {
		st.top().env[instr] = Val{instr.Type(), s.L}
		return nil
	}
	arr, off, ln, cp := s.L[0], s.L[1], s.L[2], s.L[3]
	nl := Add(ln, sn)
	st.assume(Le(nl, BigInt(bigMaxLen)))
	_, isS := isStruct(et)
	if _, isA := under(et).(*types.Array); isA {
		panic(unsupported("append of arrays"))
	}
	base := "E$" + typeKey(et)
	inPlace := func(x *State) []*State {
		if isS {
			ex.copyStructs(x, et, arr, Add(off, ln), sarr, soff, sn, x.mem())
		} else {
			for _, li := range leaves(et) {
				so := arrSort(sInt, arrSort(sInt, li.Sort))
				h := x.heap(base+li.Suffix, so)
				var src *Term
				if isStr {
					src = App("bytes_of", so.V, args[1].L[0])
				} else {
					src = Select(h, sarr)
				}
				x.heaps[base+li.Suffix] = Store(h, arr, acopy(Select(h, arr), Add(off, ln), src, soff, sn))
			}
			x.logWrite(base, someWritten(x, sn, arr))
		}
		x.top().env[instr] = Val{instr.Type(), []*Term{arr, off, nl, cp}}
		return []*State{x}
	}
	grow := func(x *State) []*State {
		src := memView{ex, x.snap().heaps}
		r := x.newRef()
		ncap := Fresh("newcap", sInt)
		x.assume(Le(nl, ncap))
		x.assumeRange(ncap, bigZero, bigMaxLen)
		if isS {
			ex.copyToFresh(x, et, r, Int(0), arr, off, ln, src)
			if isInt(sn) && sn.Int.IsInt64() && sn.Int.Int64() <= 8 {
				for i := int64(0); i < sn.Int.Int64(); i++ {
					v := src.load(App("elemref", sInt, sarr, Add(soff, Int(i))), et)
					x.store(App("elemref", sInt, r, Add(ln, Int(i))), v, et)
				}
			} else {
				ex.copyToFresh(x, et, r, ln, sarr, soff, sn, src)
			}
		} else {
			for _, li := range leaves(et) {
				so := arrSort(sInt, arrSort(sInt, li.Sort))
				h := x.heap(base+li.Suffix, so)
				var s2 *Term
				if isStr {
					s2 = App("bytes_of", so.V, args[1].L[0])
				} else {
					s2 = Select(h, sarr)
				}
				a := acopy(ConstArr(so.V, zeroLeaf(li.Sort)), Int(0), Select(h, arr), off, ln)
				a = acopy(a, ln, s2, soff, sn)
				x.heaps[base+li.Suffix] = Store(h, r, a)
			}
			x.logWrite(base, r)
		}
		x.top().env[instr] = Val{instr.Type(), []*Term{r, Int(0), nl, ncap}}
		return []*State{x}
	}
	_ = strings.TrimSpace
	return ex.branch(st, ctl, Le(nl, cp), inPlace, grow)
}

// forSignature finds the interface contract stated for a package variable or alias whose function type is identical to t.
func (S *Specs) forSignature(t types.Type) *Contract {
	if t == nil {
		return nil
	}
	sg, ok := types.Unalias(t).(*types.Signature)
	if !ok {
		return nil
	}
	for _, key := range S.Order {
		ct := S.Contracts[key]
		i := strings.LastIndex(key, ".")
		if ct.Kind != "iface" || i < 0 || strings.HasPrefix(key, "(") {
			continue
		}
		p := S.P.Types[modPath+"/"+key[:i]]
		if p == nil {
			continue
		}
		o := p.Scope().Lookup(key[i+1:])
		if o == nil {
			continue
		}
		if os, ok := types.Unalias(o.Type()).(*types.Signature); ok && types.Identical(os, sg) {
			return ct
		}
	}
	return nil
}

// touchesCounters: the function, or one it calls statically or creates as a closure, uses channels, starts a goroutine
// or performs an atomic operation.
func touchesCounters(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
		return true
	}
	if n := f.String(); n == "(*sync.Map).Store" || n == "(*sync.Map).Delete" {
		return true
	}
	if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MakeChan:
				return true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return true
				}
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
			}
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && touchesCounters(g, seen) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if touchesCounters(a, seen) {
			return true
		}
	}
	return false
}
