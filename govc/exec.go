package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	blk      *ssa.BasicBlock
	prev     *ssa.BasicBlock
	idx      int
	defers   []deferred
	onRet    func(st *State, res []Val) // run after the frame is popped
	loops    map[*ssa.BasicBlock]*LoopInst
	key      string // inline context
	fnPanics bool
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = make(map[*ssa.BasicBlock]*LoopInst, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type Obl struct {
	Unit  string
	Name  string // stable name
	Kind  string
	Pos   string
	PC    []*Term
	Goal  *Term
	Trace []string
	Parts []*Obl
	Res   solveRes
	Done  bool
	Hints []*Term
	text  string
}

type runCtl struct {
	probe    bool
	depth    int // frame depth (len(frames)) of the probed loop
	loop     *loopDesc
	onBack   func(st *State, phis map[*ssa.Phi]Val)
	onReturn func(st *State, res []Val)
	onPanic  func(st *State)
}

type Exec struct {
	V             *Verifier
	unit          *Contract
	frame         []ModItem // what the unit may modify
	P             *Program
	sess          *Session
	heap0         map[string]*Term
	closures      map[int]*Closure
	obls          []*Obl
	entry         *Snap
	entryEnv      *SpecEnv // parameter bindings
	paths         int
	steps         int
	retPaths      int
	assumptions   map[string]bool
	inlined       map[string]bool
	usedContracts map[string]bool
	loopLog       map[string]*loopStat
	curPos        token.Pos
	noOblig       bool
	inputs        []inputTerm
	maxPaths      int
	loopCands     int
	bodyReached   bool
	probeDepth    int
	libUsed       map[string]bool
	origin        map[int]origin
	scanned       map[*ssa.Function]bool
	covers        [][]*Term
}

type inputTerm struct {
	Name string
	V    Val
}

type loopStat struct {
	Key   string
	Pos   string
	Cands int
	Kept  int
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := ex.P.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, ex.V.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- obligations ----------

func (ex *Exec) oblige(st *State, ctl *runCtl, kind, name string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		if !ctl.probe && !ex.noOblig {
			ex.V.trivial++
		}
		return
	}
	if !ctl.probe && !ex.noOblig {
		ex.obls = append(ex.obls, &Obl{Unit: ex.unit.Key, Name: name, Kind: kind, Pos: ex.pos(pos), PC: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trace: st.trace[:len(st.trace):len(st.trace)]})
	}
	st.assume(goal)
}

// runtime check: failing means a panic at run time
func (ex *Exec) check(st *State, ctl *runCtl, kind string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		if !ctl.probe && !ex.noOblig {
			ex.V.trivial++
		}
		return
	}
	g := goal
	if pc := ex.panicCond(); pc != nil {
		g = Or(goal, pc)
	}
	fn := st.top().fn
	if !ctl.probe && !ex.noOblig && ex.unit.mayPanic == false {
		ex.obls = append(ex.obls, &Obl{Unit: ex.unit.Key, Name: "nopanic:" + kind + " in " + fnKey(fn), Kind: kind, Pos: ex.pos(pos), PC: st.pc[:len(st.pc):len(st.pc)], Goal: g, Trace: st.trace[:len(st.trace):len(st.trace)]})
	}
	st.assume(goal)
}

func (ex *Exec) panicCond() *Term {
	if len(ex.unit.Panics) == 0 {
		return nil
	}
	var cs []*Term
	for _, c := range ex.unit.Panics {
		cs = append(cs, ex.entryEnv.withSnap(ex.entry, nil).Bool(c.E))
	}
	return Or(cs...)
}

// ---------- running ----------

func (ex *Exec) run(st *State, ctl *runCtl) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil && !s.dead {
			forks := ex.step(s, ctl)
			if forks == nil {
				continue // straight-line progress
			}
			// forks replaces s
			s = nil
			if len(forks) > 0 {
				s = forks[0]
				work = append(work, forks[1:]...)
			}
		}
	}
}

var noForks = []*State{} // path ended

func (ex *Exec) step(st *State, ctl *runCtl) (out []*State) {
	fr := st.top()
	if fr.idx >= len(fr.blk.Instrs) {
		panic("fell off block")
	}
	ins := fr.blk.Instrs[fr.idx]
	ex.steps++
	if ex.steps > 3000000 {
		panic(unsupported("step limit"))
	}
	if p := ins.Pos(); p.IsValid() {
		ex.curPos = p
	}
	fr.idx++
	switch i := ins.(type) {
	case *ssa.If:
		c := ex.val(st, i.Cond).L[0]
		return ex.branch(st, ctl, c, func(s *State) []*State { return ex.enter(s, ctl, i.Block(), i.Block().Succs[0]) },
			func(s *State) []*State { return ex.enter(s, ctl, i.Block(), i.Block().Succs[1]) })
	case *ssa.Jump:
		return ex.enter(st, ctl, i.Block(), i.Block().Succs[0])
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, ex.val(st, r))
		}
		return ex.doReturn(st, ctl, res)
	case *ssa.Panic:
		goal := tFalse
		if pc := ex.panicCond(); pc != nil {
			goal = pc
		}
		if !ex.unit.mayPanic {
			ex.oblige(st, ctl, "explicit-panic", "nopanic:panic in "+fnKey(fr.fn), goal, i.Pos())
		}
		return noForks
	case *ssa.Call:
		return ex.call(st, ctl, i.Common(), i, i.Pos())
	case *ssa.Defer:
		d := deferred{call: i.Common()}
		d.args, d.fnv = ex.callArgs(st, i.Common())
		fr.defers = append(fr.defers, d)
		return nil
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			fr.idx-- // re-run
			return ex.callWith(st, ctl, d.call, d.args, d.fnv, nil, i.Pos())
		}
		return nil
	case *ssa.Go:
		args, fnv := ex.callArgs(st, i.Common())
		ex.goStmt(st, ctl, i, args, fnv)
		return nil
	case *ssa.Next:
		return ex.next(st, ctl, i)
	case *ssa.Select:
		return ex.selectStmt(st, ctl, i)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, ctl, i)
	}
	ex.simple(st, ctl, ins)
	return nil
}

// branch forks on c
func (ex *Exec) branch(st *State, ctl *runCtl, c *Term, th, el func(*State) []*State) []*State {
	if c == tTrue {
		return nonNil(th(st))
	}
	if c == tFalse {
		return nonNil(el(st))
	}
	if st.assumed[c.ID] {
		return nonNil(th(st))
	}
	nc := Not(c)
	if st.assumed[nc.ID] {
		return nonNil(el(st))
	}
	ft := ex.sess.feasible(st.pc, c)
	fe := true
	if ft {
		fe = ex.sess.feasible(st.pc, nc)
	}
	if ft && !fe {
		st.assume(c)
		return nonNil(th(st))
	}
	if !ft {
		st.assume(nc)
		return nonNil(el(st))
	}
	ex.paths++
	if ex.paths > ex.maxPaths {
		panic(unsupported("path limit"))
	}
	s2 := st.clone()
	st.assume(c)
	s2.assume(nc)
	var out []*State
	if !st.dead {
		out = append(out, th(st)...)
	}
	if !s2.dead {
		out = append(out, el(s2)...)
	}
	return nonNil(out)
}

func nonNil(s []*State) []*State {
	if s == nil {
		return noForks
	}
	return s
}

func (ex *Exec) enter(st *State, ctl *runCtl, from, to *ssa.BasicBlock) []*State {
	fr := st.top()
	depth := len(st.frames)
	if ctl.probe && depth == ctl.depth && !ctl.loop.body[to] {
		return noForks // left the probed loop
	}
	lp := ex.loopOf(fr.fn, to)
	if lp != nil {
		phis := ex.phiVals(st, from, to)
		if lp.body[from] { // back edge
			if ctl.probe && depth == ctl.depth && to == ctl.loop.header {
				ctl.onBack(st, phis)
				return noForks
			}
			inst := fr.loops[to]
			if inst != nil && inst.unroll > 0 && inst.unroll < 70 {
				if ex.headerConst(st, to, phis) {
					inst2 := *inst
					inst2.unroll++
					fr.loops[to] = &inst2
					ex.setPhis(st, from, to, phis)
					return []*State{st}
				}
				// fall through: treat as a fresh arrival
			} else {
				return noForks // invariant already checked
			}
		} else if ex.headerConst(st, to, phis) {
			fr.loops[to] = &LoopInst{unroll: 1}
			ex.setPhis(st, from, to, phis)
			return []*State{st}
		}
		return ex.handleLoop(st, ctl, lp, from, phis)
	}
	ex.setPhis(st, from, to, ex.phiVals(st, from, to))
	return []*State{st}
}

func (ex *Exec) phiVals(st *State, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	ei := -1
	for k, p := range to.Preds {
		if p == from {
			ei = k
		}
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.val(st, p.Edges[ei])
		out[p] = Val{p.Type(), v.L}
	}
	return out
}

func (ex *Exec) setPhis(st *State, from, to *ssa.BasicBlock, phis map[*ssa.Phi]Val) {
	fr := st.top()
	for p, v := range phis {
		fr.env[p] = v
	}
	fr.prev, fr.blk = from, to
	fr.idx = len(phis)
	if len(st.trace) < 200 {
		st.trace = append(st.trace, fmt.Sprintf("%s.%d", fr.fn.Name(), to.Index))
	}
}

// headerConst: does the loop condition evaluate to a constant with these phi values?
func (ex *Exec) headerConst(st *State, h *ssa.BasicBlock, phis map[*ssa.Phi]Val) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	save := ex.noOblig
	defer func() { ex.noOblig = save }()
	env := map[ssa.Value]Val{}
	for p, v := range phis {
		env[p] = v
	}
	get := func(v ssa.Value) (Val, bool) {
		if x, ok := env[v]; ok {
			return x, true
		}
		if ins, ok := v.(ssa.Instruction); ok && ins.Block() == h {
			return Val{}, false
		}
		switch v.(type) {
		case *ssa.Const:
			return ex.val(st, v), true
		}
		if x, ok := st.top().env[v]; ok {
			return x, true
		}
		return Val{}, false
	}
	for _, ins := range h.Instrs {
		switch i := ins.(type) {
		case *ssa.BinOp:
			a, ok1 := get(i.X)
			b, ok2 := get(i.Y)
			if !ok1 || !ok2 || len(a.L) != 1 || len(b.L) != 1 {
				return false
			}
			if len(a.L) == 1 && a.L[0].Sort == sInt {
				if (i.Op == token.QUO || i.Op == token.REM) && b.L[0] == Int(0) {
					return false
				}
				env[i] = ex.binop(i.Op, a, b, i.Type())
			} else {
				return false
			}
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a, ok := get(i.Call.Args[0])
				if !ok {
					return false
				}
				if _, isS := under(i.Call.Args[0].Type()).(*types.Slice); !isS {
					return false
				}
				env[i] = Val{types.Typ[types.Int], []*Term{a.L[2]}}
				continue
			}
			return false
		default:
			return false
		}
	}
	c, ok := get(iff.Cond)
	if _, flag := iff.Cond.(*ssa.Phi); !ok || flag {
		return false // a loop run until a flag is set: not a counted loop
	}
	// a loop is unrolled only when both the condition and a phi comparison are constant
	return c.L[0] == tTrue || c.L[0] == tFalse
}

func (ex *Exec) doReturn(st *State, ctl *runCtl, res []Val) []*State {
	if ctl.probe && len(st.frames) == ctl.depth {
		return noForks
	}
	fr := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		if ctl.onReturn != nil {
			ctl.onReturn(st, res)
		}
		return noForks
	}
	if fr.onRet != nil {
		fr.onRet(st, res)
	}
	if st.dead {
		return noForks
	}
	return []*State{st}
}

// ---------- values ----------

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		ex.assumeGlobalArray(st, c)
		return Val{c.Type(), []*Term{ex.V.globalRef(c)}}
	case *ssa.Function:
		return Val{c.Type(), []*Term{ex.funcTerm(c)}}
	case *ssa.Builtin:
		return Val{c.Type(), []*Term{Int(0)}}
	}
	x, ok := st.top().env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("undefined ssa value %s in %s", v.Name(), st.top().fn)))
	}
	return x
}

func (ex *Exec) funcTerm(f *ssa.Function) *Term {
	t := Var("func$"+fnKey(f), sInt)
	setRange(t, big.NewInt(1), big.NewInt(99999))
	ex.closures[t.ID] = &Closure{fn: f}
	return t
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{t, []*Term{Bool(constant.BoolVal(c.Value))}}
		case b.Info()&types.IsInteger != 0:
			return Val{t, []*Term{constInt(c.Value)}}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return Val{t, []*Term{fpLit(f)}}
		case b.Info()&types.IsString != 0:
			return Val{t, []*Term{StrLit(constant.StringVal(c.Value))}}
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func constInt(v constant.Value) *Term {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return Int(i)
	}
	b, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		panic(unsupported("const " + v.String()))
	}
	return BigInt(b)
}

func fnKey(f *ssa.Function) string {
	s := f.String()
	return shortName(s)
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (ex *Exec) set(st *State, v ssa.Value, x Val) {
	st.top().env[v] = Val{v.Type(), x.L}
}

func (ex *Exec) nilCheck(st *State, ctl *runCtl, p *Term, pos token.Pos) {
	if p.Op == "app" && (strings.HasPrefix(p.Name, "fld$") || strings.HasPrefix(p.Name, "selem$") || p.Name == "elemref") || isAllocTerm(p) {
		return
	}
	ex.check(st, ctl, "nil-deref", Neq(p, Int(0)), pos)
}

func derefType(t types.Type) types.Type {
	return under(t).(*types.Pointer).Elem()
}

// simple executes a non-forking instruction.
func (ex *Exec) simple(st *State, ctl *runCtl, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefType(i.Type())
		r := st.newObj(t)
		ex.set(st, i, Val{L: []*Term{r}})
	case *ssa.FieldAddr:
		p := ex.val(st, i.X).L[0]
		ex.nilCheck(st, ctl, p, i.Pos())
		ex.set(st, i, Val{L: []*Term{fieldAddr(p, derefType(i.X.Type()), i.Field)}})
	case *ssa.Field:
		v := ex.val(st, i.X)
		ex.set(st, i, Val{v.T, v.L}.field(i.Field))
	case *ssa.IndexAddr:
		x := ex.val(st, i.X)
		idx := ex.val(st, i.Index).L[0]
		var arr, off, ln *Term
		var et types.Type
		switch u := under(i.X.Type()).(type) {
		case *types.Slice:
			arr, off, ln, et = x.L[0], x.L[1], x.L[2], u.Elem()
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			arr, off, ln, et = x.L[0], Int(0), Int(a.Len()), a.Elem()
			ex.nilCheck(st, ctl, arr, i.Pos())
		}
		ex.check(st, ctl, "index", And(Le(Int(0), idx), Lt(idx, ln)), i.Pos())
		ex.set(st, i, Val{L: []*Term{elemAddr(arr, Add(off, idx), et)}})
	case *ssa.Index:
		x := ex.val(st, i.X)
		idx := ex.val(st, i.Index).L[0]
		switch u := under(i.X.Type()).(type) {
		case *types.Array:
			ex.check(st, ctl, "index", And(Le(Int(0), idx), Lt(idx, Int(u.Len()))), i.Pos())
			var l []*Term
			for _, a := range x.L {
				l = append(l, Select(a, idx))
			}
			v := Val{u.Elem(), l}
			st.assumeVal(v)
			ex.set(st, i, v)
		case *types.Basic: // string
			ex.check(st, ctl, "index", And(Le(Int(0), idx), Lt(idx, App("slen", sInt, x.L[0]))), i.Pos())
			v := Val{types.Typ[types.Uint8], []*Term{App("sat", sInt, x.L[0], idx)}}
			st.assumeVal(v)
			ex.set(st, i, v)
		default:
			panic(unsupported("index of " + i.X.Type().String()))
		}
	case *ssa.Lookup:
		x := ex.val(st, i.X)
		if _, ok := under(i.X.Type()).(*types.Map); !ok {
			idx := ex.val(st, i.Index).L[0]
			ex.check(st, ctl, "index", And(Le(Int(0), idx), Lt(idx, App("slen", sInt, x.L[0]))), i.Pos())
			v := Val{types.Typ[types.Uint8], []*Term{App("sat", sInt, x.L[0], idx)}}
			st.assumeVal(v)
			ex.set(st, i, v)
			return
		}
		m := mapInfo(i.X.Type())
		k := keyTerm(ex.val(st, i.Index))
		ex.accessCheck(st, ctl, "map", x.L[0], m.key, false, i.Pos())
		v, dom := st.mem().mapGet(m, x.L[0], k)
		st.mapKeyFacts(m, x.L[0], k)
		z := zeroVal(m.vt)
		var l []*Term
		for j := range v.L {
			l = append(l, Ite(dom, v.L[j], z.L[j]))
		}
		// facts for the stored value
		st.assumeVal(Val{m.vt, l})
		if i.CommaOk {
			l = append(append([]*Term{}, l...), dom)
		}
		ex.set(st, i, Val{L: l})
	case *ssa.MapUpdate:
		x := ex.val(st, i.Map)
		m := mapInfo(i.Map.Type())
		ex.check(st, ctl, "nil-map-write", Neq(x.L[0], Int(0)), i.Pos())
		ex.accessCheck(st, ctl, "map", x.L[0], m.key, true, i.Pos())
		st.mapUpdate(m, x.L[0], keyTerm(ex.val(st, i.Key)), ex.val(st, i.Value))
	case *ssa.UnOp:
		ex.unop(st, ctl, i)
	case *ssa.BinOp:
		a, b := ex.val(st, i.X), ex.val(st, i.Y)
		if i.Op == token.QUO || i.Op == token.REM {
			if _, _, ok := intInfo(i.Type()); ok {
				ex.check(st, ctl, "div-zero", Neq(b.L[0], Int(0)), i.Pos())
			}
		}
		if i.Op == token.SHL || i.Op == token.SHR {
			if _, sg, _ := intInfo(i.Y.Type()); sg {
				ex.check(st, ctl, "neg-shift", Le(Int(0), b.L[0]), i.Pos())
			}
		}
		ex.set(st, i, ex.binop(i.Op, a, b, i.Type()))
	case *ssa.Convert:
		ex.set(st, i, ex.convert(st, ex.val(st, i.X), i.Type()))
	case *ssa.ChangeType:
		ex.set(st, i, ex.val(st, i.X))
	case *ssa.ChangeInterface:
		ex.set(st, i, ex.val(st, i.X))
	case *ssa.MakeInterface:
		v := ex.val(st, i.X)
		ex.set(st, i, mkIface(i.Type(), Val{i.X.Type(), v.L}))
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		t := Fresh("clo$"+fnKey(fn), sInt)
		setRange(t, big.NewInt(1), big.NewInt(99999))
		c := &Closure{fn: fn}
		for _, b := range i.Bindings {
			c.bind = append(c.bind, ex.val(st, b))
		}
		ex.closures[t.ID] = c
		ex.set(st, i, Val{L: []*Term{t}})
	case *ssa.MakeMap:
		m := mapInfo(i.Type())
		ex.set(st, i, Val{L: []*Term{st.newMap(m)}})
	case *ssa.MakeChan:
		r := st.newRef()
		st.putGhost("Ch$closed", r, tFalse)
		st.putGhost("Ch$sent", r, Int(0))
		st.putGhost("Ch$recvd", r, Int(0))
		ex.set(st, i, Val{L: []*Term{r}})
	case *ssa.MakeSlice:
		ln, cp := ex.val(st, i.Len).L[0], ex.val(st, i.Cap).L[0]
		ex.check(st, ctl, "makeslice", And(Le(Int(0), ln), Le(ln, cp)), i.Pos())
		st.assume(Le(cp, BigInt(bigMaxLen)))
		et := under(i.Type()).(*types.Slice).Elem()
		r := st.newSliceArr(et, cp)
		ex.set(st, i, Val{L: []*Term{r, Int(0), ln, cp}})
	case *ssa.Slice:
		ex.slice(st, ctl, i)
	case *ssa.Store:
		p := ex.val(st, i.Addr).L[0]
		ex.nilCheck(st, ctl, p, i.Pos())
		t := derefType(i.Addr.Type())
		v := ex.val(st, i.Val)
		if pt, ok := under(t).(*types.Pointer); ok {
			if _, isS := isStruct(pt.Elem()); !isS {
				if _, isA := under(pt.Elem()).(*types.Array); !isA && len(v.L) == 1 && v.L[0].Op == "app" && (strings.HasPrefix(v.L[0].Name, "fld$") || strings.HasPrefix(v.L[0].Name, "selem$")) {
					panic(unsupported("address of a scalar field stored in memory"))
				}
			}
		}
		ex.memCheck(st, ctl, p, t, true, i.Pos())
		st.store(p, Val{t, v.L}, t)
	case *ssa.Range:
		ex.rangeStart(st, ctl, i)
	case *ssa.Extract:
		v := ex.val(st, i.Tuple)
		ex.set(st, i, tupleAt(Val{i.Tuple.Type(), v.L}, i.Index))
	case *ssa.Send:
		ch := ex.val(st, i.Chan).L[0]
		v := ex.val(st, i.X)
		ex.chanSend(st, ctl, ch, i.Chan.Type(), v, i.Pos())
	case *ssa.Phi:
		panic("phi in body")
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func elemAddr(arr, i *Term, et types.Type) *Term {
	if _, ok := isStruct(et); ok {
		return App("elemref", sInt, arr, i)
	}
	if _, ok := under(et).(*types.Array); ok {
		return App("elemref", sInt, arr, i)
	}
	return App(selemFun(typeKey(et)), sInt, arr, i)
}

// selemFun: addresses of scalar slice elements; distinct from each other, from nil and from objects
func selemFun(key string) string {
	fn := "selem$" + key
	if _, ok := fldKinds[fn]; !ok {
		k := len(fldKinds) + 2
		fldKinds[fn] = k
		builtinSigs[fn], builtinSigs[fn+"$a"], builtinSigs[fn+"$i"] = "(Int Int) Int", "(Int) Int", "(Int) Int"
		addDyn(fn, &axiom{keys: []string{fn}, uses: []string{fn + "$a", fn + "$i", "rkind", "root"},
			text: fmt.Sprintf("(forall ((a Int) (i Int)) (! (and (= (|%s$a| (|%s| a i)) a) (= (|%s$i| (|%s| a i)) i) (= (|rkind| (|%s| a i)) %d) (< (|%s| a i) 0) (= (|root| (|%s| a i)) (|root| a))) :pattern ((|%s| a i))))", fn, fn, fn, fn, fn, k, fn, fn, fn)})
	}
	return fn
}

func (st *State) newSliceArr(et types.Type, cp *Term) *Term {
	r := st.newRef()
	st.zeroArr(r, et, cp)
	return r
}

func (st *State) zeroArr(r *Term, et types.Type, n *Term) {
	if _, ok := isStruct(et); ok {
		st.zeroElems(r, Int(0), n, et)
		return
	}
	if _, ok := under(et).(*types.Array); ok {
		return // content left unspecified
	}
	for _, li := range leaves(et) {
		h := "E$" + typeKey(et) + li.Suffix
		s := arrSort(sInt, arrSort(sInt, li.Sort))
		z := zeroLeaf(li.Sort)
		if opaqueKind(et) == "time" {
			z = zeroTime()
		}
		st.heaps[h] = Store(st.heap(h, s), r, ConstArr(s.V, z))
	}
	st.logWrite("E$"+typeKey(et), r)
}

func (ex *Exec) unop(st *State, ctl *runCtl, i *ssa.UnOp) {
	x := ex.val(st, i.X)
	switch i.Op {
	case token.MUL:
		p := x.L[0]
		t := derefType(i.X.Type())
		if g, ok := i.X.(*ssa.Global); ok {
			if v, ok := ex.V.globalConst(ex, st, g); ok {
				ex.set(st, i, v)
				return
			}
		}
		ex.nilCheck(st, ctl, p, i.Pos())
		ex.memCheck(st, ctl, p, t, false, i.Pos())
		ex.set(st, i, st.load(p, t))
	case token.NOT:
		ex.set(st, i, Val{L: []*Term{Not(x.L[0])}})
	case token.SUB:
		if x.L[0].Sort == sF64 {
			if x.L[0].Op == "fplit" {
				ex.set(st, i, Val{L: []*Term{fpLit(-fpVal(x.L[0]))}})
				return
			}
			ex.set(st, i, Val{L: []*Term{App("fp.neg", sF64, x.L[0])}})
			return
		}
		ex.set(st, i, Val{L: []*Term{wrap(Neg(x.L[0]), i.Type())}})
	case token.XOR:
		// ^x = -x-1
		ex.set(st, i, Val{L: []*Term{wrap(Sub(Int(-1), x.L[0]), i.Type())}})
	case token.ARROW:
		et := under(i.X.Type()).(*types.Chan).Elem()
		v := ex.chanRecv(st, ctl, x.L[0], et, i.Pos())
		l := v.L
		if i.CommaOk {
			l = append(append([]*Term{}, l...), Fresh("recvok", sBool))
		}
		ex.set(st, i, Val{L: l})
	default:
		panic(unsupported("unop " + i.Op.String()))
	}
}

func fpVal(t *Term) float64 {
	if t.Name == "(_ NaN 11 53)" {
		return math.NaN()
	}
	s := strings.NewReplacer("(fp #b", "", " #b", "", ")", "").Replace(t.Name)
	b, _ := new(big.Int).SetString(s, 2)
	return math.Float64frombits(b.Uint64())
}

func bit(x *Term, i int) *Term { return Mod(Div(x, BigInt(pow2(uint(i)))), Int(2)) }

func (ex *Exec) binop(op token.Token, a, b Val, t types.Type) Val {
	one := func(x *Term) Val { return Val{t, []*Term{x}} }
	switch op {
	case token.EQL:
		return one(ex.eq(a, b))
	case token.NEQ:
		return one(Not(ex.eq(a, b)))
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		panic(unsupported("binop on composite"))
	}
	x, y := a.L[0], b.L[0]
	if x.Sort == sF64 {
		switch op {
		case token.LSS:
			return one(App("fp.lt", sBool, x, y))
		case token.LEQ:
			return one(App("fp.leq", sBool, x, y))
		case token.GTR:
			return one(App("fp.lt", sBool, y, x))
		case token.GEQ:
			return one(App("fp.leq", sBool, y, x))
		}
		nm := map[token.Token]string{token.ADD: "f.add", token.SUB: "f.sub", token.MUL: "f.mul", token.QUO: "f.div"}[op]
		if nm == "" {
			panic(unsupported("float op " + op.String()))
		}
		if x.Op == "fplit" && y.Op == "fplit" {
			p, q := fpVal(x), fpVal(y)
			switch op {
			case token.ADD:
				return one(fpLit(p + q))
			case token.SUB:
				return one(fpLit(p - q))
			case token.MUL:
				return one(fpLit(p * q))
			case token.QUO:
				return one(fpLit(p / q))
			}
		}
		return one(App(nm, sF64, x, y))
	}
	if x.Sort == sStr {
		switch op {
		case token.ADD:
			return one(App("scat", sStr, x, y))
		case token.LSS:
			return one(App("strlt", sBool, x, y))
		case token.GTR:
			return one(App("strlt", sBool, y, x))
		case token.LEQ:
			return one(Not(App("strlt", sBool, y, x)))
		case token.GEQ:
			return one(Not(App("strlt", sBool, x, y)))
		}
	}
	if x.Sort == sBool {
		switch op {
		case token.AND, token.LAND:
			return one(And(x, y))
		case token.OR, token.LOR:
			return one(Or(x, y))
		}
	}
	switch op {
	case token.ADD:
		return one(wrap(Add(x, y), t))
	case token.SUB:
		return one(wrap(Sub(x, y), t))
	case token.MUL:
		return one(wrap(Mul(x, y), t))
	case token.LSS:
		return one(Lt(x, y))
	case token.LEQ:
		return one(Le(x, y))
	case token.GTR:
		return one(Lt(y, x))
	case token.GEQ:
		return one(Le(y, x))
	case token.QUO:
		return one(wrap(tdiv(x, y), t))
	case token.REM:
		return one(wrap(Sub(x, Mul(tdiv(x, y), y)), t))
	case token.SHL:
		if isInt(y) && y.Int.IsInt64() {
			n := y.Int.Int64()
			bits, _, _ := intInfo(t)
			if n >= int64(bits) {
				return one(Int(0))
			}
			return one(wrap(Mul(BigInt(pow2(uint(n))), x), t))
		}
		r := App("shl$"+typeKey(t), sInt, x, y)
		lo, hi, _ := intBounds(t)
		setRange(r, lo, hi)
		return one(r)
	case token.SHR:
		if isInt(y) && y.Int.IsInt64() {
			n := y.Int.Int64()
			if n > 64 {
				n = 64
			}
			return one(Div(x, BigInt(pow2(uint(n)))))
		}
		r := App("shr$"+typeKey(t), sInt, x, y)
		lo, hi, _ := intBounds(t)
		setRange(r, lo, hi)
		return one(r)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return one(bitop(op, x, y, t))
	}
	panic(unsupported("binop " + op.String()))
}

func tdiv(x, y *Term) *Term {
	if isInt(y) && y.Int.Sign() > 0 {
		if lo, _, ok := rangeOf(x); ok && lo.Sign() >= 0 {
			return Div(x, y)
		}
		return Ite(Le(Int(0), x), Div(x, y), Neg(Div(Neg(x), y)))
	}
	ax := Ite(Le(Int(0), x), x, Neg(x))
	ay := Ite(Le(Int(0), y), y, Neg(y))
	q := mk("div", "", sInt, ax, ay)
	return Ite(Eq(Le(Int(0), x), Le(Int(0), y)), q, Neg(q))
}

func bitop(op token.Token, x, y *Term, t types.Type) *Term {
	if isInt(x) && isInt(y) {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.Int, y.Int)
		case token.OR:
			r.Or(x.Int, y.Int)
		case token.XOR:
			r.Xor(x.Int, y.Int)
		case token.AND_NOT:
			r.AndNot(x.Int, y.Int)
		}
		return BigInt(r)
	}
	if isInt(x) && op != token.AND_NOT {
		x, y = y, x
	}
	lo, hi, _ := intBounds(t)
	if isInt(y) {
		c := y.Int
		if op == token.AND_NOT {
			// x & ^c
			_, signed, _ := intInfo(t)
			if !signed {
				c = new(big.Int).Xor(c, hi)
				op = token.AND
			}
		}
		switch op {
		case token.AND:
			if c.Sign() >= 0 {
				if c.Sign() == 0 {
					return Int(0)
				}
				tz := 0
				for c.Bit(tz) == 0 {
					tz++
				}
				n := c.BitLen()
				contig := true
				for i := tz; i < n; i++ {
					if c.Bit(i) == 0 {
						contig = false
					}
				}
				if contig {
					return Mul(BigInt(pow2(uint(tz))), Mod(Div(x, BigInt(pow2(uint(tz)))), BigInt(pow2(uint(n-tz)))))
				}
				ones := 0
				for i := 0; i < n; i++ {
					ones += int(c.Bit(i))
				}
				if ones <= 8 {
					s := Int(0)
					for i := 0; i < n; i++ {
						if c.Bit(i) == 1 {
							s = Add(s, Mul(BigInt(pow2(uint(i))), bit(x, i)))
						}
					}
					return s
				}
			}
		case token.OR:
			if c.Sign() >= 0 {
				ones := 0
				for i := 0; i < c.BitLen(); i++ {
					ones += int(c.Bit(i))
				}
				if ones <= 8 {
					s := x
					for i := 0; i < c.BitLen(); i++ {
						if c.Bit(i) == 1 {
							s = Add(s, Mul(BigInt(pow2(uint(i))), Sub(Int(1), bit(x, i))))
						}
					}
					if s != x {
						setRange(s, lo, hi)
					}
					return s
				}
			}
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bits
		if r := disjointOr(x, y); r != nil {
			return r
		}
		if r := disjointOr(y, x); r != nil {
			return r
		}
	}
	nm := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
	if op != token.AND_NOT && x.ID > y.ID {
		x, y = y, x
	}
	r := App(nm, sInt, x, y)
	setRange(r, lo, hi)
	return r
}

// disjointOr: y is a multiple of 2^k and 0 <= x < 2^k
func disjointOr(x, y *Term) *Term {
	lo, hi, ok := rangeOf(x)
	if !ok || lo.Sign() < 0 {
		return nil
	}
	k := uint(hi.BitLen())
	m := pow2(k)
	l := linear(y)
	if new(big.Int).Mod(l.c, m).Sign() != 0 {
		return nil
	}
	for id, c := range l.coef {
		if new(big.Int).Mod(c, m).Sign() != 0 {
			return nil
		}
		if alo, _, ok := rangeOf(l.atoms[id]); !ok || alo.Sign() < 0 {
			return nil
		}
	}
	return Add(x, y)
}

func (ex *Exec) eq(a, b Val) *Term {
	// nil comparisons
	switch under(a.T).(type) {
	case *types.Slice:
		return Eq(a.L[0], b.L[0]) // only nil comparisons are legal
	case *types.Interface:
		if _, ok := under(b.T).(*types.Interface); !ok {
			b = mkIface(a.T, b)
		}
		return And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	}
	if _, ok := under(b.T).(*types.Interface); ok {
		a = mkIface(b.T, a)
		return And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	}
	return eqVal(a, b, false)
}

func (ex *Exec) convert(st *State, v Val, t types.Type) Val {
	from, to := under(v.T), under(t)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return Val{t, []*Term{wrap(v.L[0], t)}}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if isInt(v.L[0]) && v.L[0].Int.IsInt64() {
				f, _ := new(big.Float).SetInt(v.L[0].Int).Float64()
				return Val{t, []*Term{fpLit(f)}}
			}
			return Val{t, []*Term{App("i2f", sF64, v.L[0])}}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := App("f2i$"+typeKey(tb), sInt, v.L[0])
			lo, hi, _ := intBounds(t)
			st.assumeRange(r, lo, hi)
			return Val{t, []*Term{r}}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() != tb.Kind() && tb.Kind() == types.Float32 {
				return Val{t, []*Term{App("f64to32", sF64, v.L[0])}}
			}
			return Val{t, v.L}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return Val{t, v.L}
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Val{t, []*Term{runeStr(st, v.L[0])}}
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return Val{t, v.L}
		}
	}
	if s, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if e, _ := under(s.Elem()).(*types.Basic); e != nil && e.Kind() == types.Uint8 {
			return Val{t, []*Term{st.bytesToStr(v)}}
		}
	}
	if s, ok := to.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		if e, _ := under(s.Elem()).(*types.Basic); e != nil && e.Kind() == types.Uint8 {
			return st.strToBytes(v.L[0], t)
		}
	}
	if _, ok := to.(*types.Pointer); ok {
		return Val{t, v.L}
	}
	if types.Identical(from, to) {
		return Val{t, v.L}
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", v.T, t)))
}

func runeStr(st *State, r *Term) *Term {
	x := App("runestr", sStr, r)
	st.assume(Implies(And(Le(Int(0), r), Lt(r, Int(128))), And(Eq(App("slen", sInt, x), Int(1)), Eq(App("sat", sInt, x, Int(0)), r))))
	st.assume(And(Le(Int(1), App("slen", sInt, x)), Le(App("slen", sInt, x), Int(4))))
	return x
}

func (st *State) bytesToStr(v Val) *Term {
	et := under(v.T).(*types.Slice).Elem()
	h := st.heap("E$"+typeKey(et), arrSort(sInt, arrSort(sInt, sInt)))
	return strOf(Select(h, v.L[0]), v.L[1], v.L[2])
}

func strOf(content, off, n *Term) *Term {
	if isInt(n) && n.Int.Sign() == 0 {
		return StrLit("")
	}
	return App("str_of", sStr, content, off, n)
}

func (st *State) strToBytes(s *Term, t types.Type) Val {
	et := under(t).(*types.Slice).Elem()
	r := st.newRef()
	h := "E$" + typeKey(et)
	so := arrSort(sInt, arrSort(sInt, sInt))
	st.heaps[h] = Store(st.heap(h, so), r, App("bytes_of", so.V, s))
	st.logWrite(h, r)
	n := App("slen", sInt, s)
	st.strFacts(s)
	return Val{t, []*Term{r, Int(0), n, n}}
}

// strFacts bounds the length of a string the program holds (not of strings that
// only specifications build: those have no bound).
func (st *State) strFacts(s *Term) {
	n := App("slen", sInt, s)
	if isInt(n) || n.Bound {
		return
	}
	if n.Op == "app" {
		st.assumeRange(n, new(big.Int), bigMaxLen)
	} else {
		st.assume(Lt(n, BigInt(bigMaxLen)))
	}
}

func (ex *Exec) slice(st *State, ctl *runCtl, i *ssa.Slice) {
	x := ex.val(st, i.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.val(st, v).L[0]
	}
	lo := opt(i.Low, Int(0))
	switch u := under(i.X.Type()).(type) {
	case *types.Basic:
		st.strFacts(x.L[0])
		n := App("slen", sInt, x.L[0])
		hi := opt(i.High, n)
		ex.check(st, ctl, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), i.Pos())
		ex.set(st, i, Val{L: []*Term{App("ssub", sStr, x.L[0], lo, hi)}})
	case *types.Slice:
		cp := x.L[3]
		hi := opt(i.High, x.L[2])
		mx := opt(i.Max, cp)
		ex.check(st, ctl, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), i.Pos())
		ex.set(st, i, Val{L: []*Term{x.L[0], Add(x.L[1], lo), Sub(hi, lo), Sub(mx, lo)}})
	case *types.Pointer:
		n := Int(under(u.Elem()).(*types.Array).Len())
		ex.nilCheck(st, ctl, x.L[0], i.Pos())
		hi := opt(i.High, n)
		mx := opt(i.Max, n)
		ex.check(st, ctl, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), i.Pos())
		ex.set(st, i, Val{L: []*Term{x.L[0], lo, Sub(hi, lo), Sub(mx, lo)}})
	}
}

// ---------- type assertions ----------

func (ex *Exec) typeAssert(st *State, ctl *runCtl, i *ssa.TypeAssert) []*State {
	x := ex.val(st, i.X)
	tag, val := x.L[0], x.L[1]
	at := i.AssertedType
	var ok *Term
	var res Val
	if iface, isI := under(at).(*types.Interface); isI {
		ok = ex.implementsTerm(tag, iface, at)
		if types.Implements(i.X.Type(), iface) { // every non-nil value of the static type has the methods
			ok = Neq(tag, Int(0))
		}
		res = Val{at, []*Term{tag, val}}
	} else {
		ok = Eq(tag, typeID(at))
		res = unbox(val, at)
	}
	if !i.CommaOk {
		ex.check(st, ctl, "type-assert", ok, i.Pos())
		if _, isI := under(at).(*types.Interface); !isI && !isPointerLike(at) && len(res.L) > 0 && len(res.L) <= 2 {
			st.assume(Eq(box(res), val)) // a value of a concrete type is the box of what it holds
		}
		st.assumeVal(res)
		ex.set(st, i, res)
		return nil
	}
	z := zeroVal(at)
	bind := func(v Val, b *Term) func(s *State) []*State {
		return func(s *State) []*State {
			if b == tTrue {
				s.assumeVal(v)
			}
			ex.set(s, i, Val{L: append(append([]*Term{}, v.L...), b)})
			return []*State{s}
		}
	}
	return ex.branch(st, ctl, ok, bind(res, tTrue), bind(z, tFalse))
}

func (ex *Exec) implementsTerm(tag *Term, iface *types.Interface, at types.Type) *Term {
	if isInt(tag) {
		if tag.Int.Sign() == 0 {
			return tFalse
		}
		t := typeByID[int(tag.Int.Int64())]
		return Bool(types.Implements(t, iface))
	}
	if iface.NumMethods() == 0 {
		return Neq(tag, Int(0))
	}
	p := App("impl$"+sanitize(typeKey(at)), sBool, tag)
	return And(Neq(tag, Int(0)), p)
}

// ---------- map / string ranges ----------

func (ex *Exec) rangeStart(st *State, ctl *runCtl, i *ssa.Range) {
	x := ex.val(st, i.X)
	it := st.newRef()
	if _, ok := under(i.X.Type()).(*types.Map); ok {
		m := mapInfo(i.X.Type())
		st.mapFacts(m, x.L[0])
		st.putGhost("It$vis$"+m.ks.Name, it, ConstArr(arrSort(m.ks, sBool), tFalse))
		st.putGhost("It$n", it, Int(0))
		st.putGhost("It$dom$"+m.ks.Name, it, st.mem().mapDom(m, x.L[0]))
		ex.set(st, i, Val{L: []*Term{it}})
		st.top().env[i] = Val{i.Type(), []*Term{it, x.L[0]}}
		return
	}
	st.putGhost("It$n", it, Int(0))
	st.strFacts(x.L[0])
	st.top().env[i] = Val{i.Type(), []*Term{it, x.L[0]}}
}

func (st *State) getGhost(name string, ref *Term, s *Sort) *Term {
	return Select(st.heap(name, arrSort(sInt, s)), ref)
}
func (st *State) putGhost(name string, ref, v *Term) {
	st.heaps[name] = Store(st.heap(name, arrSort(sInt, v.Sort)), ref, v)
	st.logWrite(name, ref)
}

func (ex *Exec) next(st *State, ctl *runCtl, i *ssa.Next) []*State {
	rng := i.Iter.(*ssa.Range)
	itv := st.top().env[rng]
	it, x := itv.L[0], itv.L[1]
	n := st.getGhost("It$n", it, sInt)
	if i.IsString {
		// n is the byte position
		st.assumeRange(n, new(big.Int), bigMaxLen)
		ln := App("slen", sInt, x)
		return ex.branch(st, ctl, Lt(n, ln), func(s *State) []*State {
			c := App("sat", sInt, x, n)
			s.assumeVal(Val{types.Typ[types.Uint8], []*Term{c}})
			r := App("rune_at", sInt, x, n)
			s.assumeRange(r, new(big.Int), big.NewInt(0x10ffff))
			w := Fresh("rw", sInt)
			s.assume(Implies(Lt(c, Int(128)), And(Eq(r, c), Eq(w, Int(1)))))
			s.assume(Implies(Le(Int(128), c), Le(Int(128), r)))
			s.assume(And(Le(Int(1), w), Le(w, Int(4)), Le(Add(n, w), ln)))
			// bytes inside a multi-byte rune are not ASCII
			for d := int64(1); d < 4; d++ {
				s.assume(Implies(Lt(Int(d), w), Le(Int(128), App("sat", sInt, x, Add(n, Int(d))))))
			}
			s.putGhost("It$n", it, Add(n, w))
			ex.set(s, i, Val{L: stringNextLeaves(i, tTrue, n, r)})
			return []*State{s}
		}, func(s *State) []*State {
			s.assume(Eq(n, ln))
			ex.set(s, i, Val{L: stringNextLeaves(i, tFalse, Int(0), Int(0))})
			return []*State{s}
		})
	}
	m := mapInfo(rng.X.Type())
	vis := st.getGhost("It$vis$"+m.ks.Name, it, arrSort(m.ks, sBool))
	dom0 := st.getGhost("It$dom$"+m.ks.Name, it, arrSort(m.ks, sBool))
	dom := st.mem().mapDom(m, x)
	card := st.mem().mapCard(m, x)
	st.mapFacts(m, x)
	more := st.clone()
	var out []*State
	// no more elements
	{
		k := BVar("rk", m.ks)
		st.assume(Forall([]*Term{k}, [][]*Term{{Select(dom, k)}, {Select(vis, k)}}, Implies(And(Select(dom, k), Select(dom0, k)), Select(vis, k))))
		if dom == dom0 {
			st.assume(Eq(n, card))
		}
		z := []*Term{tFalse}
		tt := i.Type().(*types.Tuple)
		if l := leavesOr(tt.At(1).Type()); l != nil {
			z = append(z, zeroVal(m.kt).L...)
		}
		if l := leavesOr(tt.At(2).Type()); l != nil {
			z = append(z, zeroVal(m.vt).L...)
		}
		ex.set(st, i, Val{L: z})
		if ex.sess.feasible(st.pc, tTrue) && !st.dead {
			out = append(out, st)
		}
	}
	{
		s := more
		kt := Fresh("key", m.ks)
		kv := unkey(kt, m.kt)
		if len(leaves(m.kt)) > 1 {
			// bind the key to its components
			var l []*Term
			for _, li := range leaves(m.kt) {
				l = append(l, Fresh("key"+li.Suffix, li.Sort))
			}
			kv = Val{m.kt, l}
			kt = keyTerm(kv)
		}
		s.assumeVal(kv)
		s.assume(Select(dom, kt))
		s.assume(Not(Select(vis, kt)))
		s.assume(Le(Int(1), card))
		if dom == dom0 {
			s.assume(Lt(n, card))
		}
		v, _ := s.mem().mapGet(m, x, kt)
		s.assumeVal(v)
		s.putGhost("It$vis$"+m.ks.Name, it, Store(vis, kt, tTrue))
		s.putGhost("It$n", it, Add(n, Int(1)))
		l := []*Term{tTrue}
		tt := i.Type().(*types.Tuple)
		if leavesOr(tt.At(1).Type()) != nil {
			l = append(l, kv.L...)
		}
		if leavesOr(tt.At(2).Type()) != nil {
			l = append(l, v.L...)
		}
		ex.set(s, i, Val{L: l})
		ex.paths++
		if !s.dead && ex.sess.feasible(s.pc, tTrue) {
			out = append(out, s)
		}
	}
	return nonNil(out)
}

func leavesOr(t types.Type) []leafInfo {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return leaves(t)
}

// ---------- channels (abstracted) ----------

func (ex *Exec) chanSend(st *State, ctl *runCtl, ch *Term, ct types.Type, v Val, pos token.Pos) {
	k := typeKey(under(ct).(*types.Chan).Elem())
	n := st.getGhost("Ch$sent", ch, sInt)
	ex.check(st, ctl, "send-on-closed", Not(st.getGhost("Ch$closed", ch, sBool)), pos)
	st.putGhost("Ch$sent", ch, Add(n, Int(1)))
	for j, li := range leaves(v.T) {
		st.putGhost("Ch$last$"+k+li.Suffix, ch, v.L[j])
	}
}

func (ex *Exec) chanRecv(st *State, ctl *runCtl, ch *Term, et types.Type, pos token.Pos) Val {
	st.putGhost("Ch$recvd", ch, Add(st.getGhost("Ch$recvd", ch, sInt), Int(1)))
	return st.freshVal("recv", et)
}

func (ex *Exec) selectStmt(st *State, ctl *runCtl, i *ssa.Select) []*State {
	tt := i.Type().(*types.Tuple)
	var out []*State
	n := len(i.States)
	lim := n
	if !i.Blocking {
		lim = n + 1
	}
	for k := 0; k < lim; k++ {
		s := st.clone()
		idx := k
		if k == n {
			idx = -1
		}
		l := []*Term{Int(int64(idx)), Fresh("recvok", sBool)}
		ri := 2
		for j, ss := range i.States {
			if ss.Dir == types.RecvOnly {
				et := tt.At(ri).Type()
				ri++
				if j == k {
					v := ex.chanRecv(s, ctl, ex.val(s, ss.Chan).L[0], et, i.Pos())
					l = append(l, v.L...)
				} else {
					l = append(l, zeroVal(et).L...)
				}
			} else if j == k {
				ex.chanSend(s, ctl, ex.val(s, ss.Chan).L[0], ss.Chan.Type(), ex.val(s, ss.Send), i.Pos())
			}
		}
		ex.set(s, i, Val{L: l})
		if !s.dead {
			out = append(out, s)
		}
	}
	return nonNil(out)
}

func (ex *Exec) goStmt(st *State, ctl *runCtl, i *ssa.Go, args []Val, fnv Val) {
	name := "?"
	if f := i.Call.StaticCallee(); f != nil {
		name = fnKey(f)
	}
	ex.assumptions["goroutine started by 'go "+name+"' runs independently; its body is not part of the caller's contract"] = true
	r := Int(0)
	st.putGhost("Go$"+name, r, Add(st.getGhost("Go$"+name, r, sInt), Int(1)))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func debugf(format string, a ...any) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

func stringNextLeaves(i *ssa.Next, ok, k, r *Term) []*Term {
	tt := i.Type().(*types.Tuple)
	l := []*Term{ok}
	if leavesOr(tt.At(1).Type()) != nil {
		l = append(l, k)
	}
	if leavesOr(tt.At(2).Type()) != nil {
		l = append(l, r)
	}
	return l
}
