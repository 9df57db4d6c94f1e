package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalPure evaluates a call of a known function as a term over its arguments: the function is
// executed symbolically and its return values merged. It must not write memory.
func (ex *Exec) evalPure(st *State, ctl *runCtl, fnv Val, args []Val) (Val, bool) {
	cl, ok := ex.closures[fnv.L[0].ID]
	sig := under(fnv.T).(*types.Signature)
	if !ok || cl.fn.Blocks == nil || len(cl.bind) != len(cl.fn.FreeVars) {
		return ex.applyTerm(fnv, args, sig), false
	}
	sub := st.clone()
	base := len(sub.pc)
	nw := len(sub.writes)
	alloc0 := sub.alloc
	fr := &Frame{fn: cl.fn, env: map[ssa.Value]Val{}, blk: cl.fn.Blocks[0], loops: map[*ssa.BasicBlock]*LoopInst{}}
	for i, p := range cl.fn.Params {
		fr.env[p] = Val{p.Type(), args[i].L}
	}
	for i, v := range cl.fn.FreeVars {
		fr.env[v] = Val{v.Type(), cl.bind[i].L}
	}
	ex.inlined[fnKey(cl.fn)] = true
	sub.frames = []*Frame{fr}
	type out struct {
		c *Term
		v Val
	}
	var outs []out
	c2 := &runCtl{probe: ctl.probe, depth: -1, onReturn: func(s *State, rs []Val) {
		if s.dead || !ex.sess.feasible(s.pc, tTrue) {
			return
		}
		for _, w := range s.writes[nw:] {
			if w.Ref != nil {
				r := w.Ref
				for r.Op == "app" && (strings.HasPrefix(r.Name, "fld$") || r.Name == "elemref") {
					r = r.Args[0]
				}
				if d := Sub(r, alloc0); isInt(d) && d.Int.Sign() >= 0 {
					continue // its own local variables
				}
			}
			panic(unsupported("function value with side effects in a specification position: " + fnKey(cl.fn)))
		}
		if len(rs) != 1 {
			panic(unsupported("function value with several results in a specification position"))
		}
		outs = append(outs, out{And(s.pc[base:]...), rs[0]})
	}}
	sv := ex.noOblig
	ex.noOblig = true
	ex.run(sub, c2)
	ex.noOblig = sv
	if len(outs) == 0 {
		panic(unsupported("function value that does not return: " + fnKey(cl.fn)))
	}
	res := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		var l []*Term
		for j := range res.L {
			l = append(l, Ite(outs[i].c, outs[i].v.L[j], res.L[j]))
		}
		res = Val{res.T, l}
	}
	return res, true
}

func freeVarsAfter(t *Term, mark map[string]int, ok map[int]bool) string {
	seen := map[int]bool{}
	var bad string
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] || bad != "" {
			return
		}
		seen[t.ID] = true
		if t.Op == "var" && !ok[t.ID] {
			if i := strings.LastIndex(t.Name, "!"); i >= 0 {
				n := 0
				fmt.Sscan(t.Name[i+1:], &n)
				if n > mark[t.Name[:i]] {
					bad = t.Name
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return bad
}

func copyCtr() map[string]int {
	m := map[string]int{}
	for k, v := range freshCtr {
		m[k] = v
	}
	return m
}

// lambda: the function value as a term over fresh integer arguments, which are then replaced by bound variables.
func (ex *Exec) pureOver(st *State, ctl *runCtl, fnv Val, ts []types.Type, assume func(vs []*Term) *Term) (func(a ...*Term) *Term, bool) {
	var vs []*Term
	var args []Val
	for _, t := range ts {
		v := Fresh("lam", leaves(t)[0].Sort)
		vs = append(vs, v)
		args = append(args, Val{t, []*Term{v}})
	}
	mark := copyCtr()
	sub := st.clone()
	if assume != nil {
		sub.assume(assume(vs))
	}
	r, ok := ex.evalPure(sub, ctl, fnv, args)
	okv := map[int]bool{}
	for _, v := range vs {
		okv[v.ID] = true
	}
	if b := freeVarsAfter(r.L[0], mark, okv); b != "" {
		panic(unsupported("function value depends on an unknown (" + b + ") in a specification position"))
	}
	return func(a ...*Term) *Term {
		m := map[int]*Term{}
		for i, v := range vs {
			m[v.ID] = a[i]
		}
		return Subst(r.L[0], m)
	}, ok
}

// permute replaces the elements of slice s by an unknown permutation of them.
func (ex *Exec) permute(st *State, s Val) {
	et := under(s.T).(*types.Slice).Elem()
	arr, off, n := s.L[0], s.L[1], s.L[2]
	freshCtr["perm"]++
	pn := fmt.Sprintf("perm!%d", freshCtr["perm"])
	qn := fmt.Sprintf("perminv!%d", freshCtr["perm"])
	perm := func(i *Term) *Term { return App(pn, sInt, i) }
	inv := func(i *Term) *Term { return App(qn, sInt, i) }
	in := func(i *Term) *Term { return And(Le(off, i), Lt(i, Add(off, n))) } // absolute indices
	i := BVar("pi", sInt)
	st.assume(Forall([]*Term{i}, [][]*Term{{perm(i)}}, Implies(in(i), And(in(perm(i)), Eq(inv(perm(i)), i)))))
	j := BVar("pj", sInt)
	st.assume(Forall([]*Term{j}, [][]*Term{{inv(j)}}, Implies(in(j), And(in(inv(j)), Eq(perm(inv(j)), j)))))
	if _, isS := isStruct(et); !isS {
		base := "E$" + typeKey(et)
		for _, li := range leaves(et) {
			h := st.heap(base+li.Suffix, arrSort(sInt, arrSort(sInt, li.Sort)))
			a := Select(h, arr)
			b := Fresh("sorted", arrSort(sInt, li.Sort))
			st.heaps[base+li.Suffix] = Store(h, arr, b)
			k := BVar("k", sInt)
			st.assume(Forall([]*Term{k}, [][]*Term{{Select(b, k)}}, Eq(Select(b, k), Ite(in(k), Select(a, perm(k)), Select(a, k)))))
			k2 := BVar("k", sInt)
			st.assume(Forall([]*Term{k2}, [][]*Term{{Select(a, k2)}}, Implies(in(k2), Eq(Select(a, k2), Select(b, inv(k2))))))
		}
		st.logWrite(base, someWritten(st, n, arr))
		return
	}
	for _, sp := range scalarPaths(et, func(q *Term) *Term { return q }) {
		ad0 := resolveAddr(sp.addr(App("elemref", sInt, arr, Int(0))), sp.t)
		if ad0.kind != "H" {
			panic(unsupported("sorting elements with array fields"))
		}
		rf := func(k *Term) *Term { return resolveAddr(sp.addr(App("elemref", sInt, arr, k)), sp.t).ref }
		for _, li := range leaves(sp.t) {
			h := st.heap(ad0.base+li.Suffix, arrSort(sInt, li.Sort))
			h2 := Fresh("sorted", h.Sort)
			st.heaps[ad0.base+li.Suffix] = h2
			k := BVar("k", sInt)
			st.assume(Forall([]*Term{k}, [][]*Term{{Select(h2, rf(k))}}, Implies(in(k), Eq(Select(h2, rf(k)), Select(h, rf(perm(k)))))))
			k2 := BVar("k", sInt)
			st.assume(Forall([]*Term{k2}, [][]*Term{{Select(h, rf(k2))}}, Implies(in(k2), Eq(Select(h, rf(k2)), Select(h2, rf(inv(k2)))))))
			// everything else unchanged
			r := BVar("r", sInt)
			e := r
			cond := tTrue
			for x := ad0.ref; x.Op == "app" && x.Name != "elemref"; x = x.Args[0] {
				cond = And(cond, Eq(App("rkind", sInt, e), Int(int64(fldKinds[x.Name]))))
				e = App("inv"+x.Name, sInt, e)
			}
			cond = And(cond, Eq(App("rkind", sInt, e), Int(1)), Eq(App("earr", sInt, e), arr), in(App("eidx", sInt, e)))
			st.assume(Forall([]*Term{r}, [][]*Term{{Select(h2, r)}}, Or(cond, Eq(Select(h2, r), Select(h, r)))))
		}
		st.logWrite(ad0.base, Ite(Lt(Int(0), n), rf(Fresh("anyidx", sInt)), st.alloc)) // sorting nothing writes nothing
	}
}

func init() {
	reg("sort.Slice", func(c *callCtx) []Val {
		if !isInt(c.args[0].L[0]) {
			panic(unsupported("sort.Slice of a value of unknown type"))
		}
		t := typeByID[int(c.args[0].L[0].Int.Int64())]
		s := unbox(c.args[0].L[1], t)
		if s2, ok := ex_unboxed(c.args[0].L[1]); ok {
			s = Val{t, s2}
		}
		ex, st := c.ex, c.st
		ex.permute(st, s)
		n := s.L[2]
		// the comparison may be called on any pair of indices: it must not panic
		cmp := func(chk bool) func(a ...*Term) *Term {
			f, _ := ex.pureOver(st, c.ctl, c.args[1], []types.Type{types.Typ[types.Int], types.Typ[types.Int]}, func(vs []*Term) *Term {
				return And(Le(Int(0), vs[0]), Lt(vs[0], n), Le(Int(0), vs[1]), Lt(vs[1], n))
			})
			return f
		}
		less := cmp(true)
		// the result is ordered only if the comparison is a strict weak order
		x, y, z := Fresh("cmp", sInt), Fresh("cmp", sInt), Fresh("cmp", sInt)
		inr := func(k *Term) *Term { return And(Le(Int(0), k), Lt(k, n)) }
		inc := func(a, b *Term) *Term { return And(Not(less(a, b)), Not(less(b, a))) }
		swo := Implies(And(inr(x), inr(y), inr(z)), And(Not(less(x, x)), Implies(And(less(x, y), less(y, z)), less(x, z)), Implies(And(inc(x, y), inc(y, z)), inc(x, z))))
		if ex.valid(st, swo) {
			i, j := BVar("si", sInt), BVar("sj", sInt)
			st.assume(Forall([]*Term{i, j}, nil, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, n)), Not(less(j, i)))))
		}
		return nil
	})
	sortBasic := func(name string, less func(a, b *Term) *Term) {
		reg(name, func(c *callCtx) []Val {
			st := c.st
			s := c.args[0]
			c.ex.permute(st, s)
			et := under(s.T).(*types.Slice).Elem()
			h := st.heap("E$"+typeKey(et)+leaves(et)[0].Suffix, arrSort(sInt, arrSort(sInt, leaves(et)[0].Sort)))
			a := Select(h, s.L[0])
			i, j := BVar("si", sInt), BVar("sj", sInt)
			st.assume(Forall([]*Term{i, j}, [][]*Term{{Select(a, i), Select(a, j)}}, Implies(And(Le(s.L[1], i), Lt(i, j), Lt(j, Add(s.L[1], s.L[2]))), Not(less(Select(a, j), Select(a, i))))))
			return nil
		})
	}
	sortBasic("sort.Strings", func(a, b *Term) *Term { return App("strlt", sBool, a, b) })
	sortBasic("sort.Float64s", func(a, b *Term) *Term {
		return Or(App("fp.lt", sBool, a, b), And(App("fp.isNaN", sBool, a), Not(App("fp.isNaN", sBool, b))))
	})
	// strings.Map: rune-wise
	reg("strings.Map", func(c *callCtx) []Val {
		ex, st := c.ex, c.st
		s := c.a(1)
		r := Fresh("smap", sStr)
		rc := func(x *Term) *Term { return App("rcount", sInt, x) }
		ra := func(x, i *Term) *Term { return App("rat", sInt, x, i) }
		f, _ := ex.pureOver(st, c.ctl, c.args[0], []types.Type{types.Typ[types.Int32]}, func(vs []*Term) *Term {
			return And(Le(Int(0), vs[0]), Le(vs[0], Int(0x10ffff)))
		})
		i := BVar("ri", sInt)
		// a mapping that never drops a rune
		x := Fresh("anyrune", sInt)
		ex.oblige(st, c.ctl, "precondition", "strings.Map mapping yields valid runes", Implies(And(Le(Int(0), x), Le(x, Int(0x10ffff))), And(Le(Int(0), f(x)), Le(f(x), Int(0x10ffff)))), c.pos)
		st.assume(Eq(rc(r), rc(s)))
		st.assume(Forall([]*Term{i}, [][]*Term{{ra(r, i)}}, Implies(And(Le(Int(0), i), Lt(i, rc(s))), Eq(ra(r, i), f(ra(s, i))))))
		st.runeFacts(s)
		st.runeFacts(r)
		return []Val{{types.Typ[types.String], []*Term{r}}}
	})
}

// runeFacts: the first byte and the rune structure of a string.
func (st *State) runeFacts(s *Term) {
	rc := App("rcount", sInt, s)
	r0 := App("rat", sInt, s, Int(0))
	n := App("slen", sInt, s)
	b0 := mkSat(s, Int(0))
	st.assume(Le(Int(0), rc))
	st.assume(Le(rc, n))
	st.assume(Eq(Lt(Int(0), n), Lt(Int(0), rc)))
	st.assume(Implies(Lt(Int(0), n), Ite(Lt(b0, Int(128)), Eq(r0, b0), Le(Int(128), r0))))
	i := BVar("ri", sInt)
	st.assume(Forall([]*Term{i}, [][]*Term{{App("rat", sInt, s, i)}}, And(Le(Int(0), App("rat", sInt, s, i)), Le(App("rat", sInt, s, i), Int(0x10ffff)))))
}

// ex_unboxed sees through box(slice) so that the slice header stays syntactic.
func ex_unboxed(t *Term) ([]*Term, bool) {
	if t.Op == "app" && strings.HasPrefix(t.Name, "box$") && len(t.Args) == 4 {
		return t.Args, true
	}
	return nil, false
}
