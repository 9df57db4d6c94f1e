package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: part of the trusted base, listed in the evidence when used.

var libModels = map[string]func(c *callCtx) []*State{}

func (c *callCtx) use() {
	c.ex.libUsed[c.key] = true
}

func reg(key string, f func(c *callCtx) []Val) {
	libModels[key] = func(c *callCtx) []*State {
		c.use()
		res := f(c)
		if c.st.dead {
			return noForks
		}
		if len(res) > 0 {
			for i := range res {
				if res[i].T == nil && i < c.sig.Results().Len() {
					res[i].T = c.sig.Results().At(i).Type()
				}
				c.st.assumeVal(res[i])
			}
		}
		bindRes(c.st, c.instr, res)
		return nil
	}
}

func regForks(key string, f func(c *callCtx) []*State) {
	libModels[key] = func(c *callCtx) []*State {
		c.use()
		return f(c)
	}
}

func (c *callCtx) a(i int) *Term { return c.args[i].L[0] }
func (c *callCtx) rt(i int) types.Type {
	return c.sig.Results().At(i).Type()
}

// newErr returns a fresh non-nil error value.
func (c *callCtx) newErr() Val {
	return freshError(c.ex, c.st)
}

func errorStringType(P *Program) types.Type {
	if p := P.Types["errors"]; p != nil {
		if o, ok := p.Scope().Lookup("errorString").(*types.TypeName); ok {
			return types.NewPointer(o.Type())
		}
	}
	return types.NewPointer(types.Typ[types.String])
}

func freshError(ex *Exec, st *State) Val {
	r := st.newRef()
	return Val{types.Universe.Lookup("error").Type(), []*Term{typeID(errorStringType(ex.P)), r}}
}

func heldOf(st *State, p *Term) *Term { return st.getGhost("held", p, sInt) }

func (ex *Exec) lockMutex(c *callCtx, p *Term, mode int64) {
	st := c.st
	if !isAllocTerm(p) {
		ex.nilCheck(st, c.ctl, p, c.pos)
	}
	if ex.unit.discipline {
		ex.oblige(st, c.ctl, "lock", "lock-not-held in "+fnKey(st.top().fn), Eq(heldOf(st, p), Int(0)), c.pos)
	} else {
		st.assume(Eq(heldOf(st, p), Int(0)))
	}
	if st.locksTaken[p.ID] {
		ex.interfere(st, p)
	}
	st.locksTaken[p.ID] = true
	for _, pb := range ex.V.specs.Published {
		e := ex.pubEnv(st, pb)
		if mp, _ := e.addr(pb.Mu); mp == p {
			vp, _ := e.addr(pb.Var)
			tg, vl := Fresh("av", sInt), Fresh("av", sInt)
			st.heaps["AV#tag"] = Store(st.heap("AV#tag", arrSort(sInt, sInt)), vp, tg)
			st.heaps["AV#val"] = Store(st.heap("AV#val", arrSort(sInt, sInt)), vp, vl)
			st.heaps["AVL#tag"] = Store(st.heap("AVL#tag", arrSort(sInt, sInt)), vp, tg)
			st.heaps["AVL#val"] = Store(st.heap("AVL#val", arrSort(sInt, sInt)), vp, vl)
			st.logWrite("AV", vp)
			st.assume(ex.pubEnv(st, pb).Bool(pb.Inv))
		}
	}
	st.putGhost("held", p, Int(mode))
}

func (ex *Exec) pubEnv(st *State, pb *Published) *SpecEnv {
	return &SpecEnv{ex: ex, pkg: pb.Pkg, imports: pb.Imports, vars: map[string]Val{}, cur: st.mem(), alloc: st.alloc, st: st}
}

// interfere forgets the state a mutex protects (another goroutine may have run).
func (ex *Exec) interfere(st *State, p *Term) {
	for _, g := range ex.V.specs.Guards {
		switch g.Kind {
		case "field", "deep":
			obj, ft, base, ok := ex.guardTarget(st, g, p)
			if !ok {
				continue
			}
			for _, it := range locItems(fieldAddrByName(obj, ft, base), fieldTypeByName(ft, base)) {
				ex.havocItem(st, it)
			}
		}
	}
}

func (ex *Exec) unlockMutex(c *callCtx, p *Term, mode int64) {
	st := c.st
	// unlocking a mutex that is not held is a fatal error at run time
	ex.check(st, c.ctl, "unlock-of-unlocked", Eq(heldOf(st, p), Int(mode)), c.pos)
	st.putGhost("held", p, Int(0))
}

func init() {
	for _, m := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(m+".Lock", func(c *callCtx) []Val { c.ex.lockMutex(c, c.a(0), 1); return nil })
		reg(m+".Unlock", func(c *callCtx) []Val { c.ex.unlockMutex(c, c.a(0), 1); return nil })
	}
	reg("(*sync.RWMutex).RLock", func(c *callCtx) []Val { c.ex.lockMutex(c, c.a(0), 2); return nil })
	reg("(*sync.RWMutex).RUnlock", func(c *callCtx) []Val { c.ex.unlockMutex(c, c.a(0), 2); return nil })
	for _, m := range []string{"Add", "Done", "Wait"} {
		reg("(*sync.WaitGroup)."+m, func(c *callCtx) []Val { return nil })
	}
	regForks("(*sync.Once).Do", func(c *callCtx) []*State {
		st, p := c.st, c.a(0)
		done := st.getGhost("Once", p, sBool)
		fnv := c.args[1]
		return c.ex.branch(st, c.ctl, done, func(s *State) []*State { return []*State{s} }, func(s *State) []*State {
			s.putGhost("Once", p, tTrue)
			return orSelf(s, c.ex.callValue(s, c.ctl, fnv, under(fnv.T).(*types.Signature), nil, nil, c.pos))
		})
	})

	// sync.Map: content modelled as a map from interface to interface at the address
	smi := func() mapHeaps {
		et := types.NewInterfaceType(nil, nil)
		return mapHeaps{key: "syncmap", kt: et, vt: et, ks: sInt}
	}
	reg("(*sync.Map).Load", func(c *callCtx) []Val {
		m := smi()
		k := keyTerm(c.args[1])
		v, d := c.st.mem().mapGet(m, c.a(0), k)
		c.st.assumeVal(v)
		return []Val{{nil, []*Term{Ite(d, v.L[0], Int(0)), Ite(d, v.L[1], Int(0))}}, {nil, []*Term{d}}}
	})
	reg("(*sync.Map).Store", func(c *callCtx) []Val {
		c.st.mapUpdate(smi(), c.a(0), keyTerm(c.args[1]), c.args[2])
		c.st.putGhost("Atom$n", c.a(0), Add(c.st.getGhost("Atom$n", c.a(0), sInt), Int(1))) // an unconditional write
		return nil
	})
	reg("(*sync.Map).Delete", func(c *callCtx) []Val {
		c.st.mapDelete(smi(), c.a(0), keyTerm(c.args[1]))
		c.st.putGhost("Atom$n", c.a(0), Add(c.st.getGhost("Atom$n", c.a(0), sInt), Int(1)))
		return nil
	})
	regForks("(*sync.Map).LoadOrStore", func(c *callCtx) []*State {
		m := smi()
		k := keyTerm(c.args[1])
		v, d := c.st.mem().mapGet(m, c.a(0), k)
		return c.ex.branch(c.st, c.ctl, d, func(s *State) []*State {
			s.assumeVal(v)
			bindRes(s, c.instr, []Val{v, {nil, []*Term{tTrue}}})
			return []*State{s}
		}, func(s *State) []*State {
			s.mapUpdate(m, c.a(0), k, c.args[2])
			bindRes(s, c.instr, []Val{c.args[2], {nil, []*Term{tFalse}}})
			return []*State{s}
		})
	})

	// atomics
	for _, ty := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}} {
		t := ty.t
		reg("sync/atomic.Load"+ty.n, func(c *callCtx) []Val { return []Val{c.ex.atomicRead(c, c.a(0), t)} })
		reg("sync/atomic.Store"+ty.n, func(c *callCtx) []Val {
			c.ex.atomicCommit(c, c.a(0), t, func(old *Term) *Term { return c.a(1) })
			return nil
		})
		reg("sync/atomic.Add"+ty.n, func(c *callCtx) []Val {
			n := c.ex.atomicCommit(c, c.a(0), t, func(old *Term) *Term { return wrap(Add(old, c.a(1)), t) })
			return []Val{{nil, []*Term{n}}}
		})
		reg("sync/atomic.Swap"+ty.n, func(c *callCtx) []Val {
			var o *Term
			c.ex.atomicCommit(c, c.a(0), t, func(old *Term) *Term { o = old; return c.a(1) })
			return []Val{{nil, []*Term{o}}}
		})
		regForks("sync/atomic.CompareAndSwap"+ty.n, func(c *callCtx) []*State {
			cur := c.ex.atomicRead(c, c.a(0), t).L[0]
			return c.ex.branch(c.st, c.ctl, Eq(cur, c.a(1)), func(s *State) []*State {
				c2 := *c
				c2.st = s
				c.ex.atomicCommitNoInterf(&c2, c.a(0), t, cur, c.a(2))
				bindRes(s, c.instr, []Val{{nil, []*Term{tTrue}}})
				return []*State{s}
			}, func(s *State) []*State {
				bindRes(s, c.instr, []Val{{nil, []*Term{tFalse}}})
				return []*State{s}
			})
		})
	}
	reg("(*sync/atomic.Value).Load", func(c *callCtx) []Val {
		p := c.a(0)
		return []Val{{nil, []*Term{c.st.getGhost("AV#tag", p, sInt), c.st.getGhost("AV#val", p, sInt)}}}
	})
	reg("(*sync/atomic.Value).Store", func(c *callCtx) []Val {
		p := c.a(0)
		// storing nil or a value of another type panics
		cur := c.st.getGhost("AV#tag", p, sInt)
		c.ex.check(c.st, c.ctl, "atomic.Value-store", And(Neq(c.args[1].L[0], Int(0)), Or(Eq(cur, Int(0)), Eq(cur, c.args[1].L[0]))), c.pos)
		c.st.heaps["AV#tag"] = Store(c.st.heap("AV#tag", arrSort(sInt, sInt)), p, c.args[1].L[0])
		c.st.heaps["AV#val"] = Store(c.st.heap("AV#val", arrSort(sInt, sInt)), p, c.args[1].L[1])
		c.st.logWrite("AV", p)
		for _, pb := range c.ex.V.specs.Published {
			e := c.ex.pubEnv(c.st, pb)
			if vp, _ := e.addr(pb.Var); vp == p {
				mp, _ := e.addr(pb.Mu)
				c.ex.oblige(c.st, c.ctl, "lock", "published-under-lock in "+fnKey(c.st.top().fn), Eq(heldOf(c.st, mp), Int(1)), c.pos)
				c.ex.oblige(c.st, c.ctl, "published", "published-invariant in "+fnKey(c.st.top().fn), e.Bool(pb.Inv), c.pos)
			}
		}
		return nil
	})

	// errors, fmt
	reg("errors.New", func(c *callCtx) []Val { return []Val{c.newErr()} })
	reg("fmt.Errorf", func(c *callCtx) []Val { return []Val{c.newErr()} })
	reg("fmt.Sprintf", func(c *callCtx) []Val { return []Val{{nil, []*Term{c.ex.sprintf(c, c.args[0], c.args[1])}}} })
	reg("fmt.Sprint", func(c *callCtx) []Val { return []Val{{nil, []*Term{Fresh("sprint", sStr)}}} })
	for _, k := range []string{"log.Printf", "log.Println", "log.Print"} {
		reg(k, func(c *callCtx) []Val { return nil })
	}

	// context
	ctxType := func(c *callCtx) types.Type { return c.sig.Results().At(0).Type() }
	reg("context.Background", func(c *callCtx) []Val {
		v := Val{ctxType(c), []*Term{Var("ctxbg.t", sInt), Var("ctxbg.v", sInt)}}
		c.st.assume(Lt(Int(0), v.L[0]))
		k := BVar("ck", sInt)
		ap := App("ctxval.t", sInt, keyTerm(v), k)
		c.st.assume(Forall([]*Term{k}, [][]*Term{{ap}}, Eq(ap, Int(0))))
		return []Val{v}
	})
	reg("context.WithValue", func(c *callCtx) []Val {
		et := types.NewInterfaceType(nil, nil)
		_ = et
		c.ex.check(c.st, c.ctl, "nil-context", Neq(c.args[0].L[0], Int(0)), c.pos)
		c.ex.check(c.st, c.ctl, "nil-context-key", Neq(c.args[1].L[0], Int(0)), c.pos)
		r := c.st.newRef()
		tg := Var("ctxvaltype", sInt)
		c.st.assume(Lt(Int(0), tg))
		v := Val{ctxType(c), []*Term{tg, r}}
		ck, pk := keyTerm(v), keyTerm(c.args[0])
		kk := keyTerm(c.args[1])
		k := BVar("ck", sInt)
		for j, f := range []string{"ctxval.t", "ctxval.v"} {
			ap := App(f, sInt, ck, k)
			c.st.assume(Forall([]*Term{k}, [][]*Term{{ap}}, Eq(ap, Ite(Eq(k, kk), c.args[2].L[j], App(f, sInt, pk, k)))))
			c.st.assume(Eq(App(f, sInt, ck, kk), c.args[2].L[j]))
		}
		// other aspects of the context are inherited
		for _, f := range []string{"ctxdone", "ctxdl", "ctxerr"} {
			c.st.assume(Eq(App(f, sInt, ck), App(f, sInt, pk)))
		}
		return []Val{v}
	})
	reg("(context.Context).Value", func(c *callCtx) []Val {
		ck, kk := keyTerm(c.args[0]), keyTerm(c.args[1])
		return []Val{{nil, []*Term{App("ctxval.t", sInt, ck, kk), App("ctxval.v", sInt, ck, kk)}}}
	})

	// time: an instant is an integer number of nanoseconds
	reg("time.Now", func(c *callCtx) []Val {
		v := Fresh("now", sInt)
		c.st.assume(And(Le(zeroTime(), v), Lt(Int(0), v)))
		return []Val{{nil, []*Term{v}}}
	})
	satur := func(x *Term) *Term {
		lo, hi, _ := intBounds(types.Typ[types.Int64])
		r := Ite(Le(BigInt(lo), x), Ite(Le(x, BigInt(hi)), x, BigInt(hi)), BigInt(lo))
		setRange(r, lo, hi)
		return r
	}
	reg("(time.Time).Sub", func(c *callCtx) []Val { return []Val{{nil, []*Term{satur(Sub(c.a(0), c.a(1)))}}} })
	reg("time.Since", func(c *callCtx) []Val {
		v := Fresh("now", sInt)
		return []Val{{nil, []*Term{satur(Sub(v, c.a(0)))}}}
	})
	reg("(time.Time).Add", func(c *callCtx) []Val { return []Val{{nil, []*Term{Add(c.a(0), c.a(1))}}} })
	reg("(time.Time).Before", func(c *callCtx) []Val { return []Val{{nil, []*Term{Lt(c.a(0), c.a(1))}}} })
	reg("(time.Time).After", func(c *callCtx) []Val { return []Val{{nil, []*Term{Lt(c.a(1), c.a(0))}}} })
	reg("(time.Time).Equal", func(c *callCtx) []Val { return []Val{{nil, []*Term{Eq(c.a(0), c.a(1))}}} })
	reg("(time.Time).IsZero", func(c *callCtx) []Val { return []Val{{nil, []*Term{Eq(c.a(0), zeroTime())}}} })
	reg("(time.Time).UnixNano", func(c *callCtx) []Val {
		r := App("unixnano", sInt, c.a(0))
		return []Val{{nil, []*Term{wrap(r, types.Typ[types.Int64])}}}
	})

	// math
	reg("math.Float64bits", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f64bits", sInt, c.a(0))}}} })
	reg("math.Float64frombits", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f64frombits", sF64, c.a(0))}}} })
	reg("math.IsNaN", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("fp.isNaN", sBool, c.a(0))}}} })
	reg("math.IsInf", func(c *callCtx) []Val {
		p := App("fp.eq", sBool, c.a(0), fpLit(math.Inf(1)))
		n := App("fp.eq", sBool, c.a(0), fpLit(math.Inf(-1)))
		return []Val{{nil, []*Term{Or(And(Le(Int(0), c.a(1)), p), And(Le(c.a(1), Int(0)), n))}}}
	})
	reg("math.Inf", func(c *callCtx) []Val {
		return []Val{{nil, []*Term{Ite(Le(Int(0), c.a(0)), fpLit(math.Inf(1)), fpLit(math.Inf(-1)))}}}
	})
	for _, f := range []string{"Sqrt", "Floor", "Ceil", "Abs", "Round", "Log", "Trunc"} {
		nm := "math." + f
		reg(nm, func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f." + strings.ToLower(strings.TrimPrefix(c.key, "math.")), sF64, c.a(0))}}} })
	}
	reg("math.Max", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f.max", sF64, c.a(0), c.a(1))}}} })
	reg("math.Min", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f.min", sF64, c.a(0), c.a(1))}}} })
	reg("math.Pow", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("f.pow", sF64, c.a(0), c.a(1))}}} })

	// encoding/binary on byte slices
	type bo struct {
		n   string
		big bool
	}
	for _, o := range []bo{{"littleEndian", false}, {"bigEndian", true}} {
		for _, w := range []int64{2, 4, 8} {
			o, w := o, w
			byteIdx := func(i int64) int64 { // weight of byte i
				if o.big {
					return w - 1 - i
				}
				return i
			}
			reg(fmt.Sprintf("(encoding/binary.%s).Uint%d", o.n, w*8), func(c *callCtx) []Val {
				b := c.args[1]
				c.ex.check(c.st, c.ctl, "index", Le(Int(w), b.L[2]), c.pos)
				s := Int(0)
				for i := int64(0); i < w; i++ {
					x := c.st.load(App(selemFun("uint8"), sInt, b.L[0], Add(b.L[1], Int(i))), types.Typ[types.Uint8])
					s = Add(s, Mul(BigInt(pow2(uint(8*byteIdx(i)))), x.L[0]))
				}
				setRange(s, new(big.Int), new(big.Int).Sub(pow2(uint(8*w)), big.NewInt(1)))
				return []Val{{nil, []*Term{s}}}
			})
			reg(fmt.Sprintf("(encoding/binary.%s).PutUint%d", o.n, w*8), func(c *callCtx) []Val {
				b := c.args[1]
				c.ex.check(c.st, c.ctl, "index", Le(Int(w), b.L[2]), c.pos)
				for i := int64(0); i < w; i++ {
					v := Mod(Div(c.a(2), BigInt(pow2(uint(8*byteIdx(i))))), Int(256))
					c.st.store(App(selemFun("uint8"), sInt, b.L[0], Add(b.L[1], Int(i))), Val{types.Typ[types.Uint8], []*Term{v}}, types.Typ[types.Uint8])
				}
				return nil
			})
		}
	}

	// strings.Builder / bytes.Buffer
	for _, b := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		buf := func(c *callCtx) *Term {
			p := c.a(0)
			return c.st.getGhost("Buf", p, sStr)
		}
		app := func(c *callCtx, s *Term) { c.st.putGhost("Buf", c.a(0), App("scat", sStr, buf(c), s)) }
		nilErr := func() Val { return zeroVal(types.Universe.Lookup("error").Type()) }
		reg(b+".WriteString", func(c *callCtx) []Val {
			app(c, c.a(1))
			c.st.strFacts(c.a(1))
			return []Val{{nil, []*Term{App("slen", sInt, c.a(1))}}, nilErr()}
		})
		reg(b+".Write", func(c *callCtx) []Val {
			app(c, c.st.bytesToStr(c.args[1]))
			return []Val{{nil, []*Term{c.args[1].L[2]}}, nilErr()}
		})
		reg(b+".WriteByte", func(c *callCtx) []Val {
			app(c, App("bytestr", sStr, c.a(1)))
			return []Val{nilErr()}
		})
		reg(b+".WriteRune", func(c *callCtx) []Val {
			s := runeStr(c.st, c.a(1))
			app(c, s)
			return []Val{{nil, []*Term{App("slen", sInt, s)}}, nilErr()}
		})
		reg(b+".String", func(c *callCtx) []Val { return []Val{{nil, []*Term{buf(c)}}} })
		reg(b+".Len", func(c *callCtx) []Val { c.st.strFacts(buf(c)); return []Val{{nil, []*Term{App("slen", sInt, buf(c))}}} })
		reg(b+".Reset", func(c *callCtx) []Val { c.st.putGhost("Buf", c.a(0), StrLit("")); return nil })
	}
	reg("(*bytes.Buffer).Bytes", func(c *callCtx) []Val {
		return []Val{c.st.strToBytes(c.st.getGhost("Buf", c.a(0), sStr), c.rt(0))}
	})

	// strings
	reg("strings.HasPrefix", func(c *callCtx) []Val {
		s, p := c.a(0), c.a(1)
		if l, ok := isLit(p); ok {
			cs := []*Term{Le(Int(int64(len(l))), App("slen", sInt, s))}
			for i := 0; i < len(l); i++ {
				cs = append(cs, Eq(App("sat", sInt, s, Int(int64(i))), Int(int64(l[i]))))
			}
			return []Val{{nil, []*Term{And(cs...)}}}
		}
		return []Val{{nil, []*Term{App("sprefix", sBool, s, p)}}}
	})
	for _, n := range []string{"TrimSpace", "ToLower", "ToUpper", "Title"} {
		nm := "s." + n
		reg("strings."+n, func(c *callCtx) []Val { return []Val{{nil, []*Term{App(nm, sStr, c.a(0))}}} })
	}
	reg("strings.Contains", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("s.contains", sBool, c.a(0), c.a(1))}}} })
	reg("strings.EqualFold", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("s.eqfold", sBool, c.a(0), c.a(1))}}} })
	for _, n := range []string{"Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix"} {
		nm := "s." + n
		reg("strings."+n, func(c *callCtx) []Val { return []Val{{nil, []*Term{App(nm, sStr, c.a(0), c.a(1))}}} })
	}
	reg("strings.Index", func(c *callCtx) []Val {
		s, sub := c.a(0), c.a(1)
		r := App("sf$stridx", sInt, s, sub)
		n, m := App("slen", sInt, s), App("slen", sInt, sub)
		c.st.strFacts(s)
		c.st.assume(And(Le(Int(-1), r), Or(Eq(r, Int(-1)), Le(Add(r, m), n))))
		if l, ok := isLit(sub); ok && len(l) == 1 {
			i := BVar("ii", sInt)
			at := App("sat", sInt, s, i)
			c.st.assume(Implies(Le(Int(0), r), Eq(App("sat", sInt, s, r), Int(int64(l[0])))))
			c.st.assume(Forall([]*Term{i}, [][]*Term{{at}}, Implies(And(Le(Int(0), i), Lt(i, Ite(Eq(r, Int(-1)), n, r))), Neq(at, Int(int64(l[0]))))))
		}
		return []Val{{nil, []*Term{r}}}
	})
	libModels["strings.IndexByte"] = func(c *callCtx) []*State {
		c.use()
		r := Fresh("index", sInt)
		s := c.a(0)
		n := App("slen", sInt, s)
		c.st.strFacts(s)
		c.st.assume(And(Le(Int(-1), r), Lt(r, n)))
		i := BVar("ii", sInt)
		at := App("sat", sInt, s, i)
		c.st.assume(Implies(Le(Int(0), r), Eq(App("sat", sInt, s, r), c.a(1))))
		c.st.assume(Forall([]*Term{i}, [][]*Term{{at}}, Implies(And(Le(Int(0), i), Lt(i, Ite(Eq(r, Int(-1)), n, r))), Neq(at, c.a(1)))))
		bindRes(c.st, c.instr, []Val{{types.Typ[types.Int], []*Term{r}}})
		return nil
	}
	reg("strconv.Itoa", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("sf$itoa", sStr, c.a(0))}}} })
	reg("strconv.FormatUint", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("fmtuint", sStr, c.a(0), c.a(1))}}} })
	reg("strconv.FormatInt", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("fmtint", sStr, c.a(0), c.a(1))}}} })
	reg("strconv.FormatBool", func(c *callCtx) []Val {
		return []Val{{nil, []*Term{Ite(c.a(0), StrLit("true"), StrLit("false"))}}}
	})

	// unicode classes (base axioms fix them on Latin-1 digits and ASCII letters)
	reg("unicode.IsLetter", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("isletter", sBool, c.a(0))}}} })
	reg("unicode.IsDigit", func(c *callCtx) []Val { return []Val{{nil, []*Term{App("isdigit", sBool, c.a(0))}}} })
}

// ---- atomics on memory cells ----

func (ex *Exec) isAtomicCell(p *Term, t types.Type) bool {
	a := resolveAddr(p, t)
	return a.kind == "H" && ex.V.specs.Atomics[a.base]
}

// interference: a declared atomic cell may be changed by other goroutines between operations
func (ex *Exec) atomicInterfere(st *State, p *Term, t types.Type) {
	if !ex.isAtomicCell(p, t) {
		return
	}
	if isAllocTerm(rootTerm(p)) {
		if d := Sub(rootTerm(p), ex.entry.alloc); isInt(d) && d.Int.Sign() >= 0 {
			return // not yet published
		}
	}
	a := resolveAddr(p, t)
	h := st.heap(a.base, arrSort(sInt, sInt))
	v := Fresh("interf", sInt)
	st.heaps[a.base] = Store(h, a.ref, v)
	st.assumeVal(Val{t, []*Term{v}})
	st.logWrite(a.base, a.ref)
}

func rootTerm(t *Term) *Term {
	for t.Op == "app" && (strings.HasPrefix(t.Name, "fld$") || t.Name == "elemref") {
		t = t.Args[0]
	}
	return t
}

func (ex *Exec) atomicRead(c *callCtx, p *Term, t types.Type) Val {
	ex.nilCheck(c.st, c.ctl, p, c.pos)
	ex.atomicInterfere(c.st, p, t)
	return c.st.load(p, t)
}

func (ex *Exec) atomicCommit(c *callCtx, p *Term, t types.Type, f func(old *Term) *Term) *Term {
	ex.nilCheck(c.st, c.ctl, p, c.pos)
	ex.atomicInterfere(c.st, p, t)
	old := c.st.load(p, t).L[0]
	n := f(old)
	ex.atomicCommitNoInterf(c, p, t, old, n)
	return n
}

func (ex *Exec) atomicCommitNoInterf(c *callCtx, p *Term, t types.Type, old, n *Term) {
	st := c.st
	st.store(p, Val{t, []*Term{n}}, t)
	if ex.isAtomicCell(p, t) {
		st.putGhost("Atom$n", p, Add(st.getGhost("Atom$n", p, sInt), Int(1)))
		st.putGhost("Atom$before", p, old)
		st.putGhost("Atom$after", p, n)
	}
}

// ---- formatted printing with a constant format ----

func (ex *Exec) sprintf(c *callCtx, f, va Val) *Term {
	format, ok := isLit(f.L[0])
	if !ok || !isInt(va.L[2]) {
		return Fresh("sprintf", sStr)
	}
	n := int(va.L[2].Int.Int64())
	et := under(va.T).(*types.Slice).Elem()
	var args []Val
	for i := 0; i < n; i++ {
		args = append(args, c.st.load(elemAddr(va.L[0], Add(va.L[1], Int(int64(i))), et), et))
	}
	out := StrLit("")
	emit := func(t *Term) { out = App("scat", sStr, out, t) }
	ai := 0
	i := 0
	for i < len(format) {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			emit(StrLit(format[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			return Fresh("sprintf", sStr)
		}
		verb := format[i : j+1]
		i = j + 1
		if verb == "%%" {
			emit(StrLit("%"))
			continue
		}
		if ai >= len(args) {
			return Fresh("sprintf", sStr)
		}
		a := args[ai]
		ai++
		emit(ex.fmtVerb(c.st, verb, a))
	}
	if ai != len(args) {
		return Fresh("sprintf", sStr)
	}
	return out
}

func (ex *Exec) fmtVerb(st *State, verb string, a Val) *Term {
	if isInt(a.L[0]) && a.L[0].Int.Sign() > 0 {
		t := typeByID[int(a.L[0].Int.Int64())]
		v := unbox(a.L[1], t)
		if b, ok := under(t).(*types.Basic); ok {
			plainStr := b.Info()&types.IsString != 0
			if plainStr && (verb == "%s" || verb == "%v") && !hasStringMethod(t) {
				return v.L[0]
			}
			if b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v" && !hasStringMethod(t)) {
				return App("sf$itoa", sStr, v.L[0])
			}
		}
		var l []*Term
		l = append(l, v.L...)
		if bytesLike(t) && (verb == "%x" || verb == "%s") {
			// byte slices and arrays: a function of the bytes
			if verb == "%x" {
				if _, isSl := under(t).(*types.Slice); isSl {
					return App("sf$hexstr", sStr, st.bytesToStr(v))
				}
				if at, isA := under(t).(*types.Array); isA {
					return App("sf$hexstr", sStr, strOf(v.L[0], Int(0), Int(at.Len())))
				}
			}
			if _, isSl := under(t).(*types.Slice); isSl {
				return App("fmt$"+verb, sStr, st.bytesToStr(v))
			}
			if at, isA := under(t).(*types.Array); isA {
				return App("fmt$"+verb, sStr, strOf(v.L[0], Int(0), Int(at.Len())))
			}
		}
		if len(l) == 1 {
			return App("fmt$"+verb+"$"+l[0].Sort.Name, sStr, l[0])
		}
	}
	return App("fmt$"+verb+"$iface", sStr, a.L[0], a.L[1])
}

func bytesLike(t types.Type) bool {
	var e types.Type
	switch u := under(t).(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	default:
		return false
	}
	b, ok := under(e).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

var _ = ssa.NaiveForm
