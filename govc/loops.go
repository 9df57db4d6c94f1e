package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var bigZero = new(big.Int)

type LoopInst struct {
	unroll int
}

type loopDesc struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopDesc{}

func (ex *Exec) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopDesc {
	m, ok := loopCache[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopDesc{}
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if s.Dominates(x) {
					l := m[s]
					if l == nil {
						l = &loopDesc{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = l
					}
					work := []*ssa.BasicBlock{x}
					for len(work) > 0 {
						y := work[len(work)-1]
						work = work[:len(work)-1]
						if l.body[y] {
							continue
						}
						l.body[y] = true
						work = append(work, y.Preds...)
					}
				}
			}
		}
		loopCache[fn] = m
	}
	return m[b]
}

// newerThan: does t mention a symbol created after the watermark?
func newerThan(t *Term, wm int) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.ID <= wm || seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.Op == "var" {
			n := t.Name
			if strings.HasPrefix(n, "h0$") || strings.HasPrefix(n, "func$") || strings.HasPrefix(n, "lit$") || strings.HasPrefix(n, "gv$") {
				return false
			}
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type heapMod struct {
	full  bool
	fresh bool
	wide  bool // writes to objects allocated since function entry
	bases map[int]*Term
	roots map[int]*Term // everything inside these allocations
	sorts map[string]*Sort // physical heaps
}

type loopCand struct {
	name string
	f    func(st *State, phis map[*ssa.Phi]Val) (t *Term, ok bool)
	dead bool
}

// auto: a candidate guessed from the loop's shape rather than asked for in a contract
func (c *loopCand) auto() bool { return !strings.HasPrefix(c.name, "tmpl") }

// weak: a template read with a value from outside the loop where a loop variable of that type exists
func (c *loopCand) weak() bool { return strings.HasSuffix(c.name, " (outer)") }

func (ex *Exec) loopIter(st *State, lp *loopDesc) (*Term, *Sort, *ssa.Range) {
	for _, ins := range lp.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			r := n.Iter.(*ssa.Range)
			v := st.top().env[r]
			if len(v.L) == 0 {
				continue
			}
			if _, isM := under(r.X.Type()).(*types.Map); isM {
				return v.L[0], mapInfo(r.X.Type()).ks, r
			}
			return v.L[0], nil, r
		}
	}
	return nil, nil, nil
}

func (ex *Exec) handleLoop(st *State, ctl *runCtl, lp *loopDesc, from *ssa.BasicBlock, phis map[*ssa.Phi]Val) []*State {
	wm := termCount
	fr := st.top()
	fn := fr.fn
	pre := st.snap()
	alloc0 := st.alloc
	iter, iterKS, rng := ex.loopIter(st, lp)

	// ordered phis
	var ph []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
	}
	// phis whose value cannot change in the loop
	// ---- candidates ----
	var cands []*loopCand
	add := func(name string, f func(st *State, phis map[*ssa.Phi]Val) (*Term, bool)) {
		cands = append(cands, &loopCand{name: name, f: f})
	}
	for _, p := range ph {
		p := p
		if _, _, ok := intInfo(p.Type()); ok {
			init := phis[p].L[0]
			add(fmt.Sprintf("%s >= init", p.Comment), func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(init, q[p].L[0]), true })
			add(fmt.Sprintf("%s <= init", p.Comment), func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(q[p].L[0], init), true })
			// upper bounds from comparisons in the loop
			for b := range lp.body {
				for _, ins := range b.Instrs {
					bo, ok := ins.(*ssa.BinOp)
					if !ok {
						continue
					}
					for k, side := range []ssa.Value{bo.X, bo.Y} {
						other := bo.Y
						if k == 1 {
							other = bo.X
						}
						uses := side == ssa.Value(p)
						if inc, ok := side.(*ssa.BinOp); ok && (inc.X == ssa.Value(p) || inc.Y == ssa.Value(p)) {
							uses = true
						}
						if !uses {
							continue
						}
						var bound *Term
						if c, ok := other.(*ssa.Const); ok {
							if _, _, isI := intInfo(c.Type()); isI && c.Value != nil {
								bound = constVal(c).L[0]
							}
						} else if v, ok := fr.env[other]; ok && len(v.L) == 1 && v.L[0].Sort == sInt {
							if ii, isIns := other.(ssa.Instruction); !isIns || !lp.body[ii.Block()] {
								bound = v.L[0]
							}
						}
						if bound != nil {
							bb := bound
							add("bound", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(q[p].L[0], bb), true })
							add("bound-1", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Lt(q[p].L[0], bb), true })
							add("lbound", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(bb, q[p].L[0]), true })
						}
					}
				}
			}
			// bound by lengths of slices/strings in scope
			for v, x := range fr.env {
				if ii, isIns := v.(ssa.Instruction); isIns && lp.body[ii.Block()] {
					continue
				}
				var n *Term
				switch under(v.Type()).(type) {
				case *types.Slice:
					if len(x.L) == 4 {
						n = x.L[2]
					}
				case *types.Basic:
					if len(x.L) == 1 && x.L[0].Sort == sStr {
						n = App("slen", sInt, x.L[0])
					}
				}
				if n != nil && !isInt(n) {
					nn := n
					add("len", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(q[p].L[0], nn), true })
				}
			}
		}
		if _, ok := under(p.Type()).(*types.Slice); ok {
			i0 := phis[p]
			add("slice-fresh-or-same", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) {
				return Or(Eq(q[p].L[0], i0.L[0]), Le(alloc0, App("root", sInt, q[p].L[0]))), true
			})
			add("slice-mem", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) {
				return And(Le(i0.L[2], q[p].L[2])), true
			})
			add("slice-off", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Eq(q[p].L[1], i0.L[1]), true })
		}
	}
	if iter != nil {
		it := iter
		add("iter>=0", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) {
			return Le(Int(0), s.getGhost("It$n", it, sInt)), true
		})
		if iterKS != nil {
			dom0 := st.getGhost("It$dom$"+iterKS.Name, it, arrSort(iterKS, sBool))
			m := mapInfo(rng.X.Type())
			ref := fr.env[rng].L[1]
			add("visited-sub", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) {
				k := BVar("vk", iterKS)
				vis := s.getGhost("It$vis$"+iterKS.Name, it, arrSort(iterKS, sBool))
				return Forall([]*Term{k}, [][]*Term{{Select(vis, k)}}, Implies(Select(vis, k), Select(dom0, k))), true
			})
			card0 := st.mem().mapCard(m, ref)
			add("iter<=card", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(s.getGhost("It$n", it, sInt), card0), true })
		} else {
			n := App("slen", sInt, fr.env[rng].L[1])
			add("iter<=len", func(s *State, q map[*ssa.Phi]Val) (*Term, bool) { return Le(s.getGhost("It$n", it, sInt), n), true })
		}
	}
	// templates
	tmpls := append([]LoopTmpl{}, ex.unit.Loops...)
	for ti, t := range tmpls {
		t := t
		ex.instTemplate(st, lp, ph, phis, t, func(binding map[string]func(s *State, q map[*ssa.Phi]Val) Val, nm string) {
			add(fmt.Sprintf("tmpl%d%s", ti+1, nm), func(s *State, q map[*ssa.Phi]Val) (tm *Term, ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, isS := r.(*specErr); isS {
							debugf("template %s: %v", t.Where, r)
							ok = false
							return
						}
						if _, isS := r.(*unsupportedErr); isS {
							ok = false
							return
						}
						panic(r)
					}
				}()
				e := ex.entryEnv.clone()
				e.cur, e.alloc, e.old, e.pre, e.st = s.mem(), s.alloc, ex.entry, pre, s
				e.iter, e.iterKey = iter, iterKS
				for n, b := range binding {
					e.vars[n] = b(s, q)
				}
				return e.Bool(t.E), true
			})
		})
	}
	// evaluate at arrival, dedupe, check initiation
	st2 := st.clone()
	var live []*loopCand
	seen := map[int]bool{}
	var goals []*Term
	for _, c := range cands {
		t, ok := c.f(st2, phis)
		if !ok {
			continue
		}
		if t == tFalse {
			continue
		}
		_ = seen
		live = append(live, c)
		goals = append(goals, t)
	}
	if len(live) > 600 {
		live, goals = live[:600], goals[:600]
	}
	var hasty0 []bool
	for _, c := range live {
		hasty0 = append(hasty0, c.auto() || c.weak())
	}
	okv := ex.validMany(st2, goals, hasty0...)
	var kept []*loopCand
	for i, c := range live {
		if okv[i] {
			kept = append(kept, c)
		}
	}
	key := fmt.Sprintf("%s.%d", fnKey(fn), lp.header.Index)
	debugf("loop %s: %d candidates, %d hold initially", key, len(live), len(kept))

	mods := map[string]*heapMod{}
	var head *State
	var headPhis map[*ssa.Phi]Val
	build := func() {
		head = st.clone()
		al := Fresh("alloc", sInt)
		head.assume(Le(alloc0, al))
		head.alloc = al
		headPhis = map[*ssa.Phi]Val{}
		for _, p := range ph {
			changed := false
			for i, e := range p.Edges {
				if lp.body[lp.header.Preds[i]] && e != ssa.Value(p) {
					changed = true
				}
			}
			if !changed {
				headPhis[p] = phis[p]
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			v := head.freshVal("l$"+nm, p.Type())
			headPhis[p] = v
		}
		var names []string
		for n := range mods {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m := mods[n]
			var phys []string
			for pn := range m.sorts {
				phys = append(phys, pn)
			}
			sort.Strings(phys)
			for _, pn := range phys {
				h := head.heap(pn, m.sorts[pn])
				switch {
				case !m.full && len(m.roots) > 0:
					nh := Fresh("lp$"+pn, m.sorts[pn])
					var al *Term
					if m.wide {
						al = ex.entry.alloc
					} else if m.fresh {
						al = alloc0
					}
					head.assume(unchangedOutside(nh, h, termsOf(m.roots), termsOf(m.bases), al))
					head.heaps[pn] = nh
				case m.full:
					head.heaps[pn] = Fresh("lp$"+pn, m.sorts[pn])
				case m.fresh || m.wide:
					nh := Fresh("lp$"+pn, m.sorts[pn])
					alloc0 := alloc0
					if m.wide {
						alloc0 = ex.entry.alloc
					}
					r := BVar("fr", sInt)
					cond := []*Term{Lt(App("root", sInt, r), alloc0)}
					for _, b := range m.bases {
						cond = append(cond, Neq(r, b))
					}
					body := Implies(And(cond...), Eq(mk("select", "", nh.Sort.V, nh, r), mk("select", "", nh.Sort.V, h, r)))
					head.assume(Forall([]*Term{r}, [][]*Term{{mk("select", "", nh.Sort.V, nh, r)}}, body))
					frameHeaps[nh.ID] = &frameHeap{old: h, wm: wm, alloc0: alloc0, bases: m.bases}
					head.heaps[pn] = nh
				default:
					var bs []*Term
					for _, b := range m.bases {
						bs = append(bs, b)
					}
					sort.Slice(bs, func(i, j int) bool { return bs[i].ID < bs[j].ID })
					for _, b := range bs {
						h = Store(h, b, Fresh("lp$"+pn, h.Sort.V))
					}
					head.heaps[pn] = h
				}
			}
			if m.full {
				head.logWrite(n, nil)
			} else {
				for _, b := range m.bases {
					head.logWrite(n, b)
				}
				for _, b := range termsOf(m.roots) {
					head.writes = append(head.writes, Write{Heap: n, Root: b})
				}
			}
		}
	}
	var backs []*State
	var backPhis []map[*ssa.Phi]Val
	rounds := 0
	for {
		rounds++
		if rounds > 60 {
			panic(unsupported("loop invariant inference does not converge in " + key))
		}
		build()
		for _, c := range kept {
			if t, ok := c.f(head, headPhis); ok {
				head.assume(t)
			} else {
				c.dead = true
			}
		}
		kept = filterCands(kept)
		probe := head.clone()
		nw := len(probe.writes)
		backs, backPhis = nil, nil
		ex.setPhis(probe, from, lp.header, headPhis)
		c2 := &runCtl{probe: true, depth: len(probe.frames), loop: lp, onBack: func(s *State, q map[*ssa.Phi]Val) {
			backs = append(backs, s)
			backPhis = append(backPhis, q)
		}}
		delete(probe.top().loops, lp.header)
		probe.top().loops[lp.header] = &LoopInst{}
		ex.run(probe, c2)
		grown := false
		for _, b := range backs {
			for _, w := range b.writes[nw:] {
				if ex.growMods(mods, w, b, wm, alloc0) {
					grown = true
				}
			}
		}
		if grown {
			continue
		}
		// consecution
		anyDead := false
		for bi, b := range backs {
			bs := b.clone()
			var gs []*Term
			for _, c := range kept {
				t, ok := c.f(bs, backPhis[bi])
				if !ok {
					t = tFalse
				}
				gs = append(gs, t)
			}
			if bs.dead {
				continue
			}
			// candidates nobody asked for get one short attempt, and first: the others
			// are only checked once these are settled
			var ai, ti []int
			var ag, tg []*Term
			var hasty []bool
			for i, c := range kept {
				if c.auto() {
					ai, ag, hasty = append(ai, i), append(ag, gs[i]), append(hasty, true)
				} else {
					ti, tg = append(ti, i), append(tg, gs[i])
				}
			}
			okv := make([]bool, len(kept))
			all := true
			for k, r := range ex.validMany(bs, ag, hasty...) {
				okv[ai[k]] = r
				all = all && r
			}
			if all && !anyDead {
				var weak []bool
				for _, i := range ti {
					weak = append(weak, kept[i].weak())
				}
				for k, r := range ex.validMany(bs, tg, weak...) {
					okv[ti[k]] = r
				}
			} else {
				for _, i := range ti {
					okv[i] = true
				}
			}
			for i, c := range kept {
				if !okv[i] && !c.dead {
					c.dead = true
					anyDead = true
					debugf("loop %s: dropped %s at back edge %d: %.200s", key, c.name, bi, gs[i].String())
					if d := os.Getenv("GOVC_DUMP"); d != "" && strings.HasPrefix(c.name, "tmpl") {
						os.WriteFile(fmt.Sprintf("%s/drop-%s-%d.smt2", d, sanitize(strings.ReplaceAll(c.name, "/", "_")), bi), []byte(buildQuery(append(append([]*Term{}, bs.pc...), Not(gs[i])), nil)), 0o644)
					}
				}
			}
		}
		kept = filterCands(kept)
		if !anyDead {
			break
		}
	}
	ex.loopLog[key] = &loopStat{Key: key, Pos: ex.pos(fn.Pos()), Cands: len(live), Kept: len(kept)}
	for _, c := range kept {
		debugf("loop %s: kept %s", key, c.name)
	}
	debugf("loop %s: %d back edges, kept %d after %d rounds", key, len(backs), len(kept), rounds)
	// real exploration from the generic head
	ex.setPhis(head, from, lp.header, headPhis)
	head.top().loops[lp.header] = &LoopInst{}
	if head.dead {
		return noForks
	}
	return []*State{head}
}

func termsOf(m map[int]*Term) []*Term {
	var out []*Term
	for _, t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func filterCands(cs []*loopCand) []*loopCand {
	var out []*loopCand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

type frameHeap struct {
	old    *Term
	wm     int
	alloc0 *Term
	bases  map[int]*Term
}

var frameHeaps = map[int]*frameHeap{}

// frameSelect resolves select(nh, r) for references that existed before the loop.
func frameSelect(a, i *Term) *Term {
	f := frameHeaps[a.ID]
	if f == nil || i.Bound {
		return nil
	}
	if !oldRef(i, f) {
		return nil
	}
	for _, b := range f.bases {
		if Eq(i, b) != tFalse {
			return nil
		}
	}
	return Select(f.old, i)
}

func oldRef(r *Term, f *frameHeap) bool {
	for r.Op == "app" && (strings.HasPrefix(r.Name, "fld$") || r.Name == "elemref") {
		r = r.Args[0]
	}
	if isInt(r) {
		return true
	}
	if isAllocTerm(r) {
		d := Sub(r, f.alloc0)
		return isInt(d) && d.Int.Sign() < 0
	}
	if r.Op == "var" && r.ID <= f.wm {
		return true
	}
	return false
}

func (ex *Exec) growMods(mods map[string]*heapMod, w Write, b *State, wm int, alloc0 *Term) bool {
	if strings.HasPrefix(w.Heap, "It$") && w.Ref != nil && newerThan(w.Ref, wm) {
		return false // iterators of inner loops
	}
	m := mods[w.Heap]
	grown := false
	if m == nil {
		m = &heapMod{bases: map[int]*Term{}, roots: map[int]*Term{}, sorts: map[string]*Sort{}}
		mods[w.Heap] = m
		grown = true
	}
	for _, n := range heapsOf(ex, w.Heap, b.heaps) {
		if m.sorts[n] == nil {
			m.sorts[n] = b.heaps[n].Sort
			grown = true
		}
	}
	if m.full {
		return grown
	}
	addRoot := func(r *Term) bool {
		for r.Op == "app" && (strings.HasPrefix(r.Name, "fld$") || r.Name == "elemref") {
			r = r.Args[0]
		}
		if !newerThan(r, wm) {
			if m.roots[r.ID] == nil {
				m.roots[r.ID] = r
				grown = true
			}
			return true
		}
		rr := App("root", sInt, r)
		eqs := []*Term{Eq(r, Int(0))}
		for _, b := range m.roots {
			eqs = append(eqs, Eq(rr, App("root", sInt, b)))
		}
		if m.fresh {
			eqs = append(eqs, Le(alloc0, rr))
		}
		if m.wide {
			eqs = append(eqs, Le(ex.entry.alloc, rr))
		}
		if ex.valid(b, Or(eqs...)) {
			return true
		}
		for _, it := range ex.frame {
			if it.Logical == w.Heap && it.Root != nil && m.roots[it.Root.ID] == nil && ex.valid(b, Or(append(eqs, Eq(rr, App("root", sInt, it.Root)))...)) {
				m.roots[it.Root.ID] = it.Root
				grown = true
				return true
			}
		}
		return false
	}
	if w.Root != nil {
		if addRoot(w.Root) {
			return grown
		}
		rr := App("root", sInt, w.Root)
		if isAllocTerm(w.Root) || ex.valid(b, Or(Eq(w.Root, Int(0)), Le(alloc0, rr))) {
			m.fresh = true
		} else if ex.valid(b, Or(Eq(w.Root, Int(0)), Le(ex.entry.alloc, rr))) {
			m.wide = true
		} else {
			debugf("  loop writes %s at unknown root %s", w.Heap, w.Root)
			m.full = true
		}
		return true
	}
	switch {
	case w.Ref == nil:
		m.full = true
		return true
	case !newerThan(w.Ref, wm):
		if m.bases[w.Ref.ID] == nil {
			m.bases[w.Ref.ID] = w.Ref
			return true
		}
		return grown
	}
	// an object allocated inside the loop?
	r := w.Ref
	for r.Op == "app" && (strings.HasPrefix(r.Name, "fld$") || r.Name == "elemref") {
		r = r.Args[0]
	}
	if isAllocTerm(r) {
		if !m.fresh {
			m.fresh = true
			return true
		}
		return grown
	}
	// is it one of the known bases?
	ea := ex.entry.alloc
	inLoop, inUnit := Le(alloc0, App("root", sInt, w.Ref)), Le(ea, App("root", sInt, w.Ref))
	var eqs []*Term
	for _, bt := range m.bases {
		eqs = append(eqs, Eq(w.Ref, bt))
	}
	if m.fresh {
		eqs = append(eqs, inLoop)
	}
	if m.wide {
		eqs = append(eqs, inUnit)
	}
	if len(eqs) > 0 && ex.valid(b, Or(eqs...)) {
		return grown
	}
	if !m.fresh && ex.valid(b, inLoop) {
		m.fresh = true
		return true
	}
	// an object allocated by this function before the loop?
	if ea != alloc0 && !m.wide && ex.valid(b, Or(append(eqs, inUnit)...)) {
		m.wide = true
		return true
	}
	if w.Ref.Op == "app" && w.Ref.Name == "elemref" && addRoot(w.Ref) {
		return grown
	}
	debugf("  loop writes %s at unknown ref %s", w.Heap, w.Ref)
	m.full = true
	return true
}

// valid: is the goal implied by the path condition (full query)?
func (ex *Exec) valid(st *State, goal *Term) bool {
	return ex.validMany(st, []*Term{goal})[0]
}

var validCache = map[string]bool{}

// validMany decides each goal; an optional flag per goal asks for a short attempt only.
func (ex *Exec) validMany(st *State, goals []*Term, hasty ...bool) []bool {
	out := make([]bool, len(goals))
	type job struct {
		idx   []int
		goal  *Term
		text  string
		key   string
		hasty bool
	}
	byGoal := map[int]*job{}
	var jobs []*job
	var pk strings.Builder
	for _, t := range st.pc {
		fmt.Fprintf(&pk, "%d,", t.ID)
	}
	for i, g := range goals {
		if g == tTrue || st.assumed[g.ID] {
			out[i] = true
			continue
		}
		if g == tFalse {
			continue
		}
		if j := byGoal[g.ID]; j != nil {
			j.idx = append(j.idx, i)
			continue
		}
		k := fmt.Sprintf("%s:%d", pk.String(), g.ID)
		if r, ok := validCache[k]; ok {
			out[i] = r
			continue
		}
		// quick: quantifier-free session
		if !hasQuant(g) {
			if !ex.sess.feasible(st.pc, Not(g)) {
				out[i] = true
				validCache[k] = true
				continue
			}
			if i < len(hasty) && hasty[i] {
				continue
			}
		}
		j := &job{idx: []int{i}, goal: g, key: k, hasty: i < len(hasty) && hasty[i]}
		byGoal[g.ID] = j
		jobs = append(jobs, j)
	}
	if len(jobs) == 0 {
		return out
	}
	t0 := time.Now()
	defer func() { debugf("validMany: %d goals, %d jobs, %.2fs", len(goals), len(jobs), time.Since(t0).Seconds()) }()
	// all together first
	if len(jobs) > 1 {
		var gs []*Term
		for _, j := range jobs {
			gs = append(gs, j.goal)
		}
		text := buildQuery(append(append([]*Term{}, st.pc...), Not(And(gs...))), nil)
		if r := solve(text, 0.7, 0); r.Status == "unsat" {
			for _, j := range jobs {
				validCache[j.key] = true
				for _, i := range j.idx {
					out[i] = true
				}
			}
			return out
		}
	}
	done := make(chan int, len(jobs))
	res := make([]bool, len(jobs))
	for k, j := range jobs {
		j.text = buildQueryLocked(append(append([]*Term{}, st.pc...), Not(j.goal)))
		go func(k int, text string) {
			if jobs[k].hasty {
				r := solve(text, 1.0, 0)
				res[k] = r.Status == "unsat"
				done <- k
				return
			}
			other := make(chan solveRes, 3)
			for _, n := range []string{"z3-auto", "z3-nombqi", "z3-new-split"} {
				n := n
				go func() { other <- runBackendSimple(n, ex.V.candSec, text) }()
			}
			r := solve(text, ex.V.candSec, 0)
			for n := 0; n < 3 && r.Status != "unsat"; n++ {
				r = <-other
			}
			if r.Status == "unknown" {
				if x, ok := solveSplit(st.pc, jobs[k].goal, ex.V.candSec, 0); ok {
					r = x
				}
			}
			res[k] = r.Status == "unsat"
			done <- k
		}(k, j.text)
	}
	for range jobs {
		<-done
	}
	for k, j := range jobs {
		validCache[j.key] = res[k]
		for _, i := range j.idx {
			out[i] = res[k]
		}
	}
	return out
}

// instTemplate enumerates bindings of template holes to program values.
func (ex *Exec) instTemplate(st *State, lp *loopDesc, ph []*ssa.Phi, phis map[*ssa.Phi]Val, t LoopTmpl, emit func(map[string]func(s *State, q map[*ssa.Phi]Val) Val, string)) {
	fr := st.top()
	type opt struct {
		name string
		f    func(s *State, q map[*ssa.Phi]Val) Val
		phi  *ssa.Phi
	}
	var opts [][]opt
	for _, h := range t.Holes {
		var os []opt
		var ht types.Type
		func() {
			defer func() { recover() }()
			ht = ex.entryEnv.resolveType(h.Type)
		}()
		if ht == nil {
			return
		}
		_, _, isI := intInfo(ht)
		for _, p := range ph {
			p := p
			if !types.Identical(p.Type(), ht) && !types.Identical(under(p.Type()), under(ht)) {
				continue
			}
			os = append(os, opt{p.Comment + "/" + p.Name(), func(s *State, q map[*ssa.Phi]Val) Val { return Val{p.Type(), q[p].L} }, p})
			if isI {
				os = append(os, opt{p.Comment + "+1", func(s *State, q map[*ssa.Phi]Val) Val { return intV(Add(q[p].L[0], Int(1))) }, p})
			}
		}
		// values defined outside the loop (not plain ints: too many)
		// a hole named x_ stands for a loop variable only, when the loop has one of the type
		if (!isI || strings.HasPrefix(h.Name, "c_")) && !(len(os) > 0 && strings.HasSuffix(h.Name, "_")) {
			var vs []ssa.Value
			for v := range fr.env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			seen := map[string]bool{}
			for _, v := range vs {
				x := fr.env[v]
				if al, isA := v.(*ssa.Alloc); isA { // a local variable kept in memory (captured or address taken)
					if et := al.Type().(*types.Pointer).Elem(); types.Identical(et, ht) && !lp.body[al.Block()] {
						os = append(os, opt{"*" + v.Name(), func(s *State, q map[*ssa.Phi]Val) Val { return s.load(x.L[0], et) }, nil})
						continue
					}
				}
				if ii, isIns := v.(ssa.Instruction); isIns && lp.body[ii.Block()] {
					continue
				}
				if !types.Identical(v.Type(), ht) && !types.Identical(under(v.Type()), under(ht)) {
					continue
				}
				k := ""
				for _, l := range x.L {
					k += fmt.Sprint(l.ID, ",")
				}
				if seen[k] {
					continue
				}
				seen[k] = true
				os = append(os, opt{v.Name(), func(s *State, q map[*ssa.Phi]Val) Val { return Val{v.Type(), x.L} }, nil})
			}
		}
		// values of the functions this one is inlined into
		for fi := len(st.frames) - 2; fi >= 0 && len(os) == 0 && !isI; fi-- {
			env := st.frames[fi].env
			var vs []ssa.Value
			for v := range env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				x := env[v]
				if al, isA := v.(*ssa.Alloc); isA {
					if et := al.Type().(*types.Pointer).Elem(); types.Identical(et, ht) {
						os = append(os, opt{"*" + v.Name() + "'", func(s *State, q map[*ssa.Phi]Val) Val { return s.load(x.L[0], et) }, nil})
						continue
					}
				}
				if types.Identical(v.Type(), ht) || types.Identical(under(v.Type()), under(ht)) {
					os = append(os, opt{v.Name() + "'", func(s *State, q map[*ssa.Phi]Val) Val { return Val{v.Type(), x.L} }, nil})
				}
			}
		}
		if len(os) == 0 {
			return
		}
		opts = append(opts, os)
	}
	n, outer := 0, 0
	used := map[string]bool{}
	var rec func(i int, b map[string]func(s *State, q map[*ssa.Phi]Val) Val, nm string)
	rec = func(i int, b map[string]func(s *State, q map[*ssa.Phi]Val) Val, nm string) {
		if n > 300 {
			return
		}
		if i == len(opts) {
			n++
			c := map[string]func(s *State, q map[*ssa.Phi]Val) Val{}
			for k, v := range b {
				c[k] = v
			}
			if outer > 0 {
				nm += " (outer)"
			}
			emit(c, nm)
			return
		}
		for _, o := range opts[i] {
			id := strings.TrimSuffix(o.name, "+1")
			if j := strings.Index(id, "/"); j >= 0 {
				id = id[:j]
			}
			if o.phi != nil {
				id = o.phi.Name()
			}
			if used[id] { // distinct holes stand for distinct variables
				continue
			}
			used[id] = true
			b[t.Holes[i].Name] = o.f
			w := 0
			if o.phi == nil && opts[i][0].phi != nil {
				w = 1
			}
			outer += w
			rec(i+1, b, nm+" "+t.Holes[i].Name+"="+o.name)
			outer -= w
			delete(used, id)
		}
	}
	rec(0, map[string]func(s *State, q map[*ssa.Phi]Val) Val{}, "")
}
