package main

// Witness hints: a goal "exists i. B(i)" that follows from a hypothesis "forall k. P(k) ==> exists i. C(k, i)"
// needs the hypothesis instantiated at the goal's constants and B tried at the witness it gives.
// witnessHints adds those instances: instances of asserted universal formulas, and B(c) or-ed to the
// existential (B(c) implies it), so the query stays equivalent.

func hasPosExists(t *Term, neg bool) bool {
	switch t.Op {
	case "not":
		return hasPosExists(t.Args[0], !neg)
	case "and", "or":
		for _, a := range t.Args {
			if hasPosExists(a, neg) {
				return true
			}
		}
	case "=>":
		return hasPosExists(t.Args[0], !neg) || hasPosExists(t.Args[1], neg)
	case "exists":
		return !neg
	case "forall":
		return neg
	}
	return false
}

func subterms(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	f(t)
	for _, a := range t.Args {
		subterms(a, seen, f)
	}
}

// keyOf is the smallest subterm of pat that holds all the bound variables
func keyOf(pat *Term, bvs []*Term) *Term {
	fb := func(t *Term) int {
		n := 0
		m := freeBVars(t)
		for _, b := range bvs {
			if m[b.ID] != nil {
				n++
			}
		}
		return n
	}
	if fb(pat) != len(bvs) {
		return nil
	}
	for _, a := range pat.Args {
		if k := keyOf(a, bvs); k != nil {
			return k
		}
	}
	return pat
}

func matchTerm(p, t *Term, bvs map[int]bool, m map[int]*Term) bool {
	if bvs[p.ID] {
		if p.Sort != t.Sort {
			return false
		}
		if o, ok := m[p.ID]; ok {
			return o == t
		}
		m[p.ID] = t
		return true
	}
	if p == t {
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || p.Sort != t.Sort || len(p.Args) != len(t.Args) || len(p.Args) == 0 || p.Op == "int" || p.Op == "forall" || p.Op == "exists" {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], bvs, m) {
			return false
		}
	}
	return true
}

func witnessHints(as []*Term) []*Term {
	if len(as) == 0 {
		return as
	}
	goal := as[len(as)-1]
	// existentials to be refuted
	var exs []*Term
	var find func(t *Term, neg bool)
	find = func(t *Term, neg bool) {
		switch t.Op {
		case "not":
			find(t.Args[0], !neg)
		case "and", "or":
			for _, a := range t.Args {
				find(a, neg)
			}
		case "=>":
			find(t.Args[0], !neg)
			find(t.Args[1], neg)
		case "exists":
			if neg && !t.Bound && len(t.BVs) == 1 && t.BVs[0].Sort == sInt {
				exs = append(exs, t)
			}
		}
	}
	find(goal, false)
	if len(exs) == 0 || len(exs) > 3 {
		return as
	}
	ground := []*Term{}
	skols := []*Term{}
	subterms(goal, map[int]bool{}, func(t *Term) {
		if !t.Bound && len(freeBVars(t)) == 0 {
			if t.Op == "var" && len(t.Name) > 3 && t.Name[:3] == "sk$" {
				skols = append(skols, t)
			} else if t.Op == "app" && t.Sort != sBool {
				ground = append(ground, t)
			}
		}
	})
	var cands []*Term
	seenC := map[int]bool{}
	addC := func(t *Term) {
		if t.Sort == sInt && !seenC[t.ID] && len(cands) < 10 {
			seenC[t.ID] = true
			cands = append(cands, t)
		}
	}
	var extra []*Term
	for _, h := range as[:len(as)-1] {
		if h.Op != "forall" || h.Bound || len(h.Pats) == 0 || !hasPosExists(h.Args[0], false) {
			continue
		}
		bv := map[int]bool{}
		for _, b := range h.BVs {
			bv[b.ID] = true
		}
		done := map[int]bool{}
		for _, p := range h.Pats {
			if len(p) != 1 {
				continue
			}
			k := keyOf(p[0], h.BVs)
			if k == nil {
				continue
			}
			pool := ground
			if bv[k.ID] {
				pool = skols
			}
			for _, g := range pool {
				m := map[int]*Term{}
				if len(extra) >= 6 || !matchTerm(k, g, bv, m) || len(m) != len(h.BVs) {
					continue
				}
				inst := Subst(h.Args[0], m)
				if done[inst.ID] {
					continue
				}
				done[inst.ID] = true
				sk := skolemize(inst, false)
				extra = append(extra, sk)
				subterms(sk, map[int]bool{}, func(t *Term) {
					if t.Op == "var" && len(t.Name) > 3 && t.Name[:3] == "sk$" {
						own := false
						for _, s := range skols {
							own = own || s == t
						}
						if !own {
							addC(t)
						}
					}
				})
			}
		}
	}
	for _, e := range exs {
		subterms(e, map[int]bool{}, func(t *Term) {
			if t.Op == "store" && len(freeBVars(t.Args[1])) == 0 {
				addC(t.Args[1])
			}
		})
	}
	if len(cands) == 0 {
		return as
	}
	m := map[int]*Term{}
	for _, e := range exs {
		ds := []*Term{e}
		for _, c := range cands {
			ds = append(ds, Subst(e.Args[0], map[int]*Term{e.BVs[0].ID: c}))
		}
		m[e.ID] = mk("or", "", sBool, ds...)
	}
	var rep func(t *Term) *Term
	rep = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		switch t.Op {
		case "not":
			return Not(rep(t.Args[0]))
		case "and", "or":
			out := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				out[i] = rep(a)
			}
			if t.Op == "and" {
				return And(out...)
			}
			return Or(out...)
		case "=>":
			return Implies(rep(t.Args[0]), rep(t.Args[1]))
		}
		return t
	}
	out := append(append([]*Term{}, as[:len(as)-1]...), extra...)
	return append(out, rep(goal))
}
