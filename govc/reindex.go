package main

// Quantified facts about a slice come out as "for all j: … array[off+j] …". The
// solvers match such index sums only when the sum they meet is built the same way,
// so a universally quantified assumption is restated with the absolute index as
// the bound variable: "for all k: … array[k] … (k-off)". Both say the same.

var reindexMemo = map[int]*Term{}

func reindex(t *Term, neg bool) *Term {
	if t.Sort != sBool || !hasQuant(t) {
		return t
	}
	key := t.ID * 2
	if neg {
		key++
	}
	if r, ok := reindexMemo[key]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "not":
		r = Not(reindex(t.Args[0], !neg))
	case "and", "or":
		out := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			out[i] = reindex(a, neg)
			ch = ch || out[i] != a
		}
		if ch && t.Op == "and" {
			r = And(out...)
		} else if ch {
			r = Or(out...)
		}
	case "=>":
		r = Implies(reindex(t.Args[0], !neg), reindex(t.Args[1], neg))
	case "forall", "exists":
		if (t.Op == "exists") != neg {
			break // existential: skolemized, not instantiated
		}
		body := reindex(t.Args[0], neg)
		mk := func(bvs []*Term, pats [][]*Term, b *Term) *Term { return quant(t.Op, bvs, pats, b) }
		join := func(a ...*Term) *Term {
			if t.Op == "forall" {
				return And(a...)
			}
			return Or(a...)
		}
		if len(t.Pats) > 0 {
			var vs []*Term
			var plain [][]*Term
			for _, p := range t.Pats {
				m, nb := offsetSubst(t.BVs, p)
				if m == nil {
					plain = append(plain, p)
					continue
				}
				np := make([]*Term, len(p))
				for i, x := range p {
					np[i] = Subst(x, m)
				}
				vs = append(vs, mk(nb, [][]*Term{np}, Subst(body, m)))
			}
			if len(plain) > 0 {
				vs = append(vs, mk(t.BVs, plain, body))
			}
			r = join(vs...)
			break
		}
		// no pattern given: one restatement per family of offsets
		var vs []*Term
		seen := map[int]bool{}
		pure := false
		for _, x := range indexTerms(t.BVs, body) {
			m, nb := offsetSubst(t.BVs, []*Term{x})
			if m == nil {
				if covers(x, t.BVs) {
					pure = true
				}
				continue
			}
			// remaining variables: take their offset from other index terms
			for _, y := range indexTerms(t.BVs, body) {
				m2, nb2 := offsetSubst(t.BVs, []*Term{y})
				for i, b := range t.BVs {
					if m[b.ID] == nil && m2 != nil && m2[b.ID] != nil {
						m[b.ID] = m2[b.ID]
						nb[i] = nb2[i]
					}
				}
			}
			nbody := Subst(body, m)
			q := mk(nb, pickPats(nb, nbody), nbody)
			k := offKey(t.BVs, m, nb)
			if seen[k] {
				continue
			}
			seen[k] = true
			vs = append(vs, q)
			if len(vs) >= 3 {
				break
			}
		}
		if len(vs) == 0 {
			r = mk(t.BVs, nil, body)
			break
		}
		if pure {
			vs = append(vs, mk(t.BVs, nil, body))
		}
		r = join(vs...)
	}
	reindexMemo[key] = r
	return r
}

// offKey identifies the offsets of a substitution independently of the fresh names.
func offKey(bvs []*Term, m map[int]*Term, nb []*Term) int {
	k := 17
	for i, b := range bvs {
		o := 0
		if x := m[b.ID]; x != nil {
			o = Sub(x, nb[i]).ID
		}
		k = k*1000003 + o
	}
	return k
}

func covers(x *Term, bvs []*Term) bool {
	f := freeBVars(x)
	for _, b := range bvs {
		if f[b.ID] == nil {
			return false
		}
	}
	return true
}

// indexTerms lists the memory reads and applications in t with a bound variable in an argument.
func indexTerms(bvs []*Term, t *Term) []*Term {
	is := map[int]bool{}
	for _, b := range bvs {
		is[b.ID] = true
	}
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.Bound || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "select" || t.Op == "app" {
			for _, a := range t.Args {
				if a.Sort == sInt && a.Bound {
					l := linear(a)
					for id := range l.atoms {
						if is[id] {
							out = append(out, t)
							goto done
						}
					}
				}
			}
		}
	done:
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// offsetSubst finds bound variables that occur as "offset + variable" and maps them to "new - offset".
func offsetSubst(bvs []*Term, pat []*Term) (map[int]*Term, []*Term) {
	var m map[int]*Term
	nb := append([]*Term{}, bvs...)
	own := map[int]bool{}
	for _, b := range bvs {
		own[b.ID] = true
	}
	for i, b := range bvs {
		if b.Sort != sInt {
			continue
		}
		var off *Term
		plain := false
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if off != nil || !t.Bound || seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == "select" || t.Op == "app" {
				for _, a := range t.Args {
					if a == b {
						plain = true
					}
					if a.Op == "+" && a.Bound {
						l := linear(a)
						if c := l.coef[b.ID]; c != nil && c.IsInt64() && c.Int64() == 1 {
							o := Sub(a, b)
							fv := freeBVars(o)
							ok := true
							for id := range fv {
								if own[id] {
									ok = false
								}
							}
							// constant offsets stay: recursive definitions use f(x, i+1)
							if ok && !isInt(o) && (t.Op == "select" || t.Name == "elemref") {
								off = o
								return
							}
						}
					}
				}
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, p := range pat {
			walk(p)
		}
		if off == nil || plain {
			continue
		}
		if m == nil {
			m = map[int]*Term{}
		}
		n := BVar("x", sInt)
		nb[i] = n
		m[b.ID] = Sub(n, off)
	}
	return m, nb
}

// pickPats chooses the reads that use the bound variables directly.
func pickPats(bvs []*Term, body *Term) [][]*Term {
	is := map[int]bool{}
	for _, b := range bvs {
		is[b.ID] = true
	}
	var cand []*Term
	for _, x := range indexTerms(bvs, body) {
		ok := true
		for id := range freeBVars(x) {
			if !is[id] {
				ok = false
			}
		}
		// every bound variable inside must be a direct argument of a read
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.Bound || t.Op == "bvar" {
				return
			}
			if t.Op == "+" || t.Op == "*" || t.Op == "ite" || t.Sort == sBool || t.Op == "store" {
				ok = false
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(x)
		if ok && x.Sort != sBool {
			cand = append(cand, x)
		}
	}
	var out [][]*Term
	for _, c := range cand {
		if covers(c, bvs) {
			out = append(out, []*Term{c})
		}
		if len(out) >= 4 {
			break
		}
	}
	if len(out) == 0 && len(bvs) == 2 {
		// a pair of reads
		for _, a := range cand {
			for _, b := range cand {
				if fa, fb := freeBVars(a), freeBVars(b); fa[bvs[0].ID] != nil && fb[bvs[1].ID] != nil {
					out = append(out, []*Term{a, b})
				}
				if len(out) >= 2 {
					return out
				}
			}
		}
	}
	return out
}
