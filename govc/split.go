package main

// splitGoal breaks a goal into an equivalent conjunction of easier ones: the conjuncts of a conjunction,
// and for a bounded universal statement its last instance and the rest.
func splitGoal(g *Term) []*Term {
	switch {
	case g.Op == "and" && !g.Bound:
		var out []*Term
		for _, a := range g.Args {
			out = append(out, a)
		}
		return out
	case g.Op == "forall" && !g.Bound && len(g.BVs) == 1 && g.BVs[0].Sort == sInt && g.Args[0].Op == "=>":
		j := g.BVs[0]
		cs := []*Term{g.Args[0].Args[0]}
		if cs[0].Op == "and" {
			cs = cs[0].Args
		}
		for _, c := range cs {
			if c.Op != "<=" {
				continue
			}
			l, r := c.Args[0], c.Args[1]
			// l <= r with j alone (plus a constant) on the left
			d := Sub(l, j)
			if !isInt(d) || freeBVars(r)[j.ID] != nil {
				continue
			}
			last := Sub(r, d)
			body := Subst(g.Args[0], map[int]*Term{j.ID: last})
			rest := quant("forall", g.BVs, g.Pats, Implies(Lt(j, last), g.Args[0]))
			return []*Term{rest, body}
		}
	case g.Op == "=>" && !g.Bound:
		sub := splitGoal(g.Args[1])
		if len(sub) > 1 {
			var out []*Term
			for _, s := range sub {
				out = append(out, Implies(g.Args[0], s))
			}
			return out
		}
	}
	return nil
}

func solveSplit(pc []*Term, goal *Term, s1, s2 float64, hide ...string) (solveRes, bool) {
	queryMu.Lock()
	parts := splitGoal(goal)
	queryMu.Unlock()
	if len(parts) < 2 {
		return solveRes{}, false
	}
	var tot solveRes
	for _, p := range parts {
		if p == tTrue {
			continue
		}
		qs := buildQueryLocked(append(append([]*Term{}, pc...), Not(p)), hide...)
		r := solve(qs, s1, s2)
		tot.Time += r.Time
		if r.Status != "unsat" {
			return tot, false
		}
		tot.Solver = r.Solver + "+split"
	}
	tot.Status = "unsat"
	return tot, true
}
