package main

import (
	"fmt"
	"sort"
	"sync"
)

// axiomConsistency asks the solvers for a contradiction in the axioms: every
// spec axiom and lemma with the built-in axioms it pulls in, and the built-in
// axioms of every spec file's vocabulary together. A contradiction would make
// every proof worthless; "unknown" is what is expected of quantified axioms.
func axiomConsistency(sec float64) (bad []string, n int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	try := func(name string, as []*Term) {
		if len(as) == 0 {
			return
		}
		q := buildQueryLocked(as)
		n++
		for _, b := range []string{"z3-new", "cvc5"} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if r := runBackend(raceContext(), bk(b, sec), q); r.Status == "unsat" {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("the axioms used with %s contradict each other (%s)", name, b))
					mu.Unlock()
				}
			}()
		}
	}
	for _, ua := range userAxioms {
		try(ua.name, []*Term{ua.t})
	}
	// a vocabulary query: heaps of bytes, strings made of them, and their parts
	a, o, m, i := Var("cx$a", arrSort(sInt, sInt)), Var("cx$o", sInt), Var("cx$n", sInt), Var("cx$i", sInt)
	s, t := Var("cx$s", sStr), Var("cx$t", sStr)
	try("the built-in vocabulary", []*Term{
		Le(Int(0), App("sat", sInt, App("str_of", sStr, a, o, m), i)),
		Le(Int(0), App("slen", sInt, App("scat", sStr, s, t))),
		Le(Int(0), App("slen", sInt, App("ssub", sStr, s, o, m))),
		Le(Int(0), Select(App("bytes_of", arrSort(sInt, sInt), s), i)),
		Le(App("elemref", sInt, o, i), Int(0)),
		Le(Int(0), App("root", sInt, o)),
		Le(Int(0), App("band", sInt, Int(5), i)),
		Le(App("earr", sInt, o), App("eidx", sInt, o)),
	})
	wg.Wait()
	sort.Strings(bad)
	return bad, n
}
