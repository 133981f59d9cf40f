package main

import "fmt"

// Comparison of gated values by cofactoring: the conditions are decided one by
// one, those nested least first, until the remainders are the same term or of
// the same construction. Used where conditions are many and propositional.

type treeKey struct{ g, a, b int }

type treeCmp struct {
	c     *Cmp
	memo  map[treeKey]bool
	lits  []*Term
	nodes int
}

func (c *Cmp) eqTree(f *Facts, a, b *Term) bool {
	m := map[*Term]*Term{}
	var rest []*Term
	for _, t := range f.list {
		if isAtomBool(t) || t.op == OpNot && isAtomBool(t.args[0]) {
			m[t], m[Not(t)] = TTrue, TFalse
		} else {
			rest = append(rest, t)
		}
	}
	t := &treeCmp{c: c, memo: map[treeKey]bool{}}
	for l, v := range m {
		if v == TTrue {
			t.lits = append(t.lits, l)
		}
	}
	sortTerms(t.lits)
	memo := map[int]*Term{}
	g := TTrue
	for _, r := range rest {
		g = And(g, substMemo(r, m, memo))
	}
	return t.rec(g, substMemo(a, m, memo), substMemo(b, m, memo))
}

// leastAtom is a condition of t with the least depth, none of whose own parts
// is gated.
func leastAtom(ts ...*Term) *Term {
	var best *Term
	seen := map[int]bool{}
	var rec func(t *Term, cond bool)
	rec = func(t *Term, cond bool) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.sort == SBool && isAtomBool(t) {
			if best == nil || t.depth < best.depth || t.depth == best.depth && t.id < best.id {
				best = t
			}
		}
		for _, a := range t.args {
			rec(a, false)
		}
		for _, p := range t.poly {
			for _, x := range p.f {
				rec(x.t, false)
			}
		}
	}
	for _, t := range ts {
		rec(t, false)
	}
	return best
}

// gatedTerm: a condition decides part of t.
var gatedMemo = map[int]bool{}

func gatedTerm(t *Term) bool {
	if t.sort == SBool {
		return true
	}
	if r, ok := gatedMemo[t.id]; ok {
		return r
	}
	r := t.op == OpIte
	for _, a := range t.args {
		r = r || gatedTerm(a)
	}
	for _, p := range t.poly {
		for _, x := range p.f {
			r = r || gatedTerm(x.t)
		}
	}
	gatedMemo[t.id] = r
	return r
}

func (t *treeCmp) rec(g, a, b *Term) bool {
	if a == b || g == TFalse {
		return true
	}
	k := treeKey{g.id, a.id, b.id}
	if t.memo[k] {
		return true
	}
	t.nodes++
	if t.nodes > 20000 || t.c.budget <= 0 {
		return t.c.note("comparison budget exhausted")
	}
	t.c.cases++
	var x *Term
	if gatedTerm(a) || gatedTerm(b) {
		x = leastAtom(a, b)
	}
	if x == nil && g != TTrue {
		x = leastAtom(g)
	}
	if x == nil {
		f := NewFacts(t.lits...)
		if f.Infeasible() {
			return true
		}
		if t.c.eq(f, a, b, 1) {
			return true
		}
		return t.c.note("%s  versus  %s", short(b), short(a))
	}
	if debugSplit {
		fmt.Printf("TREE %d %s\n", len(t.lits), short(x))
	}
	n := len(t.lits)
	for _, v := range []bool{true, false} {
		l := x
		if !v {
			l = Not(x)
		}
		m := map[*Term]*Term{x: Bool(v), Not(x): Bool(!v)}
		memo := map[int]*Term{}
		t.lits = append(t.lits[:n:n], l)
		ok := t.rec(substMemo(g, m, memo), substMemo(a, m, memo), substMemo(b, m, memo))
		t.lits = t.lits[:n]
		if !ok {
			return false
		}
	}
	t.memo[k] = true
	return true
}
