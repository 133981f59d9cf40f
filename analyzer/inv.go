package main

// Constant bounds of loop variables that have no closed form, by induction:
// the bound holds at the start, and the step keeps it.

import (
	"os"
	"sort"
)

var debugInv = os.Getenv("DINV") != ""

func (ev *Eval) inferBounds(vars map[string]*phiVar, order []string, in, back *State) bool {
	changed := false
	entry := in.facts()
	for _, n := range order {
		pv := vars[n]
		if pv.closed != nil || pv.sym.sort != SInt || pv.next == nil {
			continue
		}
		if pv.bounds == nil {
			pv.bounds = map[string]func(*Term) *Term{}
		}
		cs := map[int64]bool{}
		if c, ok := pv.init.constInt(); ok {
			cs[c] = true
		} else {
			cs[0] = true
		}
		walk(pv.next, map[int]bool{}, func(x *Term) {
			if x.op != OpGe && x.op != OpEqZ {
				return
			}
			for _, s := range []int64{1, -1} {
				if c, ok := Sub(x.args[0], ScaleI(s, pv.sym)).constInt(); ok {
					for d := int64(-1); d <= 1; d++ {
						cs[-s*c+d] = true
					}
				}
			}
		})
		base := back.facts()
		vals := sorted64(cs)
		try := func(bound func(t *Term) *Term) bool {
			if g := bound(pv.init); g != TTrue && !entry.Prove(g) {
				return false
			}
			return proveLeaves(base.With(bound(pv.sym)), pv.next, bound, 0)
		}
		for _, b := range pv.bounds {
			if !try(b) { // the step has changed since
				unsup("a bound of loop variable %s no longer holds", pv.sym)
			}
		}
		for _, gb := range pv.gated {
			if !ev.holdsGated(pv, gb, entry, base) {
				unsup("a bound of loop variable %s no longer holds", pv.sym)
			}
		}
		// lower: the greatest that holds; upper: the least
		for _, up := range []bool{false, true} {
			if !up {
				sort.Slice(vals, func(i, j int) bool { return vals[i] > vals[j] })
			} else {
				sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
			}
			side := "lo"
			if up {
				side = "hi"
			}
			if pv.bounds[side] != nil {
				continue
			}
			for _, c := range vals {
				c := c
				b := func(t *Term) *Term { return Ge(t, I(c)) }
				if up {
					b = func(t *Term) *Term { return Ge(I(c), t) }
				}
				if try(b) {
					if debugInv {
						println("bound", pv.sym.sym, side, c)
					}
					addAxiom(pv.sym, b(pv.sym))
					pv.bounds[side] = b
					changed = true
					break
				}
			}
			if pv.bounds[side] != nil || !up {
				continue
			}
			// an upper bound while a flag is set
			for _, m := range order {
				gv := vars[m]
				if gv.closed != nil || gv.sym.sort != SBool || gv.next == nil {
					continue
				}
				key := "hi|" + m
				if pv.gated == nil {
					pv.gated = map[string]gatedBound{}
				}
				if _, ok := pv.gated[key]; ok {
					continue
				}
				for _, c := range vals {
					gb := gatedBound{gv, c}
					if ev.holdsGated(pv, gb, entry, base) {
						if debugInv {
							println("bound", pv.sym.sym, "hi", c, "while", gv.sym.sym)
						}
						addAxiom(pv.sym, Or(Not(gv.sym), Ge(I(c), pv.sym)))
						pv.gated[key] = gb
						changed = true
						break
					}
				}
			}
		}
	}
	return changed
}

type gatedBound struct {
	flag *phiVar
	c    int64
}

func (ev *Eval) holdsGated(pv *phiVar, gb gatedBound, entry, base *Facts) bool {
	bound := func(t *Term) *Term { return Ge(I(gb.c), t) }
	g := gb.flag
	if g.closed != nil {
		return false
	}
	if !entry.Prove(Or(Not(g.init), bound(pv.init))) {
		return false
	}
	f := base.With(Or(Not(g.sym), bound(pv.sym)), g.next)
	return f.Infeasible() || proveLeaves(f, pv.next, bound, 0)
}

func (t *Term) isTrue() bool { return t == TTrue }

func proveLeaves(f *Facts, t *Term, goal func(*Term) *Term, depth int) bool {
	if depth > 24 {
		return false
	}
	if t.op == OpIte {
		for i, c := range []*Term{t.args[0], Not(t.args[0])} {
			if f.Decide(c) == -1 {
				continue
			}
			if !proveLeaves(f.With(c), t.args[1+i], goal, depth+1) {
				return false
			}
		}
		return true
	}
	if t.op == OpPoly {
		// an ite inside the sum
		if c := someIteCond(t); c != nil {
			for _, v := range []bool{true, false} {
				l := c
				if !v {
					l = Not(c)
				}
				if f.Decide(l) == -1 {
					continue
				}
				if !proveLeaves(f.With(l), assumeIn(t, c, v), goal, depth+1) {
					return false
				}
			}
			return true
		}
	}
	g := goal(t)
	return g == TTrue || f.Prove(g) || f.Infeasible()
}

// carried: what held at the end of one iteration and speaks of the iteration
// number and invariants only holds, shifted, at the start of the next.
func carried(k *Term, open map[*Term]bool, have []*Term, in, back *State) (out []*Term) {
	seen := map[*Term]bool{}
	for _, c := range have {
		seen[c] = true
	}
	entry := in.facts()
	for _, c := range back.pc {
		if c.op != OpGe || !hasSym(c, k) || mentions(c, open) {
			continue
		}
		g := Subst(c, map[*Term]*Term{k: Sub(k, I(1))})
		if g == TTrue || seen[g] {
			continue
		}
		if at0 := Subst(g, map[*Term]*Term{k: I(0)}); at0 == TTrue || entry.Prove(at0) {
			seen[g] = true
			out = append(out, g)
		}
	}
	return
}
