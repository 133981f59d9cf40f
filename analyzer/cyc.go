package main

// Cyclic indices.  cyc(x,n) is x modulo n in 0..n-1; it is only built where
// n >= 1 is known.

import "math/big"

func isCyc(t *Term) bool { return t.op == OpFn && t.sym == "cyc" }

func Cyc(x, n *Term) *Term {
	if c, ok := n.constInt(); ok && c >= 1 {
		return Sub(x, ScaleI(c, FDiv(x, c)))
	}
	for again := true; again; {
		again = false
		for _, p := range toPoly(x) {
			if len(p.f) == 1 && p.f[0].e == 1 && isCyc(p.f[0].t) && p.f[0].t.args[1] == n && p.c.IsInt() {
				v := p.f[0].t
				x = Add(x, Scale(p.c, Sub(v.args[0], v)))
				again = true
				break
			}
			if len(p.f) == 1 && p.f[0].e == 1 && p.f[0].t == n && p.c.IsInt() {
				x = Sub(x, Scale(p.c, n))
				again = true
				break
			}
		}
	}
	if c, ok := x.constInt(); ok {
		if c == 0 {
			return x
		}
		if c == -1 {
			return Sub(n, I(1))
		}
	}
	return Fn(SInt, 0, "cyc", x, n)
}

// TMod is Go's x % y.
func TMod(x, y *Term) *Term {
	nn := true
	any := false
	for _, p := range toPoly(x) {
		if p.c.Sign() < 0 {
			nn = false
		}
		if len(p.f) == 1 && p.f[0].e == 1 && isCyc(p.f[0].t) && p.f[0].t.args[1] == y && p.c.IsInt() {
			any = true
		} else if len(p.f) != 0 {
			nn = false
		}
	}
	if nn && any {
		return Cyc(x, y)
	}
	return Fn(SInt, 0, "tmod", x, y)
}

// cycIte recognises the wrap-around written with a condition.
func cycIte(c, a, b *Term) *Term {
	if a.sort != SInt || c.op != OpGe && c.op != OpEqZ {
		return nil
	}
	p := c.args[0]
	var v *Term
	for _, q := range toPoly(p) {
		if len(q.f) == 1 && q.f[0].e == 1 && isCyc(q.f[0].t) {
			if v != nil {
				return nil
			}
			v = q.f[0].t
		}
	}
	if v == nil {
		return nil
	}
	n := v.args[1]
	up := Sub(Add(v, I(1)), n) // >= 0 or == 0: wraps
	z := I(0)
	inc, dec := Add(v, I(1)), Sub(v, I(1))
	last := Sub(n, I(1))
	wrapUp := func(w, g *Term) *Term {
		if w == z && g == inc {
			return Cyc(inc, n)
		}
		return nil
	}
	wrapDown := func(w, g *Term) *Term {
		if w == last && g == dec {
			return Cyc(dec, n)
		}
		return nil
	}
	switch {
	case p == up || c.op == OpEqZ && p == Neg(up):
		return wrapUp(a, b)
	case c.op == OpGe && p == Sub(Neg(up), I(1)):
		return wrapUp(b, a)
	case p == Neg(v) || c.op == OpEqZ && p == v:
		return wrapDown(a, b)
	case c.op == OpGe && p == dec:
		return wrapDown(b, a)
	}
	return nil
}

// solveCyc closes a counter that runs around 0..n-1.
func (ev *Eval) solveCyc(pv *phiVar, k *Term, open map[*Term]bool, in, back *State) *Term {
	nx, phi := pv.next, pv.sym
	delete(open, phi)
	bad := mentions(nx, open) || hasSym(nx, k)
	open[phi] = true
	if bad {
		return nil
	}
	var cands []*Term
	add := func(t *Term) {
		if t.sort == SInt && !hasSym(t, phi) {
			for _, c := range cands {
				if c == t {
					return
				}
			}
			cands = append(cands, t)
		}
	}
	walk(nx, map[int]bool{}, func(t *Term) {
		switch {
		case t.op == OpFn && t.sym == "tmod":
			add(t.args[1])
		case t.op == OpGe || t.op == OpEqZ:
			_, c, ok := affineIn(t.args[0], phi)
			if !ok || !c.IsInt() {
				return
			}
			p := t.args[0]
			if c.Cmp(big.NewRat(1, 1)) == 0 {
				p = Neg(p)
			} else if c.Cmp(big.NewRat(-1, 1)) != 0 {
				return
			}
			// p = m - phi
			m := Add(p, phi)
			for d := int64(0); d <= 2; d++ {
				add(Add(m, I(d)))
			}
		case t.op == OpIte && t.sort == SInt:
			add(Add(t.args[1], I(1)))
			add(Add(t.args[2], I(1)))
		}
	})
	pre := in.facts()
	for _, n := range cands {
		if _, isC := n.constInt(); isC {
			continue
		}
		if !pre.Prove(GeZ(Sub(n, I(1)))) || !pre.Prove(GeZ(pv.init)) || !pre.Prove(Lt(pv.init, n)) {
			continue
		}
		f := back.facts().With(GeZ(phi), Lt(phi, n), GeZ(Sub(n, I(1))))
		same := func(f *Facts, x *Term) bool { return f.Infeasible() || proveSplit(f, EqI(simp(f, nx), x), 0) }
		g, h := f.With(Lt(Add(phi, I(1)), n)), f.With(Ge(Add(phi, I(1)), n))
		if same(g, Add(phi, I(1))) && same(h, I(0)) {
			return Cyc(Add(pv.init, k), n)
		}
		g, h = f.With(GeZ(Sub(phi, I(1)))), f.With(GeZ(Neg(phi)))
		if same(g, Sub(phi, I(1))) && same(h, Sub(n, I(1))) {
			return Cyc(Sub(pv.init, k), n)
		}
	}
	return nil
}

// solveRing closes an array written at cyclic indices m*cyc(u,n)+d: cell m*j+d
// holds what the last iteration that hit it wrote, or its start value.
func (ev *Eval) solveRing(pv *phiVar, k *Term, open map[*Term]bool) *Term {
	type ent struct {
		d int64
		v *Term
	}
	var cyc *Term
	var m int64
	var es []ent
	t := pv.next
	for ; t.op == OpStore; t = t.args[0] {
		if t.args[1].sort != SInt {
			return nil
		}
		var x *Term
		var c, d int64
		for _, p := range toPoly(t.args[1]) {
			if !p.c.IsInt() {
				return nil
			}
			switch {
			case len(p.f) == 0:
				d = p.c.Num().Int64()
			case len(p.f) == 1 && p.f[0].e == 1 && isCyc(p.f[0].t) && x == nil:
				x, c = p.f[0].t, p.c.Num().Int64()
			default:
				return nil
			}
		}
		if x == nil || cyc != nil && (x != cyc || c != m) || c < 1 || d < 0 || d >= c || mentions(t.args[2], open) {
			return nil
		}
		cyc, m = x, c
		for _, e := range es {
			if e.d == d {
				return nil
			}
		}
		es = append([]ent{{d, t.args[2]}}, es...)
	}
	if t != pv.sym || cyc == nil {
		return nil
	}
	u, n := cyc.args[0], cyc.args[1]
	_, c, ok := affineIn(u, k)
	if !ok || hasSym(n, k) || mentions(u, open) || mentions(n, open) {
		return nil
	}
	j := Sym(freshName("_j"), SInt)
	last := Sub(k, I(1))
	ul := Subst(u, map[*Term]*Term{k: last})
	var back *Term
	switch {
	case c.Cmp(big.NewRat(1, 1)) == 0:
		back = Cyc(Sub(ul, j), n)
	case c.Cmp(big.NewRat(-1, 1)) == 0:
		back = Cyc(Sub(j, ul), n)
	default:
		return nil
	}
	at := Sub(last, back)
	var evs []*Term
	for _, e := range es {
		i := Add(ScaleI(m, j), I(e.d))
		evs = append(evs, i, Ite(GeZ(at), Subst(e.v, map[*Term]*Term{k: at}), Select(pv.init, i)))
	}
	return MkMap(pv.init, j, n, evs)
}
