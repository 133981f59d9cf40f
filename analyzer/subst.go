package main

// Rebuilding, substitution and binders (Sum, RMax, RMin, Map) over terms.

import "strconv"

var freshN int

func freshName(p string) string { freshN++; return p + "~" + strconv.Itoa(freshN) }

// isBinder: args[0..scope) lie outside the binder, the rest under Bound(n).
func binderScope(t *Term) (int, bool) {
	switch t.op {
	case OpSum, OpRMax, OpRMin:
		return 1, true
	case OpMap:
		return 2, true
	}
	return 0, false
}

// rebuildFn lets string functions and the like re-normalise.
var rebuildFn func(t *Term, a []*Term) *Term

// rebuild makes t again with new arguments (binders excluded).
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpFn:
		if t.sort == SArr {
			break
		}
		if rebuildFn != nil {
			if r := rebuildFn(t, a); r != nil {
				return r
			}
		}
		switch t.sym {
		case "cyc":
			return Cyc(a[0], a[1])
		case "tmod":
			return TMod(a[0], a[1])
		}
		return Fn(t.sort, t.w, t.sym, a...)
	case OpIte:
		return Ite(a[0], a[1], a[2])
	case OpMin, OpMax:
		return MinMax(t.op, a...)
	case OpFDiv:
		return FDiv(a[0], t.n)
	case OpTDiv:
		return TDiv(a[0], a[1])
	case OpB2I:
		return B2I(a[0])
	case OpBits:
		return Bits(a)
	case OpNot:
		return Not(a[0])
	case OpAnd:
		return And(a...)
	case OpOr:
		return Or(a...)
	case OpXor:
		return Xor(a...)
	case OpGe:
		return GeZ(a[0])
	case OpEqZ:
		return EqZ(a[0])
	case OpFLt:
		return FLtZ(a[0])
	case OpFLe:
		return FLeZ(a[0])
	case OpFEq:
		return FEqZ(a[0])
	case OpBit:
		return BitOf(a[0], int(t.n))
	case OpTab:
		return reTab(t, a)
	case OpEq:
		return EqT(a[0], a[1])
	case OpStore:
		return Store(a[0], a[1], a[2])
	case OpSelect:
		return Select(a[0], a[1])
	}
	return intern(Term{op: t.op, sort: t.sort, w: t.w, es: t.es, ew: t.ew, n: t.n, sym: t.sym, args: a})
}

// reTab rebuilds a truth table whose leaves changed.
func reTab(t *Term, a []*Term) *Term {
	same := true
	set := map[int]bool{}
	for _, x := range a {
		if x.op != OpBit || set[x.id] {
			same = false
		}
		set[x.id] = true
	}
	if same {
		// keep leaves sorted
		perm := append([]*Term{}, a...)
		sortTerms(perm)
		pos := map[int]int{}
		for i, x := range perm {
			pos[x.id] = i
		}
		tab := make([]byte, len(t.sym))
		for j := range t.sym {
			nj := 0
			for i, x := range a {
				if j>>uint(i)&1 == 1 {
					nj |= 1 << uint(pos[x.id])
				}
			}
			tab[nj] = t.sym[j]
		}
		return tabTerm(perm, string(tab))
	}
	var rec func(i, idx int) *Term
	rec = func(i, idx int) *Term {
		if i < 0 {
			return Bool(t.sym[idx] == '1')
		}
		return Ite(a[i], rec(i-1, idx|1<<uint(i)), rec(i-1, idx))
	}
	return rec(len(a)-1, 0)
}

// openRaw replaces Bound(n) by e in t, not entering binders of the same level.
func openRaw(t *Term, n int64, e *Term, memo map[int]*Term) *Term {
	if int64(t.bh) <= n {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == OpBound:
		r = t
		if t.n == n {
			r = e
		}
	case t.op == OpPoly:
		r = substPoly(t, func(x *Term) *Term { return openRaw(x, n, e, memo) })
	default:
		if sc, ok := binderScope(t); ok {
			a := append([]*Term{}, t.args...)
			for i := range a {
				if i < sc || t.n != n {
					a[i] = openRaw(a[i], n, e, memo)
				}
			}
			r = intern(Term{op: t.op, sort: t.sort, w: t.w, es: t.es, ew: t.ew, n: t.n, sym: t.sym, args: a})
		} else {
			a := append([]*Term{}, t.args...)
			for i := range a {
				a[i] = openRaw(a[i], n, e, memo)
			}
			r = rebuild(t, a)
		}
	}
	memo[t.id] = r
	return r
}

func substPoly(t *Term, f func(*Term) *Term) *Term {
	changed := false
	m := map[int]*Term{}
	for _, p := range t.poly {
		for _, x := range p.f {
			if _, ok := m[x.t.id]; !ok {
				y := f(x.t)
				m[x.t.id] = y
				if y != x.t {
					changed = true
				}
			}
		}
	}
	if !changed {
		return t
	}
	var keep []PT
	acc := []*Term{}
	for _, p := range t.poly {
		ch := false
		for _, x := range p.f {
			if m[x.t.id] != x.t {
				ch = true
			}
		}
		if !ch {
			keep = append(keep, p)
			continue
		}
		q := Const(t.sort, p.c)
		for _, x := range p.f {
			y := m[x.t.id]
			if x.e < 0 {
				y = Inv(y)
				for i := 0; i < -x.e; i++ {
					q = Mul(q, y)
				}
			} else {
				for i := 0; i < x.e; i++ {
					q = Mul(q, y)
				}
			}
		}
		acc = append(acc, q)
	}
	acc = append(acc, fromPoly(t.sort, keep))
	return Add(acc...)
}

// open gives the scoped arguments of a binder with its variable replaced by e.
func open(t *Term, e *Term) []*Term {
	sc, _ := binderScope(t)
	memo := map[int]*Term{}
	var out []*Term
	for _, a := range t.args[sc:] {
		out = append(out, openRaw(a, t.n, e, memo))
	}
	return out
}

// Subst replaces terms (usually symbols) according to m.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substMemo(t, m, map[int]*Term{})
}

func substMemo(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.poly) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OpPoly {
		r = substPoly(t, func(x *Term) *Term { return substMemo(x, m, memo) })
	} else if sc, ok := binderScope(t); ok {
		r = t
		k := Sym(freshName("_o"), SInt)
		in := open(t, k)
		a := make([]*Term, len(t.args))
		ch := false
		for i := range a {
			if i < sc {
				a[i] = substMemo(t.args[i], m, memo)
				ch = ch || a[i] != t.args[i]
			} else {
				a[i] = substMemo(in[i-sc], m, memo)
				ch = ch || a[i] != in[i-sc]
			}
		}
		if ch {
			r = mkBinder(t, k, a, sc)
		}
	} else {
		a := make([]*Term, len(t.args))
		ch := false
		for i := range a {
			a[i] = substMemo(t.args[i], m, memo)
			ch = ch || a[i] != t.args[i]
		}
		r = t
		if ch {
			r = rebuild(t, a)
		}
	}
	memo[t.id] = r
	return r
}

// closeOver abstracts symbol k in ts.
func closeOver(k *Term, ts []*Term) ([]*Term, int64) {
	h := 0
	for _, t := range ts {
		if t.bh > h {
			h = t.bh
		}
	}
	b := intern(Term{op: OpBound, sort: SInt, n: int64(h)})
	m := map[*Term]*Term{k: b}
	memo := map[int]*Term{}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = replaceRaw(t, m, memo)
	}
	return out, int64(h)
}

// replaceRaw is substitution of a symbol that also goes below binders without
// renaming (safe: the replacement is a bound variable of a fresh level).
func replaceRaw(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.poly) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OpPoly {
		r = substPoly(t, func(x *Term) *Term { return replaceRaw(x, m, memo) })
	} else {
		a := make([]*Term, len(t.args))
		ch := false
		for i := range a {
			a[i] = replaceRaw(t.args[i], m, memo)
			ch = ch || a[i] != t.args[i]
		}
		r = t
		if ch {
			if _, ok := binderScope(t); ok {
				r = intern(Term{op: t.op, sort: t.sort, w: t.w, es: t.es, ew: t.ew, n: t.n, sym: t.sym, args: a})
			} else {
				r = rebuild(t, a)
			}
		}
	}
	memo[t.id] = r
	return r
}

func mkBinder(t *Term, k *Term, a []*Term, sc int) *Term {
	switch t.op {
	case OpSum:
		return MkSum(t.sort, k, a[0], a[1])
	case OpRMax, OpRMin:
		return MkRed(t.op, t.sort, k, a[0], a[1])
	case OpMap:
		return MkMap(a[0], k, a[1], a[2:])
	}
	panic("mkBinder")
}

func hasSym(t, s *Term) bool { return mentions(t, map[*Term]bool{s: true}) }

func mentions(t *Term, set map[*Term]bool) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if len(t.args) == 0 && len(t.poly) == 0 {
			return false
		}
		if memo[t.id] {
			return false
		}
		memo[t.id] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, p := range t.poly {
			for _, f := range p.f {
				if rec(f.t) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// walk visits every subterm once.
func walk(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.args {
		walk(a, seen, f)
	}
	for _, p := range t.poly {
		for _, x := range p.f {
			walk(x.t, seen, f)
		}
	}
}

// MkSum is sum_{k<n} body, distributed over monomials so that parts that do
// not depend on k come out.
func MkSum(s Sort, k, n, body *Term) *Term {
	if c, ok := n.constInt(); ok && c <= 0 {
		return ConstI(s, 0)
	} else if ok && c <= 4 {
		acc := ConstI(s, 0)
		for i := int64(0); i < c; i++ {
			acc = Add(acc, Subst(body, map[*Term]*Term{k: I(i)}))
		}
		return acc
	}
	acc := ConstI(s, 0)
	for _, p := range toPoly(body) {
		var inn, outf []Fac
		for _, f := range p.f {
			if hasSym(f.t, k) {
				inn = append(inn, f)
			} else {
				outf = append(outf, f)
			}
		}
		co := fromPoly(s, []PT{{c: p.c, f: outf}})
		if len(inn) == 0 {
			cnt := n
			if isFloat(s) {
				cnt = Fn(s, 0, "itof", n)
			}
			acc = Add(acc, Mul(co, cnt))
			continue
		}
		b, lvl := closeOver(k, []*Term{fromPoly(s, []PT{{c: one, f: inn}})})
		acc = Add(acc, Mul(co, intern(Term{op: OpSum, sort: s, n: lvl, args: []*Term{n, b[0]}})))
	}
	return acc
}

func MkRed(op Op, s Sort, k, n, body *Term) *Term {
	ext := OpMax
	if op == OpRMin {
		ext = OpMin
	}
	empty := Inf(s)
	if op == OpRMax {
		empty = Neg(empty)
	}
	if c, ok := n.constInt(); ok && c <= 0 {
		return empty
	} else if ok && c <= 4 {
		acc := empty
		for i := int64(0); i < c; i++ {
			acc = MinMax(ext, acc, Subst(body, map[*Term]*Term{k: I(i)}))
		}
		return acc
	}
	b, lvl := closeOver(k, []*Term{body})
	return intern(Term{op: op, sort: s, n: lvl, args: []*Term{n, b[0]}})
}
