package main

// Functional arrays: Store chains, Map layers (the effect of a whole loop) and
// element selection.

import (
	"math/big"
	"strings"
)

func Store(a, i, v *Term) *Term {
	if v.sort != a.es || (v.sort == SBV && v.w != a.ew) {
		panic("Store: element sort mismatch " + v.sort.String() + " into " + a.es.String() + " " + a.String() + " val " + v.String())
	}
	// overwrite
	if a.op == OpStore {
		if a.args[1] == i {
			return Store(a.args[0], i, v)
		}
		// order by constant difference for a canonical form
		if i.sort != SInt {
		} else if c, ok := Sub(i, a.args[1]).constRat(); ok && c.Sign() < 0 {
			return mkStore(Store(a.args[0], i, v), a.args[1], a.args[2])
		}
	}
	if v.op == OpSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if below(a, i) {
		na := append([]*Term{}, a.args...)
		na[0] = Store(a.args[0], i, v)
		return intern(Term{op: OpMap, sort: SArr, es: a.es, ew: a.ew, n: a.n, args: na})
	}
	return mkStore(a, i, v)
}

// below: a is a map that never writes the constant index i, because each of
// its entries would have to do so in an iteration before the first.
func below(a, i *Term) bool {
	if a.op != OpMap || i.sort != SInt {
		return false
	}
	if _, ok := i.constInt(); !ok {
		return false
	}
	ev := open(a, Sym("_ms", SInt))
	for j := 0; j < len(ev); j += 2 {
		if ev[j].sort != SInt {
			return false
		}
		q, r := mapSolve(ev[j], Sym("_ms", SInt), i)
		if r < 0 {
			continue
		}
		if r == 0 {
			return false
		}
		if c, ok := q.constRat(); !ok || c.Sign() >= 0 {
			return false
		}
	}
	return true
}

func mkStore(a, i, v *Term) *Term {
	return intern(Term{op: OpStore, sort: SArr, es: a.es, ew: a.ew, args: []*Term{a, i, v}})
}

func zeroOf(s Sort, w int) *Term {
	switch s {
	case SInt, SF32, SF64:
		return ConstI(s, 0)
	case SBool:
		return TFalse
	case SBV:
		return BVConst(w, 0)
	case SStr:
		return StrConst("")
	}
	return intern(Term{op: OpFn, sort: s, sym: "nil"})
}

func StrConst(s string) *Term { return intern(Term{op: OpFn, sort: SStr, sym: "str:" + s}) }
func strConstVal(t *Term) (string, bool) {
	if t.op == OpFn && t.sort == SStr && len(t.sym) >= 4 && t.sym[:4] == "str:" {
		return t.sym[4:], true
	}
	return "", false
}

// ZeroArr is the all-zero array.
func ZeroArr(s Sort, w int) *Term {
	return intern(Term{op: OpFn, sort: SArr, es: s, ew: w, sym: "zeros"})
}
func ArrLit(s Sort, w int, els []*Term) *Term {
	return intern(Term{op: OpArrLit, sort: SArr, es: s, ew: w, args: els})
}

func idxDistinct(a, b *Term) bool {
	if a.sort == SInt {
		c, ok := Sub(a, b).constRat()
		return ok && c.Sign() != 0
	}
	return EqT(a, b) == TFalse
}

// predates: the reference was already there when the analysed function began.
func predates(t *Term) bool {
	switch t.op {
	case OpSym:
		return !strings.HasPrefix(t.sym, "φ#") && !strings.HasPrefix(t.sym, "fin#")
	case OpFn:
		if strings.HasPrefix(t.sym, "mem") && len(t.args) == 1 {
			return predates(t.args[0])
		}
		return strings.HasPrefix(t.sym, "global:") || isNil(t)
	case OpSelect:
		return predates(t.args[0])
	case OpField, OpElem:
		return predates(t.args[0])
	}
	return false
}

func Select(a, i *Term) *Term {
	switch a.op {
	case OpStore:
		if a.args[1] == i {
			return a.args[2]
		}
		if idxDistinct(a.args[1], i) {
			return Select(a.args[0], i)
		}
	case OpIte:
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	case OpFn:
		if a.sym == "zeros" {
			return zeroOf(a.es, a.ew)
		}
		if a.sym == "constarr" {
			return a.args[0]
		}
	case OpArrLit:
		if c, ok := i.constInt(); ok && c >= 0 && c < int64(len(a.args)) {
			return a.args[c]
		}
	case OpMap:
		if r := mapSelectQuick(a, i); r != nil {
			return r
		}
	case OpSym:
		if w := windows[a]; w != nil && w.untouched(nil, i) {
			return Select(w.init, i)
		}
	}
	if a.es == SBV && i.sort == SInt {
		if r := tableSelect(a, i); r != nil {
			return r
		}
	}
	if i.op == OpIte {
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	return intern(Term{op: OpSelect, sort: a.es, w: a.ew, args: []*Term{a, i}})
}

// affineIn writes t = s + c*k with c a constant and s free of k.
func affineIn(t, k *Term) (s *Term, c *big.Rat, ok bool) {
	if t.sort == SRef {
		if t.op != OpAlloc || len(t.args) == 0 || t.args[len(t.args)-1] != k {
			return nil, nil, false
		}
		return t, big.NewRat(1, 1), true
	}
	c = new(big.Rat)
	var rest []PT
	for _, p := range toPoly(t) {
		has := false
		for _, f := range p.f {
			if f.t == k {
				has = true
			} else if hasSym(f.t, k) {
				return nil, nil, false
			}
		}
		if !has {
			rest = append(rest, p)
			continue
		}
		if len(p.f) != 1 || p.f[0].e != 1 {
			return nil, nil, false
		}
		c.Add(c, p.c)
	}
	return fromPoly(t.sort, rest), c, true
}

// MkMap: base overwritten for every k<n, entry after entry, at idx_j(k) with
// val_j(k).  ev = idx1,val1,idx2,val2...  The caller guarantees that distinct
// (k,j) hit distinct indexes.
func MkMap(base, k, n *Term, ev []*Term) *Term {
	if c, ok := n.constInt(); ok && c <= 8 {
		for x := int64(0); x < c; x++ {
			m := map[*Term]*Term{k: I(x)}
			for j := 0; j+1 < len(ev); j += 2 {
				base = Store(base, Subst(ev[j], m), Subst(ev[j+1], m))
			}
		}
		return base
	}
	// ascending order
	if _, c, ok := affineIn(ev[0], k); ok && c.Sign() < 0 {
		m := map[*Term]*Term{k: Sub(Sub(n, I(1)), k)}
		ne := make([]*Term, len(ev))
		for j := range ev {
			ne[j] = Subst(ev[j], m)
		}
		ev = ne
	}
	// entries sorted by constant offset when comparable
	if len(ev) > 2 && ev[0].sort == SInt {
		type pr struct {
			i, v *Term
			o    *big.Rat
		}
		var ps []pr
		ok := true
		for j := 0; j < len(ev); j += 2 {
			o, isC := Sub(ev[j], ev[0]).constRat()
			if !isC {
				ok = false
				break
			}
			ps = append(ps, pr{ev[j], ev[j+1], o})
		}
		if ok {
			for i := range ps {
				for j := i; j > 0 && ps[j].o.Cmp(ps[j-1].o) < 0; j-- {
					ps[j], ps[j-1] = ps[j-1], ps[j]
				}
			}
			ev = nil
			for _, p := range ps {
				ev = append(ev, p.i, p.v)
			}
		}
	}
	if base.op == OpFn && base.sym == "zeros" {
		z := zeroOf(base.es, base.ew)
		all := true
		for j := 1; j < len(ev); j += 2 {
			all = all && ev[j] == z
		}
		if all {
			return base
		}
	}
	cl, lvl := closeOver(k, ev)
	return intern(Term{op: OpMap, sort: SArr, es: base.es, ew: base.ew, n: lvl, args: append([]*Term{base, n}, cl...)})
}

// mapSolve solves idx_j(k) = x for k.  res: 1 solved (k returned), -1 no
// solution by residue, 0 unknown.
func mapSolve(idx, k, x *Term) (*Term, int) {
	if idx.sort == SRef {
		if idx.op != OpAlloc || len(idx.args) == 0 || idx.args[len(idx.args)-1] != k {
			return nil, 0
		}
		if x.op == OpAlloc {
			if x.sym != idx.sym {
				return nil, -1
			}
			for i := 0; i < len(idx.args)-1; i++ {
				if idx.args[i] != x.args[i] {
					return nil, 0
				}
			}
			return x.args[len(x.args)-1], 1
		}
		if predates(x) {
			return nil, -1
		}
		return nil, 0
	}
	s, c, ok := affineIn(idx, k)
	if !ok || c.Sign() == 0 || !c.IsInt() {
		return nil, 0
	}
	d := Sub(x, s)
	n := c.Num()
	neg := n.Sign() < 0
	an := new(big.Int).Abs(n)
	allDiv := true
	constRes := new(big.Int)
	for _, p := range toPoly(d) {
		if !p.c.IsInt() {
			return nil, 0
		}
		m := new(big.Int).Mod(p.c.Num(), an)
		if m.Sign() != 0 {
			if len(p.f) == 0 {
				constRes = m
			} else {
				allDiv = false
			}
		}
	}
	if !allDiv {
		return nil, 0
	}
	if constRes.Sign() != 0 {
		return nil, -1
	}
	q := Scale(new(big.Rat).SetFrac(big.NewInt(1), an), d)
	if neg {
		q = Neg(q)
	}
	return q, 1
}

func mapSelectQuick(a, i *Term) *Term { return mapSelect(NewFacts(), a, i, true) }

// mapSelect resolves a selection from a Map under facts; nil when undecided.
func mapSelect(f *Facts, a, i *Term, quick bool) *Term {
	k := Sym("_ms", SInt)
	ev := open(a, k)
	n := a.args[1]
	prove := func(g *Term) bool {
		if quick {
			return g == TTrue
		}
		return f.Prove(g)
	}
	for j := len(ev) - 2; j >= 0; j -= 2 {
		q, r := mapSolve(ev[j], k, i)
		if r == 0 {
			return nil
		}
		if r < 0 {
			continue
		}
		if prove(Or(GeZ(Sub(I(-1), q)), Ge(q, n))) {
			continue
		}
		if prove(And(GeZ(q), Lt(q, n))) {
			return Subst(ev[j+1], map[*Term]*Term{k: q})
		}
		return nil
	}
	return Select(a.args[0], i)
}

// selectF resolves as far as facts allow.
func selectF(f *Facts, a, i *Term) *Term { return selectM(f, a, i, nil) }

func selectM(f *Facts, a, i *Term, memo map[*Term]*Term) *Term {
	for {
		switch a.op {
		case OpStore:
			if a.args[1] == i {
				return a.args[2]
			}
			d := EqT(a.args[1], i)
			switch f.Decide(d) {
			case 1:
				return a.args[2]
			case -1:
				a = a.args[0]
				continue
			}
			return Select(a, i)
		case OpMap:
			r := mapSelect(f, a, i, false)
			if r == nil {
				return Select(a, i)
			}
			if r.op == OpSelect && r.args[0] == a.args[0] && r.args[1] == i {
				a = a.args[0]
				continue
			}
			return r
		case OpIte:
			if r, ok := memo[a]; ok {
				return r
			}
			if memo == nil {
				memo = map[*Term]*Term{}
			}
			x, y := selectM(f, a.args[1], i, memo), selectM(f, a.args[2], i, memo)
			r := x
			if x != y {
				switch f.Decide(a.args[0]) {
				case 1:
				case -1:
					r = y
				default:
					r = Ite(a.args[0], x, y)
				}
			}
			memo[a] = r
			return r
		case OpSym:
			if w := windows[a]; w != nil && w.untouched(f, i) {
				a = w.init
				continue
			}
		}
		return Select(a, i)
	}
}

// resolve re-evaluates every selection inside t under facts.
func resolve(f *Facts, t *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 && len(t.poly) == 0 || t.sort == SArr {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.op == OpPoly {
			r = substPoly(t, rec)
		} else if _, ok := binderScope(t); ok {
			r = t // bodies were resolved when built
		} else if t.op == OpSelect {
			i := rec(t.args[1])
			r = selectF(f, t.args[0], i)
			if r.op != OpSelect {
				r = rec(r)
			}
		} else {
			a := make([]*Term, len(t.args))
			ch := false
			for i := range a {
				a[i] = rec(t.args[i])
				ch = ch || a[i] != t.args[i]
			}
			r = t
			if ch {
				r = rebuild(t, a)
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// tableSelect: an entry of a constant table whose index is a string of bits,
// where every bit of the entry is a sum modulo two of index bits.
func tableSelect(a, i *Term) *Term {
	if a.op != OpStore && a.op != OpArrLit {
		return nil
	}
	if _, c := i.constInt(); c {
		return nil
	}
	var bs []*Term
	for w := 4; w <= 10; w += 2 { // find how many bits the index has
		b := exactBits(i, w)
		if b == nil {
			return nil
		}
		if t := ToInt(Bits(b), false); t == i {
			bs = b
			break
		}
	}
	if bs == nil {
		return nil
	}
	for len(bs) > 0 && bs[len(bs)-1] == TFalse {
		bs = bs[:len(bs)-1]
	}
	tab := constTable(a)
	n := 1 << uint(len(bs))
	if tab == nil {
		return nil
	}
	val := func(j int) (uint64, bool) { v, ok := tab[int64(j)]; return v, ok }
	base, ok := val(0)
	if !ok {
		return nil
	}
	for j := 1; j < n; j++ { // affine over GF(2)?
		v, ok := val(j)
		if !ok {
			return nil
		}
		x := base
		for k := 0; k < len(bs); k++ {
			if j>>uint(k)&1 == 1 {
				e, _ := val(1 << uint(k))
				x ^= e ^ base
			}
		}
		if x != v {
			return nil
		}
	}
	out := make([]*Term, a.ew)
	for w := range out {
		ts := []*Term{Bool(base>>uint(w)&1 == 1)}
		for k, b := range bs {
			e, _ := val(1 << uint(k))
			if (e^base)>>uint(w)&1 == 1 {
				ts = append(ts, b)
			}
		}
		out[w] = Xor(ts...)
	}
	return Bits(out)
}

var tables = map[*Term]map[int64]uint64{}

// constTable: the entries of an array written with constants only.
func constTable(a *Term) map[int64]uint64 {
	if t, ok := tables[a]; ok {
		return t
	}
	t := map[int64]uint64{}
	for x := a; ; {
		if x.op == OpStore {
			j, ok1 := x.args[1].constInt()
			v, ok2 := BVConstVal(x.args[2])
			if !ok1 || !ok2 {
				t = nil
				break
			}
			if _, dup := t[j]; !dup {
				t[j] = v
			}
			x = x.args[0]
			continue
		}
		if x.op == OpArrLit {
			for j, e := range x.args {
				v, ok := BVConstVal(e)
				if !ok {
					t = nil
					break
				}
				if _, dup := t[int64(j)]; !dup {
					t[int64(j)] = v
				}
			}
		}
		break
	}
	tables[a] = t
	return t
}
