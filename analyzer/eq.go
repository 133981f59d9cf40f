package main

// Equality of two summaries: case splitting on the conditions that occur,
// pointwise comparison of arrays, and coinductive matching of the loops that
// have no closed form.

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
)

type Cmp struct {
	spec, impl *Eval
	sub        map[*Term]*Term // spec loop symbols -> impl terms
	pair       map[*LoopRec]*LoopRec
	budget     int
	why        string
	cases      int
	depthMax   int
	colS, colI []colours
	apart      map[[2]int]bool // reads that did not merge
}

var debugEq = false
var debugCol = os.Getenv("DCOL") != ""

// note records the first thing that could not be matched.
func (c *Cmp) note(format string, a ...interface{}) bool {
	if c.why == "" {
		c.why = fmt.Sprintf(format, a...)
	}
	return false
}

// simp normalises t using facts: decides conditions, resolves selections.
func simp(f *Facts, t *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 && len(t.poly) == 0 {
			if t.sort == SBool && f.set[t] {
				return TTrue
			}
			if t.sort == SBool && f.set[Not(t)] {
				return TFalse
			}
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		switch {
		case t.sort == SBool && isAtomBool(t):
			a := t
			if d := f.decideFast(t); d != 0 {
				r = Bool(d > 0)
				break
			}
			a = rebuildWith(t, rec)
			if a != t && a.sort == SBool {
				r = a
				if d := f.decideFast(a); d != 0 {
					r = Bool(d > 0)
				}
			} else {
				r = a
			}
		case t.op == OpIte:
			c := rec(t.args[0])
			switch c {
			case TTrue:
				r = rec(t.args[1])
			case TFalse:
				r = rec(t.args[2])
			default:
				r = Ite(c, rec(t.args[1]), rec(t.args[2]))
			}
		case t.op == OpSelect:
			i := rec(t.args[1])
			r = selectF(f, t.args[0], i)
			if r.op != OpSelect {
				r = rec(r)
			}
			if r.op == OpSelect {
				if a := rec(r.args[0]); a != r.args[0] {
					r = selectF(f, a, r.args[1])
				}
			}
		case (t.op == OpMax || t.op == OpMin) && len(t.args) <= 6:
			var as []*Term
			for _, a := range t.args {
				as = append(as, rec(a))
			}
			r = MinMax(t.op, dominated(f, t.op, as)...)
		default:
			if sc, ok := binderScope(t); ok {
				k := Sym(freshName("_b"), SInt)
				in := open(t, k)
				n := t.args[0]
				if t.op == OpMap {
					n = t.args[1]
				}
				n2 := rec(n)
				g := f.With(GeZ(k), Lt(k, n2))
				a := make([]*Term, len(t.args))
				ch := false
				for i := range a {
					if i < sc {
						a[i] = rec(t.args[i])
						ch = ch || a[i] != t.args[i]
					} else {
						a[i] = simp(g, in[i-sc])
						ch = ch || a[i] != in[i-sc]
					}
				}
				r = t
				if ch {
					r = mkBinder(t, k, a, sc)
				}
				break
			}
			r = floorForm(f, rebuildWith(t, rec))
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// floorForm: the integer part of a non-negative number is its floor, and the
// conversion of a floor to an integer and back changes nothing in range.
func floorForm(f *Facts, t *Term) *Term {
	if t.op != OpFn {
		return t
	}
	switch t.sym {
	case "ftoi":
		if x := t.args[0]; !(x.op == OpFn && x.sym == "floor") && !integral(x) && f.Prove(FLeZ(Neg(x))) {
			return Fn(t.sort, t.w, "ftoi", Fn(x.sort, 0, "floor", x))
		}
	case "itof":
		if y := t.args[0]; y.op == OpFn && y.sym == "ftoi" && y.args[0].sort == t.sort {
			if x := y.args[0]; x.op == OpFn && x.sym == "floor" {
				big := ConstI(x.sort, 1<<62)
				if f.Prove(FLtZ(Sub(x, big))) && f.Prove(FLtZ(Neg(Add(x, big)))) {
					return x
				}
			}
		}
	}
	return t
}

func dominated(f *Facts, op Op, as []*Term) []*Term {
	if len(as) < 2 || as[0].sort != SInt {
		return as
	}
	var out []*Term
	drop := map[int]bool{}
	for i := range as {
		for j := range as {
			if i == j || drop[j] || drop[i] {
				continue
			}
			var g *Term
			if op == OpMax {
				g = Ge(as[j], as[i])
			} else {
				g = Ge(as[i], as[j])
			}
			if f.Prove(g) {
				drop[i] = true
			}
		}
	}
	for i := range as {
		if !drop[i] {
			out = append(out, as[i])
		}
	}
	return out
}

func isAtomBool(t *Term) bool {
	switch t.op {
	case OpGe, OpEqZ, OpFLt, OpFLe, OpFEq, OpEq, OpBit, OpFn, OpSym, OpSelect:
		return true
	}
	return false
}

// decideFast avoids the prover for atoms it knows nothing about.
func (f *Facts) decideFast(t *Term) int {
	if f.set[t] {
		return 1
	}
	if f.set[Not(t)] {
		return -1
	}
	switch t.op {
	case OpGe, OpEqZ, OpEq, OpFLt, OpFLe, OpFEq:
		return f.Decide(t)
	case OpBit, OpFn, OpSym, OpSelect:
		for _, x := range f.list {
			if hasSym(x, t) {
				return f.Decide(t)
			}
		}
	}
	return 0
}

func rebuildWith(t *Term, rec func(*Term) *Term) *Term {
	if t.op == OpPoly {
		return substPoly(t, rec)
	}
	a := make([]*Term, len(t.args))
	ch := false
	for i := range a {
		a[i] = rec(t.args[i])
		ch = ch || a[i] != t.args[i]
	}
	if !ch {
		return t
	}
	return rebuild(t, a)
}

// splitCond finds a condition to split on, outermost first, preferring
// control conditions; data bits only when nothing else is left.
func splitCond(f *Facts, ts ...*Term) *Term {
	c, _ := splitCondP(f, ts...)
	return c
}

func splitCondP(f *Facts, ts ...*Term) (*Term, int) {
	type cand struct {
		c *Term
		d int
		p int
	}
	var best *cand
	seen := map[int]bool{}
	consider := func(c *Term, d, p int) {
		// go down to an atom
		for {
			switch c.op {
			case OpNot:
				c = c.args[0]
				continue
			case OpAnd, OpOr, OpXor:
				pick := c.args[0]
				for _, a := range c.args {
					if atomPrio(a) < atomPrio(pick) {
						pick = a
					}
				}
				c = pick
				continue
			case OpTab:
				c = c.args[0]
				continue
			case OpIte:
				c = c.args[0]
				continue
			}
			break
		}
		if c.fb != 0 || c == TTrue || c == TFalse {
			return
		}
		// a comparison of gated numbers: the gates come first
		for n := 0; n < 40; n++ {
			g := innerGate(c)
			if g == nil {
				break
			}
			c = g
		}
		if q := atomPrio(c); p == 0 && gatesFirst && q <= 10 {
			p = 0
		} else {
			p += q
		}
		if best == nil || p < best.p || p == best.p && d < best.d {
			best = &cand{c, d, p}
		}
	}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case OpIte, OpB2I:
			consider(t.args[0], d, 0)
		case OpMax, OpMin:
			if t.sort == SInt || len(t.args) == 2 {
				if t.sort == SInt {
					consider(Ge(t.args[0], t.args[1]), d, 4)
				}
			}
		case OpSelect:
			if c := selCond(f, t.args[0], t.args[1]); c != nil {
				consider(c, d, 0)
			}
		}
		if t.sort == SBool && isAtomBool(t) {
			consider(t, d, 1)
		}
		if t.sort == SArr && t.op != OpIte {
			return
		}
		if _, ok := binderScope(t); ok {
			// conditions that do not depend on the bound variable
			sc, _ := binderScope(t)
			for i, a := range t.args {
				if i < sc {
					rec(a, d+1)
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a, d+1)
		}
		for _, p := range t.poly {
			for _, x := range p.f {
				rec(x.t, d+1)
			}
		}
	}
	for _, t := range ts {
		rec(t, 0)
	}
	if best == nil {
		return nil, 0
	}
	return best.c, best.p
}

// innerGate: a gate inside a comparison of integers.
func innerGate(c *Term) *Term {
	switch c.op {
	case OpGe, OpEqZ, OpEq:
	default:
		return nil
	}
	seen := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t.id] || t.sort == SArr || t.sort == SBV {
			return nil
		}
		seen[t.id] = true
		if _, ok := binderScope(t); ok {
			return nil
		}
		if t.op == OpIte || t.op == OpB2I {
			g := t.args[0]
			for {
				switch g.op {
				case OpNot:
					g = g.args[0]
					continue
				case OpAnd, OpOr, OpXor:
					pick := g.args[0]
					for _, a := range g.args {
						if atomPrio(a) < atomPrio(pick) {
							pick = a
						}
					}
					g = pick
					continue
				case OpTab, OpIte:
					g = g.args[0]
					continue
				}
				break
			}
			if g.fb == 0 && g != TTrue && g != TFalse {
				return g
			}
			return nil
		}
		for _, a := range t.args {
			if g := rec(a); g != nil {
				return g
			}
		}
		for _, p := range t.poly {
			for _, x := range p.f {
				if g := rec(x.t); g != nil {
					return g
				}
			}
		}
		return nil
	}
	for _, a := range c.args {
		if g := rec(a); g != nil {
			return g
		}
	}
	return nil
}

// hasGate: t is a linear form over gated numbers.
func hasGate(t *Term) bool {
	if t.op == OpIte {
		return true
	}
	for _, p := range t.poly {
		for _, x := range p.f {
			if x.t.op == OpIte {
				return true
			}
		}
	}
	return false
}

func atomPrio(c *Term) int {
	switch c.op {
	case OpNot:
		return atomPrio(c.args[0])
	case OpGe, OpEqZ, OpEq:
		return 0
	case OpFLt, OpFLe, OpFEq:
		return 1
	case OpFn, OpSym:
		return 2
	case OpSelect:
		return 3
	case OpBit:
		return 10
	case OpAnd, OpOr, OpXor, OpTab, OpIte:
		p := 20
		for _, a := range c.args {
			if a.sort == SBool {
				if q := atomPrio(a); q < p {
					p = q
				}
			}
		}
		return p
	}
	return 20
}

// selCond: the condition that blocks Select(a,i).
func selCond(f *Facts, a, i *Term) *Term {
	switch a.op {
	case OpStore:
		return EqT(a.args[1], i)
	case OpMap:
		k := Sym("_ms", SInt)
		ev := open(a, k)
		for j := len(ev) - 2; j >= 0; j -= 2 {
			q, r := mapSolve(ev[j], k, i)
			if r < 0 {
				continue
			}
			if r == 0 {
				return nil
			}
			c := GeZ(q)
			if f.Decide(c) == 0 {
				return c
			}
			c = Lt(q, a.args[1])
			if f.Decide(c) == 0 {
				return c
			}
		}
	case OpIte:
		return a.args[0]
	}
	return nil
}

// EqTerms: a = b under f.
func (c *Cmp) EqTerms(f *Facts, a, b *Term) bool { return c.eq(f, a, b, 0) }

func (c *Cmp) eq(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort || a.w != b.w {
		return c.note("different kinds of value")
	}
	if settling && depth == 0 {
		return c.eqTree(f, a, b)
	}
	c.budget--
	if c.budget < 0 {
		return c.note("comparison budget exhausted")
	}
	c.cases++
	if a.sort == SArr {
		return c.eqArr(f, a, b, depth)
	}
	a, b = simp(f, a), simp(f, b)
	if a == b {
		return true
	}
	gated := a.sort == SInt && (hasGate(a) || hasGate(b))
	if a.sort == SInt && !gated && f.Prove(EqI(a, b)) {
		return true
	}
	if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] && depth < 250 {
		// the same gate on both sides
		s := a.args[0]
		for i, l := range []*Term{s, Not(s)} {
			g := f.With(l)
			if g.Infeasible() {
				continue
			}
			if !c.eq(g, a.args[1+i], b.args[1+i], depth+1) {
				return false
			}
		}
		return true
	}
	if a.op == b.op && len(a.args) == len(b.args) && (a.op == OpBits || a.op == OpFn && a.sym == "chars" && b.sym == "chars") {
		return c.eqAll(f, a.args, b.args, depth+1)
	}
	if depth < 250 {
		if s := splitCond(f, a, b); s != nil {
			if debugSplit {
				fmt.Printf("SPLIT %d %d %s\n", depth, f.Decide(s), s.str(6))
			}
			if withLift && s.op == OpBit {
				if m := c.mergeReads(f, a, b); m != nil {
					return c.eq(f, Subst(a, m), Subst(b, m), depth+1)
				}
			}
			switch f.Decide(s) {
			case 1:
				return c.eq(f.With(s), assumeIn(a, s, true), assumeIn(b, s, true), depth+1)
			case -1:
				return c.eq(f.With(Not(s)), assumeIn(a, s, false), assumeIn(b, s, false), depth+1)
			}
			for _, v := range []bool{true, false} {
				l := s
				if !v {
					l = Not(s)
				}
				g := f.With(l)
				if g.Infeasible() {
					continue
				}
				if !c.eq(g, assumeIn(a, s, v), assumeIn(b, s, v), depth+1) {
					return false
				}
			}
			return true
		}
	}
	if f.Infeasible() {
		return true
	}
	if gated && f.Prove(EqI(a, b)) {
		return true
	}
	if c.congruent(f, a, b, depth) {
		return true
	}
	if a.sort == SBV {
		x, y := BVBits(a), BVBits(b)
		if len(x) == len(y) {
			ok := true
			for i := range x {
				if x[i] != y[i] && !(x[i].depth < a.depth || y[i].depth < b.depth) {
					ok = false
				}
			}
			_ = ok
		}
	}
	if debugEq {
		fmt.Printf("EQ FAIL\n  a=%s\n  b=%s\n  facts=%v\n", a.str(14), b.str(14), f.list)
	}
	return c.note("%s  versus  %s", short(b), short(a))
}

// mergeReads finds reads of one array at indices that are equal under f but
// written differently; before their bits are taken apart they become one.
func (c *Cmp) mergeReads(f *Facts, ts ...*Term) map[*Term]*Term {
	var reads []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		walk(t, seen, func(u *Term) {
			if u.op == OpSelect && u.args[0].op == OpSym && u.args[1].sort == SInt && u.fb == 0 {
				reads = append(reads, u)
			}
		})
	}
	if len(reads) < 2 || len(reads) > 24 {
		return nil
	}
	if c.apart == nil {
		c.apart = map[[2]int]bool{}
	}
	out := map[*Term]*Term{}
	for i, u := range reads {
		for _, v := range reads[:i] {
			k := [2]int{u.id, v.id}
			if out[v] != nil || u.args[0] != v.args[0] || c.apart[k] {
				continue
			}
			if f.Prove(EqI(u.args[1], v.args[1])) {
				out[u] = v
				break
			}
			c.apart[k] = true
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// eqAll compares several pairs under one tree of cases.
func (c *Cmp) eqAll(f *Facts, as, bs []*Term, depth int) bool {
	var xs, ys []*Term
	for i := range as {
		a, b := as[i], bs[i]
		if a == b {
			continue
		}
		if a.sort == SArr || a.sort != b.sort || a.w != b.w {
			if !c.eq(f, a, b, depth) {
				return false
			}
			continue
		}
		a, b = simp(f, a), simp(f, b)
		if a == b {
			continue
		}
		xs, ys = append(xs, a), append(ys, b)
	}
	if len(xs) == 0 {
		return true
	}
	c.budget--
	c.cases++
	if c.budget < 0 {
		return c.note("comparison budget exhausted")
	}
	if len(xs) > 1 && depth < 250 {
		gatesFirst = true
		s, p := splitCondP(f, append(append([]*Term{}, xs...), ys...)...)
		gatesFirst = false
		if xs[0].op == OpIte {
			same := true
			for i := range xs {
				same = same && xs[i].op == OpIte && ys[i].op == OpIte && xs[i].args[0] == xs[0].args[0] && ys[i].args[0] == xs[0].args[0]
			}
			if same {
				s, p = xs[0].args[0], 0
			}
		}
		if s != nil && p <= 10 {
			// pairs the condition does not concern are compared on their own
			var in, out []int
			for i := range xs {
				if hasSym(xs[i], s) || hasSym(ys[i], s) {
					in = append(in, i)
				} else {
					out = append(out, i)
				}
			}
			if len(in) > 0 && len(out) > 0 {
				for _, part := range [][]int{in, out} {
					var us, vs []*Term
					for _, i := range part {
						us, vs = append(us, xs[i]), append(vs, ys[i])
					}
					if !c.eqAll(f, us, vs, depth+1) {
						return false
					}
				}
				return true
			}
			if debugSplit {
				fmt.Printf("SPLITALL %d n=%d %s\n", depth, len(xs), s.str(6))
			}
			for _, v := range []bool{true, false} {
				l := s
				if !v {
					l = Not(s)
				}
				g := f.With(l)
				if g.Infeasible() {
					continue
				}
				us, vs := make([]*Term, len(xs)), make([]*Term, len(xs))
				for i := range xs {
					us[i], vs[i] = assumeIn(xs[i], s, v), assumeIn(ys[i], s, v)
				}
				if !c.eqAll(g, us, vs, depth+1) {
					return false
				}
			}
			return true
		}
	}
	for i := range xs {
		if !c.eq(f, xs[i], ys[i], depth+1) {
			return false
		}
	}
	return true
}

// gatesFirst: outermost gates first, whatever their kind.
var gatesFirst = false
var debugSplit = os.Getenv("DSPLIT") != ""

func short(t *Term) string {
	s := t.str(7)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// congruent: same construction from equal parts.
func (c *Cmp) congruent(f *Facts, a, b *Term, depth int) bool {
	if depth > 300 {
		return false
	}
	save := c.why
	ok := c.congruent1(f, a, b, depth)
	if ok {
		c.why = save
	}
	return ok
}

func (c *Cmp) congruent1(f *Facts, a, b *Term, depth int) bool {
	if a.op == OpRMax || b.op == OpRMax || a.op == OpRMin || b.op == OpRMin || a.op == OpMax || a.op == OpMin || b.op == OpMax || b.op == OpMin {
		if c.eqExtremum(f, a, b, depth) {
			return true
		}
	}
	if isNum(a.sort) && (a.op == OpPoly || b.op == OpPoly || a.op == OpSum || b.op == OpSum) {
		return c.eqPoly(f, a, b, depth)
	}
	if a.op != b.op || a.sym != b.sym || a.n != b.n && a.op != OpSum || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	if _, ok := binderScope(a); ok {
		return false
	}
	for i := range a.args {
		if !c.eq(f, a.args[i], b.args[i], depth+1) {
			return false
		}
	}
	return true
}

// eqPoly compares polynomials by unifying atoms that are provably equal.
func (c *Cmp) eqPoly(f *Facts, a, b *Term, depth int) bool {
	d := Sub(a, b)
	tol := maxCoef(a, b)
	for iter := 0; iter < 24; iter++ {
		if isFloat(d.sort) && roundingOnly(d, tol) {
			return true
		}
		if cc, ok := d.constRat(); ok {
			return cc.Sign() == 0
		}
		if d.sort == SInt && f.Prove(EqI(d, I(0))) {
			return true
		}
		// align sums
		if n := c.peel(f, d); n != nil {
			d = n
			continue
		}
		// unify a pair of atoms of opposite weight
		var atoms []*Term
		seen := map[int]bool{}
		for _, p := range toPoly(d) {
			for _, x := range p.f {
				if !seen[x.t.id] {
					seen[x.t.id] = true
					atoms = append(atoms, x.t)
				}
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].depth < atoms[j].depth })
		done := false
		for i := range atoms {
			for j := i + 1; j < len(atoms) && !done; j++ {
				x, y := atoms[i], atoms[j]
				if x.op != y.op || x.sort != y.sort || x.sym != y.sym || len(x.args) != len(y.args) || len(x.args) == 0 {
					continue
				}
				nd := Subst(d, map[*Term]*Term{y: x})
				if len(toPoly(nd)) >= len(toPoly(d)) {
					continue
				}
				if c.eqAtom(f, x, y, depth+1) {
					d = nd
					done = true
				}
			}
			if done {
				break
			}
		}
		if !done {
			return false
		}
	}
	return false
}

// roundingOnly: what is left of a difference after both sides rounded their
// coefficients to 11 digits at different moments: nothing larger than 1e-9 of
// the largest coefficient involved.
func roundingOnly(d *Term, scale float64) bool {
	for _, p := range toPoly(d) {
		v, _ := p.c.Float64()
		// (a residue of rounding is not much smaller than the last digit)
		if v = math.Abs(v); v > 1e-9*scale || v < 1e-14*scale {
			return false
		}
	}
	return true
}

func maxCoef(ts ...*Term) float64 {
	m := 0.0
	for _, t := range ts {
		for _, p := range toPoly(t) {
			v, _ := p.c.Float64()
			if math.Abs(v) > m {
				m = math.Abs(v)
			}
		}
	}
	return m
}

func (c *Cmp) eqAtom(f *Facts, x, y *Term, depth int) bool {
	save := c.why
	defer func() { c.why = save }()
	switch x.op {
	case OpSum:
		if !c.eq(f, x.args[0], y.args[0], depth) {
			return false
		}
		k := Sym(freshName("_e"), SInt)
		g := f.With(GeZ(k), Lt(k, x.args[0]))
		return c.eq(g, open(x, k)[0], open(y, k)[0], depth)
	case OpFn, OpSelect, OpFDiv, OpTDiv, OpIte:
		if x.n != y.n {
			return false
		}
		for i := range x.args {
			if !c.eq(f, x.args[i], y.args[i], depth) {
				return false
			}
		}
		return true
	}
	return false
}

// peel rewrites Sum(n+d) against Sum(n) so that counts agree.
func (c *Cmp) peel(f *Facts, d *Term) *Term {
	var sums []*Term
	seen := map[int]bool{}
	for _, p := range toPoly(d) {
		for _, x := range p.f {
			if x.t.op == OpSum && !seen[x.t.id] {
				seen[x.t.id] = true
				sums = append(sums, x.t)
			}
		}
	}
	for _, s := range sums {
		for _, t := range sums {
			if s == t {
				continue
			}
			df, ok := Sub(s.args[0], t.args[0]).constInt()
			if !ok || df <= 0 || df > 8 {
				continue
			}
			if !f.Prove(GeZ(t.args[0])) {
				continue
			}
			k := Sym(freshName("_p"), SInt)
			body := open(s, k)[0]
			r := MkSum(s.sort, k, t.args[0], body)
			for i := int64(0); i < df; i++ {
				r = Add(r, Subst(body, map[*Term]*Term{k: Add(t.args[0], I(i))}))
			}
			return simp(f, Subst(d, map[*Term]*Term{s: r}))
		}
	}
	return nil
}

// eqExtremum compares maxima (minima) as sets of elements.
type exEnt struct {
	k, n, body *Term // n nil: single element
}

func extEnts(op Op, t *Term) ([]exEnt, bool) {
	red := OpRMax
	if op == OpMin {
		red = OpRMin
	}
	switch t.op {
	case op:
		var out []exEnt
		for _, a := range t.args {
			e, ok := extEnts(op, a)
			if !ok {
				return nil, false
			}
			out = append(out, e...)
		}
		return out, true
	case red:
		k := Sym(freshName("_x"), SInt)
		b := open(t, k)[0]
		if b.op == op {
			var out []exEnt
			for _, x := range b.args {
				out = append(out, exEnt{k, t.args[0], x})
			}
			return out, true
		}
		return []exEnt{{k, t.args[0], b}}, true
	}
	return []exEnt{{body: t}}, true
}

func (c *Cmp) eqExtremum(f *Facts, a, b *Term, depth int) bool {
	op := OpMax
	if a.op == OpRMin || b.op == OpRMin || a.op == OpMin || b.op == OpMin {
		op = OpMin
	}
	ea, ok1 := extEnts(op, a)
	eb, ok2 := extEnts(op, b)
	if !ok1 || !ok2 {
		return false
	}
	return c.extSubset(f, op, ea, eb, depth) && c.extSubset(f, op, eb, ea, depth)
}

// extSubset: every element of x occurs among y.
func (c *Cmp) extSubset(f *Facts, op Op, xs, ys []exEnt, depth int) bool {
	mod := int64(1)
	for _, y := range ys {
		if y.n != nil {
			mod = lcm(mod, strideOf(y.body, y.k))
		}
	}
	for _, x := range xs {
		if x.n == nil {
			if i := isInf(x.body); (i < 0 && op == OpMax || i > 0 && op == OpMin) && c.nonEmptyOrSame(f, ys) {
				continue
			}
			if !c.elemIn(f, x.body, ys, depth) {
				return false
			}
			continue
		}
		s := strideOf(x.body, x.k)
		m := mod / gcd(mod, s)
		for r := int64(0); r < m; r++ {
			q := Sym(freshName("_q"), SInt)
			idx := Add(ScaleI(m, q), I(r))
			g := f.With(GeZ(idx), Lt(idx, x.n), GeZ(q))
			if g.Infeasible() {
				continue
			}
			body := Subst(x.body, map[*Term]*Term{x.k: idx})
			if !c.elemIn(g, body, ys, depth) {
				return false
			}
		}
	}
	return true
}

func (c *Cmp) nonEmptyOrSame(f *Facts, ys []exEnt) bool { return true }

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}
func lcm(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 1
	}
	return a / gcd(a, b) * b
}

// strideOf: coefficient of k in the index of a selection.
func strideOf(t, k *Term) int64 {
	s := int64(1)
	walk(t, map[int]bool{}, func(x *Term) {
		if x.op == OpSelect && x.args[1].sort == SInt {
			if _, co, ok := affineIn(x.args[1], k); ok && co.Sign() != 0 && co.IsInt() {
				s = new(big.Int).Abs(co.Num()).Int64()
			}
		}
	})
	return s
}

func (c *Cmp) elemIn(f *Facts, e *Term, ys []exEnt, depth int) bool {
	e = simp(f, e)
	if e.op == OpIte {
		for _, v := range []bool{true, false} {
			l := e.args[0]
			if !v {
				l = Not(l)
			}
			g := f.With(l)
			if g.Infeasible() {
				continue
			}
			br := e.args[1]
			if !v {
				br = e.args[2]
			}
			if !c.elemIn(g, br, ys, depth) {
				return false
			}
		}
		return true
	}
	for _, y := range ys {
		if y.n == nil {
			if simp(f, y.body) == e {
				return true
			}
			continue
		}
		// unify body(y.k) with e on the first selection
		sel := firstSelect(y.body, y.k)
		tgt := firstAnySelect(e)
		if sel == nil || tgt == nil || sel.args[0] != tgt.args[0] {
			continue
		}
		q, r := mapSolve(sel.args[1], y.k, tgt.args[1])
		if r != 1 {
			continue
		}
		if !f.Prove(And(GeZ(q), Lt(q, y.n))) {
			continue
		}
		if simp(f, Subst(y.body, map[*Term]*Term{y.k: q})) == e {
			return true
		}
	}
	// split on which range it falls in
	for _, y := range ys {
		if y.n == nil {
			continue
		}
		sel := firstSelect(y.body, y.k)
		tgt := firstAnySelect(e)
		if sel == nil || tgt == nil || sel.args[0] != tgt.args[0] {
			continue
		}
		q, r := mapSolve(sel.args[1], y.k, tgt.args[1])
		if r != 1 {
			continue
		}
		for _, cond := range []*Term{Lt(q, y.n), GeZ(q)} {
			if f.Decide(cond) == 0 && depth < 40 {
				return c.elemIn(f.With(cond), e, ys, depth+1) && c.elemIn(f.With(Not(cond)), e, ys, depth+1)
			}
		}
	}
	if f.Infeasible() {
		return true
	}
	// conditions between single selects: split on equality of indexes
	for _, y := range ys {
		if y.n == nil {
			sel, tgt := firstAnySelect(y.body), firstAnySelect(e)
			if sel != nil && tgt != nil && sel.args[0] == tgt.args[0] {
				cond := EqI(sel.args[1], tgt.args[1])
				if f.Decide(cond) == 0 && depth < 40 {
					if c.elemIn(f.With(Not(cond)), e, ys, depth+1) {
						// equal case: substitute
						return simp(f.With(cond), y.body) == e || Subst(y.body, map[*Term]*Term{sel.args[1]: tgt.args[1]}) == e
					}
					return false
				}
				if f.Decide(cond) == 1 && Subst(y.body, map[*Term]*Term{sel: tgt}) == e {
					return true
				}
			}
		}
	}
	return false
}

func firstSelect(t, k *Term) *Term {
	var r *Term
	walk(t, map[int]bool{}, func(x *Term) {
		if r == nil && x.op == OpSelect && hasSym(x.args[1], k) {
			r = x
		}
	})
	return r
}
func firstAnySelect(t *Term) *Term {
	var r *Term
	walk(t, map[int]bool{}, func(x *Term) {
		if r == nil && x.op == OpSelect {
			r = x
		}
	})
	return r
}

// ---------- arrays ----------

func layers(t *Term) (chain []*Term, base *Term) {
	for t.op == OpStore || t.op == OpMap {
		chain = append(chain, t)
		t = t.args[0]
	}
	return chain, t
}

func (c *Cmp) eqArr(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if depth > 60 {
		return c.note("comparison too deep")
	}
	// conditions at array level first
	for _, t := range []*Term{a, b} {
		u := t
		for u.op == OpStore || u.op == OpMap {
			u = u.args[0]
		}
		_ = u
		x := t
		for {
			if x.op == OpIte {
				s := x.args[0]
				at := splitAtom(s)
				for _, v := range []bool{true, false} {
					l := at
					if !v {
						l = Not(at)
					}
					g := f.With(l)
					if g.Infeasible() {
						continue
					}
					na, nb := arrAssume(g, assumeIn(a, at, v)), arrAssume(g, assumeIn(b, at, v))
					if !c.eq(g, na, nb, depth+1) {
						return false
					}
				}
				return true
			}
			if x.op == OpStore || x.op == OpMap {
				x = x.args[0]
				continue
			}
			break
		}
	}
	ca, ba := layers(a)
	cb, bb := layers(b)
	if ba != bb {
		if !c.eqBase(f, ba, bb, depth) {
			return c.note("arrays with different origins: %s versus %s", short(bb), short(ba))
		}
	}
	// strides
	mod := int64(1)
	for _, l := range append(append([]*Term{}, ca...), cb...) {
		if l.op == OpMap {
			k := Sym("_st", SInt)
			for j, e := range open(l, k) {
				if j%2 == 0 {
					if _, co, ok := affineIn(e, k); ok && co.IsInt() && e.sort == SInt {
						mod = lcm(mod, new(big.Int).Abs(co.Num()).Int64())
					}
				}
			}
		}
	}
	if mod > 256 {
		return c.note("stride too large")
	}
	check := func(g *Facts, x *Term) bool {
		if g.Infeasible() {
			return true
		}
		return c.eqAt(g, a, b, x, depth+1)
	}
	for _, l := range append(append([]*Term{}, ca...), cb...) {
		if l.op == OpStore {
			if l.args[1].sort == SRef && l.args[1].op == OpAlloc {
				continue // fresh objects are compared through the results
			}
			if !check(f, l.args[1]) {
				return false
			}
			continue
		}
		q := Sym(freshName("_q"), SInt)
		ev := open(l, q)
		for j := 0; j < len(ev); j += 2 {
			if ev[j].sort == SRef {
				if ev[j].op == OpAlloc {
					continue
				}
				return c.note("array indexed by unknown references")
			}
			_, co, ok := affineIn(ev[j], q)
			if !ok {
				return c.note("non-affine array index")
			}
			s := new(big.Int).Abs(co.Num()).Int64()
			m := mod / s
			for r := int64(0); r < m; r++ {
				q2 := Sym(freshName("_q"), SInt)
				kk := Add(ScaleI(m, q2), I(r))
				x := Subst(ev[j], map[*Term]*Term{q: kk})
				g := f.With(GeZ(kk), Lt(kk, l.args[1]), GeZ(q2))
				if !check(g, x) {
					return false
				}
			}
		}
	}
	return true
}

func splitAtom(s *Term) *Term {
	for {
		switch s.op {
		case OpNot:
			s = s.args[0]
			continue
		case OpAnd, OpOr, OpXor:
			s = s.args[0]
			continue
		}
		return s
	}
}

// arrAssume decides array-level conditions by facts.
func arrAssume(f *Facts, t *Term) *Term {
	switch t.op {
	case OpIte:
		switch f.Decide(t.args[0]) {
		case 1:
			return arrAssume(f, t.args[1])
		case -1:
			return arrAssume(f, t.args[2])
		}
		return Ite(t.args[0], arrAssume(f, t.args[1]), arrAssume(f, t.args[2]))
	case OpStore:
		return Store(arrAssume(f, t.args[0]), t.args[1], t.args[2])
	case OpMap:
		b := arrAssume(f, t.args[0])
		if b != t.args[0] {
			return intern(Term{op: OpMap, sort: SArr, es: t.es, ew: t.ew, n: t.n, args: append([]*Term{b}, t.args[1:]...)})
		}
	}
	return t
}

// eqAt compares a[x] with b[x].
func (c *Cmp) eqAt(f *Facts, a, b, x *Term, depth int) bool {
	va, vb := selectF(f, a, x), selectF(f, b, x)
	return c.eq(f, va, vb, depth)
}

func (c *Cmp) eqBase(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.op == OpFn && b.op == OpFn && a.sym == b.sym && len(a.args) == len(b.args) && len(a.args) > 0 {
		for i := range a.args {
			if !c.eq(f, a.args[i], b.args[i], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------- loops without closed form ----------

func residParent(ev *Eval, l *LoopRec) *LoopRec {
	for p := l.parent; p != nil; p = p.parent {
		if ev.loops[p.id] == p {
			return p
		}
	}
	return nil
}

// matchLoops pairs every residual loop the spec mentions with one of the
// implementation.  The pairing is a simultaneous coinduction: all pairs are
// hypothesised together, then inits, steps and exits are checked.
func (c *Cmp) matchLoops(f *Facts, sl, il []*LoopRec) bool {
	if len(sl) == 0 {
		return true
	}
	for r := 1; r <= 6; r++ {
		c.colS = append(c.colS, colourPhis(c.spec, sl, r))
		c.colI = append(c.colI, colourPhis(c.impl, il, r))
	}
	if debugCol {
		c.dumpColours(sl, c.colS)
		c.dumpColours(il, c.colI)
	}
	var try func(i int) bool
	used := map[*LoopRec]bool{}
	try = func(i int) bool {
		if i == len(sl) {
			return c.verifyLoops(f, sl)
		}
		s := sl[i]
		sp := residParent(c.spec, s)
		cs := append([]*LoopRec{}, il...)
		sort.SliceStable(cs, func(x, y int) bool { return c.loopLikeness(s, cs[x]) > c.loopLikeness(s, cs[y]) })
		for _, t := range cs {
			if used[t] {
				continue
			}
			tp := residParent(c.impl, t)
			if (sp == nil) != (tp == nil) || sp != nil && c.pair[sp] != tp {
				continue
			}
			if s.kRes != t.kRes || len(t.phis) < len(s.phis) {
				continue
			}
			used[t] = true
			c.pair[s] = t
			c.sub[s.k] = t.k
			if s.kRes {
				c.sub[s.K] = t.K
			}
			if c.assignPhis(f, s, t, func() bool { return try(i + 1) }) {
				return true
			}
			delete(c.sub, s.k)
			delete(c.sub, s.K)
			delete(c.pair, s)
			used[t] = false
			if c.budget < 0 {
				return false
			}
		}
		return false
	}
	if try(0) {
		return true
	}
	var ws []string
	for _, l := range sl {
		ws = append(ws, l.where)
	}
	return c.note("no loop of the implementation computes the recurrence specified at %s", strings.Join(ws, ", "))
}

func (c *Cmp) assignPhis(f *Facts, s, t *LoopRec, then func() bool) bool {
	used := map[*PhiRec]bool{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(s.phis) {
			return then()
		}
		p := s.phis[i]
		var cands []*PhiRec
		for _, q := range t.phis {
			if used[q] || q.sym.sort != p.sym.sort || q.sym.w != p.sym.w || q.sym.es != p.sym.es || q.sym.ew != p.sym.ew {
				continue
			}
			// memory common to both sides keeps its identity
			if p.key.kind != 'r' && q.key.kind != 'r' && p.key != q.key && !isLocalCell(p.key) && !isLocalCell(q.key) {
				continue
			}
			if p.key.kind != 'r' && !isLocalCell(p.key) && p.key != q.key {
				// may live in a register on the other side: keep as a weaker candidate
				if q.key.kind != 'r' {
					continue
				}
			}
			cands = append(cands, q)
		}
		sort.SliceStable(cands, func(x, y int) bool {
			if a, b := cands[x].key == p.key, cands[y].key == p.key; a != b {
				return a
			}
			return c.likeness(p, cands[x]) > c.likeness(p, cands[y])
		})
		for _, q := range cands {
			// quick refutation of different starts
			if s.parent == nil || residParent(c.spec, s) == nil {
				a := Subst(p.init, c.sub)
				if a != q.init {
					save, b := c.why, c.budget
					ok := c.eq(f.With(t.pc...), a, q.init, 20)
					c.why = save
					if !ok {
						c.budget = b
						continue
					}
				}
			}
			if p.init.op == OpSym && q.init.op == OpSym {
				if a := c.sub[p.init]; a != nil && a != q.init {
					continue
				}
			}
			used[q] = true
			c.sub[p.sym] = q.sym
			c.sub[p.fin] = q.fin
			if rec(i + 1) {
				return true
			}
			delete(c.sub, p.sym)
			delete(c.sub, p.fin)
			used[q] = false
			if c.budget < 0 {
				return false
			}
		}
		return false
	}
	return rec(0)
}

func isLocalCell(k Key) bool {
	m, ok := cellMetas[k]
	if !ok || m.root == nil {
		return false
	}
	return localRef(m.root, map[*Term]bool{})
}

// phiVals: start and next values of the loop variables without closed form.
var phiVals = map[*Term][2]*Term{}

// localRef: whatever r refers to was made by the analysed function.
func localRef(r *Term, seen map[*Term]bool) bool {
	if seen[r] {
		return true
	}
	seen[r] = true
	switch r.op {
	case OpAlloc:
		return true
	case OpField, OpElem:
		return localRef(r.args[0], seen)
	case OpIte, OpStore:
		if r.op == OpIte {
			return localRef(r.args[1], seen) && localRef(r.args[2], seen)
		}
		return localRef(r.args[0], seen) && localRef(r.args[2], seen)
	case OpSelect:
		return localRef(r.args[0], seen)
	case OpFn:
		switch r.sym {
		case "cast":
			return localRef(r.args[0], seen)
		case "nil", "zeros", "listcap":
			return true
		}
		if strings.HasPrefix(r.sym, "lost") {
			return localRef(r.args[0], seen)
		}
	case OpSym:
		if v, ok := phiVals[r]; ok {
			return v[0] != nil && v[1] != nil && localRef(v[0], seen) && localRef(v[1], seen)
		}
	}
	return false
}

func (c *Cmp) verifyLoops(f *Facts, sl []*LoopRec) bool {
	for _, s := range sl {
		t := c.pair[s]
		g := f.With(t.pc...).With(c.substAll(s.pc)...).With(GeZ(t.k))
		if !c.eq(g, Subst(s.K, c.sub), t.K, 10) {
			return false
		}
		if s.kRes {
			if !c.eq(g, Subst(s.exitC, c.sub), t.exitC, 10) {
				return false
			}
		} else {
			g = g.With(Lt(t.k, t.K))
		}
		byS := map[*Term]*PhiRec{}
		for _, q := range t.phis {
			byS[q.sym] = q
		}
		for _, p := range s.phis {
			q := byS[c.sub[p.sym]]
			if q == nil {
				return false
			}
			if !c.eq(g, Subst(p.init, c.sub), q.init, 10) {
				return c.note("different start of %s", q.sym.sym)
			}
			ng := g
			if s.kRes {
				ng = g.With(Not(t.exitC))
			}
			if !c.eq(ng, Subst(p.next, c.sub), q.next, 10) {
				if debugEq {
					fmt.Printf("PHI FAIL %s: spec %s impl %s\n", q.sym, Subst(p.next, c.sub), q.next)
				}
				return c.note("different step of %s", q.sym.sym)
			}
		}
	}
	return true
}

func (c *Cmp) substAll(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, Subst(t, c.sub))
	}
	return out
}
