package main

// Entailment over linear integer/real arithmetic with a small propositional
// layer: the decision procedure behind every bounds, coverage and case
// argument.  Facts and goals are boolean terms; the procedure refutes
// facts ∧ ¬goal with a bounded number of case splits and answers "no" when it
// runs out of budget, so an answer "yes" is always a proof.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var nanAware = false // when set, a false float comparison gives no fact

type Facts struct {
	parent *Facts
	list   []*Term
	set    map[*Term]bool
	cache  map[*Term]bool
	incons int // 0 unknown, 1 yes, 2 no
	gen    int
}

func NewFacts(ts ...*Term) *Facts {
	f := &Facts{set: map[*Term]bool{}, cache: map[*Term]bool{}, gen: axiomGen}
	for _, t := range ts {
		f.add(t)
	}
	return f
}
func (f *Facts) With(ts ...*Term) *Facts {
	n := &Facts{parent: f, list: append([]*Term{}, f.list...), set: map[*Term]bool{}, cache: map[*Term]bool{}, gen: axiomGen}
	for t := range f.set {
		n.set[t] = true
	}
	for _, t := range ts {
		n.add(t)
	}
	if withLift || settling {
		n.settle(len(f.list))
	}
	return n
}

// settling: gated facts are restated where there is no assembly, too.
var settling = false

// settle restates gated facts whose gates the facts from index k on decide.
func (f *Facts) settle(k int) {
	for round := 0; round < 3 && k < len(f.list); round++ {
		m := map[*Term]*Term{}
		for _, t := range f.list[k:] {
			switch {
			case t.op == OpOr || t.op == OpAnd || t.op == OpIte || t.op == OpXor || t.op == OpBit:
			case t.op == OpNot && (t.args[0].op == OpBit || t.args[0].op == OpOr):
			default:
				m[t], m[Not(t)] = TTrue, TFalse
			}
		}
		end := len(f.list)
		for i, t := range f.list[:end] {
			g := gatesOf(t)
			if len(g) == 0 {
				continue
			}
			hit := false
			for c := range g {
				if i < k {
					hit = hit || m[c] != nil
				} else {
					hit = hit || m[c] != nil || f.set[c] || f.set[Not(c)]
				}
			}
			if !hit {
				continue
			}
			s := map[*Term]*Term{}
			for c, mm := range g {
				var v *Term
				switch {
				case m[c] != nil:
					v = m[c]
				case f.set[c]:
					v = TTrue
				case f.set[Not(c)]:
					v = TFalse
				}
				if v == nil {
					continue
				}
				if mm == nil {
					s[c] = v
				} else if (v == TTrue) == (mm.op == OpMax) {
					s[mm] = mm.args[0]
				} else {
					s[mm] = mm.args[1]
				}
			}
			f.add(Subst(t, s))
		}
		k = end
	}
}

var gateMemo = map[int]map[*Term]*Term{}

// gatesOf lists the conditions of the gated numbers in a comparison, with the
// minimum or maximum a condition decides.
func gatesOf(t *Term) map[*Term]*Term {
	a := t
	if a.op == OpNot {
		a = a.args[0]
	}
	if a.op != OpGe && a.op != OpEqZ {
		return nil
	}
	if g, ok := gateMemo[a.id]; ok {
		return g
	}
	var g map[*Term]*Term
	walk(a, map[int]bool{}, func(u *Term) {
		if u.sort != SInt {
			return
		}
		if g == nil {
			g = map[*Term]*Term{}
		}
		switch {
		case u.op == OpIte:
			g[u.args[0]] = nil
		case (u.op == OpMin || u.op == OpMax) && len(u.args) == 2:
			g[Ge(u.args[0], u.args[1])] = u
		}
	})
	gateMemo[a.id] = g
	return g
}

func (f *Facts) add(t *Term) {
	if t == TTrue {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			f.add(a)
		}
		return
	}
	if f.set[t] {
		return
	}
	f.set[t] = true
	f.list = append(f.list, t)
}

// axiom registry: facts attached to atoms by the front ends.
var atomAxioms = map[*Term][]*Term{}

func addAxiom(atom, fact *Term) {
	for _, a := range atomAxioms[atom] {
		if a == fact {
			return
		}
	}
	atomAxioms[atom] = append(atomAxioms[atom], fact)
	atomMemo = map[int]map[int]bool{}
}

// axiomGen counts retractions: what was proved before one may depend on the
// axioms withdrawn.
var axiomGen int

func retract(atom *Term) {
	if len(atomAxioms[atom]) > 0 {
		delete(atomAxioms, atom)
		axiomGen++
	}
}

func (f *Facts) memo() map[*Term]bool {
	if f.gen != axiomGen {
		f.gen, f.incons, f.cache = axiomGen, 0, map[*Term]bool{}
	}
	return f.cache
}

var proveCalls, lpCalls int

func (f *Facts) Prove(goal *Term) bool {
	if goal == TTrue {
		return true
	}
	if f.set[goal] {
		return true
	}
	if f.set[TFalse] {
		return true
	}
	if goal.op == OpAnd {
		for _, a := range goal.args {
			if !f.Prove(a) {
				return false
			}
		}
		return true
	}
	if r, ok := f.memo()[goal]; ok {
		return r
	}
	// proved with fewer facts
	for p := f.parent; p != nil; p = p.parent {
		if p.memo()[goal] {
			return true
		}
	}
	proveCalls++
	r := refute(append(append([]*Term{}, f.list...), Not(goal)), Not(goal))
	f.memo()[goal] = r
	return r
}

func (f *Facts) Infeasible() bool {
	if f.set[TFalse] {
		return true
	}
	f.memo()
	if f.incons == 0 {
		f.incons = 2
		if refute(f.list, nil) {
			f.incons = 1
		}
	}
	return f.incons == 1
}

// Decide returns +1 proven, -1 refuted, 0 unknown.
func (f *Facts) Decide(c *Term) int {
	if c == TTrue {
		return 1
	}
	if c == TFalse {
		return -1
	}
	if f.Prove(c) {
		return 1
	}
	if f.Prove(Not(c)) {
		return -1
	}
	return 0
}

func (f *Facts) NonNeg(t *Term) bool { return f.Prove(GeZ(t)) }

func provesNonNeg(t *Term) bool { return globalFacts.Prove(GeZ(t)) }

var globalFacts = NewFacts()

// ---------- refutation ----------

type lpRow struct {
	co  map[int]*big.Rat
	c   *big.Rat
	rel byte // '>' : >=0, 's' : >0, '=' : =0
}

type lctx struct {
	lits    map[*Term]bool
	rows    []lpRow
	clauses [][]*Term
	seen    map[int]bool // atoms with axioms instantiated
	vars    map[int]*Term
	nodes   *int
	contra  bool
}

const nodeBudget = 400

func refute(facts []*Term, seed *Term) bool {
	n := 0
	if seed != nil {
		// relevance: keep only facts connected to the seed
		facts = relevant(facts, seed)
	}
	c := &lctx{lits: map[*Term]bool{}, seen: map[int]bool{}, vars: map[int]*Term{}, nodes: &n}
	for _, f := range facts {
		c.assert(f)
		if c.contra {
			return true
		}
	}
	return c.solve()
}

// atomsOf collects the atoms facts may share: boolean atoms, the variables of
// linear forms, and what the axioms of either speak of.
func atomsOf(t *Term, out map[int]bool) {
	if len(t.args) == 0 && len(t.poly) == 0 && t.op != OpSym || t.op == OpBound {
		return
	}
	switch t.op {
	case OpTrue, OpFalse:
		return
	case OpPoly:
		for _, p := range t.poly {
			for _, f := range p.f {
				atomsOf(f.t, out)
			}
		}
		return
	case OpAnd, OpOr, OpNot, OpXor, OpGe, OpEqZ, OpFLt, OpFLe, OpFEq:
		for _, a := range t.args {
			atomsOf(a, out)
		}
		return
	}
	if out[t.id] {
		return
	}
	out[t.id] = true
	for _, ax := range atomAxioms[t] {
		atomsOf(ax, out)
	}
	down := false
	switch t.op {
	case OpIte, OpB2I, OpFDiv, OpTDiv, OpMin, OpMax:
		down = true
	case OpFn:
		switch t.sym {
		case "cyc", "tmod", "ftoi", "floor", "itof", "ordered", "ext", "rnd":
			down = true
		}
	}
	if down {
		for _, a := range t.args {
			atomsOf(a, out)
		}
	}
}

// atomMemo remembers atomsOf as long as no axiom is added.
var atomMemo = map[int]map[int]bool{}

func atomSet(t *Term) map[int]bool {
	if m, ok := atomMemo[t.id]; ok {
		return m
	}
	m := map[int]bool{}
	atomsOf(t, m)
	atomMemo[t.id] = m
	return m
}

func relevant(facts []*Term, seed *Term) []*Term {
	if len(facts) < 12 {
		return facts
	}
	have := map[int]bool{}
	atomsOf(seed, have)
	in := make([]bool, len(facts))
	ats := make([]map[int]bool, len(facts))
	for i, f := range facts {
		ats[i] = atomSet(f)
	}
	for changed := true; changed; {
		changed = false
		for i := range facts {
			if in[i] {
				continue
			}
			hit := len(ats[i]) == 0
			for a := range ats[i] {
				if have[a] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for a := range ats[i] {
					have[a] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

func (c *lctx) clone() *lctx {
	n := &lctx{lits: make(map[*Term]bool, len(c.lits)), seen: make(map[int]bool, len(c.seen)), vars: make(map[int]*Term, len(c.vars)), nodes: c.nodes}
	for k, v := range c.lits {
		n.lits[k] = v
	}
	for k, v := range c.seen {
		n.seen[k] = v
	}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	n.rows = append(n.rows, c.rows...)
	n.clauses = append(n.clauses, c.clauses...)
	return n
}

func (c *lctx) row(p *Term, rel byte) {
	r := lpRow{co: map[int]*big.Rat{}, c: new(big.Rat), rel: rel}
	for _, q := range toPoly(p) {
		if len(q.f) == 0 {
			r.c = q.c
			continue
		}
		var v *Term
		if len(q.f) == 1 && q.f[0].e == 1 {
			v = q.f[0].t
		} else {
			v = intern(Term{op: OpPoly, sort: p.sort, poly: []PT{{c: one, f: q.f}}})
		}
		r.co[v.id] = q.c
		c.vars[v.id] = v
		c.axioms(v)
	}
	c.rows = append(c.rows, r)
}

func (c *lctx) assert(t *Term) {
	if c.contra {
		return
	}
	switch t.op {
	case OpTrue:
		return
	case OpFalse:
		c.contra = true
		return
	case OpAnd:
		for _, a := range t.args {
			c.assert(a)
		}
		return
	}
	if c.lits[t] {
		return
	}
	if c.lits[Not(t)] {
		c.contra = true
		return
	}
	c.lits[t] = true
	switch t.op {
	case OpOr:
		c.clauses = append(c.clauses, t.args)
	case OpGe:
		c.row(t.args[0], '>')
	case OpEqZ:
		c.row(t.args[0], '=')
	case OpFLt:
		c.row(Neg(t.args[0]), 's')
		c.ordered(t.args[0])
	case OpFLe:
		c.row(Neg(t.args[0]), '>')
		c.ordered(t.args[0])
	case OpFEq:
		c.row(t.args[0], '=')
		c.ordered(t.args[0])
	case OpIte:
		c.clauses = append(c.clauses, []*Term{And(t.args[0], t.args[1]), And(Not(t.args[0]), t.args[2])})
	case OpXor:
		if len(t.args) == 2 {
			c.clauses = append(c.clauses, []*Term{And(t.args[0], Not(t.args[1])), And(Not(t.args[0]), t.args[1])})
		}
	case OpBit:
		c.bit(t, true)
	case OpNot:
		a := t.args[0]
		switch a.op {
		case OpEqZ:
			c.clauses = append(c.clauses, []*Term{GeZ(Sub(a.args[0], I(1))), GeZ(Sub(I(-1), a.args[0]))})
		case OpFLt:
			if !nanAware {
				c.row(a.args[0], '>')
			}
		case OpFLe:
			if !nanAware {
				c.row(a.args[0], 's')
			}
		case OpFEq:
			if !nanAware {
				c.clauses = append(c.clauses, []*Term{FLtZ(a.args[0]), FLtZ(Neg(a.args[0]))})
			}
		case OpIte:
			c.clauses = append(c.clauses, []*Term{And(a.args[0], Not(a.args[1])), And(Not(a.args[0]), Not(a.args[2]))})
		case OpXor:
			if len(a.args) == 2 {
				c.clauses = append(c.clauses, []*Term{And(a.args[0], a.args[1]), And(Not(a.args[0]), Not(a.args[1]))})
			}
		case OpBit:
			c.bit(a, false)
		}
	}
	// value of a 0/1 atom known
	if b := intern(Term{op: OpB2I, sort: SInt, args: []*Term{t}}); t.op != OpNot {
		c.row(Sub(b, I(1)), '=')
	}
	if t.op == OpNot {
		c.row(intern(Term{op: OpB2I, sort: SInt, args: []*Term{t.args[0]}}), '=')
	}
}

func (c *lctx) bit(t *Term, v bool) {}

func (c *lctx) axioms(v *Term) {
	if c.seen[v.id] {
		return
	}
	c.seen[v.id] = true
	for _, a := range atomAxioms[v] {
		c.assert(a)
	}
	switch v.op {
	case OpSym:
		if isLenSym(v) {
			c.assert(GeZ(v))
			c.assert(Ge(I(1<<60), v))
		}
	case OpB2I:
		c.row(v, '>')
		c.row(Sub(I(1), v), '>')
	case OpFDiv:
		n := I(v.n)
		d := Sub(v.args[0], Mul(n, v))
		c.row(d, '>')
		c.row(Sub(I(v.n-1), d), '>')
	case OpTDiv:
		a, b := v.args[0], v.args[1]
		if k, ok := b.constInt(); ok && k > 0 {
			m := Mul(I(k), v)
			c.clauses = append(c.clauses, []*Term{
				And(GeZ(a), GeZ(Sub(a, m)), GeZ(Add(m, Sub(I(k-1), a))), GeZ(v)),
				And(GeZ(Neg(a)), GeZ(Sub(m, a)), GeZ(Add(Sub(a, m), I(k-1))), GeZ(Neg(v)))})
		} else {
			// |v| <= |a|, sign
			c.clauses = append(c.clauses, []*Term{
				And(GeZ(a), GeZ(Sub(b, I(1))), GeZ(v), Ge(a, v)),
				And(Not(GeZ(a)), GeZ(Sub(b, I(1))), GeZ(Neg(v)), Ge(v, a)),
				GeZ(Neg(b))})
		}
	case OpMin:
		var eq []*Term
		for _, a := range v.args {
			c.row(Sub(a, v), '>')
			eq = append(eq, eqNum(a, v))
		}
		c.clauses = append(c.clauses, eq)
	case OpMax:
		var eq []*Term
		for _, a := range v.args {
			c.row(Sub(v, a), '>')
			eq = append(eq, eqNum(a, v))
		}
		c.clauses = append(c.clauses, eq)
	case OpIte:
		c.clauses = append(c.clauses, []*Term{And(v.args[0], eqNum(v, v.args[1])), And(Not(v.args[0]), eqNum(v, v.args[2]))})
	case OpFn:
		switch v.sym {
		case "len":
			c.row(v, '>')
		case "cyc":
			a, n := v.args[0], v.args[1]
			c.row(v, '>')
			c.row(Sub(Sub(n, I(1)), v), '>')
			eq := func(x *Term) *Term { return And(GeZ(Sub(x, v)), GeZ(Sub(v, x))) }
			c.clauses = append(c.clauses, []*Term{
				And(GeZ(a), GeZ(Sub(Sub(n, I(1)), a)), eq(a)),
				And(GeZ(Sub(I(-1), a)), GeZ(Add(a, n)), eq(Add(a, n))),
				And(GeZ(Sub(a, n)), GeZ(Sub(Sub(ScaleI(2, n), I(1)), a)), eq(Sub(a, n))),
				GeZ(Sub(a, ScaleI(2, n))), GeZ(Sub(Neg(Add(a, n)), I(1)))})
		case "tmod":
			a, b := v.args[0], v.args[1]
			c.clauses = append(c.clauses, []*Term{
				And(GeZ(a), GeZ(Sub(b, I(1))), GeZ(v), GeZ(Sub(Sub(b, I(1)), v)), Ge(a, v)),
				And(Not(GeZ(a)), GeZ(Sub(b, I(1))), GeZ(Neg(v)), GeZ(Add(Sub(b, I(1)), v)), Ge(v, a)),
				GeZ(Neg(b))})
			eq := func(x *Term) *Term { return And(GeZ(Sub(x, v)), GeZ(Sub(v, x))) }
			c.clauses = append(c.clauses, []*Term{
				And(GeZ(a), GeZ(Sub(Sub(b, I(1)), a)), eq(a)),
				And(GeZ(Sub(a, b)), GeZ(Sub(Sub(ScaleI(2, b), I(1)), a)), GeZ(Sub(b, I(1))), eq(Sub(a, b))),
				And(GeZ(Sub(I(-1), a)), GeZ(Sub(Add(a, b), I(1))), eq(a)),
				GeZ(Sub(a, ScaleI(2, b))), GeZ(Neg(b)), GeZ(Neg(Add(a, b)))})
		case "ftoi":
			// trunc toward zero of a float x: link the real variable
			x := v.args[0]
			d := mixSub(x, v) // x - v
			s := x.sort
			big := ConstI(s, 1<<62)
			cl := []*Term{
				And(FLeZ(Neg(x)), FLeZ(Neg(d)), FLtZ(Sub(d, ConstI(s, 1))), GeZ(v)),
				And(FLtZ(x), FLeZ(d), FLtZ(Sub(ConstI(s, -1), d)), GeZ(Neg(v))),
				// out of range: any value
				FLeZ(Sub(big, x)), FLeZ(Add(big, x))}
			if integral(x) {
				eq := And(FLeZ(d), FLeZ(Neg(d)))
				cl[0], cl[1] = And(cl[0], eq), And(cl[1], eq)
			}
			if nanAware {
				for _, y := range baseAtoms(x) {
					cl = append(cl, Not(ordered(y)))
				}
			}
			c.clauses = append(c.clauses, cl)
		case "floor":
			x := v.args[0]
			d := Sub(x, v)
			c.row(d, '>')
			c.row(Sub(ConstI(v.sort, 1), d), 's')
			// the floor of a non-negative number is not negative
			c.clauses = append(c.clauses, []*Term{
				And(FLeZ(Neg(x)), FLeZ(Neg(v))),
				And(FLtZ(x), FLeZ(Add(v, ConstI(v.sort, 1))))})
		case "fabs", "sqrt":
			c.row(v, '>')
		case "itof":
			// same value as the integer
			p := map[int]*big.Rat{}
			_ = p
			r := lpRow{co: map[int]*big.Rat{}, c: new(big.Rat), rel: '='}
			r.co[v.id] = big.NewRat(-1, 1)
			c.vars[v.id] = v
			for _, q := range toPoly(v.args[0]) {
				if len(q.f) == 0 {
					r.c = q.c
					continue
				}
				var w *Term
				if len(q.f) == 1 && q.f[0].e == 1 {
					w = q.f[0].t
				} else {
					w = intern(Term{op: OpPoly, sort: SInt, poly: []PT{{c: one, f: q.f}}})
				}
				r.co[w.id] = q.c
				c.vars[w.id] = w
				c.axioms(w)
			}
			c.rows = append(c.rows, r)
		}
	case OpPoly:
		// non-linear monomial: squares and products of non-negatives
		if len(v.poly) == 1 {
			sq := true
			for _, f := range v.poly[0].f {
				if f.e%2 != 0 {
					sq = false
				}
			}
			if sq {
				c.row(v, '>')
			}
		}
	}
}

// integral: a float term that only takes whole values.
func integral(x *Term) bool {
	for _, p := range toPoly(x) {
		if !p.c.IsInt() {
			return false
		}
		for _, f := range p.f {
			t := f.t
			for t.op == OpFn && (t.sym == "ext" || t.sym == "rnd") {
				t = t.args[0]
			}
			if f.e < 0 || t.op != OpFn || t.sym != "floor" && t.sym != "itof" {
				return false
			}
		}
	}
	return true
}

// baseAtoms are the inputs a float term is NaN because of.
func baseAtoms(x *Term) []*Term {
	var out []*Term
	for _, p := range toPoly(x) {
		for _, f := range p.f {
			if f.t.op == OpFn && (f.t.sym == "floor" || f.t.sym == "ext" || f.t.sym == "rnd") {
				out = append(out, baseAtoms(f.t.args[0])...)
			} else if f.t.op != OpFn || f.t.sym != "itof" {
				out = append(out, f.t)
			}
		}
	}
	return out
}

func ordered(x *Term) *Term {
	return intern(Term{op: OpFn, sort: SBool, sym: "ordered", args: []*Term{x}})
}

func (c *lctx) ordered(x *Term) {
	if nanAware {
		for _, y := range baseAtoms(x) {
			c.assert(ordered(y))
		}
	}
}

var opaqueTrue = intern(Term{op: OpSym, sort: SBool, sym: "<unconstrained>"})

// mixSub is x - itof(v) with the itof kept as an atom.
func mixSub(x, v *Term) *Term { return Sub(x, Fn(x.sort, 0, "itof", v)) }

func eqNum(a, b *Term) *Term {
	if a.sort == SInt {
		return EqI(a, b)
	}
	return FEq(a, b)
}

func isLenSym(t *Term) bool {
	n := len(t.sym)
	return n > 4 && (t.sym[n-4:] == "#len" || t.sym[n-4:] == "#cap")
}

// solve returns true when the context is contradictory.
func (c *lctx) solve() bool {
	for {
		if c.contra {
			return true
		}
		*c.nodes++
		if *c.nodes > nodeBudget {
			return false
		}
		if !c.simplify() {
			break
		}
	}
	if c.contra {
		return true
	}
	if c.diophantine() || c.lp(0) {
		return true
	}
	// split on the smallest clause
	best := -1
	for i, cl := range c.clauses {
		if best < 0 || len(cl) < len(c.clauses[best]) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	cl := c.clauses[best]
	rest := append(append([][]*Term{}, c.clauses[:best]...), c.clauses[best+1:]...)
	for i, l := range cl {
		if l == opaqueTrue {
			return false
		}
		n := c.clone()
		n.clauses = append([][]*Term{}, rest...)
		for _, p := range cl[:i] {
			if p.op != OpAnd {
				n.assert(Not(p))
			}
		}
		n.assert(l)
		if !n.solve() {
			return false
		}
	}
	return true
}

// simplify does unit propagation; true if something changed.
func (c *lctx) simplify() bool {
	var keep [][]*Term
	cls := c.clauses
	c.clauses = nil
	var units []*Term
	for _, cl := range cls {
		sat := false
		var ls []*Term
		for _, l := range cl {
			if c.holds(l) {
				sat = true
				break
			}
			if c.fails(l) {
				continue
			}
			ls = append(ls, l)
		}
		if sat {
			continue
		}
		switch len(ls) {
		case 0:
			c.contra = true
			return true
		case 1:
			if ls[0] != opaqueTrue {
				units = append(units, ls[0])
			}
		default:
			keep = append(keep, ls)
		}
	}
	c.clauses = append(c.clauses, keep...)
	for _, u := range units {
		c.assert(u)
		if c.contra {
			return true
		}
	}
	return len(units) > 0
}

func (c *lctx) holds(l *Term) bool {
	if l == TTrue || c.lits[l] {
		return true
	}
	if l.op == OpAnd {
		for _, a := range l.args {
			if !c.holds(a) {
				return false
			}
		}
		return true
	}
	return false
}
func (c *lctx) fails(l *Term) bool {
	if l == TFalse || c.lits[Not(l)] {
		return true
	}
	if l.op == OpAnd {
		for _, a := range l.args {
			if c.fails(a) {
				return true
			}
		}
	}
	return false
}

// ---------- simplex ----------

type qd struct{ r, d *big.Rat } // r + d*delta

func (a qd) cmp(b qd) int {
	if c := a.r.Cmp(b.r); c != 0 {
		return c
	}
	return a.d.Cmp(b.d)
}

// lp returns true when the rows are infeasible (over the integers for int
// variables, with bounded branching).
func (c *lctx) lp(depth int) bool {
	lpCalls++
	// collect variables
	var vars []int
	idx := map[int]int{}
	for _, r := range c.rows {
		for v := range r.co {
			if _, ok := idx[v]; !ok {
				idx[v] = 0
				vars = append(vars, v)
			}
		}
	}
	sort.Ints(vars)
	for i, v := range vars {
		idx[v] = i
	}
	n := len(vars)
	// single-variable rows become bounds; others slack rows
	total := n
	type bnd struct {
		has bool
		v   qd
	}
	lo := make([]bnd, n)
	hi := make([]bnd, n)
	setLo := func(i int, v qd) {
		if !lo[i].has || lo[i].v.cmp(v) < 0 {
			lo[i] = bnd{true, v}
		}
	}
	setHi := func(i int, v qd) {
		if !hi[i].has || hi[i].v.cmp(v) > 0 {
			hi[i] = bnd{true, v}
		}
	}
	zero := new(big.Rat)
	var tab []map[int]*big.Rat // basic row: basic = sum co*nonbasic
	var basicOf []int
	rowKey := map[string]int{}
	for _, r := range c.rows {
		if len(r.co) == 0 {
			s := r.c.Sign()
			if (r.rel == '>' && s < 0) || (r.rel == 's' && s <= 0) || (r.rel == '=' && s != 0) {
				return true
			}
			continue
		}
		if len(r.co) == 1 {
			for v, k := range r.co {
				i := idx[v]
				b := new(big.Rat).Quo(new(big.Rat).Neg(r.c), k)
				d := zero
				if r.rel == 's' {
					d = big.NewRat(int64(k.Sign()), 1)
				}
				if c.vars[v].sort == SInt && r.rel != 's' && !b.IsInt() {
					if r.rel == '=' {
						return true
					}
					// round
					q := new(big.Int).Div(b.Num(), b.Denom())
					if k.Sign() > 0 {
						q.Add(q, big.NewInt(1))
					}
					b = new(big.Rat).SetInt(q)
				}
				if r.rel == '=' {
					setLo(i, qd{b, zero})
					setHi(i, qd{b, zero})
				} else if k.Sign() > 0 {
					setLo(i, qd{b, d})
				} else {
					setHi(i, qd{b, d})
				}
			}
			continue
		}
		// normalise direction by smallest var coefficient
		minv := -1
		for v := range r.co {
			if minv < 0 || v < minv {
				minv = v
			}
		}
		lead := r.co[minv]
		row := map[int]*big.Rat{}
		var ks []int
		for v, k := range r.co {
			row[idx[v]] = new(big.Rat).Quo(k, lead)
			ks = append(ks, idx[v])
		}
		sort.Ints(ks)
		key := ""
		for _, k := range ks {
			key += itoa(k) + ":" + row[k].RatString() + ";"
		}
		b := new(big.Rat).Quo(new(big.Rat).Neg(r.c), lead)
		si, ok := rowKey[key]
		if !ok {
			si = total
			total++
			rowKey[key] = si
			lo = append(lo, bnd{})
			hi = append(hi, bnd{})
			tab = append(tab, row)
			basicOf = append(basicOf, si)
		}
		d := zero
		if r.rel == 's' {
			d = big.NewRat(int64(lead.Sign()), 1)
		}
		if r.rel == '=' {
			setLo(si, qd{b, zero})
			setHi(si, qd{b, zero})
		} else if lead.Sign() > 0 {
			setLo(si, qd{b, d})
		} else {
			setHi(si, qd{b, d})
		}
	}
	for i := 0; i < total; i++ {
		if lo[i].has && hi[i].has && lo[i].v.cmp(hi[i].v) > 0 {
			return true
		}
	}
	val := make([]qd, total)
	isBasic := make([]int, total)
	for i := range isBasic {
		isBasic[i] = -1
	}
	for r, b := range basicOf {
		isBasic[b] = r
	}
	for i := 0; i < n; i++ {
		switch {
		case lo[i].has:
			val[i] = lo[i].v
		case hi[i].has:
			val[i] = hi[i].v
		default:
			val[i] = qd{zero, zero}
		}
	}
	compute := func() {
		for r, b := range basicOf {
			s := qd{new(big.Rat), new(big.Rat)}
			for j, k := range tab[r] {
				s.r.Add(s.r, new(big.Rat).Mul(k, val[j].r))
				if val[j].d.Sign() != 0 {
					s.d.Add(s.d, new(big.Rat).Mul(k, val[j].d))
				}
			}
			val[b] = s
		}
	}
	compute()
	for iter := 0; iter < 2000; iter++ {
		// Bland: smallest violated basic
		bi, br := -1, -1
		low := false
		for r, b := range basicOf {
			if bi >= 0 && b > bi {
				continue
			}
			if lo[b].has && val[b].cmp(lo[b].v) < 0 {
				bi, br, low = b, r, true
			} else if hi[b].has && val[b].cmp(hi[b].v) > 0 {
				bi, br, low = b, r, false
			}
		}
		if bi < 0 {
			// feasible over the rationals: branch
			return c.branch(depth, vars, val, idx)
		}
		// entering
		ent := -1
		for j, k := range tab[br] {
			if k.Sign() == 0 {
				continue
			}
			var ok bool
			if low == (k.Sign() > 0) { // increase j
				ok = !hi[j].has || val[j].cmp(hi[j].v) < 0
			} else {
				ok = !lo[j].has || val[j].cmp(lo[j].v) > 0
			}
			if ok && (ent < 0 || j < ent) {
				ent = j
			}
		}
		if ent < 0 {
			return true
		}
		target := lo[bi].v
		if !low {
			target = hi[bi].v
		}
		// pivot: bi = sum ; solve for ent
		row := tab[br]
		ke := row[ent]
		inv := new(big.Rat).Inv(ke)
		nr := map[int]*big.Rat{bi: inv}
		for j, k := range row {
			if j != ent && k.Sign() != 0 {
				x := new(big.Rat).Mul(k, inv)
				nr[j] = x.Neg(x)
			}
		}
		tab[br] = nr
		basicOf[br] = ent
		isBasic[ent] = br
		isBasic[bi] = -1
		val[bi] = target
		for r := range tab {
			if r == br {
				continue
			}
			k, ok := tab[r][ent]
			if !ok {
				continue
			}
			delete(tab[r], ent)
			if k.Sign() == 0 {
				continue
			}
			for j, x := range nr {
				y := new(big.Rat).Mul(k, x)
				if o, ok := tab[r][j]; ok {
					y.Add(y, o)
				}
				if y.Sign() == 0 {
					delete(tab[r], j)
				} else {
					tab[r][j] = y
				}
			}
		}
		compute()
	}
	return false
}

func (c *lctx) branch(depth int, vars []int, val []qd, idx map[int]int) bool {
	if depth >= 4 {
		return false
	}
	for i, v := range vars {
		if c.vars[v].sort != SInt {
			continue
		}
		if val[i].r.IsInt() {
			continue
		}
		fl := new(big.Int).Div(val[i].r.Num(), val[i].r.Denom())
		a := c.clone()
		a.rows = append(a.rows, lpRow{co: map[int]*big.Rat{v: big.NewRat(-1, 1)}, c: new(big.Rat).SetInt(fl), rel: '>'})
		if !a.lp(depth + 1) {
			return false
		}
		b := c.clone()
		fl1 := new(big.Int).Add(fl, big.NewInt(1))
		b.rows = append(b.rows, lpRow{co: map[int]*big.Rat{v: big.NewRat(1, 1)}, c: new(big.Rat).Neg(new(big.Rat).SetInt(fl1)), rel: '>'})
		return b.lp(depth + 1)
	}
	return false
}

func itoa(i int) string {
	return big.NewInt(int64(i)).String()
}

// diophantine refutes the equations among the integer variables by
// elimination of variables with unit coefficients and divisibility, and
// opposite inequalities tightened after that elimination.
func (c *lctx) diophantine() bool {
	type eqn struct {
		co map[int]int64
		c  int64
		eq bool
	}
	const big53 = 1 << 40
	var es, in []eqn
	steep := false
	for _, r := range c.rows {
		if len(r.co) < 2 && r.rel == '=' || r.rel == 's' {
			continue
		}
		e := eqn{co: map[int]int64{}, eq: r.rel == '='}
		ok := r.c.IsInt() && r.c.Num().IsInt64()
		for v, k := range r.co {
			if c.vars[v].sort != SInt || !k.IsInt() || !k.Num().IsInt64() {
				ok = false
				break
			}
			e.co[v] = k.Num().Int64()
			if x := e.co[v]; len(r.co) > 1 && (x > 1 || x < -1) {
				steep = true
			}
		}
		if ok {
			e.c = r.c.Num().Int64()
			if e.eq {
				es = append(es, e)
			} else {
				in = append(in, e)
			}
		}
	}
	if len(es)+len(in) < 2 || !steep {
		return false
	}
	elim := func(e, p *eqn, pv int, s int64) bool {
		k := e.co[pv]
		if k == 0 {
			return true
		}
		delete(e.co, pv)
		for v, q := range p.co {
			if v == pv {
				continue
			}
			n := e.co[v] - k*s*q
			if n > big53 || n < -big53 {
				return false
			}
			if n == 0 {
				delete(e.co, v)
			} else {
				e.co[v] = n
			}
		}
		e.c -= k * s * p.c
		return e.c <= big53 && e.c >= -big53
	}
	rounds := 0
again:
	for len(es) > 0 {
		// smallest equation with a unit coefficient
		pick, pv := -1, -1
		for i, e := range es {
			g := int64(0)
			for _, k := range e.co {
				g = gcd(g, k)
			}
			if g == 0 {
				if e.c != 0 {
					return true
				}
				continue
			}
			if e.c%g != 0 {
				return true
			}
			if g > 1 {
				for v := range e.co {
					e.co[v] /= g
				}
				es[i].c /= g
			}
			bv := -1
			for v, k := range e.co {
				if (k == 1 || k == -1) && (bv < 0 || v < bv) {
					bv = v
				}
			}
			if bv >= 0 && (pick < 0 || len(e.co) < len(es[pick].co)) {
				pick, pv = i, bv
			}
		}
		if pick < 0 {
			break
		}
		e := es[pick]
		s := e.co[pv]
		es = append(es[:pick:pick], es[pick+1:]...)
		for i := range es {
			if !elim(&es[i], &e, pv, s) {
				return false
			}
		}
		for i := range in {
			if !elim(&in[i], &e, pv, s) {
				return false
			}
		}
	}
	low := map[string]int64{}
	for i, e := range in {
		g := int64(0)
		for _, k := range e.co {
			g = gcd(g, k)
		}
		if g == 0 {
			if e.c < 0 {
				return true
			}
			continue
		}
		q := e.c / g
		if e.c%g != 0 && e.c < 0 {
			q--
		}
		var vs []int
		for v := range e.co {
			vs = append(vs, v)
		}
		sort.Ints(vs)
		var pos, neg strings.Builder
		for _, v := range vs {
			fmt.Fprintf(&pos, "%d:%d ", v, e.co[v]/g)
			fmt.Fprintf(&neg, "%d:%d ", v, -e.co[v]/g)
		}
		if o, ok := low[neg.String()]; ok && o+q <= 0 {
			if o+q < 0 {
				return true
			}
			for v := range e.co { // squeezed to an equation
				e.co[v] /= g
			}
			es = append(es, eqn{co: e.co, c: q, eq: true})
			in = append(in[:i:i], in[i+1:]...)
			if rounds++; rounds > 6 {
				return false
			}
			goto again
		}
		if o, ok := low[pos.String()]; !ok || q < o {
			low[pos.String()] = q
		}
	}
	return false
}
