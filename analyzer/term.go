package main

// Hash-consed value terms: the value-flow normal forms everything else works on.
//
// Numeric terms (Int, F32, F64) are kept as polynomials over atoms, bit
// vectors as vectors of boolean formulas over bits of atoms, memory as
// functional arrays.  Float terms are normalised as real numbers with
// coefficients rounded to 11 significant digits: re-association and constant
// folding do not change a normal form, a different constant, operand, sign or
// operation does.  float32 and float64 arithmetic are different sorts, and a
// conversion between them is an explicit operator.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SF32
	SF64
	SBool
	SBV
	SArr
	SRef
	SStr
	SObj
)

func (s Sort) String() string {
	return [...]string{"int", "f32", "f64", "bool", "bv", "arr", "ref", "str", "obj"}[s]
}

type Op uint8

const (
	OpSym    Op = iota // free symbol
	OpPoly             // numeric polynomial
	OpFn               // uninterpreted or known function sym(args)
	OpIte              // args: c,a,b
	OpMin              // numeric, args sorted
	OpMax              //
	OpFDiv             // Int: floor(args[0] / n)
	OpTDiv             // Int: truncated division args[0]/args[1]
	OpB2I              // Int 0/1 of a bool
	OpBits             // BV: args are bools, lsb first
	OpTrue             //
	OpFalse            //
	OpNot              //
	OpAnd              //
	OpOr               //
	OpXor              //
	OpGe               // Int: args[0] >= 0
	OpEqZ              // Int: args[0] == 0
	OpFLt              // float: args[0] < 0
	OpFLe              // float: args[0] <= 0
	OpFEq              // float: args[0] == 0
	OpBit              // bool: bit n of args[0]
	OpTab              // bool: truth table sym over args (bit atoms)
	OpEq               // bool: equality of opaque terms
	OpStore            // arr: args arr, idx, val
	OpMap              // arr: args arr, count, idx1, val1, ... ; bound variable bv(n)
	OpSelect           // elem: args arr, idx
	OpArrLit           // arr: args elems (sym = default: "" unknown)
	OpBound            // bound variable number n
	OpSum              // numeric: sum over b<args[0] of args[1]
	OpRMax             // numeric: max over b<args[0] of args[1]; -inf when empty
	OpRMin             //
	OpAlloc            // ref: allocation site sym, args loop counters
	OpField            // ref: pointer to field sym of args[0]
	OpElem             // ref: pointer to element args[1] of region args[0]
	OpFin              // final value of a loop variable
)

type Fac struct {
	t *Term
	e int
}
type PT struct {
	c *big.Rat
	f []Fac
}
type Term struct {
	id    int
	op    Op
	sort  Sort
	w     int  // BV width
	es    Sort // element sort (arrays)
	ew    int
	n     int64
	sym   string
	args  []*Term
	poly  []PT
	fb    uint64 // free bound variables
	bh    int    // bound height: 1 + max bound var index inside (0 if closed)
	free  bool   // contains a bound variable free at this level (see bh)
	depth int
}

var (
	interned = map[string]*Term{}
	allTerms []*Term
)

func key(t *Term) string {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteByte(byte('a' + t.sort))
	if t.w != 0 {
		b.WriteString(strconv.Itoa(t.w))
	}
	if t.sort == SArr {
		b.WriteByte('[')
		b.WriteByte(byte('a' + t.es))
		b.WriteString(strconv.Itoa(t.ew))
	}
	b.WriteByte('#')
	b.WriteString(strconv.FormatInt(t.n, 10))
	b.WriteByte('"')
	b.WriteString(t.sym)
	b.WriteByte('"')
	for _, a := range t.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	for _, p := range t.poly {
		b.WriteByte('+')
		b.WriteString(p.c.RatString())
		for _, f := range p.f {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(f.t.id))
			b.WriteByte('^')
			b.WriteString(strconv.Itoa(f.e))
		}
	}
	return b.String()
}

func intern(t Term) *Term {
	k := key(&t)
	if x, ok := interned[k]; ok {
		return x
	}
	x := &t
	x.id = len(allTerms) + 1
	h := 0
	d := 0
	upd := func(a *Term) {
		if a.bh > h {
			h = a.bh
		}
		if a.depth > d {
			d = a.depth
		}
	}
	for _, a := range x.args {
		upd(a)
	}
	for _, p := range x.poly {
		for _, f := range p.f {
			upd(f.t)
		}
	}
	if x.op == OpBound && int(x.n)+1 > h {
		h = int(x.n) + 1
	}
	x.bh = h
	sc, binds := binderScope(x)
	for i, a := range x.args {
		m := a.fb
		if binds && i >= sc {
			m &^= 1 << uint(x.n)
		}
		x.fb |= m
	}
	for _, p := range x.poly {
		for _, f := range p.f {
			x.fb |= f.t.fb
		}
	}
	if x.op == OpBound {
		x.fb = 1 << uint(x.n)
	}
	x.depth = d + 1
	interned[k] = x
	allTerms = append(allTerms, x)
	return x
}

// ---------- symbols, constants ----------

func Sym(name string, s Sort) *Term { return intern(Term{op: OpSym, sort: s, sym: name}) }
func SymBV(name string, w int) *Term {
	return intern(Term{op: OpSym, sort: SBV, w: w, sym: name})
}
func SymArr(name string, es Sort, ew int) *Term {
	return intern(Term{op: OpSym, sort: SArr, es: es, ew: ew, sym: name})
}
func symLike(name string, t *Term) *Term {
	return intern(Term{op: OpSym, sort: t.sort, w: t.w, es: t.es, ew: t.ew, sym: name})
}

var TTrue = intern(Term{op: OpTrue, sort: SBool})
var TFalse = intern(Term{op: OpFalse, sort: SBool})

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func isFloat(s Sort) bool { return s == SF32 || s == SF64 }
func isNum(s Sort) bool   { return s == SInt || s == SF32 || s == SF64 }

func roundRat(c *big.Rat) *big.Rat {
	if c.Sign() == 0 || (c.IsInt() && c.Num().BitLen() < 40) {
		return c
	}
	if c.Denom().BitLen() < 20 && c.Num().BitLen() < 20 {
		return c
	}
	f := new(big.Float).SetPrec(200).SetRat(c)
	s := f.Text('e', 10)
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("roundRat " + s)
	}
	return r
}

func Const(s Sort, c *big.Rat) *Term {
	if isFloat(s) {
		c = roundRat(c)
	}
	if c.Sign() == 0 {
		return intern(Term{op: OpPoly, sort: s})
	}
	return intern(Term{op: OpPoly, sort: s, poly: []PT{{c: c}}})
}
func ConstI(s Sort, i int64) *Term { return Const(s, new(big.Rat).SetInt64(i)) }
func I(i int64) *Term              { return ConstI(SInt, i) }

func (t *Term) constRat() (*big.Rat, bool) {
	if t.op != OpPoly {
		return nil, false
	}
	if len(t.poly) == 0 {
		return new(big.Rat), true
	}
	if len(t.poly) == 1 && len(t.poly[0].f) == 0 {
		return t.poly[0].c, true
	}
	return nil, false
}
func (t *Term) constInt() (int64, bool) {
	c, ok := t.constRat()
	if !ok || !c.IsInt() || !c.Num().IsInt64() {
		return 0, false
	}
	return c.Num().Int64(), true
}

// ---------- polynomials ----------

var one = big.NewRat(1, 1)

func toPoly(t *Term) []PT {
	if t.op == OpPoly {
		return t.poly
	}
	return []PT{{c: one, f: []Fac{{t, 1}}}}
}

func facKey(f []Fac) string {
	var b strings.Builder
	for _, x := range f {
		b.WriteString(strconv.Itoa(x.t.id))
		b.WriteByte('^')
		b.WriteString(strconv.Itoa(x.e))
		b.WriteByte('*')
	}
	return b.String()
}

func fromPoly(s Sort, ps []PT) *Term {
	m := map[string]*PT{}
	var keys []string
	for _, p := range ps {
		k := facKey(p.f)
		if q, ok := m[k]; ok {
			q.c = new(big.Rat).Add(q.c, p.c)
		} else {
			c := p
			m[k] = &c
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []PT
	for _, k := range keys {
		p := *m[k]
		if isFloat(s) {
			p.c = roundRat(p.c)
			// residue of cancellation between rounded coefficients
			if p.c.Sign() != 0 {
				f, _ := p.c.Float64()
				if f < 1e-300 && f > -1e-300 {
					continue
				}
			}
		}
		if p.c.Sign() != 0 {
			out = append(out, p)
		}
	}
	if len(out) == 1 && out[0].c.Cmp(one) == 0 && len(out[0].f) == 1 && out[0].f[0].e == 1 && out[0].f[0].t.op != OpPoly {
		return out[0].f[0].t
	}
	return intern(Term{op: OpPoly, sort: s, poly: out})
}

func Add(ts ...*Term) *Term {
	var ps []PT
	s := ts[0].sort
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("Add: sort mismatch %v %v: %s / %s", s, t.sort, ts[0], t))
		}
		ps = append(ps, toPoly(t)...)
	}
	return fromPoly(s, ps)
}
func Scale(c *big.Rat, t *Term) *Term {
	var ps []PT
	for _, p := range toPoly(t) {
		ps = append(ps, PT{c: new(big.Rat).Mul(c, p.c), f: p.f})
	}
	return fromPoly(t.sort, ps)
}
func ScaleI(c int64, t *Term) *Term { return Scale(new(big.Rat).SetInt64(c), t) }
func Neg(t *Term) *Term             { return ScaleI(-1, t) }
func Sub(a, b *Term) *Term          { return Add(a, Neg(b)) }

func mulFacs(a, b []Fac) []Fac {
	var out []Fac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].t.id < b[j].t.id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].t.id < a[i].t.id:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, Fac{a[i].t, e})
			}
			i++
			j++
		}
	}
	return out
}

func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Mul: sort mismatch %v %v: %s / %s", a.sort, b.sort, a, b))
	}
	pa, pb := toPoly(a), toPoly(b)
	if len(pa)*len(pb) > 4000 {
		// too large to expand: keep as opaque product
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return Fn(a.sort, 0, "bigmul", x, y)
	}
	var ps []PT
	for _, x := range pa {
		for _, y := range pb {
			ps = append(ps, PT{c: new(big.Rat).Mul(x.c, y.c), f: mulFacs(x.f, y.f)})
		}
	}
	return fromPoly(a.sort, reduceSqrt(a.sort, ps))
}

func reduceSqrt(s Sort, ps []PT) []PT {
	for i, p := range ps {
		for j, f := range p.f {
			if f.t.op == OpFn && f.t.sym == "sqrt" && f.e >= 2 {
				rest := append([]Fac{}, p.f[:j]...)
				rest = append(rest, p.f[j+1:]...)
				if f.e > 2 {
					rest = mulFacs(rest, []Fac{{f.t, f.e - 2}})
				}
				t := Mul(fromPoly(s, []PT{{c: p.c, f: rest}}), f.t.args[0])
				out := append([]PT{}, ps[:i]...)
				out = append(out, ps[i+1:]...)
				out = append(out, toPoly(t)...)
				return reduceSqrt(s, out)
			}
			if f.t.op == OpB2I && f.e >= 2 {
				nf := append([]Fac{}, p.f...)
				nf[j].e = 1
				ps[i].f = nf
			}
		}
	}
	return ps
}

// Inv is 1/t for floats.
func Inv(t *Term) *Term {
	ps := toPoly(t)
	if len(ps) == 0 {
		return Fn(t.sort, 0, "inv0")
	}
	if len(ps) == 1 {
		var f []Fac
		for _, x := range ps[0].f {
			f = append(f, Fac{x.t, -x.e})
		}
		return fromPoly(t.sort, []PT{{c: new(big.Rat).Inv(ps[0].c), f: f}})
	}
	lead := leadCoef(t)
	m := Scale(new(big.Rat).Inv(lead), t)
	return fromPoly(t.sort, []PT{{c: new(big.Rat).Inv(lead), f: []Fac{{m, -1}}}})
}

// leadCoef: coefficient of the non-constant monomial whose factors are oldest.
func leadCoef(t *Term) *big.Rat {
	ps := toPoly(t)
	var best *PT
	less := func(a, b []Fac) bool {
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i].t.id != b[i].t.id {
				return a[i].t.id < b[i].t.id
			}
			if a[i].e != b[i].e {
				return a[i].e < b[i].e
			}
		}
		return len(a) < len(b)
	}
	for i := range ps {
		if len(ps[i].f) == 0 {
			continue
		}
		if best == nil || less(ps[i].f, best.f) {
			best = &ps[i]
		}
	}
	if best == nil {
		return ps[0].c
	}
	return best.c
}

func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

// intContent returns gcd of the non-constant coefficients (ints).
func intContent(t *Term) *big.Int {
	g := new(big.Int)
	for _, p := range toPoly(t) {
		if len(p.f) == 0 {
			continue
		}
		if !p.c.IsInt() {
			return big.NewInt(1)
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(p.c.Num()))
	}
	if g.Sign() == 0 {
		return big.NewInt(1)
	}
	return g
}

func constPart(t *Term) *big.Rat {
	for _, p := range toPoly(t) {
		if len(p.f) == 0 {
			return p.c
		}
	}
	return new(big.Rat)
}

// FDiv is floor(t/n), n>0.
func FDiv(t *Term, n int64) *Term {
	if n <= 0 {
		panic("FDiv by non-positive")
	}
	if n == 1 {
		return t
	}
	N := big.NewInt(n)
	// nested: fdiv(fdiv(x,a),b) = fdiv(x,a*b)
	if t.op == OpFDiv {
		return FDiv(t.args[0], t.n*n)
	}
	// split off the part divisible by n
	var q, r []PT
	for _, p := range toPoly(t) {
		if !p.c.IsInt() {
			r = append(r, p)
			continue
		}
		if len(p.f) == 0 {
			m := new(big.Int)
			d := new(big.Int)
			d.DivMod(p.c.Num(), N, m)
			q = append(q, PT{c: new(big.Rat).SetInt(d), f: p.f})
			if m.Sign() != 0 {
				r = append(r, PT{c: new(big.Rat).SetInt(m), f: p.f})
			}
			continue
		}
		m := new(big.Int).Mod(p.c.Num(), N)
		if m.Sign() == 0 {
			q = append(q, PT{c: new(big.Rat).SetInt(new(big.Int).Quo(p.c.Num(), N)), f: p.f})
		} else {
			// keep coefficient residue in (-n/2, n/2]
			d := new(big.Int).Div(p.c.Num(), N)
			if new(big.Int).Mul(m, big.NewInt(2)).Cmp(N) > 0 {
				m.Sub(m, N)
				d.Add(d, big.NewInt(1))
			}
			if d.Sign() != 0 {
				q = append(q, PT{c: new(big.Rat).SetInt(d), f: p.f})
			}
			r = append(r, PT{c: new(big.Rat).SetInt(m), f: p.f})
		}
	}
	qt := fromPoly(SInt, q)
	rt := fromPoly(SInt, r)
	if c, ok := rt.constInt(); ok {
		if c >= 0 && c < n {
			return qt
		}
	}
	// range of the remainder part may settle it
	if lo, hi, ok := bitRange(rt); ok && lo >= 0 && hi < n {
		return qt
	}
	// common factor
	g := intContent(rt)
	if g.Cmp(big.NewInt(1)) > 0 {
		gg := new(big.Int).GCD(nil, nil, g, N)
		if gg.Cmp(big.NewInt(1)) > 0 {
			c := constPart(rt)
			if c.IsInt() {
				// floor((g*x + c)/(g*m)) = floor((x + floor(c/g))/m)
				m := new(big.Int)
				d := new(big.Int)
				d.DivMod(c.Num(), gg, m)
				rest := Sub(rt, Const(SInt, c))
				rest = Scale(new(big.Rat).SetFrac(big.NewInt(1), gg), rest)
				rest = Add(rest, Const(SInt, new(big.Rat).SetInt(d)))
				nn := new(big.Int).Quo(N, gg).Int64()
				return Add(qt, FDiv(rest, nn))
			}
		}
	}
	if rt.op == OpFDiv {
		return Add(qt, FDiv(rt, n))
	}
	return Add(qt, intern(Term{op: OpFDiv, sort: SInt, n: n, args: []*Term{rt}}))
}

// bitRange gives bounds of a polynomial made only of 0/1 atoms.
func bitRange(t *Term) (lo, hi int64, ok bool) {
	for _, p := range toPoly(t) {
		if !p.c.IsInt() || !p.c.Num().IsInt64() {
			return 0, 0, false
		}
		c := p.c.Num().Int64()
		if c > 1<<40 || c < -(1<<40) {
			return 0, 0, false
		}
		for _, f := range p.f {
			if f.t.op != OpB2I {
				return 0, 0, false
			}
		}
		if len(p.f) == 0 {
			lo += c
			hi += c
		} else if c > 0 {
			hi += c
		} else {
			lo += c
		}
	}
	return lo, hi, true
}

// TDiv is Go's integer division.
func TDiv(a, b *Term) *Term {
	if c, ok := b.constInt(); ok && c != 0 {
		if x, ok := a.constInt(); ok {
			return I(x / c)
		}
		if c == 1 {
			return a
		}
		if c == -1 {
			return Neg(a)
		}
		if lo, _, ok := bitRange(a); c > 0 && ok && lo >= 0 {
			return FDiv(a, c)
		}
		if c > 0 && provesNonNeg(a) {
			return FDiv(a, c)
		}
		g := intContent(a)
		cp := constPart(a)
		if c > 0 && cp.IsInt() && new(big.Int).Mod(g, big.NewInt(c)).Sign() == 0 && new(big.Int).Mod(cp.Num(), big.NewInt(c)).Sign() == 0 {
			return Scale(big.NewRat(1, c), a)
		}
	}
	return intern(Term{op: OpTDiv, sort: SInt, args: []*Term{a, b}})
}

// ---------- min / max ----------

var infF32 = intern(Term{op: OpSym, sort: SF32, sym: "inf"})
var infF64 = intern(Term{op: OpSym, sort: SF64, sym: "inf"})

func Inf(s Sort) *Term {
	if s == SF32 {
		return infF32
	}
	return infF64
}
func isInf(t *Term) int {
	if t == infF32 || t == infF64 {
		return 1
	}
	if t.op == OpPoly && len(t.poly) == 1 && len(t.poly[0].f) == 1 && (t.poly[0].f[0].t == infF32 || t.poly[0].f[0].t == infF64) {
		return t.poly[0].c.Sign()
	}
	return 0
}

func MinMax(op Op, ts ...*Term) *Term {
	s := ts[0].sort
	set := map[int]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == op {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if isFloat(s) {
			if i := isInf(t); (i < 0 && op == OpMax) || (i > 0 && op == OpMin) {
				return
			}
		}
		set[t.id] = t
	}
	for _, t := range ts {
		add(t)
	}
	var out []*Term
	for _, t := range set {
		out = append(out, t)
	}
	if len(out) == 0 {
		if op == OpMax {
			return Neg(Inf(s))
		}
		return Inf(s)
	}
	sortTerms(out)
	if isFloat(s) && len(out) >= 2 {
		if f := posContent(out); f != nil {
			g := Inv(f)
			var ts []*Term
			for _, t := range out {
				ts = append(ts, Mul(g, t))
			}
			return Mul(f, minMax(op, s, ts))
		}
	}
	return minMax(op, s, out)
}

// posContent is a positive factor all the terms share: the size of their
// leading coefficients and common inverse factors known to be positive.
func posContent(ts []*Term) *Term {
	var c *big.Rat
	common := map[int]Fac{}
	for i, t := range ts {
		ps := toPoly(t)
		if len(ps) == 0 || isInf(t) != 0 {
			return nil
		}
		l := new(big.Rat).Abs(leadCoef(t))
		if c == nil || l.Cmp(c) > 0 {
			c = l
		}
		for j, p := range ps {
			here := map[int]Fac{}
			for _, f := range p.f {
				if f.e < 0 && positiveTerm(f.t) {
					if i == 0 && j == 0 {
						here[f.t.id] = f
					} else if o, ok := common[f.t.id]; ok {
						here[f.t.id] = Fac{f.t, max(o.e, f.e)}
					}
				}
			}
			common = here
		}
	}
	if len(common) == 0 && c.Cmp(one) == 0 {
		return nil
	}
	var fs []Fac
	for _, f := range common {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].t.id < fs[j].t.id })
	return fromPoly(ts[0].sort, []PT{{c: c, f: fs}})
}

// positiveTerm: sums of lengths and a positive constant.
func positiveTerm(t *Term) bool {
	pos := false
	for _, p := range toPoly(t) {
		if p.c.Sign() < 0 {
			return false
		}
		if len(p.f) == 0 {
			pos = true
			continue
		}
		for _, f := range p.f {
			a := f.t
			if a.op == OpFn && a.sym == "itof" {
				a = a.args[0]
			}
			if !isLenSym(a) {
				return false
			}
		}
	}
	return pos
}

func minMax(op Op, s Sort, out []*Term) *Term {
	sortTerms(out)
	// drop terms dominated by a constant difference
	var keep []*Term
	for i, a := range out {
		dom := false
		for j, b := range out {
			if i == j {
				continue
			}
			if c, ok := Sub(a, b).constRat(); ok {
				if (op == OpMax && c.Sign() < 0) || (op == OpMin && c.Sign() > 0) {
					dom = true
				}
			}
		}
		if !dom {
			keep = append(keep, a)
		}
	}
	if len(keep) == 1 {
		return keep[0]
	}
	return intern(Term{op: op, sort: s, args: keep})
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

// ---------- functions ----------

func Fn(s Sort, w int, name string, args ...*Term) *Term {
	switch name {
	case "cos", "sin":
		if isFloat(s) && len(args) == 1 && len(toPoly(args[0])) > 0 && leadCoef(args[0]).Sign() < 0 {
			t := intern(Term{op: OpFn, sort: s, sym: name, args: []*Term{Neg(args[0])}})
			if name == "sin" {
				return Neg(t)
			}
			return t
		}
	case "ext": // f32 -> f64
		if c, ok := args[0].constRat(); ok {
			return Const(SF64, c)
		}
		if args[0] == infF32 {
			return infF64
		}
	case "rnd": // f64 -> f32
		if args[0].op == OpFn && args[0].sym == "ext" {
			return args[0].args[0]
		}
		if c, ok := args[0].constRat(); ok {
			f, _ := c.Float32()
			r := new(big.Rat)
			if r.SetFloat64(float64(f)) != nil {
				return Const(SF32, r)
			}
		}
		if i := isInf(args[0]); i != 0 {
			return ScaleI(int64(i), infF32)
		}
	case "itof":
		if c, ok := args[0].constRat(); ok {
			return Const(s, c)
		}
		if a := args[0]; a.op == OpPoly && a.sort == SInt {
			if len(a.poly) == 1 && a.poly[0].c.Cmp(one) == 0 {
				break
			}
			ts := []*Term{ConstI(s, 0)}
			for _, q := range a.poly {
				if len(q.f) == 0 {
					ts = append(ts, Const(s, q.c))
				} else {
					ts = append(ts, Scale(q.c, Fn(s, 0, "itof", fromPoly(SInt, []PT{{c: one, f: q.f}}))))
				}
			}
			return Add(ts...)
		}
	case "ftoi":
		if c, ok := args[0].constRat(); ok {
			q := new(big.Int).Quo(c.Num(), c.Denom())
			return Const(SInt, new(big.Rat).SetInt(q))
		}
	case "floor":
		if c, ok := args[0].constRat(); ok {
			q := new(big.Int)
			q.DivMod(c.Num(), c.Denom(), new(big.Int))
			return Const(s, new(big.Rat).SetInt(q))
		}
		// floor(itof(i)) = itof(i); floor(floor x) = floor x; whole terms come out
		if a := args[0]; a.op == OpFn && (a.sym == "itof" || a.sym == "floor") {
			return a
		} else if a.op == OpPoly {
			var whole, rest []PT
			for _, q := range a.poly {
				ok := q.c.IsInt()
				for _, f := range q.f {
					if f.e < 0 || f.t.op != OpFn || (f.t.sym != "itof" && f.t.sym != "floor") {
						ok = false
					}
				}
				if ok {
					whole = append(whole, q)
				} else {
					rest = append(rest, q)
				}
			}
			if len(whole) > 0 {
				if len(rest) == 0 {
					return a
				}
				return Add(fromPoly(s, whole), Fn(s, 0, "floor", fromPoly(s, rest)))
			}
		}
		// floor(ext(x)) = ext(floor32(x)): exact
		if a := args[0]; a.op == OpFn && a.sym == "ext" {
			return Fn(SF64, 0, "ext", Fn(SF32, 0, "floor", a.args[0]))
		}
	}
	return intern(Term{op: OpFn, sort: s, w: w, sym: name, args: args})
}

// ---------- booleans ----------

func Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return TFalse
	case OpFalse:
		return TTrue
	case OpNot:
		return a.args[0]
	case OpGe:
		return GeZ(Sub(I(-1), a.args[0]))
	case OpAnd:
		var ns []*Term
		for _, x := range a.args {
			ns = append(ns, Not(x))
		}
		return Or(ns...)
	case OpOr:
		var ns []*Term
		for _, x := range a.args {
			ns = append(ns, Not(x))
		}
		return And(ns...)
	case OpXor:
		return Xor(append([]*Term{TTrue}, a.args...)...)
	case OpTab:
		return tabTerm(a.args, flipTab(a.sym))
	case OpFLt:
		if !nanAware {
			return FLeZ(Neg(a.args[0]))
		}
	case OpFLe:
		if !nanAware {
			return FLtZ(Neg(a.args[0]))
		}
	}
	return intern(Term{op: OpNot, sort: SBool, args: []*Term{a}})
}

func andor(op Op, ts []*Term) *Term {
	unit, zero := TTrue, TFalse
	if op == OpOr {
		unit, zero = TFalse, TTrue
	}
	set := map[int]*Term{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		set[t.id] = t
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// complement / absorption
	dual := OpOr
	if op == OpOr {
		dual = OpAnd
	}
	for changed := true; changed; {
		changed = false
		for _, id := range sortedIDs(set) {
			t := set[id]
			if n := Not(t); n.op != op {
				if _, ok := set[n.id]; ok {
					return zero
				}
			}
			if t.op == dual {
				// t = dual(a...); drop members whose complement is in set, absorb if a member is in set
				var rest []*Term
				drop := false
				for _, a := range t.args {
					if _, ok := set[a.id]; ok {
						drop = true
						break
					}
					if _, ok := set[Not(a).id]; ok {
						continue
					}
					rest = append(rest, a)
				}
				if drop {
					delete(set, id)
					changed = true
					break
				}
				if len(rest) < len(t.args) {
					delete(set, id)
					var nt *Term
					if dual == OpAnd {
						nt = And(rest...)
					} else {
						nt = Or(rest...)
					}
					if !add(nt) {
						return zero
					}
					changed = true
					break
				}
			}
		}
	}
	// resolution on two dual terms: (x&y)|(!x&y) = y
	if op == OpOr || op == OpAnd {
		for changed := true; changed; {
			changed = false
			var ds []*Term
			for _, t := range set {
				if t.op == dual {
					ds = append(ds, t)
				}
			}
			sortTerms(ds)
		outer:
			for i := 0; i < len(ds); i++ {
				for j := i + 1; j < len(ds); j++ {
					if m := resolve2(dual, ds[i], ds[j]); m != nil {
						delete(set, ds[i].id)
						delete(set, ds[j].id)
						if !add(m) {
							return zero
						}
						changed = true
						break outer
					}
				}
			}
		}
	}
	var out []*Term
	for _, t := range set {
		out = append(out, t)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sortTerms(out)
	return intern(Term{op: op, sort: SBool, args: out})
}

// resolve2 merges two dual terms that differ in exactly one complementary member.
func resolve2(dual Op, a, b *Term) *Term {
	if len(a.args) != len(b.args) {
		return nil
	}
	inB := map[int]bool{}
	for _, x := range b.args {
		inB[x.id] = true
	}
	var odd *Term
	var common []*Term
	for _, x := range a.args {
		if inB[x.id] {
			common = append(common, x)
		} else if odd == nil {
			odd = x
		} else {
			return nil
		}
	}
	if odd == nil || !inB[Not(odd).id] {
		return nil
	}
	if dual == OpAnd {
		return And(common...)
	}
	return Or(common...)
}

func And(ts ...*Term) *Term { return andor(OpAnd, ts) }
func Or(ts ...*Term) *Term  { return andor(OpOr, ts) }

func Xor(ts ...*Term) *Term {
	cnt := map[int]*Term{}
	par := false
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OpTrue:
			par = !par
		case OpFalse:
		case OpNot:
			par = !par
			add(t.args[0])
		case OpXor:
			for _, a := range t.args {
				add(a)
			}
		default:
			if _, ok := cnt[t.id]; ok {
				delete(cnt, t.id)
			} else {
				cnt[t.id] = t
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	var out []*Term
	for _, t := range cnt {
		out = append(out, t)
	}
	var r *Term
	switch len(out) {
	case 0:
		return Bool(par)
	case 1:
		r = out[0]
		if par {
			return Not(r)
		}
		return r
	}
	sortTerms(out)
	r = intern(Term{op: OpXor, sort: SBool, args: out})
	if par {
		return intern(Term{op: OpNot, sort: SBool, args: []*Term{r}})
	}
	return r
}

// GeZ is p >= 0 over the integers.
func GeZ(p *Term) *Term {
	if c, ok := p.constRat(); ok {
		return Bool(c.Sign() >= 0)
	}
	if t := indexCmp(p, false); t != nil {
		return t
	}
	g := intContent(p)
	c := constPart(p)
	if g.Cmp(big.NewInt(1)) > 0 && c.IsInt() {
		d := new(big.Int)
		d.DivMod(c.Num(), g, new(big.Int))
		rest := Sub(p, Const(SInt, c))
		p = Add(Scale(new(big.Rat).SetFrac(big.NewInt(1), g), rest), Const(SInt, new(big.Rat).SetInt(d)))
	}
	if lo, hi, ok := bitRange(p); ok {
		if lo >= 0 {
			return TTrue
		}
		if hi < 0 {
			return TFalse
		}
		// single bit
		if len(p.polyOf()) <= 2 {
			if b, pos := singleBit(p); b != nil {
				// p = c + k*b ; truth at b=0 / b=1 differ
				_ = pos
				c0, _ := constPart(p).Float64()
				if c0 >= 0 {
					return Not(b)
				}
				return b
			}
		}
	}
	return intern(Term{op: OpGe, sort: SBool, args: []*Term{p}})
}

func (t *Term) polyOf() []PT { return toPoly(t) }

func singleBit(p *Term) (*Term, bool) {
	var b *Term
	for _, q := range toPoly(p) {
		if len(q.f) == 0 {
			continue
		}
		if b != nil || len(q.f) != 1 || q.f[0].t.op != OpB2I {
			return nil, false
		}
		b = q.f[0].t.args[0]
	}
	return b, true
}

func Ge(a, b *Term) *Term { return GeZ(Sub(a, b)) }
func Lt(a, b *Term) *Term { return GeZ(Sub(Sub(b, a), I(1))) }

func EqZ(p *Term) *Term {
	if c, ok := p.constRat(); ok {
		return Bool(c.Sign() == 0)
	}
	if t := indexCmp(p, true); t != nil {
		return t
	}
	g := intContent(p)
	c := constPart(p)
	if g.Cmp(big.NewInt(1)) > 0 && c.IsInt() {
		if new(big.Int).Mod(c.Num(), g).Sign() != 0 {
			return TFalse
		}
		p = Scale(new(big.Rat).SetFrac(big.NewInt(1), g), p)
	}
	if leadCoef(p).Sign() < 0 {
		p = Neg(p)
	}
	if lo, hi, ok := bitRange(p); ok {
		if lo > 0 || hi < 0 {
			return TFalse
		}
		// weighted sum of distinct powers of two of bits: equality is a conjunction
		if t := bitsEq(p); t != nil {
			return t
		}
	}
	return intern(Term{op: OpEqZ, sort: SBool, args: []*Term{p}})
}

// bitsEq decides sum of distinct signed bit weights == const as a conjunction
// of literals when the weights are superincreasing.
func bitsEq(p *Term) *Term {
	type wb struct {
		w int64
		b *Term
	}
	var ws []wb
	target := int64(0)
	for _, q := range toPoly(p) {
		c := q.c.Num().Int64()
		if len(q.f) == 0 {
			target = -c
			continue
		}
		if len(q.f) != 1 {
			return nil
		}
		b := q.f[0].t.args[0]
		if c < 0 { // c*b = c - (-c)*... write as c + (-c)*(1-b)
			target -= c
			ws = append(ws, wb{-c, Not(b)})
		} else {
			ws = append(ws, wb{c, b})
		}
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].w > ws[j].w })
	var lits []*Term
	sum := int64(0)
	for _, w := range ws {
		sum += w.w
	}
	for _, w := range ws {
		sum -= w.w
		if sum >= w.w {
			return nil
		}
		if target >= w.w {
			lits = append(lits, w.b)
			target -= w.w
		} else {
			lits = append(lits, Not(w.b))
		}
		if target < 0 || target > sum {
			return TFalse
		}
	}
	return And(lits...)
}

func EqI(a, b *Term) *Term { return EqZ(Sub(a, b)) }

func normF(p *Term) (*Term, int) {
	if len(toPoly(p)) == 0 {
		return p, 0
	}
	l := leadCoef(p)
	s := l.Sign()
	if s < 0 {
		l = new(big.Rat).Neg(l)
	}
	return Scale(new(big.Rat).Inv(l), p), s
}

// FLt: p < 0; FLe: p <= 0; FEq: p == 0
func FLtZ(p *Term) *Term {
	if c, ok := p.constRat(); ok {
		return Bool(c.Sign() < 0)
	}
	q, _ := normF(p)
	return intern(Term{op: OpFLt, sort: SBool, args: []*Term{q}})
}
func FLeZ(p *Term) *Term {
	if c, ok := p.constRat(); ok {
		return Bool(c.Sign() <= 0)
	}
	q, _ := normF(p)
	return intern(Term{op: OpFLe, sort: SBool, args: []*Term{q}})
}
func FEqZ(p *Term) *Term {
	if c, ok := p.constRat(); ok {
		return Bool(c.Sign() == 0)
	}
	q, s := normF(p)
	if s < 0 {
		q = Neg(q)
	}
	return intern(Term{op: OpFEq, sort: SBool, args: []*Term{q}})
}

// FCmp compares floats; infinities are handled as ordinary atoms.
func FLt(a, b *Term) *Term { return FLtZ(Sub(a, b)) }
func FLe(a, b *Term) *Term { return FLeZ(Sub(a, b)) }
func FEq(a, b *Term) *Term { return FEqZ(Sub(a, b)) }

// EqT: equality of any two terms of the same sort.
func EqT(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	switch a.sort {
	case SInt:
		return EqI(a, b)
	case SF32, SF64:
		return FEq(a, b)
	case SBool:
		return Not(Xor(a, b))
	case SBV:
		if b.op == OpFn && b.sym == "strat" {
			a, b = b, a
		}
		if a.op == OpFn && a.sym == "strat" {
			if _, ok := bvConst(b); ok {
				return Fn(SBool, 0, "ischar", a, b)
			}
		}
		var cs []*Term
		x, y := BVBits(a), BVBits(b)
		for i := range x {
			cs = append(cs, Not(Xor(x[i], y[i])))
		}
		return And(cs...)
	}
	if a.op == OpIte {
		return Ite(a.args[0], EqT(a.args[1], b), EqT(a.args[2], b))
	}
	if b.op == OpIte {
		return EqT(b, a)
	}
	if distinctRef(a, b) || distinctRef(b, a) {
		return TFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: OpEq, sort: SBool, args: []*Term{a, b}})
}

func isNil(t *Term) bool { return t.op == OpFn && t.sym == "nil" }

func distinctRef(a, b *Term) bool {
	if a.sort == SStr && strings.HasPrefix(a.sym, "str:") && strings.HasPrefix(b.sym, "str:") && a.op == OpFn && b.op == OpFn {
		return a.sym != b.sym
	}
	if a.op == OpAlloc || (a.op == OpFn && (strings.HasPrefix(a.sym, "global:") || strings.HasPrefix(a.sym, "func:"))) {
		if isNil(b) || (b.op == OpAlloc && b.sym != a.sym) || (b.op == OpFn && strings.HasPrefix(b.sym, "global:") && b.sym != a.sym) {
			return true
		}
		if a.op == OpAlloc && predates(b) {
			return true
		}
		if a.op == OpAlloc && b.op == OpAlloc && a.sym == b.sym && len(a.args) == len(b.args) {
			for i := range a.args {
				if c, ok := Sub(a.args[i], b.args[i]).constRat(); ok && c.Sign() != 0 {
					return true
				}
			}
		}
	}
	if (a.op == OpField || a.op == OpElem) && isNil(b) {
		return true
	}
	if a.op == OpFn && (strings.HasPrefix(a.sym, "mkiface") || strings.HasPrefix(a.sym, "newobj:")) && isNil(b) {
		return true
	}
	if a.op == OpFn && b.op == OpFn && strings.HasPrefix(a.sym, "newerr:") && (isNil(b)) {
		return true
	}
	return false
}

// ---------- bits ----------

func BitOf(t *Term, i int) *Term {
	switch t.op {
	case OpBits:
		return t.args[i]
	}
	if t.sort == SInt {
		if bs := intBits(t, i+1); bs != nil {
			return bs[i]
		}
	}
	return intern(Term{op: OpBit, sort: SBool, n: int64(i), args: []*Term{t}})
}

func BVBits(t *Term) []*Term {
	if t.op == OpBits {
		return t.args
	}
	out := make([]*Term, t.w)
	for i := range out {
		out[i] = BitOf(t, i)
	}
	return out
}

func Bits(bs []*Term) *Term {
	// collapse identity
	if len(bs) > 0 && bs[0].op == OpBit && bs[0].n == 0 {
		src := bs[0].args[0]
		if src.sort == SBV && src.w == len(bs) {
			ok := true
			for i, b := range bs {
				if b.op != OpBit || b.args[0] != src || b.n != int64(i) {
					ok = false
					break
				}
			}
			if ok {
				return src
			}
		}
	}
	return intern(Term{op: OpBits, sort: SBV, w: len(bs), args: append([]*Term{}, bs...)})
}

func BVConst(w int, v uint64) *Term {
	bs := make([]*Term, w)
	for i := range bs {
		bs[i] = Bool(i < 64 && v>>uint(i)&1 == 1)
	}
	return Bits(bs)
}

func BVConstVal(t *Term) (uint64, bool) {
	if t.op != OpBits {
		return 0, false
	}
	var v uint64
	for i, b := range t.args {
		switch b.op {
		case OpTrue:
			if i < 64 {
				v |= 1 << uint(i)
			}
		case OpFalse:
		default:
			return 0, false
		}
	}
	return v, true
}

func B2I(b *Term) *Term {
	switch b.op {
	case OpTrue:
		return I(1)
	case OpFalse:
		return I(0)
	case OpNot:
		return Sub(I(1), B2I(b.args[0]))
	}
	return intern(Term{op: OpB2I, sort: SInt, args: []*Term{b}})
}

// ToInt: value of bits as unsigned or signed integer.
func ToInt(t *Term, signed bool) *Term {
	bs := BVBits(t)
	acc := []PT{}
	for i, b := range bs {
		c := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		if signed && i == len(bs)-1 {
			c.Neg(c)
		}
		for _, p := range toPoly(B2I(b)) {
			acc = append(acc, PT{c: new(big.Rat).Mul(c, p.c), f: p.f})
		}
	}
	return fromPoly(SInt, acc)
}

// leaf bit atoms of a bool/int term made only of bits; nil,false if other atoms occur.
func bitLeaves(t *Term, set map[int]*Term, limit int) bool {
	switch t.op {
	case OpTrue, OpFalse:
		return true
	case OpBit:
		set[t.id] = t
		return len(set) <= limit
	case OpNot, OpAnd, OpOr, OpXor, OpTab, OpB2I, OpBits:
		for _, a := range t.args {
			if !bitLeaves(a, set, limit) {
				return false
			}
		}
		return true
	case OpIte:
		for _, a := range t.args {
			if !bitLeaves(a, set, limit) {
				return false
			}
		}
		return true
	case OpPoly:
		if t.sort != SInt {
			return false
		}
		for _, p := range t.poly {
			for _, f := range p.f {
				if !bitLeaves(f.t, set, limit) {
					return false
				}
			}
		}
		return true
	case OpFDiv, OpGe, OpEqZ, OpTDiv:
		for _, a := range t.args {
			if !bitLeaves(a, set, limit) {
				return false
			}
		}
		return true
	}
	return false
}

// evalSmall evaluates a term whose leaves are assigned bits.
func evalSmall(t *Term, env map[int]bool, memo map[int]int64) int64 {
	if v, ok := memo[t.id]; ok {
		return v
	}
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	var r int64
	switch t.op {
	case OpTrue:
		r = 1
	case OpFalse:
		r = 0
	case OpBit:
		r = b(env[t.id])
	case OpNot:
		r = 1 - evalSmall(t.args[0], env, memo)
	case OpAnd:
		r = 1
		for _, a := range t.args {
			r &= evalSmall(a, env, memo)
		}
	case OpOr:
		for _, a := range t.args {
			r |= evalSmall(a, env, memo)
		}
	case OpXor:
		for _, a := range t.args {
			r ^= evalSmall(a, env, memo)
		}
	case OpTab:
		idx := 0
		for i, a := range t.args {
			idx |= int(evalSmall(a, env, memo)) << uint(i)
		}
		r = int64(t.sym[idx] - '0')
	case OpB2I:
		r = evalSmall(t.args[0], env, memo)
	case OpBits:
		for i, a := range t.args {
			if i < 63 {
				r |= evalSmall(a, env, memo) << uint(i)
			}
		}
	case OpIte:
		if evalSmall(t.args[0], env, memo) != 0 {
			r = evalSmall(t.args[1], env, memo)
		} else {
			r = evalSmall(t.args[2], env, memo)
		}
	case OpPoly:
		for _, p := range t.poly {
			v := p.c.Num().Int64()
			for _, f := range p.f {
				for i := 0; i < f.e; i++ {
					v *= evalSmall(f.t, env, memo)
				}
			}
			r += v
		}
	case OpFDiv:
		v := evalSmall(t.args[0], env, memo)
		r = v / t.n
		if v%t.n < 0 {
			r--
		}
	case OpTDiv:
		d := evalSmall(t.args[1], env, memo)
		if d != 0 {
			r = evalSmall(t.args[0], env, memo) / d
		}
	case OpGe:
		r = b(evalSmall(t.args[0], env, memo) >= 0)
	case OpEqZ:
		r = b(evalSmall(t.args[0], env, memo) == 0)
	default:
		panic("evalSmall " + t.String())
	}
	memo[t.id] = r
	return r
}

func flipTab(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] ^= 1
	}
	return string(b)
}

// tabTerm reduces a truth table to its support.
func tabTerm(leaves []*Term, tab string) *Term {
	for i := 0; i < len(leaves); i++ {
		same := true
		for j := range tab {
			if j>>uint(i)&1 == 0 && tab[j] != tab[j|1<<uint(i)] {
				same = false
				break
			}
		}
		if same {
			var nb []byte
			for j := range tab {
				if j>>uint(i)&1 == 0 {
					nb = append(nb, tab[j])
				}
			}
			nl := append([]*Term{}, leaves[:i]...)
			nl = append(nl, leaves[i+1:]...)
			return tabTerm(nl, string(nb))
		}
	}
	switch {
	case len(leaves) == 0:
		return Bool(tab == "1")
	case len(leaves) == 1:
		if tab == "01" {
			return leaves[0]
		}
		return Not(leaves[0])
	}
	// conjunctions / parity stay structural
	ones := strings.Count(tab, "1")
	if ones == 1 {
		j := strings.Index(tab, "1")
		var ls []*Term
		for i, l := range leaves {
			if j>>uint(i)&1 == 1 {
				ls = append(ls, l)
			} else {
				ls = append(ls, Not(l))
			}
		}
		return And(ls...)
	}
	if ones == len(tab)-1 {
		return Not(tabTerm(leaves, flipTab(tab)))
	}
	par := true
	for j := range tab {
		p := byte('0')
		for x := j; x > 0; x &= x - 1 {
			p ^= 1
		}
		if tab[j] != p && par {
			par = false
			break
		}
	}
	if par {
		return Xor(leaves...)
	}
	if tab[0] == '1' {
		return intern(Term{op: OpNot, sort: SBool, args: []*Term{intern(Term{op: OpTab, sort: SBool, sym: flipTab(tab), args: leaves})}})
	}
	return intern(Term{op: OpTab, sort: SBool, sym: tab, args: leaves})
}

const tabLimit = 16

// intBits: the low w bits of an Int term made of few bit atoms.
func intBits(t *Term, w int) []*Term {
	if c, ok := t.constRat(); ok && c.IsInt() {
		out := make([]*Term, w)
		for i := range out {
			// two's complement bit
			v := new(big.Int).Rsh(c.Num(), uint(i)) // arithmetic for negatives in big.Int
			out[i] = Bool(v.Bit(0) == 1)
		}
		return out
	}
	if t.op == OpIte {
		x, y := intBits(t.args[1], w), intBits(t.args[2], w)
		if x == nil || y == nil {
			return nil
		}
		out := make([]*Term, w)
		for i := range out {
			out[i] = Ite(t.args[0], x[i], y[i])
		}
		return out
	}
	// exact sum of distinct powers of two with literals?
	if bs := exactBits(t, w); bs != nil {
		return bs
	}
	set := map[int]*Term{}
	if !bitLeaves(t, set, tabLimit) {
		return nil
	}
	var leaves []*Term
	for _, l := range set {
		leaves = append(leaves, l)
	}
	sortTerms(leaves)
	n := 1 << uint(len(leaves))
	tabs := make([][]byte, w)
	for i := range tabs {
		tabs[i] = make([]byte, n)
	}
	env := map[int]bool{}
	for j := 0; j < n; j++ {
		for i, l := range leaves {
			env[l.id] = j>>uint(i)&1 == 1
		}
		v := evalSmall(t, env, map[int]int64{})
		for i := range tabs {
			sh := uint(i)
			if sh > 63 {
				sh = 63
			}
			tabs[i][j] = byte('0' + (v>>sh)&1)
		}
	}
	out := make([]*Term, w)
	for i := range out {
		out[i] = tabTerm(leaves, string(tabs[i]))
	}
	return out
}

// exactBits recognises sum of distinct 2^i*bit (no carries), constant allowed
// when it uses other positions.
func exactBits(t *Term, w int) []*Term {
	out := make([]*Term, w)
	for i := range out {
		out[i] = TFalse
	}
	used := map[int]bool{}
	type ent struct {
		pos int
		b   *Term
	}
	for _, p := range toPoly(t) {
		if !p.c.IsInt() || p.c.Sign() < 0 {
			return nil
		}
		if len(p.f) == 0 {
			v := p.c.Num()
			for i := 0; i < v.BitLen(); i++ {
				if v.Bit(i) == 1 {
					if used[i] {
						return nil
					}
					used[i] = true
					if i < w {
						out[i] = TTrue
					}
				}
			}
			continue
		}
		if len(p.f) != 1 || p.f[0].e != 1 || p.f[0].t.op != OpB2I {
			return nil
		}
		b := p.f[0].t.args[0]
		v := p.c.Num()
		for i := 0; i < v.BitLen(); i++ {
			if v.Bit(i) == 1 {
				if used[i] {
					return nil
				}
				used[i] = true
				if i < w {
					out[i] = b
				}
			}
		}
	}
	return out
}

// Trunc gives the low w bits of an Int term as a bit vector.
func Trunc(t *Term, w int) *Term {
	if bs := intBits(t, w); bs != nil {
		return Bits(bs)
	}
	bs := make([]*Term, w)
	for i := range bs {
		bs[i] = intern(Term{op: OpBit, sort: SBool, n: int64(i), args: []*Term{t}})
	}
	return Bits(bs)
}

func BVMap2(a, b *Term, f func(x, y *Term) *Term) *Term {
	x, y := BVBits(a), BVBits(b)
	if len(x) != len(y) {
		panic(fmt.Sprintf("bv width mismatch %d %d", len(x), len(y)))
	}
	out := make([]*Term, len(x))
	for i := range x {
		out[i] = f(x[i], y[i])
	}
	return Bits(out)
}
func BVAnd(a, b *Term) *Term {
	return BVMap2(a, b, func(x, y *Term) *Term { return And(x, y) })
}
func BVOr(a, b *Term) *Term {
	return BVMap2(a, b, func(x, y *Term) *Term { return Or(x, y) })
}
func BVXor(a, b *Term) *Term {
	return BVMap2(a, b, func(x, y *Term) *Term { return Xor(x, y) })
}
func BVNot(a *Term) *Term {
	x := BVBits(a)
	out := make([]*Term, len(x))
	for i := range x {
		out[i] = Not(x[i])
	}
	return Bits(out)
}
func BVShl(a *Term, n int) *Term {
	x := BVBits(a)
	out := make([]*Term, len(x))
	for i := range out {
		if i-n >= 0 && i-n < len(x) {
			out[i] = x[i-n]
		} else {
			out[i] = TFalse
		}
	}
	return Bits(out)
}
func BVShr(a *Term, n int, arith bool) *Term {
	x := BVBits(a)
	out := make([]*Term, len(x))
	for i := range out {
		if i+n < len(x) {
			out[i] = x[i+n]
		} else if arith {
			out[i] = x[len(x)-1]
		} else {
			out[i] = TFalse
		}
	}
	return Bits(out)
}
func BVExt(a *Term, w int, signed bool) *Term {
	x := BVBits(a)
	out := make([]*Term, w)
	for i := range out {
		if i < len(x) {
			out[i] = x[i]
		} else if signed {
			out[i] = x[len(x)-1]
		} else {
			out[i] = TFalse
		}
	}
	return Bits(out)
}

// BVArith: modular add/sub/mul/neg through the integers.
func BVArith(op string, a, b *Term) *Term {
	w := a.w
	x := ToInt(a, false)
	var r *Term
	switch op {
	case "+":
		r = Add(x, ToInt(b, false))
	case "-":
		r = Sub(x, ToInt(b, false))
	case "*":
		r = Mul(x, ToInt(b, false))
	}
	return TruncMod(r, w)
}

// TruncMod is Trunc after reducing coefficients modulo 2^w.
func TruncMod(r *Term, w int) *Term {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	var ps []PT
	for _, p := range toPoly(r) {
		if !p.c.IsInt() {
			return Trunc(r, w)
		}
		c := new(big.Int).Mod(p.c.Num(), mod)
		ps = append(ps, PT{c: new(big.Rat).SetInt(c), f: p.f})
	}
	return Trunc(fromPoly(SInt, ps), w)
}

// ---------- ite ----------

func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return Ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch: %v %v (%s | %s)", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SBool:
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
		if Not(a) == b {
			return Xor(c, b)
		}
		return intern(Term{op: OpIte, sort: SBool, args: []*Term{c, a, b}})
	case SBV:
		if a.w != b.w {
			panic("ite width mismatch")
		}
		x, y := BVBits(a), BVBits(b)
		out := make([]*Term, len(x))
		for i := range x {
			out[i] = Ite(c, x[i], y[i])
		}
		return Bits(out)
	case SInt, SF32, SF64:
		if r := cycIte(c, a, b); r != nil {
			return r
		}
		// canonical min/max
		if a.sort == SInt && c.op == OpGe {
			d := Sub(a, b)
			p := c.args[0]
			// c: a-b>=0 or a-b>=1 -> max ; b-a>=0 -> min
			if k, ok := Sub(p, d).constInt(); ok && (k == 0 || k == -1) {
				return MinMax(OpMax, a, b)
			}
			if k, ok := Add(p, d).constInt(); ok && (k == 0 || k == -1) {
				return MinMax(OpMin, a, b)
			}
		}
		if isFloat(a.sort) && (c.op == OpFLt || c.op == OpFLe) {
			d, _ := normF(Sub(a, b))
			p := c.args[0]
			if p == d {
				return MinMax(OpMin, a, b) // a<b ? a : b
			}
			if p == Neg(d) {
				return MinMax(OpMax, a, b)
			}
		}
		if b.op == OpIte && b.args[1] == a { // ite(c,a,ite(d,a,e)) = ite(c|d,a,e)
			return Ite(Or(c, b.args[0]), a, b.args[2])
		}
	case SArr:
		// ite(c, store(x,i,v), x) = store(x,i,ite(c,v,x[i]))
		if a.op == OpStore && a.args[0] == b {
			return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
		}
		if b.op == OpStore && b.args[0] == a {
			return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
		}
		if a.op == OpStore && b.op == OpStore && a.args[1] == b.args[1] {
			return Store(Ite(c, a.args[0], b.args[0]), a.args[1], Ite(c, a.args[2], b.args[2]))
		}
		if is := storesDown(a, b); is != nil {
			for _, i := range is {
				b = Store(b, i, Ite(c, Select(a, i), Select(b, i)))
			}
			return b
		}
		if is := storesDown(b, a); is != nil {
			for _, i := range is {
				a = Store(a, i, Ite(c, Select(a, i), Select(b, i)))
			}
			return a
		}
	}
	if a.op == OpIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	return intern(Term{op: OpIte, sort: a.sort, w: a.w, es: a.es, ew: a.ew, args: []*Term{c, a, b}})
}

// storesDown lists the few indices stored in t above base, if t is base with
// stores.
func storesDown(t, base *Term) (is []*Term) {
	for n := 0; n < 5; n++ {
		if t == base {
			return is
		}
		if t.op != OpStore {
			return nil
		}
		is = append([]*Term{t.args[1]}, is...)
		t = t.args[0]
	}
	return nil
}

// ---------- printing ----------

func (t *Term) String() string { return t.str(9) }

func (t *Term) str(d int) string {
	if d < 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OpSym:
		return t.sym
	case OpPoly:
		if len(t.poly) == 0 {
			return "0"
		}
		var sb strings.Builder
		for i, p := range t.poly {
			if i > 8 {
				sb.WriteString("+…")
				break
			}
			if i > 0 && p.c.Sign() >= 0 {
				sb.WriteString("+")
			}
			if len(p.f) == 0 || p.c.Cmp(one) != 0 {
				if p.c.IsInt() {
					sb.WriteString(p.c.Num().String())
				} else {
					sb.WriteString(p.c.FloatString(6))
				}
				if len(p.f) > 0 {
					sb.WriteString("*")
				}
			}
			for j, f := range p.f {
				if j > 0 {
					sb.WriteString("*")
				}
				if f.t.op == OpPoly {
					sb.WriteString("(" + f.t.str(d-1) + ")")
				} else {
					sb.WriteString(f.t.str(d - 1))
				}
				if f.e != 1 {
					sb.WriteString("^" + strconv.Itoa(f.e))
				}
			}
		}
		return sb.String()
	case OpFn, OpAlloc:
		if len(t.args) == 0 {
			return t.sym
		}
		return t.sym + "(" + args() + ")"
	case OpIte:
		return "ite(" + args() + ")"
	case OpMin:
		return "min(" + args() + ")"
	case OpMax:
		return "max(" + args() + ")"
	case OpFDiv:
		return "⌊(" + t.args[0].str(d-1) + ")/" + strconv.FormatInt(t.n, 10) + "⌋"
	case OpTDiv:
		return "tdiv(" + args() + ")"
	case OpB2I:
		return "b2i(" + args() + ")"
	case OpBits:
		if v, ok := BVConstVal(t); ok {
			return fmt.Sprintf("0x%x:%d", v, t.w)
		}
		return "bits(" + args() + ")"
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpNot:
		return "!(" + args() + ")"
	case OpAnd:
		return "and(" + args() + ")"
	case OpOr:
		return "or(" + args() + ")"
	case OpXor:
		return "xor(" + args() + ")"
	case OpGe:
		return "[" + args() + " >= 0]"
	case OpEqZ:
		return "[" + args() + " == 0]"
	case OpFLt:
		return "[" + args() + " < 0.]"
	case OpFLe:
		return "[" + args() + " <= 0.]"
	case OpFEq:
		return "[" + args() + " == 0.]"
	case OpBit:
		return t.args[0].str(d-1) + "." + strconv.FormatInt(t.n, 10)
	case OpTab:
		return "tab(" + args() + ")"
	case OpEq:
		return "eq(" + args() + ")"
	case OpStore:
		return "store(" + args() + ")"
	case OpMap:
		return "map(" + args() + ")"
	case OpSelect:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case OpArrLit:
		return "arrlit" + strconv.Itoa(len(t.args))
	case OpBound:
		return "_b" + strconv.FormatInt(t.n, 10)
	case OpSum:
		return "Σ(" + args() + ")"
	case OpRMax:
		return "MAX(" + args() + ")"
	case OpRMin:
		return "MIN(" + args() + ")"
	case OpField:
		return t.args[0].str(d-1) + "." + t.sym
	case OpElem:
		return "&" + t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case OpFin:
		return "fin<" + t.sym + ">"
	}
	return "?"
}
