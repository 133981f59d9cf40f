package main

// Whole-function summaries and their comparison with a specification.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Summary struct {
	fn     *ssa.Function
	fe     *GoFE
	st     *State // joined final state; nil when the function never returns
	rets   []*Val
	rtypes []types.Type
	params []*Val
	reqs   []*Term
	obligs []*Oblig
	inits  map[Key]*Val // package variables after initialisation
}

func (fe *GoFE) paramVals(fn *ssa.Function) []*Val {
	var out []*Val
	for i, p := range fn.Params {
		v := fe.symVal(p.Type(), fmt.Sprintf("p%d", i))
		if v.t != nil && v.t.sort == SRef {
			noteRoot(v.t, p.Type())
		}
		out = append(out, v)
	}
	return out
}

// summarise evaluates fn on symbolic parameters.
func (fe *GoFE) summarise(fn *ssa.Function, params []*Val, know []*Term, pre func(*State)) (s *Summary, err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s: %s", fn, u.msg)
		}
	}()
	if fn == nil {
		return nil, fmt.Errorf("function not found")
	}
	if len(fn.Blocks) == 0 {
		if fe.bodyless != nil {
			if t := fe.bodyless(fe, fn); t != nil {
				fn = t
			}
		}
		if len(fn.Blocks) == 0 {
			return nil, fmt.Errorf("%s has no Go body", fn)
		}
	}
	fe.ev.funcs[fn.String()] = true
	st := newState()
	for _, k := range know {
		st.know(k)
	}
	if pre != nil {
		pre(st)
	}
	var inits map[Key]*Val
	if fe.prog != nil && fn.Pkg != nil {
		inits = fe.runInits(st, fn.Pkg, map[*ssa.Package]bool{})
		fe.ev.obligs = nil
	}
	name := fn.Name()
	fe.standIn = name + "_"
	id := len(fe.frameIDs) + 1
	fe.frameIDs[name+"@top"] = id
	p := &goProg{fe: fe, fn: fn, path: name, id: id, args: params}
	fe.ev.RunFunc(p, st)
	s = &Summary{fn: fn, fe: fe, params: params}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		s.rtypes = append(s.rtypes, fn.Signature.Results().At(i).Type())
	}
	var live []*State
	var vs [][]*Val
	for i, r := range p.rets {
		if r.dead() {
			continue
		}
		for k := range r.env {
			if k.kind == 'r' && k.id == id {
				delete(r.env, k)
			}
		}
		live = append(live, r)
		vs = append(vs, p.retV[i])
	}
	if len(live) > 0 {
		out := newState()
		s.rets = p.join(out, live, vs)
		s.st = out
	}
	s.obligs = fe.ev.obligs
	s.reqs = fe.reqs
	s.inits = inits
	return s, nil
}

// unproved lists the obligations that do not follow from what is known.
func (s *Summary) unproved(extra []*Term) (bad []*Oblig, total int) {
	for _, o := range s.obligs {
		total++
		if !proveOblig(o, extra) {
			bad = append(bad, o)
		}
	}
	return
}

func proveOblig(o *Oblig, extra []*Term) bool {
	f := NewFacts(o.pc...).With(extra...)
	if f.Prove(o.cond) {
		return true
	}
	return proveSplit(f, o.cond, 0)
}

// proveSplit proves a goal by cases on the conditions inside it.
func proveSplit(f *Facts, goal *Term, depth int) bool {
	g := simp(f, goal)
	if g == TTrue || f.Prove(g) || f.Infeasible() {
		return true
	}
	if depth > 12 {
		return false
	}
	c := splitCond(f, g)
	if c == nil || c == g || Not(c) == g {
		// conditions inside the facts
		c = nil
		for _, x := range f.list {
			if d := someIteCond(x); d != nil && d.fb == 0 {
				if f.Decide(d) == 0 {
					c = d
					break
				}
			}
		}
		if c == nil {
			return false
		}
	}
	for _, v := range []bool{true, false} {
		l := c
		if !v {
			l = Not(c)
		}
		h := NewFacts()
		for _, x := range f.list {
			h.add(assumeIn(x, c, v))
		}
		h.add(l)
		if h.Infeasible() {
			continue
		}
		if !proveSplit(h, assumeIn(g, c, v), depth+1) {
			return false
		}
	}
	return true
}

func specField(n string) string {
	if r, ok := fieldRen[n]; ok {
		return r
	}
	return n
}

// ---------- comparison ----------

type Mismatch struct {
	what  string
	where string
	why   string
}

type Diff struct {
	cmp   *Cmp
	s, i  *Summary
	base  *Facts
	out   []Mismatch
	n     int // quantities compared
	seen  map[string][]*Facts
	names map[string]string
	todo  []pending
}

// pending: a pair of values to compare, collected so that pairs share cases.
type pending struct {
	f           *Facts
	a, b        *Term
	what, where string
}

func compare(s, i *Summary) *Diff {
	c := &Cmp{spec: s.fe.ev, impl: i.fe.ev, sub: map[*Term]*Term{}, pair: map[*LoopRec]*LoopRec{}, budget: 6000}
	d := &Diff{cmp: c, s: s, i: i, seen: map[string][]*Facts{}}
	where := i.fe.pos(i.fn.Pos()) + " (" + i.fn.Name() + ")"
	if s.st == nil {
		return d
	}
	base := NewFacts(s.reqs...).With(s.st.all()...)
	if i.st == nil {
		if !base.Infeasible() {
			d.out = append(d.out, Mismatch{"returns", where, "the function never returns normally"})
		}
		return d
	}
	// loops
	var st, it []*Term
	collect := func(x *Summary) []*Term {
		var ts []*Term
		for _, k := range envKeys(x.st.env) {
			v := x.st.env[k]
			if k.kind == 'r' || k.kind != 'g' && k.kind != 'h' && isLocalCell(k) {
				continue
			}
			leaves(v, "", func(_ string, t *Term) { ts = append(ts, t) })
		}
		for _, v := range x.rets {
			leaves(v, "", func(_ string, t *Term) { ts = append(ts, t) })
		}
		return ts
	}
	st, it = collect(s), collect(i)
	if !c.matchLoops(base, liveLoops(c.spec, st, s.st), liveLoops(c.impl, it, i.st)) {
		d.out = append(d.out, Mismatch{"loop", where, c.why})
		return d
	}
	var bs []*Term
	for _, x := range base.list {
		bs = append(bs, Subst(x, c.sub))
	}
	d.base = NewFacts(bs...).With(i.st.all()...)
	// results
	if len(s.rets) != len(i.rets) {
		d.out = append(d.out, Mismatch{"result", where, "different number of results"})
		return d
	}
	for n := range s.rets {
		d.val(d.base, s.rtypes[n], i.rtypes[n], s.rets[n], i.rets[n], fmt.Sprintf("result %d", n), where, 0)
	}
	// memory
	keys := map[Key]bool{}
	for k := range s.st.env {
		keys[k] = true
	}
	for k := range i.st.env {
		keys[k] = true
	}
	var ks []Key
	for k := range keys {
		if k.kind == 'r' {
			continue
		}
		if k.kind == 'm' || k.kind == 'a' {
			if isLocalCell(k) {
				continue
			}
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return keyNames[ks[a]]+ks[a].s < keyNames[ks[b]]+ks[b].s })
	for _, k := range ks {
		if skipGlobals && strings.HasPrefix(d.nameOf(k), "global:") {
			continue
		}
		if v, ok := i.inits[k]; ok {
			// a package variable: as initialised
			same := true
			w := i.fe.getCell(i.st, k)
			var x, y []*Term
			leaves(v, "", func(_ string, t *Term) { x = append(x, t) })
			leaves(w, "", func(_ string, t *Term) { y = append(y, t) })
			for n := range x {
				same = same && n < len(y) && x[n] == y[n]
			}
			if !same {
				d.out = append(d.out, Mismatch{"package variable " + keyNames[k], where, "modified after initialisation"})
			}
			continue
		}
		var sv, iv *Val
		if k == ioKey {
			sv, iv = V(s.fe.ioCell(s.st)), V(i.fe.ioCell(i.st))
		} else {
			sv, iv = s.fe.getCell(s.st, k), i.fe.getCell(i.st, k)
		}
		d.leafEq(d.base, sv, iv, "contents of "+d.nameOf(k), where)
	}
	d.flush()
	return d
}

// flush compares what has been collected: pairs with the same facts together,
// and one by one when that fails.
func (d *Diff) flush() {
	for len(d.todo) > 0 {
		f := d.todo[0].f
		var now, rest []pending
		for _, p := range d.todo {
			if p.f == f {
				now = append(now, p)
			} else {
				rest = append(rest, p)
			}
		}
		d.todo = rest
		if len(now) > 1 && !settling {
			var a, b []*Term
			for _, p := range now {
				a, b = append(a, p.a), append(b, p.b)
			}
			d.cmp.why = ""
			if d.cmp.eqAll(f, a, b, 0) {
				continue
			}
			if d.cmp.budget < 1000 {
				d.cmp.budget = 1000
			}
		}
		for _, p := range now {
			d.cmp.why = ""
			if !d.cmp.eq(f, p.a, p.b, 0) {
				d.out = append(d.out, Mismatch{p.what, p.where, "specified and computed values differ: " + d.cmp.why})
			}
		}
	}
}

func (d *Diff) nameOf(k Key) string {
	n := keyNames[k]
	if n == "" {
		n = k.s
	}
	if k.kind == 'g' {
		return "effects"
	}
	for i, p := range d.i.fn.Params {
		n = strings.ReplaceAll(n, fmt.Sprintf("p%d", i), p.Name())
	}
	return n
}

func (d *Diff) leafEq(f *Facts, sv, iv *Val, what, where string) {
	var a, b []*Term
	leaves(sv, "", func(_ string, t *Term) { a = append(a, t) })
	leaves(iv, "", func(_ string, t *Term) { b = append(b, t) })
	if len(a) != len(b) {
		d.out = append(d.out, Mismatch{what, where, "different shapes"})
		return
	}
	for n := range a {
		d.n++
		if os.Getenv("DWHAT") != "" {
			fmt.Println("WHAT", what, a[n].str(2), b[n].str(2))
		}
		d.todo = append(d.todo, pending{f, Subst(a[n], d.cmp.sub), b[n], what, where})
	}
}

// val compares values of Go types, following fresh objects.
func (d *Diff) val(f *Facts, ts, ti types.Type, sv, iv *Val, what, where string, depth int) {
	if len(d.out) > 8 {
		return
	}
	if depth > 60 {
		d.out = append(d.out, Mismatch{what, where, "the values are nested too deeply to be followed"})
		return
	}
	switch u := ts.Underlying().(type) {
	case *types.Pointer:
		a, b := resolve(f, Subst(sv.t, d.cmp.sub)), resolve(f, iv.t)
		key := fmt.Sprintf("%d/%d", a.id, b.id)
		for _, g := range d.seen[key] {
			// compared already, knowing no more than now
			sub := true
			for _, x := range g.list {
				if !f.set[x] {
					sub = false
					break
				}
			}
			if sub {
				return
			}
		}
		d.seen[key] = append(d.seen[key], f)
		ui, ok := ti.Underlying().(*types.Pointer)
		if !ok {
			d.out = append(d.out, Mismatch{what, where, "different types"})
			return
		}
		if a == b {
			return
		}
		if na, nb := EqT(a, zeroOf(SRef, 0)), EqT(b, zeroOf(SRef, 0)); settling && nb != TTrue && nb != TFalse || !settling && f.Decide(nb) == 0 {
			// nil in the same cases, then the contents
			d.n++
			d.cmp.why = ""
			if !d.cmp.eq(f, na, nb, 0) {
				d.out = append(d.out, Mismatch{what, where, "nil-ness differs: " + d.cmp.why})
				return
			}
			f = f.With(Not(nb))
			if !settling {
				if f.Infeasible() {
					return
				}
				a, b = resolve(f, simp(f, a)), resolve(f, simp(f, b))
			}
			a, b = onlyObject(a), onlyObject(b)
			if isNil(a) || isNil(b) {
				d.out = append(d.out, Mismatch{what, where, "nil-ness cannot be followed"})
				return
			}
		}
		for _, x := range []*Term{a, b} {
			if x.op == OpIte {
				at := splitAtom(x.args[0])
				for _, v := range []bool{true, false} {
					l := at
					if !v {
						l = Not(at)
					}
					g := f.With(l)
					if g.Infeasible() {
						continue
					}
					d.val(g, ts, ti, V(assumeIn(a, at, v)), V(assumeIn(b, at, v)), what, where, depth+1)
				}
				return
			}
		}
		if isNil(a) != isNil(b) {
			d.out = append(d.out, Mismatch{what, where, "nil-ness differs"})
			return
		}
		if isNil(a) {
			return
		}
		if (a.op == OpAlloc) != (b.op == OpAlloc) {
			d.out = append(d.out, Mismatch{what, where, "a fresh object is expected where the caller's is used, or the reverse"})
			return
		}
		if a.op != OpAlloc {
			if !d.cmp.eq(f, a, b, 0) {
				d.out = append(d.out, Mismatch{what, where, "different pointers: " + d.cmp.why})
			}
			return
		}
		// fresh objects: compare contents
		ra := sv.t
		if ra.op != OpAlloc {
			ra = a
		}
		va := d.loadObj(d.s, f, ra, u.Elem(), true)
		vb := d.loadObj(d.i, f, b, ui.Elem(), false)
		if va == nil || vb == nil {
			d.out = append(d.out, Mismatch{what, where, "contents cannot be followed"})
			return
		}
		d.val(f, u.Elem(), ui.Elem(), va, vb, what, where, depth+1)
	case *types.Slice:
		ui, ok := ti.Underlying().(*types.Slice)
		if !ok {
			d.out = append(d.out, Mismatch{what, where, "different types"})
			return
		}
		d.slice(f, u, ui, sv, iv, what, where, depth)
	case *types.Struct:
		ui, ok := ti.Underlying().(*types.Struct)
		if !ok || ui.NumFields() != u.NumFields() {
			d.out = append(d.out, Mismatch{what, where, "different structure"})
			return
		}
		for n := 0; n < u.NumFields(); n++ {
			m := -1
			for q := 0; q < ui.NumFields(); q++ {
				if ui.Field(q).Name() == specField(u.Field(n).Name()) {
					m = q
				}
			}
			if m < 0 {
				d.out = append(d.out, Mismatch{what, where, "field " + u.Field(n).Name() + " not found"})
				return
			}
			d.val(f, u.Field(n).Type(), ui.Field(m).Type(), sv.f[n], iv.f[m], what+"."+u.Field(n).Name(), where, depth+1)
		}
	case *types.Interface:
		a, b := EqT(sv.t, zeroOf(SRef, 0)), EqT(iv.t, zeroOf(SRef, 0))
		d.n++
		d.cmp.why = ""
		if !d.cmp.eq(f, Subst(a, d.cmp.sub), b, 0) {
			d.out = append(d.out, Mismatch{what, where, "nil-ness differs: " + d.cmp.why})
		}
	case *types.Signature:
		return
	default:
		d.leafEq(f, sv, iv, what, where)
	}
}

// onlyObject: the one object a reference known not to be nil can be.
func onlyObject(t *Term) *Term {
	var one *Term
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] || isNil(t) {
			return true
		}
		seen[t.id] = true
		if t.op == OpIte {
			return rec(t.args[1]) && rec(t.args[2])
		}
		if one == nil {
			one = t
		}
		return one == t
	}
	if rec(t) && one != nil {
		return one
	}
	return t
}

func (d *Diff) loadObj(s *Summary, f *Facts, r *Term, t types.Type, spec bool) (v *Val) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsupported); !ok {
				panic(x)
			}
			v = nil
		}
	}()
	st := s.st.clone()
	st.fx = f
	inSpec = s == d.s
	defer func() { inSpec = false }()
	return s.fe.load(st, r, t, nil)
}

func (d *Diff) slice(f *Facts, u, ui *types.Slice, sv, iv *Val, what, where string, depth int) {
	d.leafEq(f, V(sv.f[2].t), V(iv.f[2].t), "length of "+what, where)
	q := Sym(freshName("_e"), SInt)
	n := Subst(sv.f[2].t, d.cmp.sub)
	g := f.With(GeZ(q), Lt(q, n))
	if g.Infeasible() {
		if os.Getenv("DWHAT") != "" {
			fmt.Println("EMPTY", what, n.str(12), len(f.list), f.Infeasible())
			for _, x := range g.list {
				fmt.Println("   ", x.str(9))
			}
		}
		return
	}
	ra, rb := Subst(sv.f[0].t, d.cmp.sub), iv.f[0].t
	// slices of the caller's memory must be the same memory
	if predates(ra) != predates(rb) && ra.op != OpIte && rb.op != OpIte {
		d.out = append(d.out, Mismatch{what, where, "a fresh slice is expected where the caller's memory is used, or the reverse"})
		return
	}
	if predates(ra) && ra.op != OpIte && ra != rb && aliasOf(ra) != aliasOf(rb) {
		d.out = append(d.out, Mismatch{what, where, "result refers to different memory"})
		return
	}
	if predates(ra) {
		if !d.cmp.eq(f, Subst(sv.f[1].t, d.cmp.sub), iv.f[1].t, 0) {
			d.out = append(d.out, Mismatch{what, where, "result starts at a different position"})
		}
	}
	if c, ok := n.constInt(); ok && c <= 32 {
		for x := int64(0); x < c; x++ {
			ea, eb := d.elem(d.s, f, u.Elem(), sv, I(x)), d.elem(d.i, f, ui.Elem(), iv, I(x))
			if ea == nil || eb == nil {
				d.out = append(d.out, Mismatch{what, where, "elements cannot be followed"})
				return
			}
			d.val(f, u.Elem(), ui.Elem(), ea, eb, fmt.Sprintf("%s[%d]", what, x), where, depth+1)
		}
		return
	}
	ea := d.elem(d.s, g, u.Elem(), sv, q)
	eb := d.elem(d.i, g, ui.Elem(), iv, q)
	if ea == nil || eb == nil {
		d.out = append(d.out, Mismatch{what, where, "elements cannot be followed"})
		return
	}
	d.val(g, u.Elem(), ui.Elem(), ea, eb, what+"[*]", where, depth+1)
}

func (d *Diff) elem(s *Summary, f *Facts, el types.Type, sl *Val, q *Term) (v *Val) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsupported); !ok {
				panic(x)
			}
			v = nil
		}
	}()
	st := s.st.clone()
	st.fx = f
	inSpec = s == d.s
	defer func() { inSpec = false }()
	var get func(r *Term) *Val
	get = func(r *Term) *Val {
		if r.op == OpIte {
			a, b := get(r.args[1]), get(r.args[2])
			if a == nil || b == nil {
				return nil
			}
			return iteVal(r.args[0], a, b)
		}
		return s.fe.load(st, ElemRef(r, Add(sl.f[1].t, ScaleI(granOf(el), q))), el, nil)
	}
	return get(sl.f[0].t)
}
