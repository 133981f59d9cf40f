package main

// Slices grown by append from nil.  While only the newest slice value is
// appended to, and nothing is stored into the elements after the first
// growth, it cannot be observed whether append moved the elements or not, so
// the elements stay in one region.  Both conditions are checked.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// listRegs: regions that grow.
var listRegs = map[*Term]bool{}

func listEnd(r *Term) Key   { return scalarCell(r, "#end", SInt, 0) }
func listGrown(r *Term) Key { return scalarCell(r, "#grown", SBool, 0) }

func isLoopRef(t *Term) bool {
	return t.op == OpSym && t.sort == SRef && (len(t.sym) > 2 && t.sym[:len("φ#")] == "φ#" || len(t.sym) > 4 && t.sym[:4] == "fin#")
}

// listLike: nil, growing regions, and undetermined loop variables.
func (fe *GoFE) listLike(r *Term) bool {
	switch {
	case isNil(r), listRegs[r]:
		return true
	case r.op == OpIte:
		return fe.listLike(r.args[1]) && fe.listLike(r.args[2])
	case isLoopRef(r):
		return true
	}
	return false
}

// allocAt is like alloc with iteration numbers the facts determine.
func (p *goProg) allocAt(st *State, in ssa.Instruction) *Term {
	r := p.alloc(in)
	a := append([]*Term{}, r.args...)
	for i, k := range a {
		if st.facts().Decide(EqZ(k)) == 1 {
			a[i] = I(0)
		}
	}
	return intern(Term{op: OpAlloc, sort: SRef, sym: r.sym, args: a})
}

func (p *goProg) appendList(st *State, in ssa.Instruction, el types.Type, a, b *Val) *Val {
	fe := p.fe
	bl := b.f[2].t
	switch st.facts().Decide(GeZ(Sub(bl, I(1)))) {
	case -1:
		return a
	case 0:
		s1, s2 := st.clone(), st.clone()
		s1.assume(GeZ(Sub(bl, I(1))))
		s2.assume(Not(GeZ(Sub(bl, I(1)))))
		v := p.appendList(s1, in, el, a, b)
		return p.join(st, []*State{s1, s2}, [][]*Val{{v}, {a}})[0]
	}
	r := a.f[0].t
	if r.op == OpIte {
		c := r.args[0]
		switch st.facts().Decide(c) {
		case 1:
			return p.appendList(st, in, el, VC(V(r.args[1]), a.f[1], a.f[2], a.f[3]), b)
		case -1:
			return p.appendList(st, in, el, VC(V(r.args[2]), a.f[1], a.f[2], a.f[3]), b)
		}
		s1, s2 := st.clone(), st.clone()
		s1.assume(c)
		s2.assume(Not(c))
		sub := func(s *State, r *Term) *Val {
			f := s.facts()
			res := func(t *Term) *Term { return simp(f, t) }
			return p.appendList(s, in, el, VC(V(r), V(res(a.f[1].t)), V(res(a.f[2].t)), V(res(a.f[3].t))), b)
		}
		v1, v2 := sub(s1, r.args[1]), sub(s2, r.args[2])
		return p.join(st, []*State{s1, s2}, [][]*Val{{v1}, {v2}})[0]
	}
	g := granOf(el)
	type job struct {
		l   leaf
		src *Term
	}
	var js []job
	for _, l := range elemLeaves(el, "") {
		js = append(js, job{l, fe.regArr(st, b.f[0].t, l.path, l.s, l.w)})
	}
	if isLoopRef(r) {
		if fe.ev.record == 0 {
			unsup("append to a slice the analysis does not follow at %s", p.where(in))
		}
		// provisional: either nothing yet, or the region of an earlier iteration
		nl := EqT(r, zeroOf(SRef, 0))
		s1, s2 := st.clone(), st.clone()
		s1.assume(nl)
		s2.assume(Not(nl))
		v1 := p.appendList(s1, in, el, VC(V(zeroOf(SRef, 0)), V(I(0)), V(I(0)), V(I(0))), b)
		n := Add(a.f[2].t, bl)
		v2 := VC(V(r), V(I(0)), V(n), V(listCap(r, n)))
		return p.join(st, []*State{s1, s2}, [][]*Val{{v1}, {v2}})[0]
	}
	n := bl
	off := I(0)
	if isNil(r) {
		r = p.allocAt(st, in)
		listRegs[r] = true
		for _, q := range js {
			st.env[arrayCell(r, q.l.path, q.l.s, q.l.w)] = V(ZeroArr(q.l.s, q.l.w))
		}
		st.env[listGrown(r)] = V(TFalse)
	} else {
		end := fe.getCell(st, listEnd(r)).t
		n = Add(a.f[2].t, bl)
		off = ScaleI(g, a.f[2].t)
		if a.f[1].t != I(0) || !st.facts().Prove(EqZ(Sub(end, a.f[2].t))) {
			if fe.ev.record == 0 {
				unsup("append to an older or partial slice at %s", p.where(in))
			}
		}
		st.env[listGrown(r)] = V(TTrue)
	}
	for _, q := range js {
		fe.blitSmall(st, r, q.l, off, ScaleI(g, bl), q.src, b.f[1].t)
	}
	st.env[listEnd(r)] = V(n)
	return VC(V(r), V(I(0)), V(n), V(listCap(r, n)))
}

func listCap(r, n *Term) *Term {
	c := intern(Term{op: OpFn, sort: SInt, sym: "listcap", args: []*Term{r, n}})
	addAxiom(c, Ge(c, n))
	return c
}

// storeCheck: plain stores into a list are only followed before it grows.
func (p *goProg) storeCheck(st *State, in ssa.Instruction, addr *Term) {
	pl := decompose(addr)
	if pl.reg == nil {
		return
	}
	var rec func(r *Term)
	rec = func(r *Term) {
		if r.op == OpIte {
			rec(r.args[1])
			rec(r.args[2])
			return
		}
		if listRegs[r] && p.fe.ev.record == 0 && p.fe.getCell(st, listGrown(r)).t != TFalse {
			unsup("store into a slice after append grew it at %s", p.where(in))
		}
	}
	rec(pl.reg)
}

// freshCell: the cell belongs to an object made in iteration k itself.
func freshCell(key Key, k *Term) bool {
	m, ok := cellMetas[key]
	if !ok || m.root == nil {
		return false
	}
	b := rootOf(m.root)
	return b.op == OpAlloc && !allocElems[b.sym] && len(b.args) > 0 && b.args[len(b.args)-1] == k
}

// rekey names the cell of an object made in the last iteration after the loop.
func rekey(key Key, m map[*Term]*Term) Key {
	c := cellMetas[key]
	root := Subst(c.root, m)
	if listRegs[c.root] {
		listRegs[root] = true
	}
	if c.s == SArr {
		return arrayCell(root, c.path, c.es, c.ew)
	}
	return scalarCell(root, c.path, c.s, c.w)
}

// otherIteration: an object of a loop iteration that is not the current one,
// so that what it holds is not among the cells.
func (fe *GoFE) otherIteration(a *Term) bool {
	if allocElems[a.sym] {
		return false
	}
	for _, x := range a.args {
		if _, c := x.constInt(); c {
			continue
		}
		cur := false
		for _, l := range fe.ev.stack {
			cur = cur || l.k == x
		}
		if !cur {
			return true
		}
	}
	return false
}
