package main

// Calls: builtins, inlined module functions, models of the standard library.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rebuildFn = func(t *Term, a []*Term) *Term {
		switch t.sym {
		case "len":
			return strLen(a[0])
		case "strat":
			return strAt(a[0], a[1])
		case "substr":
			return substr(a[0], a[1], a[2])
		case "tail":
			if n, ok := a[2].constInt(); ok {
				return tailOf(a[0], a[1], n)
			}
		case "strings.Split#len":
			return fieldsLen(a[0], a[1])
		case "concat":
			return concat(a...)
		}
		return nil
	}
}

var ioKey = Key{'g', 0, "io"}

func (p *goProg) call(st *State, x *ssa.Call) {
	vs := p.callCommon(st, x, &x.Call)
	if st.dead() {
		return
	}
	switch n := x.Call.Signature().Results().Len(); {
	case n == 0:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && len(vs) == 1 {
			p.set(st, x, vs[0])
			return
		}
		p.set(st, x, VC())
	case n == 1:
		p.set(st, x, vs[0])
	default:
		p.set(st, x, &Val{f: vs})
	}
}

// runDefers makes the deferred calls, last first.  Each must have been
// deferred on every path here or on none.
func (p *goProg) runDefers(st *State, x *ssa.RunDefers) {
	var ds []*ssa.Defer
	for _, b := range p.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			switch {
			case !ok || b != x.Block() && !blockReaches(b, x.Block()):
				continue
			case !b.Dominates(x.Block()):
				unsup("conditional defer in %s", p.fn)
			}
			ds = append(ds, d)
		}
	}
	sort.SliceStable(ds, func(i, j int) bool {
		a, b := ds[i].Block(), ds[j].Block()
		return a != b && a.Dominates(b)
	})
	for i := len(ds) - 1; i >= 0; i-- {
		p.callCommon(st, ds[i], &ds[i].Call)
		if st.dead() {
			return
		}
	}
}

// blockReaches tells whether a path of at least one edge leads from a to b.
func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c == b {
			return true
		}
		if !seen[c] {
			seen[c] = true
			work = append(work, c.Succs...)
		}
	}
	return false
}

func (p *goProg) callCommon(st *State, in ssa.Instruction, c *ssa.CallCommon) []*Val {
	fe := p.fe
	var args []*Val
	for _, a := range c.Args {
		args = append(args, p.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return p.builtin(st, in, b.Name(), c, args)
	}
	if c.IsInvoke() {
		recv := p.val(st, c.Value)
		p.nilCheck(st, in, recv.t)
		if iv, ok := fe.ifaceMk[recv.t]; ok {
			if fn := p.fn.Prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return p.callFn(st, in, fn, nil, append([]*Val{iv.v}, args...), c)
			}
		}
		if pureFns[c.Method.FullName()] {
			return fe.results(c.Signature(), c.Method.FullName(), []*Term{recv.t})
		}
		return p.opaque(st, c.Method.FullName(), c.Signature(), append([]*Val{recv}, args...), append([]types.Type{c.Value.Type()}, argTypes(c)...))
	}
	if fn := c.StaticCallee(); fn != nil {
		var fv []*Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				fv = append(fv, p.val(st, b))
			}
		}
		return p.callFn(st, in, fn, fv, args, c)
	}
	ft := p.val(st, c.Value).t
	return p.callValue(st, in, ft, args, c)
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func (p *goProg) callValue(st *State, in ssa.Instruction, ft *Term, args []*Val, c *ssa.CallCommon) []*Val {
	if fn, ok := funcVals[ft]; ok {
		return p.callFn(st, in, fn, nil, args, c)
	}
	if cl, ok := closures[ft]; ok {
		return p.callFn(st, in, cl.fn, cl.fv, args, c)
	}
	if ft.op == OpIte {
		a, b := st.clone(), st.clone()
		a.assume(ft.args[0])
		b.assume(Not(ft.args[0]))
		va := p.callValue(a, in, ft.args[1], args, c)
		vb := p.callValue(b, in, ft.args[2], args, c)
		return p.join(st, []*State{a, b}, [][]*Val{va, vb})
	}
	p.fe.ev.oblige(st, p.where(in), "call of nil function", nonNil(ft))
	return p.opaque(st, "call:", c.Signature(), append([]*Val{V(ft)}, args...), append([]types.Type{c.Value.Type()}, argTypes(c)...))
}

// join merges alternative outcomes of one instruction back into st.
func (p *goProg) join(st *State, sts []*State, vs [][]*Val) []*Val {
	var live []*State
	n := 0
	rk := Key{'r', -1, "ret"}
	for i, s := range sts {
		if s.dead() {
			continue
		}
		n = len(vs[i])
		s.env[rk] = &Val{f: append([]*Val{}, vs[i]...)}
		live = append(live, s)
	}
	if len(live) == 0 {
		st.assume(TFalse)
		return nil
	}
	m := p.fe.ev.merge(live)
	r := m.env[rk]
	if r == nil && n > 0 {
		unsup("results of different shapes in %s", p.fn)
	}
	delete(m.env, rk)
	*st = *m
	if r == nil {
		return nil
	}
	return r.f
}

func (p *goProg) callFn(st *State, in ssa.Instruction, fn *ssa.Function, fv []*Val, args []*Val, c *ssa.CallCommon) []*Val {
	fe := p.fe
	name := fn.String()
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 && !fe.opaqueFn[name] {
		return fe.inline(st, p.path+">"+p.site(in)+">"+fn.Name(), fn, args, fv)
	}
	if name == "verif/analyzer/spec.Require" {
		fe.reqs = append(fe.reqs, args[0].t)
		st.know(args[0].t)
		return nil
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Synthetic, "package init") && (!fe.modPkgs[pk] || pk != p.fn.Pkg.Pkg.Path()) {
		return nil // other packages' initialisation: see runInit
	}
	if q := pk[strings.LastIndexByte(pk, '/')+1:]; len(fn.Blocks) == 0 && fe.modPkgs[pk] && (q == "cpu" || q == "spec") {
		// what the processor answers: the same on every call
		switch fn.Name() {
		case "cpuid":
			var out []*Val
			for i := 0; i < 4; i++ {
				out = append(out, V(Fn(SBV, 32, "cpuid"+strconv.Itoa(i), args[0].t, args[1].t)))
			}
			return out
		case "xgetbv":
			os := BitOf(Fn(SBV, 32, "cpuid2", BVConst(32, 1), BVConst(32, 0)), 27)
			fe.ev.oblige(st, p.where(in), "the operating system enabled XGETBV", os)
			return []*Val{V(Fn(SBV, 32, "xgetbv0")), V(Fn(SBV, 32, "xgetbv1"))}
		}
	}
	if strings.HasSuffix(name, "rtl.Device).ReadAsync") || strings.HasSuffix(name, "rtl.Device).ReadAsyncUsingSync") {
		// the callback is kept for the driver, which is the device
		if d := p.fn.Prog.ImportedPackage(modPath + "/boripserver"); d != nil && d.Func("verifRead") != nil {
			return fe.inline(st, p.path+">"+strings.TrimPrefix(p.site(in), p.path)+">verifRead", d.Func("verifRead"), args, nil)
		}
	}
	if d := p.fn.Prog.ImportedPackage(modPath + "/boripserver"); d != nil && strings.HasPrefix(name, "(*bufio.Reader).Read") {
		// the lines the session reads are those the driver wrote
		if g := d.Func("verif" + fn.Name()); g != nil {
			return fe.inline(st, p.path+">"+strings.TrimPrefix(p.site(in), p.path)+">"+g.Name(), g, args, nil)
		}
	}
	if fe.modPkgs[pk] && fe.standIn != "" {
		if g := fn.Pkg.Func(fe.standIn + fn.Name()); g != nil && g != p.fn {
			return fe.inline(st, p.path+">"+strings.TrimPrefix(p.site(in), p.path)+">"+g.Name(), g, args, nil)
		}
	}
	if fe.modPkgs[pk] && !fe.opaqueFn[name] && rangesMap(fn) {
		if d := fn.Pkg.Func("verifList"); d != nil && types.Identical(d.Signature, fn.Signature) {
			fn = d
		}
	}
	if fe.modPkgs[pk] && !fe.opaqueFn[name] && !rangesMap(fn) {
		if len(fn.Blocks) == 0 {
			if fe.bodyless != nil {
				if t := fe.bodyless(fe, fn); t != nil {
					fn = t
				}
			}
			if len(fn.Blocks) == 0 {
				unsup("call of %s which has no Go body", name)
			}
		}
		return fe.inline(st, p.path+">"+strings.TrimPrefix(p.site(in), p.path)+">"+fn.Name(), fn, args, fv)
	}
	if vs, ok := p.std(st, in, name, fn, args); ok {
		return vs
	}
	return p.opaque(st, name, fn.Signature, args, argTypes(c))
}

// rangesMap: what a function that walks a map returns depends on an order
// nobody promises, so it is any value at any call.
func rangesMap(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			}
		}
	}
	return false
}

// inline evaluates fn on args in st, leaving the joined outcome in st.
func (fe *GoFE) inline(st *State, path string, fn *ssa.Function, args, fv []*Val) []*Val {
	fe.depth++
	defer func() { fe.depth-- }()
	if fe.depth > 25 {
		unsup("call depth exceeded at %s", fn)
	}
	fe.ev.funcs[fn.String()] = true
	id, ok := fe.frameIDs[path]
	if !ok {
		id = len(fe.frameIDs) + 1
		fe.frameIDs[path] = id
	}
	cp := &goProg{fe: fe, fn: fn, path: path, id: id, args: args, fv: fv}
	in := st.clone()
	fe.ev.RunFunc(cp, in)
	var live []*State
	var vs [][]*Val
	for i, s := range cp.rets {
		for k := range s.env {
			if k.kind == 'r' && k.id == id {
				delete(s.env, k)
			}
		}
		live = append(live, s)
		vs = append(vs, cp.retV[i])
	}
	return cp.join(st, live, vs)
}

func (p *goProg) builtin(st *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Val) []*Val {
	fe := p.fe
	switch name {
	case "len":
		v := args[0]
		if v.t != nil && v.t.sort == SStr {
			return []*Val{V(strLen(v.t))}
		}
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return []*Val{V(v.f[2].t)}
		case *types.Array:
			return []*Val{V(I(u.Len()))}
		case *types.Pointer:
			return []*Val{V(I(u.Elem().Underlying().(*types.Array).Len()))}
		}
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return []*Val{V(args[0].f[3].t)}
		}
	case "Slice": // unsafe.Slice
		reg, off := args[0].t, I(0)
		n := intOf(args[1].t, c.Args[1].Type())
		p.nilCheck(st, in, reg)
		fe.ev.oblige(st, p.where(in), "unsafe.Slice length negative", GeZ(n))
		st.know(GeZ(n))
		if reg.op == OpFn && reg.sym == "cast" {
			reg = reg.args[0]
		}
		if reg.op == OpElem {
			off = reg.args[1]
			reg = reg.args[0]
		}
		return []*Val{VC(V(reg), V(off), V(n), V(n))}
	case "close":
		p.closeChan(st, in, args[0].t)
		return nil
	case "real":
		return []*Val{V(args[0].f[0].t)}
	case "imag":
		return []*Val{V(args[0].f[1].t)}
	case "complex":
		return []*Val{VC(V(args[0].t), V(args[1].t))}
	case "min", "max":
		op := OpMin
		if name == "max" {
			op = OpMax
		}
		var ts []*Term
		t := c.Args[0].Type()
		for _, a := range args {
			if a.t.sort == SBV {
				ts = append(ts, ToInt(a.t, isSigned(t)))
			} else {
				ts = append(ts, a.t)
			}
		}
		r := MinMax(op, ts...)
		if args[0].t.sort == SBV {
			r = TruncMod(r, args[0].t.w)
		}
		return []*Val{V(r)}
	case "ssa:wrapnilchk":
		p.nilCheck(st, in, args[0].t)
		return []*Val{args[0]}
	case "print", "println":
		return nil
	case "append":
		return []*Val{p.append(st, in, c, args)}
	case "copy":
		return []*Val{p.copy(st, in, c, args)}
	case "clear":
		if u, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			g := granOf(u.Elem())
			for _, l := range elemLeaves(u.Elem(), "") {
				z := ZeroArr(l.s, l.w)
				fe.blit(st, args[0].f[0].t, l, args[0].f[1].t, ScaleI(g, args[0].f[2].t), z, I(0))
			}
			return nil
		}
	}
	unsup("builtin %s in %s", name, p.fn)
	return nil
}

// blit copies n granules of array src (from soff) into region reg at off.
func (fe *GoFE) blit(st *State, reg *Term, l leaf, off, n, src, soff *Term) {
	if n == I(0) {
		return
	}
	if reg.op == OpIte {
		unsup("block copy through merged pointers")
	}
	if reg.op == OpSym {
		reg = aliasOf(reg)
	}
	k := arrayCell(reg, l.path, l.s, l.w)
	old := fe.getCell(st, k).t
	j := Sym(freshName("_j"), SInt)
	v := fe.sel(st.facts().With(GeZ(j), Lt(j, n)), src, Add(soff, j))
	st.env[k] = V(overAll(k, MkMap(old, j, n, []*Term{Add(off, j), v}), st.facts))
}

func (p *goProg) copy(st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Val) *Val {
	fe := p.fe
	d := args[0]
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	g := granOf(el)
	if s := args[1]; s.t != nil && s.t.sort == SStr {
		n := p.minLen(st, d.f[2].t, strLen(s.t))
		k := arrayCell(aliasOf(d.f[0].t), "", SBV, 8)
		j := Sym(freshName("_j"), SInt)
		st.env[k] = V(MkMap(fe.getCell(st, k).t, j, n, []*Term{Add(d.f[1].t, j), strAt(s.t, j)}))
		return V(n)
	}
	s := args[1]
	n := p.minLen(st, d.f[2].t, s.f[2].t)
	// the source is read before anything is written
	type job struct {
		l   leaf
		src *Term
	}
	var js []job
	for _, l := range elemLeaves(el, "") {
		js = append(js, job{l, fe.regArr(st, s.f[0].t, l.path, l.s, l.w)})
	}
	for _, q := range js {
		fe.blit(st, d.f[0].t, q.l, d.f[1].t, ScaleI(g, n), q.src, s.f[1].t)
	}
	return V(n)
}

func (p *goProg) minLen(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	f := st.facts()
	if f.Prove(Ge(a, b)) {
		return b
	}
	if f.Prove(Ge(b, a)) {
		return a
	}
	return MinMax(OpMin, a, b)
}

// append gives a new slice.  The result lives in a fresh region unless the
// capacity provably suffices, in which case it shares; when neither is known
// the two outcomes are merged by the value of cap.
func (p *goProg) append(st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Val) *Val {
	fe := p.fe
	st0 := c.Args[0].Type().Underlying().(*types.Slice)
	el := st0.Elem()
	g := granOf(el)
	a := args[0]
	var bl *Term
	if args[1].t != nil && args[1].t.sort == SStr {
		unsup("append of a string in %s", p.fn)
	}
	b := args[1]
	bl = b.f[2].t
	n := Add(a.f[2].t, bl)
	if bl == I(0) {
		return a
	}
	if a.f[2].t == I(0) && a.f[3].t == I(0) { // an empty slice without room, such as []T{}
		if !isNil(a.f[0].t) && !st.facts().Prove(GeZ(Sub(bl, I(1)))) {
			goto plain
		}
		return p.appendList(st, in, el, VC(V(zeroOf(SRef, 0)), V(I(0)), V(I(0)), V(I(0))), b)
	}
	if isNil(a.f[0].t) || fe.listLike(a.f[0].t) {
		return p.appendList(st, in, el, a, b)
	}
plain:
	fit := Ge(a.f[3].t, n)
	type job struct {
		l        leaf
		old, src *Term
	}
	var js []job
	for _, l := range elemLeaves(el, "") {
		var old *Term
		if isNil(a.f[0].t) {
			old = ZeroArr(l.s, l.w)
		} else {
			old = fe.regArr(st, a.f[0].t, l.path, l.s, l.w)
		}
		js = append(js, job{l, old, fe.regArr(st, b.f[0].t, l.path, l.s, l.w)})
	}
	share := func(s *State) *Val {
		for _, q := range js {
			fe.blitSmall(s, a.f[0].t, q.l, Add(a.f[1].t, ScaleI(g, a.f[2].t)), ScaleI(g, bl), q.src, b.f[1].t)
		}
		return VC(a.f[0], a.f[1], V(n), a.f[3])
	}
	fresh := func(s *State) *Val {
		r := p.alloc(in)
		for _, q := range js {
			s.env[arrayCell(r, q.l.path, q.l.s, q.l.w)] = V(ZeroArr(q.l.s, q.l.w))
			if a.f[1].t == I(0) {
				// contents beyond the length are unobservable
				s.env[arrayCell(r, q.l.path, q.l.s, q.l.w)] = V(q.old)
			} else {
				fe.blitSmall(s, r, q.l, I(0), ScaleI(g, a.f[2].t), q.old, a.f[1].t)
			}
			fe.blitSmall(s, r, q.l, ScaleI(g, a.f[2].t), ScaleI(g, bl), q.src, b.f[1].t)
		}
		cp := intern(Term{op: OpFn, sort: SInt, sym: "growcap", args: []*Term{n, a.f[3].t}})
		addAxiom(cp, Ge(cp, n))
		return VC(V(r), V(I(0)), V(n), V(cp))
	}
	if isNil(a.f[0].t) {
		return fresh(st)
	}
	switch st.facts().Decide(fit) {
	case 1:
		return share(st)
	case -1:
		return fresh(st)
	}
	s1, s2 := st.clone(), st.clone()
	s1.assume(fit)
	s2.assume(Not(fit))
	v1, v2 := share(s1), fresh(s2)
	return p.join(st, []*State{s1, s2}, [][]*Val{{v1}, {v2}})[0]
}

func (fe *GoFE) blitSmall(st *State, reg *Term, l leaf, off, n, src, soff *Term) {
	if c, ok := n.constInt(); ok && c <= 4 {
		for i := int64(0); i < c; i++ {
			fe.storeArr(st, reg, l.path, l.s, l.w, Add(off, I(i)), fe.sel(st.facts(), src, Add(soff, I(i))))
		}
		return
	}
	fe.blit(st, reg, l, off, n, src, soff)
}

// opaque threads a call through the effect cell.
func (p *goProg) opaque(st *State, name string, sig *types.Signature, args []*Val, ts []types.Type) []*Val {
	fe := p.fe
	fe.calls[name]++
	ioOld := fe.ioCell(st)
	as := []*Term{ioOld}
	for i, a := range args {
		as = append(as, fe.argTerms(st, a, ts[i])...)
	}
	st.env[ioKey] = V(Fn(SObj, 0, "io:"+name, as...))
	// memory the callee can reach through slices of basic elements
	for i, a := range args {
		if sl, ok := ts[i].Underlying().(*types.Slice); ok {
			if fe.readsOnly(name) {
				continue
			}
			for _, l := range elemLeaves(sl.Elem(), "") {
				if a.f[0].t.op == OpIte || isNil(a.f[0].t) {
					continue
				}
				if l.s == SRef {
					continue
				}
				k := arrayCell(aliasOf(a.f[0].t), l.path, l.s, l.w)
				st.env[k] = V(intern(Term{op: OpFn, sort: SArr, es: l.s, ew: l.w, sym: "filled:" + name + l.path, args: append([]*Term{fe.getCell(st, k).t}, as...)}))
			}
		}
	}
	rs := fe.results(sig, name, as)
	if strings.HasSuffix(name, "rtl.Device).GetSampleRate") && rs[0].t.sort == SInt {
		addAxiom(rs[0].t, GeZ(rs[0].t))
	}
	// io.Reader and net.PacketConn promise 0 <= n <= len(p).
	if short := name[strings.LastIndexByte(name, '.')+1:]; short == "Read" || short == "ReadFrom" {
		for i, t := range ts {
			if sl, ok := t.Underlying().(*types.Slice); ok && granOf(sl.Elem()) == 1 {
				n := rs[0].t
				addAxiom(n, GeZ(n))
				addAxiom(n, Ge(args[i].f[2].t, n))
				break
			}
		}
	}
	return rs
}

func (fe *GoFE) readsOnly(name string) bool {
	return strings.Contains(name, "Write") || strings.Contains(name, "Printf") || strings.Contains(name, "Println")
}

func (fe *GoFE) ioCell(st *State) *Term {
	if v, ok := st.env[ioKey]; ok {
		return v.t
	}
	return Sym("io", SObj)
}

func (fe *GoFE) results(sig *types.Signature, name string, as []*Term) []*Val {
	var out []*Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		out = append(out, fe.fnVal(sig.Results().At(i).Type(), nm, as))
	}
	return out
}

// iteArr is the memory of one region or another.
func (fe *GoFE) iteArr(st *State, reg *Term, l leaf) *Term {
	if reg.op == OpIte {
		return Ite(reg.args[0], fe.iteArr(st, reg.args[1], l), fe.iteArr(st, reg.args[2], l))
	}
	if isNil(reg) {
		return ZeroArr(l.s, l.w)
	}
	return fe.regArr(st, reg, l.path, l.s, l.w)
}

// argTerms flattens an argument, slices by their contents when short.
func (fe *GoFE) argTerms(st *State, v *Val, t types.Type) []*Term {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		n := v.f[2].t
		var out []*Term
		if c, ok := n.constInt(); ok && c <= 16 {
			g := granOf(sl.Elem())
			for i := int64(0); i < c; i++ {
				for _, l := range elemLeaves(sl.Elem(), "") {
					arr := fe.regArr(st, v.f[0].t, l.path, l.s, l.w)
					for q := int64(0); q < g; q++ {
						out = append(out, fe.sel(st.facts(), arr, Add(v.f[1].t, I(i*g+q))))
					}
				}
			}
			return append([]*Term{n}, out...)
		}
		out = append(out, n)
		for _, l := range elemLeaves(sl.Elem(), "") {
			out = append(out, v.f[1].t, fe.iteArr(st, v.f[0].t, l))
		}
		return out
	}
	var out []*Term
	leaves(v, "", func(_ string, t *Term) { out = append(out, t) })
	return out
}

var pureFns = map[string]bool{
	"(error).Error": true, "(*net.UDPAddr).String": true, "(*net.TCPAddr).String": true, "(net.Addr).String": true,
	"fmt.Sprintf": true, "strings.Join": true, "strings.TrimSpace": true, "strings.Split": true, "strings.SplitN": true,
	"strings.ToUpper": true, "strings.Fields": true, "strconv.Itoa": true, "strconv.FormatFloat": true, "strconv.FormatUint": true,
	"strconv.FormatInt": true, "strconv.ParseFloat": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseBool": true, "strconv.Atoi": true,
	"bytes.Equal": true, "bytes.TrimSpace": true, "strings.Index": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.ToLower": true, "strings.TrimPrefix": true, "strings.TrimRight": true, "strings.TrimSuffix": true, "strings.Trim": true, "strings.IndexByte": true,
}

func (p *goProg) std(st *State, in ssa.Instruction, name string, fn *ssa.Function, args []*Val) ([]*Val, bool) {
	fe := p.fe
	one := func(t *Term) ([]*Val, bool) { return []*Val{V(t)}, true }
	f64 := func(n string) ([]*Val, bool) {
		var as []*Term
		for _, a := range args {
			as = append(as, a.t)
		}
		return one(Fn(SF64, 0, n, as...))
	}
	if vs, ok := p.lineIO(st, in, name, fn, args); ok {
		return vs, true
	}
	switch name {
	case "math.Abs":
		return one(MinMax(OpMax, args[0].t, Neg(args[0].t)))
	case "math.Max":
		return one(MinMax(OpMax, args[0].t, args[1].t))
	case "math.Min":
		return one(MinMax(OpMin, args[0].t, args[1].t))
	case "math.Sqrt":
		return f64("sqrt")
	case "math.Sin":
		return f64("sin")
	case "math.Cos":
		return f64("cos")
	case "math.Sincos":
		return []*Val{V(Fn(SF64, 0, "sin", args[0].t)), V(Fn(SF64, 0, "cos", args[0].t))}, true
	case "math.Tan":
		return one(Mul(Fn(SF64, 0, "sin", args[0].t), Inv(Fn(SF64, 0, "cos", args[0].t))))
	case "math.Atan", "math.Atan2", "math.Exp", "math.Log", "math.Pow", "math.Log10", "math.Log2", "math.Sinh", "math.Cosh", "math.Mod", "math.Hypot", "math.Tanh", "math.Asin", "math.Acos":
		return f64(strings.ToLower(name[5:]))
	case "math.Floor":
		return f64("floor")
	case "math.Ceil":
		return one(Neg(Fn(SF64, 0, "floor", Neg(args[0].t))))
	case "math.Trunc":
		return one(Fn(SF64, 0, "itof", Fn(SInt, 0, "ftoi", args[0].t)))
	case "math.Round":
		return f64("round")
	case "math.Inf":
		if c, ok := args[0].t.constInt(); ok {
			if c >= 0 {
				return one(Inf(SF64))
			}
			return one(Neg(Inf(SF64)))
		}
	case "math.NaN":
		return f64("nan")
	case "math.IsNaN":
		return one(Not(FEq0(args[0].t)))
	case "math.Float32bits":
		return one(Fn(SBV, 32, "f32bits", args[0].t))
	case "math.Float64bits":
		return one(Fn(SInt, 0, "f64bits", args[0].t))
	case "math.Float32frombits":
		if n, ok := bvConst(args[0].t); ok {
			x := float64(math.Float32frombits(uint32(n)))
			switch {
			case math.IsInf(x, 1):
				return one(Inf(SF32))
			case math.IsInf(x, -1):
				return one(Neg(Inf(SF32)))
			case !math.IsNaN(x) && (x != 0 || n == 0):
				return one(Const(SF32, new(big.Rat).SetFloat64(x)))
			}
		}
		return one(Fn(SF32, 0, "f32frombits", args[0].t))
	case "math/cmplx.Exp":
		r, i := args[0].f[0].t, args[0].f[1].t
		m := Fn(SF64, 0, "exp", r)
		if r == ConstI(SF64, 0) {
			m = ConstI(SF64, 1)
		}
		return []*Val{VC(V(Mul(m, Fn(SF64, 0, "cos", i))), V(Mul(m, Fn(SF64, 0, "sin", i))))}, true
	case "math/cmplx.Rect":
		return []*Val{VC(V(Mul(args[0].t, Fn(SF64, 0, "cos", args[1].t))), V(Mul(args[0].t, Fn(SF64, 0, "sin", args[1].t))))}, true
	case "math/cmplx.Phase":
		return one(Fn(SF64, 0, "atan2", args[0].f[1].t, args[0].f[0].t))
	case "math/cmplx.Abs":
		r, i := args[0].f[0].t, args[0].f[1].t
		return one(Fn(SF64, 0, "sqrt", Add(Mul(r, r), Mul(i, i))))
	case "math/cmplx.Conj":
		return []*Val{VC(args[0].f[0], V(Neg(args[0].f[1].t)))}, true
	case "errors.New":
		t := intern(Term{op: OpFn, sort: SRef, sym: "newerr:", args: []*Term{args[0].t}})
		return one(t)
	case "fmt.Errorf":
		var as []*Term
		for i, a := range args {
			as = append(as, fe.argTerms(st, a, fn.Params[i].Type())...)
		}
		return one(intern(Term{op: OpFn, sort: SRef, sym: "newerr:", args: as}))
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32",
		"(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32":
		if vs := p.endian(st, in, name, args); vs != nil {
			return vs, true
		}
		return nil, false
	case "log.Printf", "log.Println", "log.Print":
		return nil, true
	}
	if pureFns[name] {
		var as []*Term
		ps := args
		if fn.Signature.Recv() != nil {
			as, ps = append(as, args[0].t), args[1:]
		}
		for i, a := range ps {
			as = append(as, fe.argTerms(st, a, fn.Signature.Params().At(i).Type())...)
		}
		rs := fe.results(fn.Signature, name, as)
		return rs, true
	}
	return nil, false
}

// FEq0 is x==x, false only for NaN.
func FEq0(x *Term) *Term {
	if !nanAware {
		return TTrue
	}
	return Fn(SBool, 0, "ordered", x)
}

// endian models encoding/binary byte order methods.
func (p *goProg) endian(st *State, in ssa.Instruction, name string, args []*Val) []*Val {
	fe := p.fe
	little := strings.Contains(name, "littleEndian")
	m := name[strings.LastIndex(name, ".")+1:]
	put := strings.HasPrefix(m, "Put")
	w := 16
	if strings.HasSuffix(m, "32") {
		w = 32
	}
	if strings.HasSuffix(m, "64") {
		return nil
	}
	b := args[1]
	nb := w / 8
	g := Ge(b.f[2].t, I(int64(nb)))
	fe.ev.oblige(st, p.where(in), "index out of range", g)
	st.know(g)
	at := func(i int) int64 {
		if little {
			return int64(i)
		}
		return int64(nb - 1 - i)
	}
	if put {
		bs := BVBits(args[2].t)
		for i := 0; i < nb; i++ {
			fe.storeArr(st, b.f[0].t, "", SBV, 8, Add(b.f[1].t, I(at(i))), Bits(bs[8*i:8*i+8]))
		}
		return []*Val{}
	}
	var bs []*Term
	arr := fe.regArr(st, b.f[0].t, "", SBV, 8)
	for i := 0; i < nb; i++ {
		bs = append(bs, BVBits(fe.sel(st.facts(), arr, Add(b.f[1].t, I(at(i)))))...)
	}
	return []*Val{V(Bits(bs))}
}

// bvConst: the number a constant bit vector stands for.
func bvConst(t *Term) (uint64, bool) {
	var n uint64
	bs := BVBits(t)
	if len(bs) == 0 || len(bs) > 64 {
		return 0, false
	}
	for i, b := range bs {
		switch b {
		case TTrue:
			n |= 1 << uint(i)
		case TFalse:
		default:
			return 0, false
		}
	}
	return n, true
}
