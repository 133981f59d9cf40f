package main

// The control-flow evaluator: computes, for a whole function, the value of
// every register and memory cell at every return as gated expressions over the
// inputs.  Loops are summarised (closed forms for induction variables,
// whole-array maps, reductions); what has no closed form stays as a named
// recurrence that eq.go matches coinductively.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Val is a tree of terms (slices, strings of components, structs...).
type Val struct {
	t *Term
	f []*Val
}

func V(t *Term) *Val        { return &Val{t: t} }
func VC(f ...*Val) *Val     { return &Val{f: f} }
func (v *Val) isLeaf() bool { return v.f == nil && v.t != nil }
func (v *Val) String() string {
	if v == nil {
		return "<none>"
	}
	if v.t != nil {
		return v.t.String()
	}
	var s []string
	for _, x := range v.f {
		s = append(s, x.String())
	}
	return "{" + strings.Join(s, "; ") + "}"
}
func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.t != b.t || len(a.f) != len(b.f) {
		return false
	}
	for i := range a.f {
		if !sameVal(a.f[i], b.f[i]) {
			return false
		}
	}
	return true
}
func mapVal(v *Val, f func(*Term) *Term) *Val {
	if v == nil {
		return nil
	}
	if v.t != nil {
		if n := f(v.t); n != v.t {
			return V(n)
		}
		return v
	}
	ch := false
	out := make([]*Val, len(v.f))
	for i := range v.f {
		out[i] = mapVal(v.f[i], f)
		ch = ch || out[i] != v.f[i]
	}
	if !ch {
		return v
	}
	return &Val{f: out}
}
func iteVal(c *Term, a, b *Val) *Val {
	if sameVal(a, b) {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	if a.t != nil && b.t != nil {
		if a.t.sort != b.t.sort || a.t.w != b.t.w {
			return nil
		}
		return V(Ite(c, a.t, b.t))
	}
	if len(a.f) != len(b.f) || a.t != nil || b.t != nil {
		return nil
	}
	out := make([]*Val, len(a.f))
	for i := range a.f {
		out[i] = iteVal(c, a.f[i], b.f[i])
		if out[i] == nil {
			return nil
		}
	}
	return &Val{f: out}
}

// Key names a register (kind 'r') or a memory cell (others).
type Key struct {
	kind byte
	id   int
	s    string
}

type State struct {
	env map[Key]*Val
	pc  []*Term // branch conditions taken
	as  []*Term // facts known to hold here (successful checks, axioms)
	fx  *Facts
}

func newState() *State { return &State{env: map[Key]*Val{}} }
func (s *State) clone() *State {
	n := &State{env: make(map[Key]*Val, len(s.env)), pc: append([]*Term{}, s.pc...), as: append([]*Term{}, s.as...), fx: s.fx}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}
func (s *State) assume(c *Term) {
	if c == TTrue {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == c {
			return
		}
	}
	s.pc = append(s.pc, c)
	s.fx = nil
}

// know records a fact that is not a branch condition.
func (s *State) know(c *Term) {
	if c == TTrue {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			s.know(a)
		}
		return
	}
	for _, p := range s.as {
		if p == c {
			return
		}
	}
	s.as = append(s.as, c)
	s.fx = nil
}
func (s *State) all() []*Term { return append(append([]*Term{}, s.as...), s.pc...) }
func (s *State) facts() *Facts {
	if s.fx == nil {
		s.fx = NewFacts(s.all()...)
	}
	return s.fx
}
func (s *State) dead() bool {
	for _, p := range s.pc {
		if p == TFalse {
			return true
		}
	}
	return false
}

// Prog is a control-flow graph the evaluator can run.
type Prog interface {
	NBlocks() int
	Succs(b int) []int
	// Exec runs block b; it returns the branch condition (nil: unconditional)
	// or done=true when the block ends the function (return, panic, tail jump).
	Exec(b int, st *State) (cond *Term, done bool)
	Edge(from, to int, st *State)
	Name() string
	Where(b int) string
}

type Oblig struct {
	where string
	kind  string
	pc    []*Term
	cond  *Term // must hold
}

// PhiRec is one loop-carried variable without closed form.
type PhiRec struct {
	key             Key
	path            string
	sym, init, next *Term
	fin             *Term
}

// LoopRec is a residual loop.
type LoopRec struct {
	id     string
	parent *LoopRec
	k, K   *Term
	kRes   bool // K is residual (symbol)
	exitC  *Term
	phis   []*PhiRec
	where  string
	pc     []*Term
}

type Eval struct {
	tag     string // "s" spec, "i" implementation: prefixes loop symbols
	init    func(Key) *Val
	record  int // >0: recording obligations suppressed
	obligs  []*Oblig
	loops   map[string]*LoopRec // by id, residual only
	stack   []*LoopRec
	frames  []string
	loopOf  map[*Term]*LoopRec // symbol -> loop
	unsup   []string
	nloops  int
	carried func(Key) bool
	steps   int
	funcs   map[string]bool // functions analysed
	unroll  []int
}

func (ev *Eval) unrollTag() string {
	if len(ev.unroll) == 0 {
		return ""
	}
	return fmt.Sprintf("%v", ev.unroll)
}

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func (ev *Eval) oblige(st *State, where, kind string, cond *Term) {
	if ev.record == 0 && cond != TTrue && !strings.Contains(where, "zz_verif_") {
		ev.obligs = append(ev.obligs, &Oblig{where, kind, st.all(), cond})
	}
}

type edge struct {
	from, to int
	st       *State
}

// RunFunc evaluates p from its entry; every final state is handed to ret.
func (ev *Eval) RunFunc(p Prog, in *State) {
	g := analyse(p)
	ev.frames = append(ev.frames, p.Name())
	all := map[int]bool{}
	for i := 0; i < p.NBlocks(); i++ {
		all[i] = true
	}
	ev.region(p, g, all, 0, -1, in)
	ev.frames = ev.frames[:len(ev.frames)-1]
}

type cfg struct {
	loops map[int]map[int]bool // header -> nodes
	dom   []map[int]bool
}

func analyse(p Prog) *cfg {
	n := p.NBlocks()
	reach := map[int]bool{}
	var order []int
	var dfs func(b int)
	dfs = func(b int) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range p.Succs(b) {
			dfs(s)
		}
		order = append(order, b)
	}
	dfs(0)
	preds := make([][]int, n)
	for _, b := range sortedInts(reach) {
		for _, s := range p.Succs(b) {
			preds[s] = append(preds[s], b)
		}
	}
	dom := make([]map[int]bool, n)
	full := map[int]bool{}
	for b := range reach {
		full[b] = true
	}
	for b := range reach {
		if b == 0 {
			dom[b] = map[int]bool{0: true}
		} else {
			dom[b] = full
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == 0 {
				continue
			}
			var nd map[int]bool
			for _, q := range preds[b] {
				if nd == nil {
					nd = map[int]bool{}
					for x := range dom[q] {
						nd[x] = true
					}
				} else {
					for x := range nd {
						if !dom[q][x] {
							delete(nd, x)
						}
					}
				}
			}
			if nd == nil {
				nd = map[int]bool{}
			}
			nd[b] = true
			if len(nd) != len(dom[b]) {
				dom[b] = nd
				ch = true
			}
		}
	}
	g := &cfg{loops: map[int]map[int]bool{}, dom: dom}
	for _, b := range sortedInts(reach) {
		for _, h := range p.Succs(b) {
			if dom[b][h] { // back edge
				body := g.loops[h]
				if body == nil {
					body = map[int]bool{h: true}
					g.loops[h] = body
				}
				stack := []int{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, preds[x]...)
				}
			}
		}
	}
	return g
}

// region evaluates nodes from entry; hdr is the header of the enclosing loop
// being evaluated (-1 at top level).  It returns the back-edge states and the
// edges leaving the node set.
func (ev *Eval) region(p Prog, g *cfg, nodes map[int]bool, entry, hdr int, in *State) (back []*State, exits []edge) {
	// collapse inner loops: representative = outermost loop header strictly inside
	rep := map[int]int{}
	for b := range nodes {
		rep[b] = b
	}
	for b := range nodes {
		best := 0
		for h, body := range g.loops {
			if h == hdr || !nodes[h] || !body[b] {
				continue
			}
			inside := true
			for x := range body {
				if !nodes[x] {
					inside = false
				}
			}
			if inside && (len(body) > best || len(body) == best && h < rep[b]) {
				best = len(body)
				rep[b] = h
			}
		}
	}
	succ := func(r int) []edge2 {
		var out []edge2
		if body := g.loops[r]; body != nil && r != hdr {
			for b := range body {
				for _, s := range p.Succs(b) {
					if !body[s] {
						out = append(out, edge2{b, s})
					}
				}
			}
		} else {
			for _, s := range p.Succs(r) {
				out = append(out, edge2{r, s})
			}
		}
		sort.Slice(out, func(i, j int) bool {
			if out[i].a != out[j].a {
				return out[i].a < out[j].a
			}
			return out[i].b < out[j].b
		})
		return out
	}
	// topological order
	var order []int
	seen := map[int]bool{}
	var dfs func(r int)
	dfs = func(r int) {
		if seen[r] {
			return
		}
		seen[r] = true
		for _, e := range succ(r) {
			if nodes[e.b] && !(e.b == hdr) {
				dfs(rep[e.b])
			}
		}
		order = append(order, r)
	}
	dfs(rep[entry])
	inc := map[int][]edge{}
	inc[rep[entry]] = []edge{{-1, entry, in}}
	for i := len(order) - 1; i >= 0; i-- {
		r := order[i]
		es := inc[r]
		if len(es) == 0 {
			continue
		}
		var sts []*State
		for _, e := range es {
			if !e.st.dead() {
				sts = append(sts, e.st)
			}
		}
		if len(sts) == 0 {
			continue
		}
		st := ev.merge(sts)
		emit := func(from, to int, s *State) {
			if s.dead() {
				return
			}
			p.Edge(from, to, s)
			switch {
			case to == hdr:
				back = append(back, s)
			case !nodes[to]:
				exits = append(exits, edge{from, to, s})
			default:
				if rep[to] != to {
					unsup("jump into the middle of a loop at %s", p.Where(to))
				}
				inc[to] = append(inc[to], edge{from, to, s})
			}
		}
		if g.loops[r] != nil && r != hdr {
			for _, e := range ev.loop(p, g, r, st) {
				emitRaw(e, hdr, nodes, rep, inc, &back, &exits)
			}
			continue
		}
		ev.steps++
		if ev.steps > 200000 {
			unsup("evaluation budget exceeded in %s", p.Name())
		}
		cond, done := p.Exec(r, st)
		if done {
			continue
		}
		ss := p.Succs(r)
		if cond == nil {
			if len(ss) == 1 {
				emit(r, ss[0], st)
			}
			continue
		}
		if cond != TTrue && cond != TFalse {
			switch st.facts().Decide(cond) {
			case 1:
				cond = TTrue
			case -1:
				cond = TFalse
			}
		}
		switch cond {
		case TTrue:
			emit(r, ss[0], st)
		case TFalse:
			emit(r, ss[1], st)
		default:
			a := st
			b := st.clone()
			a.enter(cond)
			b.enter(Not(cond))
			emit(r, ss[0], a)
			emit(r, ss[1], b)
		}
	}
	return
}

type edge2 struct{ a, b int }

func emitRaw(e edge, hdr int, nodes map[int]bool, rep map[int]int, inc map[int][]edge, back *[]*State, exits *[]edge) {
	if e.st.dead() {
		return
	}
	switch {
	case e.to == hdr:
		*back = append(*back, e.st)
	case !nodes[e.to]:
		*exits = append(*exits, e)
	default:
		if rep[e.to] != e.to {
			unsup("jump into the middle of a loop")
		}
		inc[e.to] = append(inc[e.to], e)
	}
}

// merge joins states with gates.
func (ev *Eval) merge(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	// common prefix
	pre := 0
outer:
	for {
		for _, s := range sts {
			if pre >= len(s.pc) || s.pc[pre] != sts[0].pc[pre] {
				break outer
			}
		}
		pre++
	}
	rems := make([]*Term, len(sts))
	for i, s := range sts {
		rems[i] = And(s.pc[pre:]...)
	}
	out := &State{env: map[Key]*Val{}}
	for _, c := range sts[0].pc[:pre] {
		out.assume(c)
	}
	for _, c := range sts[0].as {
		common := true
		for _, s := range sts[1:] {
			f := false
			for _, d := range s.as {
				if d == c {
					f = true
				}
			}
			if !f {
				common = false
				break
			}
		}
		if common {
			out.as = append(out.as, c)
		}
	}
	or := Or(rems...)
	keys := map[Key]bool{}
	for _, s := range sts {
		for k := range s.env {
			keys[k] = true
		}
	}
	get := func(s *State, k Key) *Val {
		if v, ok := s.env[k]; ok {
			return v
		}
		if k.kind == 'r' {
			return nil
		}
		return ev.init(k)
	}
	for _, k := range keySet(keys) {
		v := get(sts[len(sts)-1], k)
		if v == nil {
			continue
		}
		ok := true
		for i := len(sts) - 2; i >= 0 && ok; i-- {
			x := get(sts[i], k)
			if x == nil {
				ok = false
				break
			}
			v = iteVal(rems[i], x, v)
			if v == nil {
				ok = false
			}
		}
		if ok {
			out.env[k] = v
		} else if k.kind != 'r' {
			unsup("cell %v has incompatible shapes at a join", k)
		}
	}
	out.assume(or)
	return out
}

// leaves enumerates the scalar components of a value.
func leaves(v *Val, path string, f func(path string, t *Term)) {
	if v == nil {
		return
	}
	if v.t != nil {
		f(path, v.t)
		return
	}
	for i, x := range v.f {
		leaves(x, fmt.Sprintf("%s.%d", path, i), f)
	}
}
func mapLeaves(v *Val, path string, f func(path string, t *Term) *Term) *Val {
	if v == nil {
		return nil
	}
	if v.t != nil {
		return V(f(path, v.t))
	}
	out := make([]*Val, len(v.f))
	for i, x := range v.f {
		out[i] = mapLeaves(x, fmt.Sprintf("%s.%d", path, i), f)
	}
	return &Val{f: out}
}

type phiVar struct {
	key    Key
	path   string
	sym    *Term
	init   *Term
	next   *Term
	closed *Term // in terms of k and invariants
	via    *Term // the step the closed form was derived from
	same   *phiVar
	reopen int
	// small arrays changed at constant indices only are carried element by element
	split   map[int64]*phiVar
	noSplit bool
	parent  *phiVar
	bounds  map[string]func(*Term) *Term
	gated   map[string]gatedBound
	index   int64
}

// constStores lists the constant indices at which t differs from base.
func constStores(t *Term, idx map[int64]bool, base ...*Term) bool {
	for {
		for _, b := range base {
			if t == b {
				return true
			}
		}
		switch t.op {
		case OpStore:
			c, ok := t.args[1].constInt()
			if !ok || c < 0 {
				return false
			}
			idx[c] = true
			if len(idx) > 8 {
				return false
			}
			t = t.args[0]
		case OpIte:
			return constStores(t.args[1], idx, base...) && constStores(t.args[2], idx, base...)
		default:
			return false
		}
	}
}

// stripConst removes the stores at constant indices from t, noting them.
func stripConst(t *Term, idx map[int64]bool) *Term {
	for t.op == OpStore {
		c, ok := t.args[1].constInt()
		if !ok || c < 0 {
			break
		}
		idx[c] = true
		t = t.args[0]
	}
	return t
}

var debugLoops = false

func (ev *Eval) loop(p Prog, g *cfg, h int, in *State) []edge {
	nodes := g.loops[h]
	if ex, ok := ev.tryUnroll(p, g, h, in); ok {
		return ex
	}
	id := fmt.Sprintf("%s:%s/%d%s", ev.tag, ev.frames[len(ev.frames)-1], h, ev.unrollTag())
	rec := &LoopRec{id: id, where: p.Where(h)}
	if len(ev.stack) > 0 {
		rec.parent = ev.stack[len(ev.stack)-1]
	}
	k := Sym("k#"+id, SInt)
	rec.k = k
	retract(k)
	addAxiom(k, GeZ(k))
	ev.stack = append(ev.stack, rec)
	ev.record++
	vars := map[string]*phiVar{} // key+path
	var order []string
	modKeys := map[Key]bool{}
	vname := func(key Key, path string) string { return fmt.Sprintf("%c|%d|%s|%s", key.kind, key.id, key.s, path) }
	get := func(s *State, key Key) *Val {
		if v, ok := s.env[key]; ok {
			return v
		}
		if key.kind == 'r' {
			return nil
		}
		return ev.init(key)
	}
	var headState *State
	var back *State
	var exits []edge
	var KTerm *Term
	extra := []*Term{} // facts about k at the header
	var shifted []*Term
	build := func() *State {
		st := in.clone()
		for _, key := range keySet(modKeys) {
			v := get(in, key)
			if v == nil {
				continue
			}
			key := key
			st.env[key] = mapLeaves(v, "", func(path string, t *Term) *Term {
				n := vname(key, path)
				pv := vars[n]
				if pv == nil {
					nm := "φ#" + id + "." + ev.keyName(key) + path
					pv = &phiVar{key: key, path: path, init: t, sym: symLike(nm, t)}
					retract(pv.sym)
					delete(windows, pv.sym)
					vars[n] = pv
					order = append(order, n)
				}
				if pv.split != nil {
					a := pv.init
					for c := int64(0); c < 64; c++ {
						if e := pv.split[c]; e != nil {
							v := e.sym
							if e.closed != nil {
								v = e.closed
							}
							a = Store(a, I(c), v)
						}
					}
					pv.closed = a
				}
				if pv.closed != nil {
					return pv.closed
				}
				return pv.sym
			})
		}
		st.fx = nil
		for _, e := range extra {
			st.know(e)
		}
		for _, e := range shifted {
			st.know(e)
		}
		return st
	}
	run := func() {
		st := build()
		headState = st.clone()
		b, ex := ev.region(p, g, nodes, h, h, st)
		exits = ex
		back = nil
		if len(b) > 0 {
			back = ev.merge(b)
		}
	}
	// header registers assigned on entry are loop carried
	for pass := 0; ; pass++ {
		if pass > 40 {
			unsup("loop at %s does not stabilise", p.Where(h))
		}
		run()
		if back == nil {
			break // body never comes back
		}
		// discover modified keys
		grew := false
		for _, key := range envKeys(back.env) {
			v := back.env[key]
			if modKeys[key] {
				continue
			}
			if key.kind == 'r' {
				if _, ok := in.env[key]; !ok {
					continue
				}
			}
			if key.kind != 'r' && freshCell(key, k) {
				continue // made in this iteration
			}
			if !sameVal(v, get(headState, key)) {
				modKeys[key] = true
				grew = true
			}
		}
		if grew {
			continue
		}
		// steps
		for _, n := range order {
			pv := vars[n]
			pv.next = nil
			path := pv.path
			if pv.parent != nil {
				path = pv.parent.path
			}
			leaves(get(back, pv.key), "", func(p string, t *Term) {
				if p == path {
					pv.next = t
				}
			})
			if pv.parent != nil && pv.next != nil {
				pv.next = Select(pv.next, I(pv.index))
			}
			if pv.next == nil {
				unsup("loop variable %v lost its shape at %s", pv.key, p.Where(h))
			}
		}
		changed := false
		if ev.recheck(vars, order, k) {
			changed = true
		} else {
			changed = ev.solvePhis(vars, order, k, in, back)
		}
		// K
		if nk := ev.solveK(k, headState, exits, vars, order, in); nk != nil && nk != KTerm {
			KTerm = nk
			extra = append(extra[:0], Ge(KTerm, k))
			changed = true
		} else if nk == nil && KTerm != nil {
			KTerm = nil
			extra = nil
			changed = true
		}
		if debugLoops {
			fmt.Printf("--- loop %s pass %d K=%v\n", id, pass, KTerm)
			for _, n := range order {
				pv := vars[n]
				fmt.Printf("   %s init=%v next=%v closed=%v\n", pv.sym, pv.init, pv.next, pv.closed)
			}
		}
		if !changed {
			open := map[*Term]bool{}
			for _, n := range order {
				if vars[n].closed == nil {
					open[vars[n].sym] = true
				}
			}
			ev.taintInner(open, k)
			for _, n := range order {
				pv := vars[n]
				if pv.sym.sort != SArr || pv.closed != nil {
					continue
				}
				w := findWindow(pv, k, open)
				if old := windows[pv.sym]; old != nil {
					if !w.within(old) {
						unsup("the cells loop variable %s changes are not those found before", pv.sym)
					}
				} else if w != nil && w.init != pv.sym {
					windows[pv.sym] = w
					changed = true
				}
			}
		}
		if !changed && ev.inferBounds(vars, order, in, back) {
			changed = true
		}
		if !changed {
			open := map[*Term]bool{}
			for _, n := range order {
				if vars[n].closed == nil {
					open[vars[n].sym] = true
				}
			}
			ev.taintInner(open, k)
			if cs := carried(k, open, shifted, in, back); len(cs) > 0 {
				shifted = append(shifted, cs...)
				changed = true
			}
		}
		if !changed {
			for _, n := range append([]string{}, order...) {
				pv := vars[n]
				if pv.closed != nil || pv.sym.sort != SArr || pv.noSplit {
					continue
				}
				idx := map[int64]bool{}
				root := stripConst(pv.init, idx)
				if !constStores(pv.next, idx, pv.sym, root) || len(idx) == 0 {
					continue
				}
				if idx0 := map[int64]bool{}; constStores(pv.next, idx0, pv.sym) {
					idx = idx0 // the others keep their values
				}
				pv.split = map[int64]*phiVar{}
				for _, c := range sorted64(idx) {
					el := Select(pv.init, I(c))
					path := fmt.Sprintf("%s{%d}", pv.path, c)
					e := &phiVar{key: pv.key, path: path, init: el, sym: symLike("φ#"+id+"."+ev.keyName(pv.key)+path, el), parent: pv, index: c}
					retract(e.sym)
					pv.split[c] = e
					vars[vname(pv.key, path)] = e
				}
				for c := int64(0); c < 64; c++ {
					if e := pv.split[c]; e != nil {
						order = append(order, vname(pv.key, e.path))
					}
				}
				pv.closed = pv.sym // replaced when the state is built
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	ev.record--
	if ev.record == 0 {
		run() // final pass records obligations
	}
	ev.stack = ev.stack[:len(ev.stack)-1]
	// residual variables
	K := KTerm
	var conds []*Term
	for _, e := range exits {
		conds = append(conds, ev.remCond(headState, e.st))
	}
	rec.exitC = Or(conds...)
	if K == nil {
		K = Sym("K#"+id, SInt)
		rec.kRes = true
		retract(K)
		addAxiom(K, GeZ(K))
		for _, g := range shifted { // K of a loop not reached counts as 0
			addAxiom(K, Or(EqZ(K), Subst(g, map[*Term]*Term{k: K})))
		}
	}
	rec.K = K
	loopEnded(k, K)
	m := map[*Term]*Term{k: K}
	for _, n := range order {
		pv := vars[n]
		if pv.closed == nil {
			fin := symLike("fin#"+id+"."+ev.keyName(pv.key)+pv.path, pv.sym)
			retract(fin)
			rec.phis = append(rec.phis, &PhiRec{key: pv.key, path: pv.path, sym: pv.sym, init: pv.init, next: pv.next, fin: fin})
			m[pv.sym] = fin
			ev.loopOf[pv.sym] = rec
			ev.loopOf[fin] = rec
			phiVals[pv.sym] = [2]*Term{pv.init, pv.next}
			phiVals[fin] = phiVals[pv.sym]
			if w := windows[pv.sym]; w != nil {
				windows[fin] = &window{init: w.init, k: K, c: w.c, as: w.as}
			}
		}
	}
	for _, n := range order {
		if pv := vars[n]; pv.closed == nil {
			for _, ax := range atomAxioms[pv.sym] {
				addAxiom(m[pv.sym], Subst(ax, m))
			}
		}
	}
	if len(rec.phis) > 0 || rec.kRes {
		ev.loopOf[k] = rec
		if rec.kRes {
			ev.loopOf[K] = rec
		}
		rec.pc = in.all()
		ev.loops[id] = rec
	}
	// exit states at k=K
	var out []edge
	memo := map[int]*Term{}
	for _, e := range exits {
		ns := &State{env: map[Key]*Val{}}
		for _, key := range envKeys(e.st.env) {
			v := e.st.env[key]
			nkey := key
			if key.kind != 'r' && freshCell(key, k) {
				nkey = rekey(key, m)
			}
			ns.env[nkey] = mapVal(v, func(t *Term) *Term {
				if r := substMemo(t, m, memo); r != t {
					return overAll(key, r, e.st.facts)
				}
				return t
			})
		}
		for _, c := range e.st.pc {
			ns.assume(substMemo(c, m, memo))
		}
		for _, c := range e.st.as {
			ns.know(substMemo(c, m, memo))
		}
		out = append(out, edge{e.from, e.to, ns})
	}
	return out
}

var keyNames = map[Key]string{}

func (ev *Eval) keyName(k Key) string {
	if n, ok := keyNames[k]; ok {
		return n
	}
	return fmt.Sprintf("%c%d%s", k.kind, k.id, k.s)
}

// remCond is the condition of a state relative to the state it started from.
func (ev *Eval) remCond(from, to *State) *Term {
	have := map[*Term]bool{}
	for _, c := range from.pc {
		have[c] = true
	}
	var r []*Term
	for _, c := range to.pc {
		if !have[c] {
			r = append(r, c)
		}
	}
	return And(r...)
}

func (ev *Eval) tryUnroll(p Prog, g *cfg, h int, in *State) ([]edge, bool) {
	nodes := g.loops[h]
	ev.record++
	saveO := len(ev.obligs)
	ok := false
	var all []edge
	try := func(record bool) bool {
		cur := in.clone()
		all = nil
		ev.unroll = append(ev.unroll, 0)
		defer func() { ev.unroll = ev.unroll[:len(ev.unroll)-1] }()
		for it := 0; it < 20; it++ {
			ev.unroll[len(ev.unroll)-1] = it
			cp := &constProbe{Prog: p, nodes: nodes}
			back, exits := ev.region(cp, g, nodes, h, h, cur)
			all = append(all, exits...)
			if len(back) == 0 {
				return true
			}
			if !cp.decided {
				return false
			}
			cur = ev.merge(back)
		}
		return false
	}
	func() {
		ok = try(false)
	}()
	ev.record--
	ev.obligs = ev.obligs[:saveO]
	if ok && ev.record == 0 {
		ok = try(true)
	}
	if ok && len(all) > 40 {
		return nil, false
	}
	return all, ok
}

// constProbe notices whether some branch leaving the loop was decided.
type constProbe struct {
	Prog
	nodes   map[int]bool
	decided bool
}

func (c *constProbe) Exec(b int, st *State) (*Term, bool) {
	cond, done := c.Prog.Exec(b, st)
	if cond != nil && !done {
		leaves := false
		for _, s := range c.Prog.Succs(b) {
			if !c.nodes[s] {
				leaves = true
			}
		}
		if leaves {
			if cond != TTrue && cond != TFalse {
				// only constant-foldable decisions count
			} else {
				c.decided = true
			}
		}
	}
	return cond, done
}

// ---------- closed forms ----------

// recheck confirms every closed form against the step computed with it in
// place; a step that has changed since (memory found to be the same region
// only after another variable was closed) reopens the variable.
// peel drops a first iteration that is no exception: at k = 0 the variables
// have their start values.
func (ev *Eval) peel(vars map[string]*phiVar, order []string, nx, k *Term) *Term {
	if nx.op != OpIte || nx.args[0] != EqZ(k) && nx.args[0] != GeZ(Sub(k, I(1))) {
		return nx
	}
	a, b := nx.args[1], nx.args[2]
	if nx.args[0] != EqZ(k) {
		a, b = b, a
	}
	m0 := map[*Term]*Term{k: I(0)}
	for _, o := range order {
		m0[vars[o].sym] = vars[o].init
	}
	if Subst(b, m0) == Subst(a, m0) {
		return b
	}
	return nx
}

func (ev *Eval) recheck(vars map[string]*phiVar, order []string, k *Term) bool {
	m := map[*Term]*Term{}
	for _, n := range order {
		if pv := vars[n]; pv.closed != nil {
			m[pv.sym] = pv.closed
		}
	}
	memo := map[int]*Term{}
	k1 := map[*Term]*Term{k: Add(k, I(1))}
	bad := false
	for _, n := range order {
		pv := vars[n]
		if pv.closed == nil {
			continue
		}
		if pv.split != nil {
			idx := map[int64]bool{}
			base := pv.init
			for base.op == OpStore {
				if c, isC := base.args[1].constInt(); !isC || pv.split[c] == nil {
					break
				}
				base = base.args[0]
			}
			ok := constStores(pv.next, idx, base)
			for c := range idx {
				ok = ok && pv.split[c] != nil
			}
			if !ok {
				unsup("small array %s changes elsewhere than at constant indices", pv.sym)
			}
			continue
		}
		if pv.same != nil {
			if o := pv.same; o.closed != nil && pv.closed != o.closed {
				pv.closed = o.closed
				bad = true
				continue
			}
			if pv.next == pv.same.next {
				continue
			}
		} else if pv.next == pv.closed && !hasSym(pv.closed, k) {
			continue
		}
		if pv.via != nil {
			v := pv.via
			for i := 0; i < 4; i++ {
				w := substMemo(v, m, memo)
				if w == v {
					break
				}
				v = w
			}
			if v == pv.next || v == ev.peel(vars, order, pv.next, k) {
				continue
			}
		}
		if nc, sc := Subst(pv.closed, k1), simp(NewFacts(GeZ(k)), Subst(pv.closed, k1)); nc == pv.next || sc == pv.next {
			continue
		} else if p := ev.peel(vars, order, pv.next, k); p != pv.next && (p == nc || p == sc) {
			continue
		}
		if debugLoops {
			fmt.Printf("   REOPEN %s next=%v via=%v closed=%v\n", pv.sym, pv.next, pv.via, pv.closed)
		}
		pv.closed = nil
		pv.via = nil
		pv.same = nil
		pv.reopen++
		bad = true
	}
	return bad
}

// taintInner adds to open the results of inner loops that depend, through
// their start values, steps, trip count or exits, on open variables or on the
// iteration number: they differ from one iteration to the next.
func (ev *Eval) taintInner(open map[*Term]bool, k *Term) {
	dep := map[*Term]bool{k: true}
	for t := range open {
		dep[t] = true
	}
	recs := map[*LoopRec][]*Term{}
	for s, r := range ev.loopOf {
		if r.k != k && !dep[s] {
			recs[r] = append(recs[r], s)
		}
	}
	for grew := true; grew; {
		grew = false
		for r, syms := range recs {
			hit := r.K != nil && mentions(r.K, dep) || r.exitC != nil && mentions(r.exitC, dep)
			for _, p := range r.phis {
				hit = hit || mentions(p.init, dep) || p.next != nil && mentions(p.next, dep)
			}
			if !hit {
				continue
			}
			for _, s := range syms {
				dep[s] = true
				open[s] = true
			}
			delete(recs, r)
			grew = true
		}
	}
}

func (ev *Eval) solvePhis(vars map[string]*phiVar, order []string, k *Term, in, back *State) bool {
	open := map[*Term]bool{}
	for _, n := range order {
		if vars[n].closed == nil {
			open[vars[n].sym] = true
		}
	}
	ev.taintInner(open, k)
	changed := false
	set := func(pv *phiVar, t *Term) {
		pv.closed = t // other steps mention the symbol until the next pass
		pv.via = pv.next
		changed = true
	}
	free := func(t *Term) bool { return !mentions(t, open) }
	at := func(t, v *Term) *Term { return Subst(t, map[*Term]*Term{k: v}) }
	for _, n := range order {
		pv := vars[n]
		if pv.closed != nil || pv.reopen > 4 {
			continue
		}
		nx := pv.next
		if nx.op == OpMax || nx.op == OpMin {
			nx = simp(NewFacts(GeZ(k)), nx)
		}
		if p := ev.peel(vars, order, nx, k); p != nx {
			nx = p
		}
		// nil, and from the first iteration on always the same new object
		if pv.sym.sort == SRef && isNil(pv.init) && nx.op == OpIte {
			a, b, c := nx.args[1], nx.args[2], EqT(pv.sym, pv.init)
			if nx.args[0] == Not(c) {
				a, b = b, a
			}
			if (nx.args[0] == c || nx.args[0] == Not(c)) && b == pv.sym && a.op == OpAlloc && listRegs[a] {
				set(pv, Ite(GeZ(Sub(k, I(1))), at(a, I(0)), pv.init))
				listRegs[at(a, I(0))] = true
				continue
			}
		}
		if nx == pv.sym {
			set(pv, pv.init)
			continue
		}
		if isNum(pv.sym.sort) {
			d := Sub(nx, pv.sym)
			if free(d) {
				if !hasSym(d, k) {
					kk := k
					if isFloat(pv.sym.sort) {
						kk = Fn(pv.sym.sort, 0, "itof", k)
					}
					set(pv, Add(pv.init, Mul(d, kk)))
				} else {
					j := Sym(freshName("_j"), SInt)
					set(pv, Add(pv.init, MkSum(pv.sym.sort, j, k, at(d, j))))
				}
				continue
			}
			if nx.op == OpMax || nx.op == OpMin {
				var rest []*Term
				self := false
				for _, a := range nx.args {
					if a == pv.sym {
						self = true
					} else {
						rest = append(rest, a)
					}
				}
				if self && len(rest) > 0 {
					t := rest[0]
					if len(rest) > 1 {
						t = MinMax(nx.op, rest...)
					}
					if free(t) {
						op := OpRMax
						if nx.op == OpMin {
							op = OpRMin
						}
						j := Sym(freshName("_j"), SInt)
						set(pv, MinMax(nx.op, pv.init, MkRed(op, pv.sym.sort, j, k, at(t, j))))
						continue
					}
				}
			}
			if pv.sym.sort == SInt {
				if t := ev.solveCyc(pv, k, open, in, back); t != nil {
					set(pv, t)
					continue
				}
			}
			// bounded step
			if pv.sym.sort == SInt {
				if lo, hi, ok := stepBounds(nx, pv.sym); ok {
					addAxiom(pv.sym, Ge(pv.sym, Add(pv.init, ScaleI(lo, k))))
					addAxiom(pv.sym, Ge(Add(pv.init, ScaleI(hi, k)), pv.sym))
				}
			}
		}
		if pv.sym.sort == SArr {
			if t := ev.solveArr(pv, k, open, back); t != nil {
				set(pv, t)
				continue
			}
			if t := ev.solveRing(pv, k, open); t != nil {
				set(pv, t)
				continue
			}
		}
		if free(nx) && nx.sort != SArr {
			if at(nx, I(-1)) == pv.init {
				set(pv, at(nx, Sub(k, I(1))))
				continue
			}
			set(pv, Ite(GeZ(Sub(k, I(1))), at(nx, Sub(k, I(1))), pv.init))
			continue
		}
	}
	if changed {
		return true
	}
	// congruent variables
	for i, a := range order {
		pa := vars[a]
		if pa.closed != nil {
			continue
		}
		for _, b := range order[:i] {
			pb := vars[b]
			if pb.closed != nil || pa.sym.sort != pb.sym.sort || pa.init != pb.init || pa.sym.w != pb.sym.w {
				continue
			}
			if Subst(pa.next, map[*Term]*Term{pa.sym: pb.sym}) == Subst(pb.next, map[*Term]*Term{pa.sym: pb.sym}) {
				set(pa, pb.sym)
				pa.via = nil
				pa.same = pb
				return true
			}
		}
	}
	return false
}

// stepBounds: next - phi lies in [lo,hi] by its ite leaves.
func stepBounds(nx, phi *Term) (lo, hi int64, ok bool) {
	if c, isC := Sub(nx, phi).constInt(); isC {
		return c, c, true
	}
	if nx.op == OpIte {
		l1, h1, ok1 := stepBounds(nx.args[1], phi)
		l2, h2, ok2 := stepBounds(nx.args[2], phi)
		if ok1 && ok2 {
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1, true
		}
		return 0, 0, false
	}
	if nx.op == OpPoly {
		// c0 + phi + ite(...)
		d := Sub(nx, phi)
		lo, hi, ok := iteRange(d)
		return lo, hi, ok
	}
	return 0, 0, false
}

func iteRange(t *Term) (lo, hi int64, ok bool) {
	for _, p := range toPoly(t) {
		if !p.c.IsInt() || !p.c.Num().IsInt64() {
			return 0, 0, false
		}
		c := p.c.Num().Int64()
		if len(p.f) == 0 {
			lo += c
			hi += c
			continue
		}
		if len(p.f) != 1 || p.f[0].e != 1 {
			return 0, 0, false
		}
		a := p.f[0].t
		var l, h int64
		switch a.op {
		case OpIte:
			l1, h1, ok1 := iteRange(a.args[1])
			l2, h2, ok2 := iteRange(a.args[2])
			if !ok1 || !ok2 {
				return 0, 0, false
			}
			l, h = min64(l1, l2), max64(h1, h2)
		case OpB2I:
			l, h = 0, 1
		default:
			return 0, 0, false
		}
		if c >= 0 {
			lo += c * l
			hi += c * h
		} else {
			lo += c * h
			hi += c * l
		}
	}
	return lo, hi, true
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// solveArr recognises an array whose every iteration stores at affine,
// pairwise distinct indexes, and whose reads of itself see initial contents.
func (ev *Eval) solveArr(pv *phiVar, k *Term, open map[*Term]bool, back *State) *Term {
	type ent struct{ i, v *Term }
	var es []ent
	t := pv.next
	for t.op == OpStore {
		es = append([]ent{{t.args[1], t.args[2]}}, es...)
		t = t.args[0]
	}
	if t != pv.sym || len(es) == 0 {
		return nil
	}
	var c0 *big.Rat
	for _, e := range es {
		if mentions(e.i, open) {
			return nil
		}
		_, c, ok := affineIn(e.i, k)
		if !ok || c.Sign() == 0 || !c.IsInt() {
			return nil
		}
		if c0 == nil {
			c0 = c
		} else if c0.Cmp(c) != 0 {
			return nil
		}
	}
	ac := new(big.Rat).Abs(c0)
	for i := range es {
		for j := 0; j < i; j++ {
			if es[i].i.sort != SInt {
				if EqT(es[i].i, es[j].i) != TFalse {
					return nil
				}
				continue
			}
			d, ok := Sub(es[i].i, es[j].i).constRat()
			if !ok || d.Sign() == 0 || new(big.Rat).Abs(d).Cmp(ac) >= 0 {
				return nil
			}
		}
	}
	// reads
	others := map[*Term]bool{}
	for s := range open {
		if s != pv.sym {
			others[s] = true
		}
	}
	facts := back.facts().With(GeZ(k))
	kk := Sym("_sk", SInt)
	okAll := true
	memo := map[int]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if t == pv.sym {
			okAll = false
			return t
		}
		if len(t.args) == 0 && len(t.poly) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.op == OpSelect && t.args[0] == pv.sym {
			i := rw(t.args[1])
			hit := false
			for _, e := range es {
				q, s := mapSolve(Subst(e.i, map[*Term]*Term{k: kk}), kk, i)
				if s < 0 {
					continue
				}
				if s == 0 || !facts.Prove(Or(GeZ(Sub(I(-1), q)), Ge(q, k))) {
					hit = true
				}
			}
			if hit {
				okAll = false
			}
			r = Select(pv.init, i)
		} else if t.op == OpPoly {
			r = substPoly(t, rw)
		} else if _, ok := binderScope(t); ok {
			if hasSym(t, pv.sym) {
				okAll = false
			}
			r = t
		} else {
			a := make([]*Term, len(t.args))
			ch := false
			for i := range a {
				a[i] = rw(t.args[i])
				ch = ch || a[i] != t.args[i]
			}
			r = t
			if ch {
				r = rebuild(t, a)
			}
		}
		memo[t.id] = r
		return r
	}
	j := Sym(freshName("_j"), SInt)
	var evs []*Term
	m := map[*Term]*Term{k: j}
	for _, e := range es {
		v := rw(e.v)
		if !okAll || mentions(v, others) {
			return nil
		}
		evs = append(evs, Subst(e.i, m), Subst(v, m))
	}
	return MkMap(pv.init, j, k, evs)
}

// overAll drops the base of a map that has written every cell of its region.
func overAll(key Key, t *Term, f func() *Facts) *Term {
	if t.op != OpMap || t.args[0].op == OpFn {
		return t
	}
	cm, ok := cellMetas[key]
	if !ok || key.kind != 'a' {
		return t
	}
	ln := regionLen[cm.root]
	if ln == nil {
		return t
	}
	j := Sym("_oa", SInt)
	ev := open(t, j)
	m := int64(len(ev) / 2)
	for d := int64(0); d < m; d++ {
		if ev[2*d].sort != SInt || ev[2*d] != Add(ScaleI(m, j), I(d)) {
			return t
		}
	}
	if !f().Prove(Ge(ScaleI(m, t.args[1]), ln)) {
		return t
	}
	return MkMap(ZeroArr(t.es, t.ew), j, t.args[1], ev)
}

// solveK finds the index of the iteration that leaves the loop.
func (ev *Eval) solveK(k *Term, head *State, exits []edge, vars map[string]*phiVar, order []string, in *State) *Term {
	open := map[*Term]bool{}
	for _, n := range order {
		if vars[n].closed == nil {
			open[vars[n].sym] = true
		}
	}
	if len(exits) == 0 {
		return nil
	}
	ev.taintInner(open, k)
	delete(open, k)
	var conds []*Term
	for _, e := range exits {
		conds = append(conds, ev.remCond(head, e.st))
	}
	c := Or(conds...)
	// drop facts about k itself
	if c == TTrue {
		return I(0)
	}
	if mentions(c, open) {
		return nil
	}
	// several conjuncts: those implied by the entry facts are not conditions
	cs := []*Term{c}
	if c.op == OpAnd {
		cs = nil
		for _, a := range c.args {
			if !hasSym(a, k) && in.facts().Prove(a) {
				continue
			}
			cs = append(cs, a)
		}
	}
	if len(cs) != 1 {
		return nil
	}
	c = cs[0]
	switch c.op {
	case OpOr:
		// the first of them to hold ends the loop
		var min *Term
		for _, q := range c.args {
			x := firstHeld(q, k, in.facts(), 6)
			if x == nil {
				return nil
			}
			if min == nil {
				min = x
			} else {
				min = MinMax(OpMin, min, x)
			}
		}
		return min
	}
	return firstHeld(c, k, in.facts(), 6)
}

// firstHeld is the least k >= 0 for which c holds.
func firstHeld(c, k *Term, in *Facts, depth int) *Term {
	switch c.op {
	case OpGe:
		a, b, ok := affineIn(c.args[0], k)
		if !ok || !b.IsInt() || b.Sign() <= 0 || !b.Num().IsInt64() {
			return nil
		}
		x := Neg(FDiv(a, b.Num().Int64()))
		if in.Prove(GeZ(x)) {
			return x
		}
		return MinMax(OpMax, x, I(0))
	case OpEqZ:
		a, b, ok := affineIn(c.args[0], k)
		if !ok || !b.IsInt() || b.Sign() == 0 || !b.Num().IsInt64() {
			return nil
		}
		if b.Sign() > 0 {
			a = Neg(a)
		} else {
			b = new(big.Rat).Neg(b)
		}
		// b*k = a
		n := b.Num().Int64()
		q := FDiv(a, n)
		if !in.Prove(EqI(a, ScaleI(n, q))) {
			for i := 0; i < len(a.poly) && depth > 0; i++ {
				f := a.poly[i].f
				if len(f) != 1 || f[0].t.op != OpIte {
					continue
				}
				t := f[0].t
				g := t.args[0]
				if hasSym(g, k) {
					return nil
				}
				x := firstHeld(Subst(c, map[*Term]*Term{t: t.args[1]}), k, in.With(g), depth-1)
				y := firstHeld(Subst(c, map[*Term]*Term{t: t.args[2]}), k, in.With(Not(g)), depth-1)
				if x == nil || y == nil {
					return nil
				}
				return Ite(g, x, y)
			}
			return nil
		}
		if in.Prove(GeZ(q)) {
			return q
		}
	}
	return nil
}
