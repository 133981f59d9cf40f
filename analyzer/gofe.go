package main

// Go front end: runs go/ssa functions on the evaluator.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type GoFE struct {
	ev       *Eval
	fset     *token.FileSet
	modPkgs  map[string]bool // package paths whose functions are inlined
	frameIDs map[string]int
	burst    map[string]bool
	prog     *ssa.Program                      // set: package initialisation is evaluated first
	mutable  map[string]bool                   // variables assigned after initialisation
	globals  func(*ssa.Global) map[string]*Val // initial contents of read-only globals
	depth    int
	bodyless func(fe *GoFE, fn *ssa.Function) *ssa.Function
	calls    map[string]int
	standIn  string          // a driver's function of this name and the callee's is called in its place
	opaqueFn map[string]bool // functions kept uninterpreted
	tyNames  map[string]string
	ifaceMk  map[*Term]ifaceVal
	trace    []string
	reqs     []*Term
}

// fieldRen applies while a specification is being evaluated or compared.
var fieldRen = map[string]string{}
var inSpec = false

func curRename(n string) string {
	if r, ok := fieldRen[n]; ok && inSpec {
		return r
	}
	return n
}

type ifaceVal struct {
	v *Val
	t types.Type
}

func newGoFE(tag string, fset *token.FileSet) *GoFE {
	fe := &GoFE{fset: fset, modPkgs: map[string]bool{}, frameIDs: map[string]int{}, burst: map[string]bool{}, calls: map[string]int{}, opaqueFn: map[string]bool{}, ifaceMk: map[*Term]ifaceVal{}}
	fe.ev = &Eval{tag: tag, loops: map[string]*LoopRec{}, loopOf: map[*Term]*LoopRec{}, funcs: map[string]bool{}}
	fe.ev.init = fe.initCell
	return fe
}

// ---------- types ----------

type leaf struct {
	path  string
	s     Sort
	w     int
	es    Sort
	ew    int
	gran  int
	isLen bool
}

func basicSort(b *types.Basic) (Sort, int, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, 0, true
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return SInt, 0, true
	case types.Int8, types.Uint8:
		return SBV, 8, true
	case types.Int16, types.Uint16:
		return SBV, 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return SBV, 32, true
	case types.Float32:
		return SF32, 0, true
	case types.Float64, types.UntypedFloat:
		return SF64, 0, true
	case types.String, types.UntypedString:
		return SStr, 0, true
	case types.UnsafePointer, types.UntypedNil:
		return SRef, 0, true
	}
	return 0, 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}
func isComplex(t types.Type) (Sort, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Complex64:
			return SF32, true
		case types.Complex128, types.UntypedComplex:
			return SF64, true
		}
	}
	return 0, false
}

// shape builds a value of type t from a generator of leaves.
func shape(t types.Type, path string, gen func(path string, s Sort, w int) *Term, arr func(path string, elem types.Type, n int64) *Val) *Val {
	if s, ok := isComplex(t); ok {
		return VC(V(gen(path+"#re", s, 0)), V(gen(path+"#im", s, 0)))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, w, ok := basicSort(u)
		if !ok {
			unsup("type %s", t)
		}
		return V(gen(path, s, w))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return V(gen(path, SRef, 0))
	case *types.Slice:
		return VC(V(gen(path+"#r", SRef, 0)), V(gen(path+"#off", SInt, 0)), V(gen(path+"#len", SInt, 0)), V(gen(path+"#cap", SInt, 0)))
	case *types.Struct:
		var fs []*Val
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, shape(u.Field(i).Type(), path+"."+curRename(u.Field(i).Name()), gen, arr))
		}
		return &Val{f: append([]*Val{}, fs...)}
	case *types.Array:
		return arr(path, u.Elem(), u.Len())
	case *types.Tuple:
		var fs []*Val
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, shape(u.At(i).Type(), fmt.Sprintf("%s.%d", path, i), gen, arr))
		}
		return &Val{f: append([]*Val{}, fs...)}
	}
	unsup("type %s", t)
	return nil
}

// elemLeaves lists the granule arrays of an element type.
func elemLeaves(t types.Type, path string) []leaf {
	if s, ok := isComplex(t); ok {
		return []leaf{{path: path, s: s, gran: 2}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, w, ok := basicSort(u)
		if !ok {
			unsup("element type %s", t)
		}
		return []leaf{{path: path, s: s, w: w, gran: 1}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []leaf{{path: path, s: SRef, gran: 1}}
	case *types.Slice:
		return []leaf{{path: path + "#r", s: SRef, gran: 1}, {path: path + "#off", s: SInt, gran: 1}, {path: path + "#len", s: SInt, gran: 1}, {path: path + "#cap", s: SInt, gran: 1}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, elemLeaves(u.Field(i).Type(), path+"."+curRename(u.Field(i).Name()))...)
		}
		return out
	}
	unsup("element type %s", t)
	return nil
}

func granOf(t types.Type) int64 {
	if _, ok := isComplex(t); ok {
		return 2
	}
	return 1
}

func (fe *GoFE) zero(t types.Type) *Val {
	return shape(t, "", func(path string, s Sort, w int) *Term { return zeroOf(s, w) }, func(path string, el types.Type, n int64) *Val {
		var fs []*Val
		for _, l := range elemLeaves(el, "") {
			fs = append(fs, V(ZeroArr(l.s, l.w)))
		}
		return &Val{f: fs}
	})
}

// symVal is an unknown value named after where it comes from.
func (fe *GoFE) symVal(t types.Type, name string) *Val {
	return shape(t, name, func(path string, s Sort, w int) *Term {
		if strings.HasSuffix(path, "#off") {
			return I(0)
		}
		if strings.HasSuffix(path, "#cap") {
			c := Sym(path, SInt)
			l := Sym(path[:len(path)-4]+"#len", SInt)
			addAxiom(c, Ge(c, l))
			addAxiom(l, GeZ(l))
			return c
		}
		if s == SBV {
			return SymBV(path, w)
		}
		return Sym(path, s)
	}, func(path string, el types.Type, n int64) *Val {
		var fs []*Val
		for _, l := range elemLeaves(el, "") {
			fs = append(fs, V(SymArr(path+"[]"+l.path, l.s, l.w)))
		}
		return &Val{f: fs}
	})
}

// ---------- memory ----------

// cell keys: kind 'm': scalar component of an object; 'a': granule array of a
// region; 'h': heap-wide field array of a struct type.

type cellMeta struct {
	s, es Sort
	w, ew int
	root  *Term
	path  string
}

var cellMetas = map[Key]cellMeta{}

func scalarCell(root *Term, path string, s Sort, w int) Key {
	k := Key{'m', root.id, path}
	if _, ok := cellMetas[k]; !ok {
		cellMetas[k] = cellMeta{s: s, w: w, root: root, path: path}
		keyNames[k] = root.String() + path
	}
	return k
}
func arrayCell(region *Term, path string, es Sort, ew int) Key {
	k := Key{'a', region.id, path}
	if _, ok := cellMetas[k]; !ok {
		cellMetas[k] = cellMeta{s: SArr, es: es, ew: ew, root: region, path: path}
		keyNames[k] = region.String() + "[]" + path
	}
	return k
}
func heapCell(tn, path string, es Sort, ew int) Key {
	k := Key{'h', 0, tn + path}
	if _, ok := cellMetas[k]; !ok {
		cellMetas[k] = cellMeta{s: SArr, es: es, ew: ew, path: tn + path}
		keyNames[k] = "heap:" + tn + path
	}
	return k
}

// initCell: contents before the analysed function ran.
func (fe *GoFE) initCell(k Key) *Val {
	switch k {
	case wbufKey:
		return V(StrConst(""))
	case werrKey:
		return V(nilRef())
	}
	m, ok := cellMetas[k]
	if !ok {
		return V(Sym("cell:"+k.s, SObj))
	}
	if k.kind == 'h' {
		return V(SymArr("heap:"+m.path, m.es, m.ew))
	}
	root := m.root
	if m.s == SArr && root != nil && root.op == OpFn {
		if c := newContents(root); c != nil && m.path == "" {
			return V(c)
		}
	}
	base := root
	for base.op == OpField || base.op == OpElem || (base.op == OpFn && base.sym == "cast") {
		base = base.args[0]
	}
	if base.op == OpAlloc && fe.otherIteration(base) {
		x := intern(Term{op: OpFn, sort: m.s, w: m.w, es: m.es, ew: m.ew, sym: "lost" + m.path, args: []*Term{root}})
		if strings.HasSuffix(m.path, "#len") || strings.HasSuffix(m.path, "#cap") {
			addAxiom(x, GeZ(x))
		}
		return V(x)
	}
	if base.op == OpAlloc {
		if m.s == SArr {
			return V(ZeroArr(m.es, m.ew))
		}
		return V(zeroOf(m.s, m.w))
	}
	if base.op == OpFn && strings.HasPrefix(base.sym, "global:") && fe.globals != nil {
		if v := fe.globalCell(base.sym[7:], k); v != nil {
			return v
		}
	}
	if strings.HasSuffix(m.path, "#off") {
		if m.s == SArr {
			return V(ZeroArr(m.es, m.ew))
		}
		return V(I(0))
	}
	name, plain := rootName(root)
	if !plain {
		mk := func(path string) *Term {
			return intern(Term{op: OpFn, sort: m.s, w: m.w, es: m.es, ew: m.ew, sym: "mem" + path, args: []*Term{root}})
		}
		x := mk(m.path)
		if strings.HasSuffix(m.path, "#cap") {
			addAxiom(x, Ge(x, mk(m.path[:len(m.path)-4]+"#len")))
		}
		if strings.HasSuffix(m.path, "#len") {
			addAxiom(x, GeZ(x))
		}
		return V(x)
	}
	name += m.path
	if m.s == SArr {
		return V(SymArr(name+"[]", m.es, m.ew))
	}
	if strings.HasSuffix(m.path, "#cap") {
		c := Sym(name, SInt)
		l := Sym(name[:len(name)-4]+"#len", SInt)
		addAxiom(c, Ge(c, l))
		return V(c)
	}
	if m.s == SBV {
		return V(SymBV(name, m.w))
	}
	return V(Sym(name, m.s))
}

// rootName names objects reached from parameters through symbols and fields.
func rootName(r *Term) (string, bool) {
	switch r.op {
	case OpSym:
		return r.sym, true
	case OpField:
		n, ok := rootName(r.args[0])
		return n + "." + r.sym, ok
	case OpFn:
		if strings.HasPrefix(r.sym, "global:") {
			return r.sym[7:], true
		}
	}
	return "", false
}

var globalInit = map[string]map[Key]*Val{}

func (fe *GoFE) globalCell(name string, k Key) *Val {
	if m, ok := globalInit[name]; ok {
		return m[k]
	}
	return nil
}

func (fe *GoFE) getCell(st *State, k Key) *Val {
	if v, ok := st.env[k]; ok {
		return v
	}
	v := fe.initCell(k)
	return v
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// place decomposes an address.
type place struct {
	root *Term // object root (no elem)
	path string
	reg  *Term // region of the element, when inside one
	idx  *Term
}

// regionLen: how many cells an allocated region has at most; accesses beyond
// are excluded by the bounds obligations.
var regionLen = map[*Term]*Term{}

// siteLoop: objects allocated once per loop iteration, with the cells of each.
var siteLoop = map[*Term]int64{}

// loopEnded: the loop over k made K objects at each of its sites.
func loopEnded(k, K *Term) {
	for _, a := range siteKeys() {
		g := siteLoop[a]
		if len(a.args) == 1 && a.args[0] == k {
			regionLen[virtualSlice(a)] = ScaleI(g, K)
		}
	}
}

// allocElems: allocation sites of plain structs inside one loop.
var allocElems = map[string]bool{}

func virtualSlice(a *Term) *Term {
	return intern(Term{op: OpAlloc, sort: SRef, sym: a.sym + "*"})
}

func plainStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Array:
			return false
		case *types.Struct:
			if !plainStruct(u) {
				return false
			}
		}
	}
	return true
}

func decompose(addr *Term) place {
	path := ""
	for {
		switch addr.op {
		case OpField:
			path = "." + addr.sym + path
			addr = addr.args[0]
			continue
		case OpElem:
			return place{reg: addr.args[0], idx: addr.args[1], path: path}
		case OpAlloc:
			if allocElems[addr.sym] && len(addr.args) == 1 {
				// the objects one site makes are elements of a virtual slice
				return place{reg: virtualSlice(addr), idx: addr.args[0], path: path}
			}
		}
		return place{root: addr, path: path}
	}
}

// load reads a value of type t at address addr.
func (fe *GoFE) load(st *State, addr *Term, t types.Type, rootT types.Type) *Val {
	if addr.op == OpIte {
		a := fe.load(st, addr.args[1], t, rootT)
		b := fe.load(st, addr.args[2], t, rootT)
		v := iteVal(addr.args[0], a, b)
		if v == nil {
			unsup("load through merged pointers")
		}
		return v
	}
	pl := decompose(addr)
	if pl.root != nil && pl.root.op == OpIte {
		it := pl.root
		sub := func(r *Term) *Term { return rebase(addr, it, r) }
		v := iteVal(it.args[0], fe.load(st, sub(it.args[1]), t, rootT), fe.load(st, sub(it.args[2]), t, rootT))
		if v == nil {
			unsup("load through merged pointers")
		}
		return v
	}
	if s, ok := isComplex(t); ok && pl.reg != nil && !strings.Contains(pl.path, ".") {
		arr := fe.regArr(st, pl.reg, pl.path, s, 0)
		f := st.facts()
		return VC(V(fe.sel(f, arr, pl.idx)), V(fe.sel(f, arr, Add(pl.idx, I(1)))))
	}
	return shape(t, "", func(path string, s Sort, w int) *Term {
		return fe.loadLeaf(st, addr, pl, path, s, w)
	}, func(path string, el types.Type, n int64) *Val {
		// array by value: its region is the address of the array
		reg := addr
		for _, f := range splitPath(path) {
			reg = FieldRef(reg, f)
		}
		var fs []*Val
		for _, l := range elemLeaves(el, "") {
			fs = append(fs, V(fe.regArr(st, reg, l.path, l.s, l.w)))
		}
		return &Val{f: fs}
	})
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], ".")
}

func rebase(addr, from, to *Term) *Term {
	if addr == from {
		return to
	}
	switch addr.op {
	case OpField:
		return FieldRef(rebase(addr.args[0], from, to), addr.sym)
	case OpElem:
		return ElemRef(rebase(addr.args[0], from, to), addr.args[1])
	}
	return addr
}

func FieldRef(base *Term, f string) *Term {
	return intern(Term{op: OpField, sort: SRef, sym: f, args: []*Term{base}})
}
func ElemRef(reg, idx *Term) *Term {
	return intern(Term{op: OpElem, sort: SRef, args: []*Term{reg, idx}})
}

func (fe *GoFE) sel(f *Facts, arr, idx *Term) *Term { return selectF(f, arr, idx) }

func (fe *GoFE) regArr(st *State, reg *Term, path string, s Sort, w int) *Term {
	if reg.op == OpIte {
		if isNil(reg.args[1]) { // nothing to read there
			return fe.regArr(st, reg.args[2], path, s, w)
		}
		if isNil(reg.args[2]) {
			return fe.regArr(st, reg.args[1], path, s, w)
		}
		return Ite(reg.args[0], fe.regArr(st, reg.args[1], path, s, w), fe.regArr(st, reg.args[2], path, s, w))
	}
	if reg.op == OpSym && reg.sort == SRef {
		reg = aliasOf(reg)
	}
	if r, p, ok := fe.burstRegion(reg); ok {
		_ = r
		_ = p
		unsup("array inside heap-shared struct")
	}
	return fe.getCell(st, arrayCell(reg, path, s, w)).t
}

func (fe *GoFE) burstRegion(reg *Term) (*Term, string, bool) { return nil, "", false }

func (fe *GoFE) burstType(root *Term) string {
	if n, ok := fe.rootType(root); ok && fe.burst[n] {
		return n
	}
	return ""
}

var rootTypes = map[*Term]string{}

func (fe *GoFE) rootType(root *Term) (string, bool) {
	n, ok := rootTypes[root]
	return n, ok
}
func noteRoot(root *Term, t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if root.op != OpField && root.op != OpElem {
				rootTypes[root] = n.Obj().Name()
			}
		}
	}
}

func (fe *GoFE) loadLeaf(st *State, addr *Term, pl place, path string, s Sort, w int) *Term {
	if pl.reg != nil {
		arr := fe.regArr(st, pl.reg, pl.path+path, s, w)
		return fe.sel(st.facts(), arr, pl.idx)
	}
	if tn := fe.burstType(pl.root); tn != "" {
		arr := fe.getCell(st, heapCell(tn, pl.path+path, s, w)).t
		return fe.sel(st.facts(), arr, pl.root)
	}
	return fe.getCell(st, scalarCell(pl.root, pl.path+path, s, w)).t
}

func (fe *GoFE) store(st *State, addr *Term, v *Val, t types.Type) {
	if addr.op == OpIte {
		fe.storeGuard(st, addr.args[0], addr.args[1], v, t)
		fe.storeGuard(st, Not(addr.args[0]), addr.args[2], v, t)
		return
	}
	pl := decompose(addr)
	if pl.root != nil && pl.root.op == OpIte {
		it := pl.root
		fe.storeGuard(st, it.args[0], rebase(addr, it, it.args[1]), v, t)
		fe.storeGuard(st, Not(it.args[0]), rebase(addr, it, it.args[2]), v, t)
		return
	}
	if s, ok := isComplex(t); ok && pl.reg != nil && !strings.Contains(pl.path, ".") {
		fe.storeArr(st, pl.reg, pl.path, s, 0, pl.idx, v.f[0].t)
		fe.storeArr(st, pl.reg, pl.path, s, 0, Add(pl.idx, I(1)), v.f[1].t)
		return
	}
	// walk in parallel
	var ls []*Term
	var arrs []*Val
	leaves(v, "", func(_ string, x *Term) { ls = append(ls, x) })
	_ = arrs
	i := 0
	shape(t, "", func(path string, s Sort, w int) *Term {
		x := ls[i]
		i++
		fe.storeLeaf(st, pl, path, s, w, x)
		return x
	}, func(path string, el types.Type, n int64) *Val {
		reg := addr
		for _, f := range splitPath(path) {
			reg = FieldRef(reg, f)
		}
		for _, l := range elemLeaves(el, "") {
			st.env[arrayCell(reg, l.path, l.s, l.w)] = V(ls[i])
			i++
		}
		return V(TTrue)
	})
}

func (fe *GoFE) storeGuard(st *State, g, addr *Term, v *Val, t types.Type) {
	old := fe.load(st, addr, t, nil)
	n := iteVal(g, v, old)
	if n == nil {
		unsup("guarded store")
	}
	fe.store(st, addr, n, t)
}

func (fe *GoFE) storeArr(st *State, reg *Term, path string, s Sort, w int, idx, v *Term) {
	if reg.op == OpIte {
		for i, g := range []*Term{reg.args[0], Not(reg.args[0])} {
			old := Select(fe.regArr(st, reg.args[1+i], path, s, w), idx)
			fe.storeArr(st, reg.args[1+i], path, s, w, idx, Ite(g, v, old))
		}
		return
	}
	if reg.op == OpSym {
		reg = aliasOf(reg)
	}
	k := arrayCell(reg, path, s, w)
	st.env[k] = V(Store(fe.getCell(st, k).t, idx, v))
}

func (fe *GoFE) storeLeaf(st *State, pl place, path string, s Sort, w int, v *Term) {
	if pl.reg != nil {
		fe.storeArr(st, pl.reg, pl.path+path, s, w, pl.idx, v)
		return
	}
	if tn := fe.burstType(pl.root); tn != "" {
		k := heapCell(tn, pl.path+path, s, w)
		st.env[k] = V(Store(fe.getCell(st, k).t, pl.root, v))
		return
	}
	st.env[scalarCell(pl.root, pl.path+path, s, w)] = V(v)
}

// region aliasing for in-place analysis
var aliasMap = map[*Term]*Term{}

func aliasOf(r *Term) *Term {
	if a, ok := aliasMap[r]; ok {
		return a
	}
	return r
}

// ---------- program adaptor ----------

type goProg struct {
	fe    *GoFE
	fn    *ssa.Function
	path  string
	id    int
	args  []*Val
	fv    []*Val
	rets  []*State
	retV  [][]*Val
	sites map[ssa.Instruction]int
}

func (p *goProg) NBlocks() int { return len(p.fn.Blocks) }
func (p *goProg) Succs(b int) []int {
	var out []int
	for _, s := range p.fn.Blocks[b].Succs {
		out = append(out, s.Index)
	}
	return out
}
func (p *goProg) Name() string { return p.path }
func (p *goProg) Where(b int) string {
	for _, in := range p.fn.Blocks[b].Instrs {
		if in.Pos() != token.NoPos {
			return p.fe.pos(in.Pos()) + " (" + p.fn.Name() + ")"
		}
	}
	for _, in := range p.fn.Blocks[b].Instrs {
		for _, o := range in.Operands(nil) {
			if *o != nil && (*o).Pos() != token.NoPos {
				return p.fe.pos((*o).Pos()) + " (" + p.fn.Name() + ")"
			}
		}
	}
	return p.fe.pos(p.fn.Pos()) + " (" + p.fn.Name() + ")"
}

func (fe *GoFE) pos(p token.Pos) string {
	q := fe.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *goProg) key(v ssa.Value) Key {
	k := Key{'r', p.id, v.Name()}
	if _, ok := keyNames[k]; !ok {
		keyNames[k] = v.Name() + "@" + p.path
	}
	return k
}

func (p *goProg) Edge(from, to int, st *State) {
	b := p.fn.Blocks[to]
	if from < 0 {
		return
	}
	pi := -1
	for i, q := range b.Preds {
		if q.Index == from {
			pi = i
		}
	}
	type asg struct {
		k Key
		v *Val
	}
	var as []asg
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p.key(ph), p.val(st, ph.Edges[pi])})
	}
	for _, a := range as {
		st.env[a.k] = a.v
	}
}

func (p *goProg) Exec(b int, st *State) (*Term, bool) {
	for _, in := range p.fn.Blocks[b].Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			return p.val(st, x.Cond).t, false
		case *ssa.Jump:
			return nil, false
		case *ssa.Return:
			var vs []*Val
			for _, r := range x.Results {
				vs = append(vs, p.val(st, r))
			}
			p.rets = append(p.rets, st)
			p.retV = append(p.retV, vs)
			return nil, true
		case *ssa.Panic:
			kind := "explicit panic"
			if mi, ok := x.X.(*ssa.MakeInterface); ok && strings.HasPrefix(p.fn.Name(), "lift") {
				if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					kind = constant.StringVal(c.Value)
				}
			}
			p.fe.ev.oblige(st, p.fe.pos(x.Pos())+" ("+p.fn.Name()+")", kind, TFalse)
			return nil, true
		default:
			p.instr(st, in)
			if st.dead() {
				return nil, true
			}
		}
	}
	return nil, true
}

func (p *goProg) where(in ssa.Instruction) string {
	ps := in.Pos()
	if ps == token.NoPos {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos() != token.NoPos {
					ps = r.Pos()
					break
				}
			}
		}
	}
	if ps == token.NoPos {
		return p.Where(in.Block().Index)
	}
	return p.fe.pos(ps) + " (" + p.fn.Name() + ")"
}

func (p *goProg) val(st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		return p.fe.constVal(x)
	case *ssa.Global:
		return V(intern(Term{op: OpFn, sort: SRef, sym: "global:" + x.Pkg.Pkg.Name() + "." + x.Name()}))
	case *ssa.Function:
		t := intern(Term{op: OpFn, sort: SRef, sym: "func:" + x.String()})
		funcVals[t] = x
		return V(t)
	case *ssa.Builtin:
		return V(intern(Term{op: OpFn, sort: SRef, sym: "builtin:" + x.Name()}))
	case *ssa.FreeVar:
		for i, f := range p.fn.FreeVars {
			if f == x {
				return p.fv[i]
			}
		}
	case *ssa.Parameter:
		for i, f := range p.fn.Params {
			if f == x {
				return p.args[i]
			}
		}
	}
	if r, ok := st.env[p.key(v)]; ok {
		return r
	}
	unsup("value %s not available in %s", v.Name(), p.fn)
	return nil
}

var funcVals = map[*Term]*ssa.Function{}
var closures = map[*Term]closure{}

type closure struct {
	fn *ssa.Function
	fv []*Val
}

func (fe *GoFE) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return fe.zero(t)
	}
	if s, ok := isComplex(t); ok {
		return VC(V(constFloat(s, constant.Real(c.Value))), V(constFloat(s, constant.Imag(c.Value))))
	}
	b := t.Underlying().(*types.Basic)
	s, w, ok := basicSort(b)
	if !ok {
		unsup("constant type %s", t)
	}
	switch s {
	case SBool:
		return V(Bool(constant.BoolVal(c.Value)))
	case SInt:
		v := constant.ToInt(c.Value)
		r, _ := new(big.Rat).SetString(v.ExactString())
		return V(Const(SInt, r))
	case SBV:
		v := constant.ToInt(c.Value)
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		bi.Mod(bi, m)
		return V(BVConst(w, bi.Uint64()))
	case SF32, SF64:
		return V(constFloat(s, c.Value))
	case SStr:
		return V(StrConst(constant.StringVal(c.Value)))
	}
	unsup("constant %s", c)
	return nil
}

func constFloat(s Sort, v constant.Value) *Term {
	v = constant.ToFloat(v)
	// value as the machine sees it
	if s == SF32 {
		f, _ := constant.Float32Val(v)
		r := new(big.Rat)
		if r.SetFloat64(float64(f)) == nil {
			return Inf(s)
		}
		return Const(s, r)
	}
	f, _ := constant.Float64Val(v)
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		return Inf(s)
	}
	return Const(s, r)
}

func (p *goProg) set(st *State, v ssa.Value, x *Val) {
	st.env[p.key(v)] = x
	if x != nil && x.t != nil && x.t.sort == SRef {
		noteRoot(x.t, v.Type())
	}
}

func (p *goProg) site(in ssa.Instruction) string {
	if p.sites == nil {
		p.sites = map[ssa.Instruction]int{}
		n := 0
		for _, b := range p.fn.Blocks {
			for _, i := range b.Instrs {
				p.sites[i] = n
				n++
			}
		}
	}
	return fmt.Sprintf("%s:%d", p.path, p.sites[in])
}

func (p *goProg) alloc(in ssa.Instruction) *Term {
	var ks []*Term
	for _, l := range p.fe.ev.stack {
		ks = append(ks, l.k)
	}
	return intern(Term{op: OpAlloc, sort: SRef, sym: "new@" + p.fe.ev.tag + ":" + p.site(in) + p.fe.ev.unrollTag(), args: ks})
}

func (p *goProg) instr(st *State, in ssa.Instruction) {
	fe := p.fe
	switch x := in.(type) {
	case *ssa.Alloc:
		a := p.alloc(x)
		noteRoot(a, x.Type())
		// contents are zero again each time the site runs
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if len(a.args) == 1 && plainStruct(et) {
			allocElems[a.sym] = true
			g := int64(1)
			for _, l := range elemLeaves(et, "") {
				if int64(l.gran) > g {
					g = int64(l.gran)
				}
			}
			siteLoop[a] = g
		}
		p.set(st, x, V(a))
		fe.store(st, a, fe.zero(et), et)
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
			return
		}
		addr := p.val(st, x.Addr).t
		p.storeCheck(st, x, addr)
		fe.store(st, addr, p.val(st, x.Val), x.Val.Type())
	case *ssa.UnOp:
		p.unop(st, x)
	case *ssa.BinOp:
		a, b := p.val(st, x.X), p.val(st, x.Y)
		p.set(st, x, fe.binop(st, p.where(x), x.Op, a, b, x.X.Type(), x.Y.Type()))
	case *ssa.FieldAddr:
		base := p.val(st, x.X).t
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.nilCheck(st, x, base)
		p.set(st, x, V(mapRef(base, func(b *Term) *Term { return FieldRef(b, curRename(stt.Field(x.Field).Name())) })))
	case *ssa.Field:
		p.set(st, x, p.val(st, x.X).f[x.Field])
	case *ssa.IndexAddr:
		p.indexAddr(st, x)
	case *ssa.Index:
		p.index(st, x)
	case *ssa.Slice:
		p.slice(st, x)
	case *ssa.Convert:
		p.set(st, x, fe.convert(st, p.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		p.set(st, x, p.val(st, x.X))
	case *ssa.ChangeInterface:
		p.set(st, x, p.val(st, x.X))
	case *ssa.MakeInterface:
		v := p.val(st, x.X)
		var ls []*Term
		leaves(v, "", func(_ string, t *Term) { ls = append(ls, t) })
		tn := x.X.Type().String()
		if onlyFormatted(x) {
			tn = "number"
			ls = nil
			leaves(fe.convert(st, v, x.X.Type(), types.Typ[types.Int]), "", func(_ string, t *Term) { ls = append(ls, t) })
		}
		t := intern(Term{op: OpFn, sort: SRef, sym: "mkiface:" + tn, args: ls})
		fe.ifaceMk[t] = ifaceVal{v, x.X.Type()}
		p.set(st, x, V(t))
	case *ssa.TypeAssert:
		v := p.val(st, x.X).t
		if iv, ok := fe.ifaceMk[v]; ok && types.Identical(iv.t, x.AssertedType) {
			if x.CommaOk {
				p.set(st, x, VC(iv.v, V(TTrue)))
			} else {
				p.set(st, x, iv.v)
			}
			return
		}
		okT := Fn(SBool, 0, "typeis:"+x.AssertedType.String(), v)
		r := fe.fnVal(x.AssertedType, "assert:"+x.AssertedType.String(), []*Term{v})
		if x.CommaOk {
			z := fe.zero(x.AssertedType)
			p.set(st, x, VC(iteVal(okT, r, z), V(okT)))
		} else {
			fe.ev.oblige(st, p.where(x), "type assertion", okT)
			st.know(okT)
			p.set(st, x, r)
		}
	case *ssa.Extract:
		p.set(st, x, p.val(st, x.Tuple).f[x.Index])
	case *ssa.MakeSlice:
		n := p.val(st, x.Len).t
		c := p.val(st, x.Cap).t
		fe.ev.oblige(st, p.where(x), "make length", And(GeZ(n), Ge(c, n)))
		st.know(And(GeZ(n), Ge(c, n)))
		a := p.alloc(x)
		et := x.Type().Underlying().(*types.Slice).Elem()
		g := int64(1)
		for _, l := range elemLeaves(et, "") {
			st.env[arrayCell(a, l.path, l.s, l.w)] = V(ZeroArr(l.s, l.w))
			if int64(l.gran) > g {
				g = int64(l.gran)
			}
		}
		regionLen[a] = ScaleI(g, c)
		p.set(st, x, VC(V(a), V(I(0)), V(n), V(c)))
	case *ssa.MakeMap:
		a := p.alloc(x)
		mt := x.Type().Underlying().(*types.Map)
		for _, l := range mapLeaves2(mt) {
			st.env[arrayCell(a, l.path, l.s, l.w)] = V(ZeroArr(l.s, l.w))
		}
		p.set(st, x, V(a))
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		reg := p.val(st, x.Map).t
		p.nilCheck(st, x, reg)
		k := mapKey(p.val(st, x.Key), mt)
		var vs []*Term
		leaves(p.val(st, x.Value), "", func(_ string, t *Term) { vs = append(vs, t) })
		vs = append(vs, I(1))
		for i, l := range mapLeaves2(mt) {
			fe.storeArr(st, reg, l.path, l.s, l.w, k, vs[i])
		}
	case *ssa.Lookup:
		if bs, ok := x.X.Type().Underlying().(*types.Basic); ok && bs.Info()&types.IsString != 0 {
			s := p.val(st, x.X).t
			i := intOf(p.val(st, x.Index).t, x.Index.Type())
			p.boundsCheck(st, x, i, strLen(s))
			p.set(st, x, V(strAt(s, i)))
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		reg := p.val(st, x.X).t
		k := mapKey(p.val(st, x.Index), mt)
		ls := mapLeaves2(mt)
		var vs []*Term
		for _, l := range ls {
			vs = append(vs, fe.sel(st.facts(), fe.regArr(st, reg, l.path, l.s, l.w), k))
		}
		n := 0
		v := shape(mt.Elem(), "", func(path string, s Sort, w int) *Term { n++; return vs[n-1] },
			func(path string, el types.Type, m int64) *Val { unsup("map of arrays"); return nil })
		if x.CommaOk {
			v = VC(v, V(EqI(vs[len(vs)-1], I(1))))
		}
		p.set(st, x, v)
	case *ssa.MakeChan:
		p.set(st, x, p.makeChan(st, x))
	case *ssa.Select:
		p.set(st, x, p.selectChan(st, x))
	case *ssa.MakeClosure:
		a := p.alloc(x)
		var fv []*Val
		for _, b := range x.Bindings {
			fv = append(fv, p.val(st, b))
		}
		closures[a] = closure{x.Fn.(*ssa.Function), fv}
		p.set(st, x, V(a))
	case *ssa.Call:
		p.call(st, x)
	case *ssa.Defer:
		if blockReaches(x.Block(), x.Block()) {
			unsup("defer in a loop in %s", p.fn)
		}
	case *ssa.RunDefers:
		p.runDefers(st, x)
	default:
		unsup("%T in %s", in, p.fn)
	}
}

func mapRef(r *Term, f func(*Term) *Term) *Term {
	if r.op == OpIte {
		return Ite(r.args[0], mapRef(r.args[1], f), mapRef(r.args[2], f))
	}
	return f(r)
}

func (p *goProg) nilCheck(st *State, in ssa.Instruction, base *Term) {
	g := nonNil(base)
	if g == TTrue {
		return
	}
	p.fe.ev.oblige(st, p.where(in), "nil dereference", g)
	st.know(g)
}

func nonNil(r *Term) *Term {
	if isNil(r) {
		return TFalse
	}
	switch r.op {
	case OpAlloc, OpField, OpElem:
		return TTrue
	case OpSym:
		if !strings.ContainsAny(r.sym, ".[") {
			return TTrue // parameters and receivers
		}
	case OpFn:
		// the address of a connection is an address or nothing at all
		if strings.HasPrefix(r.sym, "assert:") && r.args[0].op == OpFn && strings.HasSuffix(r.args[0].sym, "Addr") {
			return TTrue
		}
		if strings.HasPrefix(r.sym, "global:") || strings.HasPrefix(r.sym, "func:") || strings.HasPrefix(r.sym, "mkiface:") || strings.HasPrefix(r.sym, "newobj:") || r.sym == "cast" {
			return TTrue
		}
	case OpIte:
		return Ite(r.args[0], nonNil(r.args[1]), nonNil(r.args[2]))
	}
	return Not(EqT(r, zeroOf(SRef, 0)))
}

func (p *goProg) unop(st *State, x *ssa.UnOp) {
	fe := p.fe
	v := p.val(st, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
			p.set(st, x, V(TFalse))
			return
		}
		p.nilCheck(st, x, v.t)
		r := fe.load(st, v.t, x.Type(), nil)
		p.set(st, x, r)
	case token.NOT:
		p.set(st, x, V(Not(v.t)))
	case token.SUB:
		if _, ok := isComplex(x.Type()); ok {
			p.set(st, x, VC(V(Neg(v.f[0].t)), V(Neg(v.f[1].t))))
			return
		}
		if v.t.sort == SBV {
			p.set(st, x, V(BVArith("-", BVConst(v.t.w, 0), v.t)))
			return
		}
		p.set(st, x, V(Neg(v.t)))
	case token.XOR:
		if v.t.sort == SBV {
			p.set(st, x, V(BVNot(v.t)))
			return
		}
		p.set(st, x, V(Sub(I(-1), v.t)))
	default:
		unsup("unary %s in %s", x.Op, p.fn)
	}
}

func (p *goProg) boundsCheck(st *State, in ssa.Instruction, i, n *Term) {
	g := And(GeZ(i), Lt(i, n))
	p.fe.ev.oblige(st, p.where(in), "index out of range", g)
	st.know(g)
}

// intOf gives an index value as a mathematical integer.
func intOf(v *Term, t types.Type) *Term {
	if v.sort == SBV {
		return ToInt(v, isSigned(t))
	}
	return v
}

func (p *goProg) indexAddr(st *State, x *ssa.IndexAddr) {
	v := p.val(st, x.X)
	i := intOf(p.val(st, x.Index).t, x.Index.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		p.boundsCheck(st, x, i, v.f[2].t)
		g := granOf(u.Elem())
		off := v.f[1].t
		idx := Add(off, ScaleI(g, i))
		p.set(st, x, V(ElemRef(v.f[0].t, idx)))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p.nilCheck(st, x, v.t)
		p.boundsCheck(st, x, i, I(at.Len()))
		g := granOf(at.Elem())
		p.set(st, x, V(mapRef(v.t, func(b *Term) *Term {
			if b.op == OpFn && b.sym == "cast" && b.args[0].op == OpElem {
				return ElemRef(b.args[0].args[0], Add(b.args[0].args[1], ScaleI(g, i)))
			}
			return ElemRef(b, ScaleI(g, i))
		})))
	default:
		unsup("IndexAddr on %s", x.X.Type())
	}
}

func (p *goProg) index(st *State, x *ssa.Index) {
	v := p.val(st, x.X)
	i := intOf(p.val(st, x.Index).t, x.Index.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		p.boundsCheck(st, x, i, I(u.Len()))
		g := granOf(u.Elem())
		if _, ok := isComplex(u.Elem()); ok {
			p.set(st, x, VC(V(Select(v.f[0].t, ScaleI(g, i))), V(Select(v.f[0].t, Add(ScaleI(g, i), I(1))))))
			return
		}
		j := 0
		p.set(st, x, shape(u.Elem(), "", func(path string, s Sort, w int) *Term {
			t := Select(v.f[j].t, i)
			j++
			return t
		}, nil))
	case *types.Basic: // string
		p.boundsCheck(st, x, i, strLen(v.t))
		p.set(st, x, V(strAt(v.t, i)))
	default:
		unsup("Index on %s", x.X.Type())
	}
}

func (p *goProg) slice(st *State, x *ssa.Slice) {
	fe := p.fe
	v := p.val(st, x.X)
	get := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return intOf(p.val(st, o).t, o.Type())
	}
	if v.t != nil && v.t.sort == SStr {
		n := strLen(v.t)
		lo := get(x.Low, I(0))
		hi := get(x.High, n)
		g := And(GeZ(lo), Ge(hi, lo), Ge(n, hi))
		fe.ev.oblige(st, p.where(x), "string slice out of range", g)
		st.know(g)
		p.set(st, x, V(gated(st.facts(), substr(v.t, lo, hi))))
		return
	}
	var reg, off, ln, cp *Term
	var gr int64
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		reg, off, ln, cp = v.f[0].t, v.f[1].t, v.f[2].t, v.f[3].t
		gr = granOf(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p.nilCheck(st, x, v.t)
		reg, off = v.t, I(0)
		if reg.op == OpFn && reg.sym == "cast" && reg.args[0].op == OpElem {
			off = reg.args[0].args[1]
			reg = reg.args[0].args[0]
		}
		ln, cp = I(at.Len()), I(at.Len())
		gr = granOf(at.Elem())
	default:
		unsup("Slice of %s", x.X.Type())
	}
	lo := get(x.Low, I(0))
	hi := get(x.High, ln)
	mx := get(x.Max, cp)
	g := And(GeZ(lo), Ge(hi, lo), Ge(mx, hi), Ge(cp, mx))
	fe.ev.oblige(st, p.where(x), "slice bounds out of range", g)
	st.know(g)
	p.set(st, x, VC(V(reg), V(Add(off, ScaleI(gr, lo))), V(Sub(hi, lo)), V(Sub(mx, lo))))
}

// ---------- operators ----------

func (fe *GoFE) binop(st *State, where string, op token.Token, a, b *Val, ta, tb types.Type) *Val {
	if _, ok := isComplex(ta); ok {
		ar, ai, br, bi := a.f[0].t, a.f[1].t, b.f[0].t, b.f[1].t
		switch op {
		case token.ADD:
			return VC(V(Add(ar, br)), V(Add(ai, bi)))
		case token.SUB:
			return VC(V(Sub(ar, br)), V(Sub(ai, bi)))
		case token.MUL:
			return VC(V(Sub(Mul(ar, br), Mul(ai, bi))), V(Add(Mul(ar, bi), Mul(ai, br))))
		case token.QUO:
			d := Inv(Add(Mul(br, br), Mul(bi, bi)))
			if bi == ConstI(bi.sort, 0) {
				d = Inv(br)
				return VC(V(Mul(ar, d)), V(Mul(ai, d)))
			}
			return VC(V(Mul(Add(Mul(ar, br), Mul(ai, bi)), d)), V(Mul(Sub(Mul(ai, br), Mul(ar, bi)), d)))
		case token.EQL:
			return V(And(FEq(ar, br), FEq(ai, bi)))
		case token.NEQ:
			return V(Not(And(FEq(ar, br), FEq(ai, bi))))
		}
		unsup("complex %s", op)
	}
	if a.t == nil || b.t == nil {
		if op == token.EQL || op == token.NEQ {
			// slice == nil, struct equality
			var cs []*Term
			if _, ok := ta.Underlying().(*types.Slice); ok {
				cs = append(cs, EqT(a.f[0].t, b.f[0].t))
			} else {
				var x, y []*Term
				leaves(a, "", func(_ string, t *Term) { x = append(x, t) })
				leaves(b, "", func(_ string, t *Term) { y = append(y, t) })
				for i := range x {
					cs = append(cs, EqT(x[i], y[i]))
				}
			}
			c := And(cs...)
			if op == token.NEQ {
				c = Not(c)
			}
			return V(c)
		}
		unsup("operator %s on %s", op, ta)
	}
	x, y := a.t, b.t
	switch op {
	case token.SHL, token.SHR:
		y = intOf(y, tb)
		return V(fe.shift(op, x, y, isSigned(ta)))
	}
	switch x.sort {
	case SBool:
		switch op {
		case token.EQL:
			return V(Not(Xor(x, y)))
		case token.NEQ:
			return V(Xor(x, y))
		case token.AND:
			return V(And(x, y))
		case token.OR:
			return V(Or(x, y))
		}
	case SF32, SF64:
		switch op {
		case token.ADD:
			return V(Add(x, y))
		case token.SUB:
			return V(Sub(x, y))
		case token.MUL:
			return V(Mul(x, y))
		case token.QUO:
			return V(Div(x, y))
		case token.LSS:
			return V(FLt(x, y))
		case token.LEQ:
			return V(FLe(x, y))
		case token.GTR:
			return V(FLt(y, x))
		case token.GEQ:
			return V(FLe(y, x))
		case token.EQL:
			return V(FEq(x, y))
		case token.NEQ:
			return V(Not(FEq(x, y)))
		}
	case SInt:
		switch op {
		case token.ADD:
			return V(Add(x, y))
		case token.SUB:
			return V(Sub(x, y))
		case token.MUL:
			return V(Mul(x, y))
		case token.QUO, token.REM:
			g := Not(EqZ(y))
			fe.ev.oblige(st, where, "division by zero", g)
			st.know(g)
			return V(fe.divrem(st, op, x, y))
		case token.LSS:
			return V(Lt(x, y))
		case token.LEQ:
			return V(Ge(y, x))
		case token.GTR:
			return V(Lt(y, x))
		case token.GEQ:
			return V(Ge(x, y))
		case token.EQL:
			return V(EqI(x, y))
		case token.NEQ:
			return V(Not(EqI(x, y)))
		case token.AND:
			return V(intAnd(x, y))
		case token.OR, token.XOR, token.AND_NOT:
			return V(intBitop(op, x, y))
		}
	case SBV:
		sg := isSigned(ta)
		switch op {
		case token.ADD:
			return V(BVArith("+", x, y))
		case token.SUB:
			return V(BVArith("-", x, y))
		case token.MUL:
			return V(BVArith("*", x, y))
		case token.AND:
			return V(BVAnd(x, y))
		case token.OR:
			return V(BVOr(x, y))
		case token.XOR:
			return V(BVXor(x, y))
		case token.AND_NOT:
			return V(BVAnd(x, BVNot(y)))
		case token.EQL:
			return V(EqT(x, y))
		case token.NEQ:
			return V(Not(EqT(x, y)))
		case token.QUO, token.REM:
			xi, yi := ToInt(x, sg), ToInt(y, sg)
			g := Not(EqZ(yi))
			fe.ev.oblige(st, where, "division by zero", g)
			st.know(g)
			return V(TruncMod(fe.divrem(st, op, xi, yi), x.w))
		}
		xi, yi := ToInt(x, sg), ToInt(y, sg)
		switch op {
		case token.LSS:
			return V(Lt(xi, yi))
		case token.LEQ:
			return V(Ge(yi, xi))
		case token.GTR:
			return V(Lt(yi, xi))
		case token.GEQ:
			return V(Ge(xi, yi))
		}
	case SStr:
		switch op {
		case token.ADD:
			return V(concat(x, y))
		case token.EQL:
			return V(strEq(x, y))
		case token.NEQ:
			return V(Not(strEq(x, y)))
		}
	default:
		switch op {
		case token.EQL:
			return V(EqT(x, y))
		case token.NEQ:
			return V(Not(EqT(x, y)))
		}
	}
	unsup("operator %s on %s", op, ta)
	return nil
}

func (fe *GoFE) divrem(st *State, op token.Token, x, y *Term) *Term {
	if c, ok := y.constInt(); ok && c > 0 {
		nn := false
		if lo, _, ok := bitRange(x); ok && lo >= 0 {
			nn = true
		} else {
			nn = st.facts().NonNeg(x)
		}
		var q *Term
		if nn {
			q = FDiv(x, c)
		} else {
			q = TDiv(x, y)
		}
		if op == token.QUO {
			return q
		}
		return Sub(x, ScaleI(c, q))
	}
	if op == token.QUO {
		return TDiv(x, y)
	}
	if cx, ok := x.constInt(); ok {
		if cy, ok := y.constInt(); ok && cy != 0 {
			return I(cx % cy)
		}
	}
	if f := st.facts(); f.NonNeg(x) && f.Prove(GeZ(Sub(y, I(1)))) {
		return Cyc(x, y)
	}
	return TMod(x, y)
}

func pow2(n int64) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
}

func (fe *GoFE) shift(op token.Token, x, y *Term, signed bool) *Term {
	c, ok := y.constInt()
	if x.sort == SBV {
		if ok && c >= 0 {
			if op == token.SHL {
				return BVShl(x, int(c))
			}
			return BVShr(x, int(c), signed)
		}
		if y.op == OpIte {
			return Ite(y.args[0], fe.shift(op, x, y.args[1], signed), fe.shift(op, x, y.args[2], signed))
		}
		return Fn(SBV, x.w, op.String(), x, y)
	}
	if ok && c >= 0 && c < 63 {
		if op == token.SHL {
			return Scale(pow2(c), x)
		}
		return FDiv(x, 1<<uint(c))
	}
	return Fn(SInt, 0, op.String(), x, y)
}

// intAnd: x & mask on mathematical integers (two's complement).
func intAnd(x, y *Term) *Term {
	cx, okx := x.constInt()
	cy, oky := y.constInt()
	if okx && oky {
		return I(cx & cy)
	}
	if okx {
		x, y, cx, cy, okx, oky = y, x, cy, cx, oky, okx
	}
	if oky {
		if cy >= 0 && (cy&(cy+1)) == 0 { // low mask
			return Sub(x, ScaleI(cy+1, FDiv(x, cy+1)))
		}
		if n := ^cy; cy < 0 && (n&(n+1)) == 0 { // clear low bits
			return ScaleI(n+1, FDiv(x, n+1))
		}
		if cy > 0 {
			// contiguous or general mask through bits
			acc := I(0)
			for i := uint(0); i < 62; i++ {
				if cy>>i&1 == 1 {
					b := Sub(FDiv(x, 1<<i), ScaleI(2, FDiv(x, 1<<(i+1))))
					acc = Add(acc, ScaleI(1<<i, b))
				}
			}
			return acc
		}
	}
	return intBitop(token.AND, x, y)
}

func intBitop(op token.Token, x, y *Term) *Term {
	cx, okx := x.constInt()
	cy, oky := y.constInt()
	if okx && oky {
		switch op {
		case token.AND:
			return I(cx & cy)
		case token.OR:
			return I(cx | cy)
		case token.XOR:
			return I(cx ^ cy)
		case token.AND_NOT:
			return I(cx &^ cy)
		}
	}
	// values known to be sums of bits: go through a bit vector
	w := 0
	for _, t := range []*Term{x, y} {
		lo, hi, ok := bitRange(t)
		if !ok || lo < 0 || hi >= 1<<40 {
			w = -1
			break
		}
		for hi>>uint(w) != 0 {
			w++
		}
	}
	if w > 0 {
		a, b := Trunc(x, w), Trunc(y, w)
		switch op {
		case token.AND:
			return ToInt(BVAnd(a, b), false)
		case token.OR:
			return ToInt(BVOr(a, b), false)
		case token.XOR:
			return ToInt(BVXor(a, b), false)
		case token.AND_NOT:
			return ToInt(BVAnd(a, BVNot(b)), false)
		}
	}
	if op != token.AND_NOT && x.id > y.id {
		x, y = y, x
	}
	return Fn(SInt, 0, "int"+op.String(), x, y)
}

func (fe *GoFE) convert(st *State, v *Val, from, to types.Type) *Val {
	if s, ok := isComplex(to); ok {
		f, _ := isComplex(from)
		return VC(V(convF(v.f[0].t, f, s)), V(convF(v.f[1].t, f, s)))
	}
	switch u := to.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return v
		}
		s, w, ok := basicSort(u)
		if !ok {
			unsup("convert to %s", to)
		}
		if s == SStr {
			return V(fe.toString(st, v, from))
		}
		if v.t == nil {
			unsup("convert %s to %s", from, to)
		}
		return V(convScalar(v.t, from, s, w))
	case *types.Slice:
		if v.t != nil && v.t.sort == SStr {
			el := u.Elem().Underlying().(*types.Basic)
			if el.Kind() != types.Uint8 {
				unsup("convert string to %s", to)
			}
			r := intern(Term{op: OpFn, sort: SRef, sym: "bytesof", args: []*Term{v.t}})
			n := strLen(v.t)
			return VC(V(r), V(I(0)), V(n), V(n))
		}
		return v
	case *types.Pointer:
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			if _, ok := u.Elem().Underlying().(*types.Array); ok {
				return V(intern(Term{op: OpFn, sort: SRef, sym: "cast", args: []*Term{v.t}}))
			}
			return v
		}
		return v
	}
	return v
}

func convF(t *Term, from, to Sort) *Term {
	if from == to {
		return t
	}
	if to == SF64 {
		return Fn(SF64, 0, "ext", t)
	}
	return Fn(SF32, 0, "rnd", t)
}

func convScalar(t *Term, from types.Type, s Sort, w int) *Term {
	sg := isSigned(from)
	switch t.sort {
	case SInt:
		switch s {
		case SInt:
			return t
		case SBV:
			return TruncMod(t, w)
		case SF32, SF64:
			return Fn(s, 0, "itof", t)
		}
	case SBV:
		switch s {
		case SInt:
			return ToInt(t, sg)
		case SBV:
			return BVExt(t, w, sg)
		case SF32, SF64:
			return Fn(s, 0, "itof", ToInt(t, sg))
		}
	case SF32, SF64:
		switch s {
		case SInt:
			return Fn(SInt, 0, "ftoi", t)
		case SBV:
			return Trunc(Fn(SInt, 0, "ftoi", t), w)
		case SF32, SF64:
			return convF(t, t.sort, s)
		}
	case SRef, SBool:
		if t.sort == s {
			return t
		}
	}
	unsup("conversion of %s to %s", from, s)
	return nil
}

// ---------- strings ----------

func strLen(s *Term) *Term {
	if c, ok := strConstVal(s); ok {
		return I(int64(len(c)))
	}
	switch s.op {
	case OpIte:
		return Ite(s.args[0], strLen(s.args[1]), strLen(s.args[2]))
	case OpFn:
		switch s.sym {
		case "concat":
			n := I(0)
			for _, a := range s.args {
				n = Add(n, strLen(a))
			}
			return n
		case "substr":
			return Sub(s.args[2], s.args[1])
		case "strof":
			return s.args[2]
		case "chars":
			return I(int64(len(s.args)))
		}
	}
	l := Fn(SInt, 0, "len", s)
	headAxioms(l, s)
	return l
}

func strAt(s, i *Term) *Term {
	if c, ok := strConstVal(s); ok {
		if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(c) {
			return BVConst(8, uint64(c[n]))
		}
	}
	if s.op == OpFn && s.sym == "substr" {
		return strAt(s.args[0], Add(i, s.args[1]))
	}
	return Fn(SBV, 8, "strat", s, i)
}

func substr(s, lo, hi *Term) *Term {
	if lo == I(0) && hi == strLen(s) {
		return s
	}
	if c, ok := strConstVal(s); ok {
		a, ok1 := lo.constInt()
		b, ok2 := hi.constInt()
		if ok1 && ok2 && a >= 0 && b <= int64(len(c)) && a <= b {
			return StrConst(c[a:b])
		}
	}
	if s.op == OpFn && s.sym == "substr" {
		return substr(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	if t := cut(s, lo, hi); t != nil {
		return t
	}
	return Fn(SStr, 0, "substr", s, lo, hi)
}

func concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		var parts []*Term
		if t.op == OpFn && t.sym == "concat" {
			parts = t.args
		} else {
			parts = []*Term{t}
		}
		for _, q := range parts {
			if c, ok := strConstVal(q); ok {
				if c == "" {
					continue
				}
				if len(out) > 0 {
					if d, ok := strConstVal(out[len(out)-1]); ok {
						out[len(out)-1] = StrConst(d + c)
						continue
					}
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return StrConst("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return Fn(SStr, 0, "concat", out...)
}

func strEq(x, y *Term) *Term {
	if x.op == OpIte {
		return Ite(x.args[0], strEq(x.args[1], y), strEq(x.args[2], y))
	}
	if y.op == OpIte {
		return strEq(y, x)
	}
	// s == "" is len(s) == 0
	if c, ok := strConstVal(y); ok && c == "" {
		return EqI(strLen(x), I(0))
	}
	if c, ok := strConstVal(x); ok && c == "" {
		return EqI(strLen(y), I(0))
	}
	// s == "c" is len(s) == 1 and s[0] == 'c'
	if c, ok := strConstVal(x); ok && len(c) == 1 {
		x, y = y, x
	}
	if c, ok := strConstVal(y); ok && len(c) == 1 {
		return And(EqI(strLen(x), I(1)), EqT(strAt(x, I(0)), BVConst(8, uint64(c[0]))))
	}
	if c, ok := strConstVal(x); ok {
		if _, both := strConstVal(y); !both {
			return And(EqI(strLen(y), I(int64(len(c)))), EqT(x, y))
		}
	}
	if c, ok := strConstVal(y); ok {
		if _, both := strConstVal(x); !both {
			return And(EqI(strLen(x), I(int64(len(c)))), EqT(x, y))
		}
	}
	return EqT(x, y)
}

func (fe *GoFE) toString(st *State, v *Val, from types.Type) *Term {
	if v.t != nil {
		if v.t.sort == SStr {
			return v.t
		}
		return Fn(SStr, 0, "runestr", v.t)
	}
	// bytes -> string
	arr := fe.regArr(st, v.f[0].t, "", SBV, 8)
	return strOf(st.facts(), arr, v.f[1].t, v.f[2].t, 0)
}

func strOf(f *Facts, arr, off, n *Term, depth int) *Term {
	if arr.op == OpFn && strings.HasPrefix(arr.sym, "mem") && len(arr.args) == 1 {
		if b := arr.args[0]; b.op == OpFn && b.sym == "bytesof" && off == I(0) && n == strLen(b.args[0]) {
			return b.args[0] // the bytes of a string, as a string again
		}
	}
	if c, ok := n.constInt(); ok && c >= 0 && c <= 16 {
		if c == 0 {
			return StrConst("")
		}
		var cs []*Term
		allc := true
		bs := []byte{}
		for i := int64(0); i < c; i++ {
			x := selectF(f, arr, Add(off, I(i)))
			if u, ok := BVConstVal(x); ok {
				bs = append(bs, byte(u))
			} else {
				allc = false
			}
			cs = append(cs, x)
		}
		if allc {
			return StrConst(string(bs))
		}
		return Fn(SStr, 0, "chars", cs...)
	}
	if depth < 12 {
		if c := someIteCond(n); c != nil {
			m, memo := map[*Term]*Term{}, map[int]*Term{}
			fixTerm(m, c, true)
			y := strOf(f, substMemo(arr, m, memo), off, substMemo(n, m, memo), depth+1)
			m, memo = map[*Term]*Term{}, map[int]*Term{}
			fixTerm(m, c, false)
			return Ite(c, y, strOf(f, substMemo(arr, m, memo), off, substMemo(n, m, memo), depth+1))
		}
	}
	return Fn(SStr, 0, "strof", arr, off, n)
}

func someIteCond(t *Term) *Term {
	var r *Term
	walk(t, map[int]bool{}, func(x *Term) {
		if r != nil {
			return
		}
		if x.op == OpIte {
			r = x.args[0]
		} else if x.op == OpB2I {
			r = x.args[0]
		}
	})
	return r
}

// fixTerm records what c being v means for the terms it is made of.
func fixTerm(m map[*Term]*Term, c *Term, v bool) {
	m[c], m[Not(c)] = Bool(v), Bool(!v)
	if c.op == OpAnd && v || c.op == OpOr && !v {
		for _, a := range c.args {
			fixTerm(m, a, v)
		}
	}
}

// assumeIn simplifies t with condition c fixed.
func assumeIn(t, c *Term, v bool) *Term {
	return Subst(t, map[*Term]*Term{c: Bool(v), Not(c): Bool(!v)})
}

// fnVal is the result of an opaque function.
func (fe *GoFE) fnVal(t types.Type, name string, args []*Term) *Val {
	return shape(t, "", func(path string, s Sort, w int) *Term {
		if strings.HasSuffix(path, "#off") {
			return I(0)
		}
		r := intern(Term{op: OpFn, sort: s, w: w, sym: name + path, args: args})
		if strings.HasSuffix(path, "#len") {
			addAxiom(r, GeZ(r))
		}
		if strings.HasSuffix(path, "#cap") {
			l := intern(Term{op: OpFn, sort: s, w: w, sym: name + path[:len(path)-4] + "#len", args: args})
			addAxiom(r, Ge(r, l))
		}
		return r
	}, func(path string, el types.Type, n int64) *Val {
		var fs []*Val
		for _, l := range elemLeaves(el, "") {
			fs = append(fs, V(intern(Term{op: OpFn, sort: SArr, es: l.s, ew: l.w, sym: name + path + l.path, args: args})))
		}
		return &Val{f: fs}
	})
}

// Maps with integer-like keys are arrays over the whole key range, with one
// more array telling which keys are present.
func mapLeaves2(mt *types.Map) []leaf {
	ls := elemLeaves(mt.Elem(), "")
	for _, l := range ls {
		if l.gran > 1 {
			unsup("map of %s", mt.Elem())
		}
	}
	return append(append([]leaf{}, ls...), leaf{path: ".present", s: SInt})
}

func mapKey(k *Val, mt *types.Map) *Term {
	if k.t == nil || k.t.sort == SStr || k.t.sort == SRef || isFloat(k.t.sort) {
		unsup("map with keys of type %s", mt.Key())
	}
	return intOf(k.t, mt.Key())
}

var plainVerbs = regexp.MustCompile(`^([^%]|%0?[0-9]*[dxXs])*$`)

// onlyFormatted: an integer of a predeclared type used only as an argument of
// fmt.Sprintf or fmt.Fprintf with verbs that print its value whatever its
// width.
func onlyFormatted(x *ssa.MakeInterface) bool {
	b, ok := x.X.Type().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 && b.Kind() != types.Uint8 && b.Kind() != types.Uint16 && b.Kind() != types.Uint32 {
		return false
	}
	for _, r := range *x.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || len(*ia.Referrers()) != 1 {
			return false
		}
		al, ok := ia.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			if _, ok := r.(*ssa.IndexAddr); ok {
				continue
			}
			sl, ok := r.(*ssa.Slice)
			if !ok {
				return false
			}
			for _, r := range *sl.Referrers() {
				call, ok := r.(*ssa.Call)
				if !ok {
					return false
				}
				f := call.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" {
					return false
				}
				i := map[string]int{"Sprintf": 0, "Fprintf": 1}
				n, ok := i[f.Name()]
				if !ok {
					return false
				}
				c, ok := call.Call.Args[n].(*ssa.Const)
				if !ok || c.Value == nil || !plainVerbs.MatchString(constant.StringVal(c.Value)) {
					return false
				}
			}
		}
	}
	return true
}
