package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks of the server.  A lock is named by the path that leads to it from a
// value of the function ("dev.mutex").  Two analyses over the control flow:
// which locks are certainly held (for what a lock guards) and which are
// possibly held (for what is never given back).

// lockPath names an address or pointer by how it is reached.
func lockPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return lockPath(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return lockPath(x.X)
		}
	case *ssa.Global:
		return "global " + x.Name()
	case *ssa.ChangeType:
		return lockPath(x.X)
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("#%d", i)
			}
		}
	case *ssa.Alloc:
		// a variable that is set once stands for what it holds
		if w := onlyStore(x); w != nil {
			return lockPath(w)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return "outer " + lockPath(b)
		}
	}
	return v.Name()
}

func onlyStore(a *ssa.Alloc) (w ssa.Value) {
	if a.Referrers() == nil {
		return nil
	}
	for _, in := range *a.Referrers() {
		if s, ok := in.(*ssa.Store); ok && s.Addr == a {
			if w != nil {
				return nil
			}
			w = s.Val
		}
	}
	return w
}

func bindingOf(f *ssa.FreeVar) ssa.Value {
	fn := f.Parent()
	for i, v := range fn.FreeVars {
		if v != f || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

func lockCall(c *ssa.CallCommon) (path, kind string) {
	fn := c.StaticCallee()
	if fn == nil || len(c.Args) == 0 {
		return
	}
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return lockPath(c.Args[0]), "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return lockPath(c.Args[0]), "unlock"
	case "(*sync.RWMutex).RLock":
		return lockPath(c.Args[0]), "rlock"
	case "(*sync.RWMutex).RUnlock":
		return lockPath(c.Args[0]), "runlock"
	}
	return
}

type held map[string]string // lock to "w", "r"; in the may analysis also "d": the function gives it back when it returns

func (h held) copy() held {
	o := held{}
	for k, v := range h {
		o[k] = v
	}
	return o
}

type lockInfo struct {
	w      *World
	pkg    *ssa.Package
	fns    []*ssa.Function
	entry  map[*ssa.Function]held
	before map[ssa.Instruction]held // certainly held
	bad    func(in ssa.Instruction, f string, a ...interface{})
}

func serverFuncs(pkg *ssa.Package) (out []*ssa.Function) {
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || strings.HasPrefix(f.Name(), "verif") {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := pkg.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// flow runs one analysis over fn from the locks held at its entry.
func (l *lockInfo) flow(fn *ssa.Function, entry held, must bool, visit func(in ssa.Instruction, h held)) {
	in := map[*ssa.BasicBlock]held{fn.Blocks[0]: entry.copy()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	step := func(b *ssa.BasicBlock, h held, visit func(ssa.Instruction, held)) held {
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, h)
			}
			switch x := i.(type) {
			case *ssa.Call:
				switch p, k := lockCall(&x.Call); k {
				case "lock":
					h[p] = "w"
				case "rlock":
					h[p] = "r"
				case "unlock", "runlock":
					delete(h, p)
				}
			case *ssa.Defer:
				for _, p := range deferred(x) {
					if !must {
						h[p] = "d"
					}
				}
			}
		}
		return h
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := step(b, in[b].copy(), nil)
		for _, s := range b.Succs {
			old, ok := in[s]
			nw := held{}
			switch {
			case !ok:
				nw = out.copy()
			case must:
				for k, v := range old {
					if w, ok := out[k]; ok {
						if w == "r" {
							v = "r"
						}
						nw[k] = v
					}
				}
			default:
				nw = old.copy()
				for k, v := range out {
					if o, ok := nw[k]; !ok || o == "d" {
						nw[k] = v
					}
				}
			}
			if !ok || !sameHeld(old, nw) {
				in[s] = nw
				work = append(work, s)
			}
		}
	}
	for _, b := range fn.Blocks {
		if h, ok := in[b]; ok {
			step(b, h.copy(), visit)
		}
	}
}

func sameHeld(a, b held) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// deferred: locks given back by a deferred call, or by what a deferred
// function of this package does.
func deferred(d *ssa.Defer) (out []string) {
	if p, k := lockCall(&d.Call); k == "unlock" || k == "runlock" {
		return []string{p}
	}
	if fn := d.Call.StaticCallee(); fn != nil && fn.Parent() != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if p, k := lockCall(&c.Call); k == "unlock" || k == "runlock" {
						out = append(out, strings.TrimPrefix(p, "outer "))
					}
				}
			}
		}
	}
	return
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// wrapper: a function that exists to lock or unlock (it ends with more or
// fewer locks than it began with) is followed by nobody here: it is reported.
func lockItems(r *Report) {
	w := worldOf(r, "boripserver")
	if w == nil {
		return
	}
	pkg := w.pkgs[modPath+"/boripserver"]
	l := &lockInfo{w: w, pkg: pkg, fns: serverFuncs(pkg), entry: map[*ssa.Function]held{}}
	pos := func(in ssa.Instruction) string {
		p := w.fset.Position(in.Pos())
		return fmt.Sprintf("boripserver/%s:%d (%s)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, in.Parent().Name())
	}
	for _, f := range l.fns {
		r.funcs["boripserver."+f.Name()] = true
	}
	pair := ItemResult{Item: "boripserver locks", Rule: "no path acquires a lock it may hold, gives back one it does not hold, or returns without giving back what it acquired"}
	for _, f := range l.fns {
		l.flow(f, held{}, false, func(in ssa.Instruction, h held) {
			switch x := in.(type) {
			case *ssa.Call:
				p, k := lockCall(&x.Call)
				if k == "" {
					return
				}
				pair.Obligations++
				v, may := h[p]
				switch {
				case (k == "lock" || k == "rlock") && may && v != "d":
					r.violate("locks/"+f.Name()+"/twice/"+p, pos(in), "%s acquires %s, which it may already hold", f.Name(), p)
				case (k == "unlock" || k == "runlock") && !may:
					r.violate("locks/"+f.Name()+"/free/"+p, pos(in), "%s gives back %s, which it does not hold", f.Name(), p)
				case k == "unlock" && v == "r" || k == "runlock" && v == "w":
					r.violate("locks/"+f.Name()+"/kind/"+p, pos(in), "%s gives back %s in another mode than it was acquired", f.Name(), p)
				default:
					pair.Discharged++
				}
			case *ssa.Return:
				for p, v := range h {
					pair.Obligations++
					if v != "d" {
						r.violate("locks/"+f.Name()+"/kept/"+p, pos(in), "%s may return without giving back %s", f.Name(), p)
					} else {
						pair.Discharged++
					}
				}
			}
		})
	}
	// what is given back when the function returns is held then
	for _, f := range l.fns {
		l.flow(f, held{}, true, func(in ssa.Instruction, h held) {
			if _, ok := in.(*ssa.Return); !ok || in.Block() == f.Recover {
				return
			}
			for _, b := range f.Blocks {
				if !b.Dominates(in.Block()) {
					continue
				}
				for _, j := range b.Instrs {
					d, ok := j.(*ssa.Defer)
					if !ok {
						continue
					}
					p, k := lockCall(&d.Call)
					if k != "unlock" && k != "runlock" {
						continue
					}
					pair.Obligations++
					switch v, ok := h[p]; {
					case !ok:
						r.violate("locks/"+f.Name()+"/free/"+p, pos(j), "%s gives back %s when it returns, which it may not hold then", f.Name(), p)
					case k == "unlock" && v == "r" || k == "runlock" && v == "w":
						r.violate("locks/"+f.Name()+"/kind/"+p, pos(j), "%s gives back %s in another mode than it was acquired", f.Name(), p)
					default:
						pair.Discharged++
					}
				}
			}
		})
	}
	r.results = append(r.results, pair)
	l.guards(r, pos)
}

// fresh: the object was made in this function and nobody else has seen it
// through a call, a store or a closure before.
func fresh(v ssa.Value) bool {
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok {
				if q := onlyStore(a); q != nil {
					v = q
					continue
				}
			}
		}
		break
	}
	_, ok := v.(*ssa.Alloc)
	return ok
}

type fieldKey struct {
	st *types.Named
	i  int
}

func fieldOf(a *ssa.FieldAddr) (fieldKey, bool) {
	n, ok := a.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
	return fieldKey{n, a.Field}, ok
}

func mutexOf(n *types.Named) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if t := st.Field(i).Type().String(); t == "sync.Mutex" || t == "sync.RWMutex" {
			return st.Field(i).Name()
		}
	}
	return ""
}

// guards: state that more than one goroutine reaches is touched under the
// lock of its object.  That is the state of objects held in package variables,
// and what a function handed to the device touches.
func (l *lockInfo) guards(r *Report, pos func(ssa.Instruction) string) {
	shared := map[*types.Named]bool{}
	var reach func(t types.Type)
	seen := map[types.Type]bool{}
	reach = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Pkg() == l.pkg.Pkg {
				shared[u] = true
				if st, ok := u.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						reach(st.Field(i).Type())
					}
				}
			}
		case *types.Pointer:
			reach(u.Elem())
		case *types.Map:
			reach(u.Elem())
		case *types.Slice:
			reach(u.Elem())
		}
	}
	for n, m := range l.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "verif") {
			reach(g.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	// functions run by somebody else: go statements are new sessions and own
	// what they make; a function value given to another package is not
	async := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || async[f] || f.Pkg != l.pkg {
			return
		}
		async[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c := callOf(in); c != nil {
					mark(c.StaticCallee())
				}
			}
		}
	}
	for _, f := range l.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c := callOf(in)
				if c == nil {
					continue
				}
				callee := c.StaticCallee()
				if _, isGo := in.(*ssa.Go); isGo {
					// a new goroutine owns what it makes, not what it is given
					vs := c.Args
					if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						vs, callee = append(append([]ssa.Value{}, vs...), mc.Bindings...), mc.Fn.(*ssa.Function)
					}
					for _, v := range vs {
						t := v.Type()
						for {
							p, ok := t.Underlying().(*types.Pointer)
							if !ok {
								break
							}
							t = p.Elem()
						}
						if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == l.pkg.Pkg {
							mark(callee)
						}
					}
					continue
				}
				if callee != nil && callee.Pkg == l.pkg {
					continue
				}
				for _, a := range c.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						mark(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	type access struct {
		in    ssa.Instruction
		fa    *ssa.FieldAddr
		write bool
	}
	uses := map[fieldKey][]access{}
	written, inAsync := map[fieldKey]bool{}, map[fieldKey]bool{}
	for _, f := range l.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var fa *ssa.FieldAddr
				write := false
				switch x := in.(type) {
				case *ssa.Store:
					fa, _ = x.Addr.(*ssa.FieldAddr)
					write = true
				case *ssa.UnOp:
					if x.Op == token.MUL {
						fa, _ = x.X.(*ssa.FieldAddr)
					}
				}
				if fa == nil {
					continue
				}
				k, ok := fieldOf(fa)
				if !ok || k.st.Obj().Pkg() != l.pkg.Pkg || fresh(fa.X) {
					continue
				}
				uses[k] = append(uses[k], access{in, fa, write})
				written[k] = written[k] || write
				inAsync[k] = inAsync[k] || async[f]
			}
		}
	}
	// locks held at the entry of a function by all its callers
	must := map[ssa.Instruction]held{}
	for pass := 0; pass < 4; pass++ {
		next := map[*ssa.Function]held{}
		called := map[*ssa.Function]bool{}
		for _, f := range l.fns {
			e := l.entry[f]
			if e == nil {
				e = held{}
			}
			l.flow(f, e, true, func(in ssa.Instruction, h held) {
				must[in] = h.copy()
				c := callOf(in)
				if c == nil {
					return
				}
				g := c.StaticCallee()
				if g == nil || g.Pkg != l.pkg {
					return
				}
				up := held{}
				if _, ok := in.(*ssa.Call); ok {
					for p, v := range h {
						if strings.HasPrefix(p, "global ") {
							up[p] = v
						}
						for i, a := range c.Args {
							if q := lockPath(a); strings.HasPrefix(p, q+".") {
								up[fmt.Sprintf("#%d", i)+p[len(q):]] = v
							}
						}
					}
				}
				if !called[g] {
					called[g] = true
					next[g] = up
					return
				}
				for p := range next[g] {
					if _, ok := up[p]; !ok {
						delete(next[g], p)
					}
				}
			})
		}
		for f := range async {
			delete(next, f)
		}
		l.entry = next
	}
	res := ItemResult{Item: "boripserver shared state", Rule: "state reached by several goroutines is read and written under the lock of its object"}
	var keys []fieldKey
	for k := range uses {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].st.Obj().Name()+fmt.Sprint(keys[i].i) < keys[j].st.Obj().Name()+fmt.Sprint(keys[j].i)
	})
	for _, k := range keys {
		if !written[k] || !(shared[k.st] || inAsync[k]) {
			continue
		}
		fld := k.st.Underlying().(*types.Struct).Field(k.i)
		m := mutexOf(k.st)
		_, ptr := fld.Type().Underlying().(*types.Pointer)
		for _, a := range uses[k] {
			if !a.write && ptr && shared[k.st] {
				continue // the handle is read by the session that claimed the object, and written when it claims and releases
			}
			res.Obligations++
			p := lockPath(a.fa.X) + "." + m
			v := must[a.in][p]
			if m == "" || v == "" || a.write && v != "w" {
				what := "read"
				if a.write {
					what = "written"
				}
				r.violate("guard/"+k.st.Obj().Name()+"."+fld.Name()+"/"+a.in.Parent().Name(), pos(a.in), "%s.%s is %s without its lock", k.st.Obj().Name(), fld.Name(), what)
				continue
			}
			res.Discharged++
		}
	}
	// the table of devices
	for _, f := range l.fns {
		init := f.Pkg != nil && strings.HasPrefix(f.Name(), "init")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.MapUpdate)
				if !ok || init {
					continue
				}
				if p := lockPath(x.Map); strings.HasPrefix(p, "global ") {
					res.Obligations++
					if must[in][p+"Mutex"] == "w" {
						res.Discharged++
					} else {
						r.violate("guard/"+p+"/"+f.Name(), pos(in), "%s is changed without its lock", p)
					}
				}
			}
		}
	}
	r.results = append(r.results, res)
}

// ---------- a session gives everything back ----------

// ensures: on every path from the start of fn (or from instruction after) to
// a return, something that gives the object back happens, or the object is
// known to be absent.
type giver struct {
	l     *lockInfo
	gives func(in ssa.Instruction) bool // gives the object back by itself
	gone  func(cond ssa.Value) (edge int, ok bool) // the branch on which it is absent
	memo  map[*ssa.Function]int
}

func (g *giver) fn(f *ssa.Function) bool {
	if v, ok := g.memo[f]; ok {
		return v == 1
	}
	g.memo[f] = 0
	ok := len(f.Blocks) > 0 && g.from(f.Blocks[0], 0) == nil
	if ok {
		g.memo[f] = 1
	}
	return ok
}

func (g *giver) event(in ssa.Instruction) bool {
	if g.gives(in) {
		return true
	}
	if c := callOf(in); c != nil {
		if _, isGo := in.(*ssa.Go); !isGo {
			if f := c.StaticCallee(); f != nil && f.Pkg == g.l.pkg {
				return g.fn(f)
			}
		}
	}
	return false
}

// from returns a return reached without an event.
func (g *giver) from(b *ssa.BasicBlock, i int) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		if i == 0 {
			if seen[b] {
				return nil
			}
			seen[b] = true
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if g.event(in) {
				return nil
			}
			switch x := in.(type) {
			case *ssa.Return:
				return in
			case *ssa.If:
				if edge, ok := g.gone(x.Cond); ok {
					return walk(b.Succs[1-edge], 0)
				}
			}
		}
		for _, s := range b.Succs {
			if q := walk(s, 0); q != nil {
				return q
			}
		}
		return nil
	}
	return walk(b, i)
}

// transitively: fn, or what it calls in the package, has such an instruction.
func (l *lockInfo) transitively(f *ssa.Function, is func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
			if c := callOf(in); c != nil {
				if g := c.StaticCallee(); g != nil && g.Pkg == l.pkg && l.transitively(g, is, seen) {
					return true
				}
			}
		}
	}
	return false
}

// sessionItems: whoever makes a session gives its device back and tells its
// stream to stop before it returns.
func sessionItems(device, stream bool) func(r *Report) {
	return func(r *Report) {
		w := worldOf(r, "boripserver")
		if w == nil {
			return
		}
		pkg := w.pkgs[modPath+"/boripserver"]
		l := &lockInfo{w: w, pkg: pkg, fns: serverFuncs(pkg)}
		closesHandle := func(in ssa.Instruction) bool {
			c := callOf(in)
			return c != nil && c.StaticCallee() != nil && strings.HasSuffix(c.StaticCallee().String(), "rtl.Device).Close")
		}
		isDev := func(t types.Type) bool {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			st, ok := p.Elem().Underlying().(*types.Struct)
			if !ok {
				return false
			}
			for i := 0; i < st.NumFields(); i++ {
				if strings.HasSuffix(st.Field(i).Type().String(), "rtl.Device") {
					return true
				}
			}
			return false
		}
		isChan := func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
		nilTest := func(is func(types.Type) bool) func(c ssa.Value) (int, bool) {
			return func(c ssa.Value) (int, bool) {
				b, ok := c.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ {
					return 0, false
				}
				x, y := b.X, b.Y
				if k, ok := x.(*ssa.Const); ok && k.IsNil() {
					x, y = y, x
				}
				if k, ok := y.(*ssa.Const); !ok || !k.IsNil() || !is(x.Type()) {
					return 0, false
				}
				if b.Op == token.EQL {
					return 0, true
				}
				return 1, true
			}
		}
		devs := &giver{l: l, memo: map[*ssa.Function]int{}, gone: nilTest(isDev), gives: func(in ssa.Instruction) bool {
			c := callOf(in)
			if c == nil {
				return false
			}
			f := c.StaticCallee()
			return f != nil && f.Pkg == pkg && len(c.Args) > 0 && isDev(c.Args[0].Type()) && l.transitively(f, closesHandle, map[*ssa.Function]bool{})
		}}
		tells := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Select:
				return len(x.States) > 0 && x.States[0].Dir == types.SendOnly
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "close"
			}
			return false
		}
		strs := &giver{l: l, memo: map[*ssa.Function]int{}, gone: nilTest(isChan), gives: tells}
		changes := func(is func(types.Type) bool) func(in ssa.Instruction) bool {
			return func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fresh(fa.X) {
					return false
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.IsNil() {
					return false
				}
				return is(s.Val.Type())
			}
		}
		run := func(what string, g *giver, ch func(ssa.Instruction) bool) {
			res := ItemResult{Item: "boripserver session ends: " + what, Rule: "every path from a call that may acquire it to the end of the function that made the session gives it back or finds it absent"}
			for _, f := range l.fns {
				makes := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if a, ok := in.(*ssa.Alloc); ok && a.Heap {
							if n, ok := a.Type().Underlying().(*types.Pointer).Elem().(*types.Named); ok && n.Obj().Pkg() == pkg.Pkg && mutexOf(n) != "" && !isDev(a.Type()) {
								makes = true
							}
						}
					}
				}
				if !makes {
					continue
				}
				r.funcs["boripserver."+f.Name()] = true
				for _, b := range f.Blocks {
					for i, in := range b.Instrs {
						c, ok := in.(*ssa.Call)
						if !ok {
							continue
						}
						h := c.Call.StaticCallee()
						if h == nil || h.Pkg != pkg || !l.transitively(h, ch, map[*ssa.Function]bool{}) {
							continue
						}
						res.Obligations++
						if deferGives(f, g, b, i) {
							res.Discharged++
							continue
						}
						if q := g.from(b, i+1); q != nil {
							p := w.fset.Position(in.Pos())
							r.violate("session/"+what+"/"+f.Name(), fmt.Sprintf("boripserver/%s:%d (%s)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, f.Name()),
								"after %s there is a path to the end of %s that keeps the %s", h.Name(), f.Name(), what)
							continue
						}
						res.Discharged++
					}
				}
			}
			if res.Obligations == 0 {
				r.violate("session/"+what+"/none", "boripserver", "no function that makes a session and lets it acquire a %s was found", what)
			}
			r.results = append(r.results, res)
		}
		if device {
			run("device", devs, changes(isDev))
		}
		if stream {
			run("stream", strs, changes(isChan))
		}
	}
}

// deferGives: a deferred call, registered before, gives the object back.
func deferGives(f *ssa.Function, g *giver, at *ssa.BasicBlock, i int) bool {
	for _, b := range f.Blocks {
		if !b.Dominates(at) {
			continue
		}
		for j, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && (b != at || j < i) {
				if h := d.Call.StaticCallee(); h != nil && h.Pkg == g.l.pkg && (g.gives(in) || g.fn(h)) {
					return true
				}
			}
		}
	}
	return false
}
