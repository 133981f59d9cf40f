package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dspPkg = modPath + "/dsp"

// portable maps a function without Go body to the portable routine of the
// same operation.
func portable(w *World) func(fe *GoFE, fn *ssa.Function) *ssa.Function {
	return func(fe *GoFE, fn *ssa.Function) *ssa.Function {
		if fn.Pkg == nil {
			return nil
		}
		want := strings.ToLower(strings.TrimSuffix(fn.Name(), "Asm"))
		var names []string
		for n := range fn.Pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m, ok := fn.Pkg.Members[n].(*ssa.Function)
			if ok && m != fn && len(m.Blocks) > 0 && strings.ToLower(n) == want {
				return m
			}
		}
		// renamed: where the architectures without an own routine continue
		if fn.Pkg.Pkg.Path() == dspPkg {
			if m, ok := fn.Pkg.Members[stubTarget(fn.Name())].(*ssa.Function); ok && len(m.Blocks) > 0 {
				return m
			}
		}
		return nil
	}
}

func implFE(w *World) *GoFE {
	fe := newGoFE("i", w.fset)
	for p := range w.pkgs {
		fe.modPkgs[p] = true
	}
	fe.bodyless = portable(w)
	fe.prog = w.prog
	fe.mutable = mutableGlobals(w)
	fe.burst = burstTypes
	return fe
}

func specFE(w *World) *GoFE {
	fe := newGoFE("s", w.fset)
	fe.modPkgs["verif/analyzer/spec"] = true
	fe.burst = burstTypes
	return fe
}

var burstTypes = map[string]bool{"goertzel": true}

type Opts struct {
	nan     bool        // floats may be NaN
	results bool        // package variables are not compared
	settle  bool        // decide gated facts as their gates are decided
	strict  bool        // do not assume what the reference requires
	total   bool        // only the obligations met on the way, not the results
	alias   map[int]int // parameter shares memory with parameter
	ren     map[string]string
	know    func(params []*Val) []*Term
	fix     map[int]int64 // parameters of the implementation with one value
}

var skipGlobals = false

// diffFuncs summarises both and compares.
func diffFuncs(iw, sw *World, implFn, specFn *ssa.Function, o Opts) (*Diff, error) {
	fieldRen = o.ren
	if fieldRen == nil {
		fieldRen = map[string]string{}
	}
	sfe, ife := specFE(sw), implFE(iw)
	if sw == iw {
		sfe = implFE(iw)
		sfe.ev.tag = "s"
	}
	resetWorld()
	nanAware, skipGlobals, settling = o.nan, o.results, o.settle
	defer func() { nanAware, skipGlobals, settling = false, false, false }()
	inSpec = sw != iw
	sp := sfe.paramVals(specFn)
	inSpec = false
	ip := ife.paramVals(implFn)
	for i, c := range o.fix {
		ip[i] = V(I(c))
	}
	for a, b := range o.alias {
		ra, rb := ip[a].f[0].t, ip[b].f[0].t
		aliasMap[ra] = rb
	}
	defer func() { aliasMap = map[*Term]*Term{}; inSpec = false }()
	var know []*Term
	if o.know != nil {
		know = o.know(ip)
	}
	inSpec = sw != iw
	s, err := sfe.summarise(specFn, sp, know, nil)
	inSpec = false
	if err != nil {
		return nil, fmt.Errorf("specification: %w", err)
	}
	if o.strict {
		s.reqs = nil
	}
	i, err := ife.summarise(implFn, ip, append(know, s.reqs...), nil)
	if err != nil {
		return nil, err
	}
	s.reqs = append(s.reqs, know...)
	if o.total {
		return &Diff{s: s, i: i}, nil
	}
	return compare(s, i), nil
}

// resetWorld forgets what was registered for the previous function.
func resetWorld() {
	cellMetas = map[Key]cellMeta{}
	keyNames = map[Key]string{}
	regionLen = map[*Term]*Term{}
	siteLoop = map[*Term]int64{}
	rootTypes = map[*Term]string{}
	atomAxioms = map[*Term][]*Term{}
	aliasMap = map[*Term]*Term{}
	phiVals = map[*Term][2]*Term{}
	listRegs = map[*Term]bool{}
	windows = map[*Term]*window{}
	globalFacts = NewFacts()
}

// runInits evaluates the initialisation of pkg and of the module's packages
// it imports, and returns the package variables it sets.  Variables that any
// other function assigns are left unknown.
func (fe *GoFE) runInits(st *State, pkg *ssa.Package, done map[*ssa.Package]bool) map[Key]*Val {
	out := map[Key]*Val{}
	if done[pkg] || !fe.modPkgs[pkg.Pkg.Path()] {
		return out
	}
	done[pkg] = true
	for _, im := range pkg.Pkg.Imports() {
		if q := fe.prog.Package(im); q != nil {
			for k, v := range fe.runInits(st, q, done) {
				out[k] = v
			}
		}
	}
	f := pkg.Func("init")
	if f == nil {
		return out
	}
	s := st.clone()
	id := len(fe.frameIDs) + 1
	fe.frameIDs["init@"+pkg.Pkg.Path()] = id
	p := &goProg{fe: fe, fn: f, path: "init@" + pkg.Pkg.Name(), id: id}
	rec, frames, unroll := fe.ev.record, fe.ev.frames, fe.ev.unroll
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupported); !is {
					panic(r)
				}
				ok = false
				fe.ev.record, fe.ev.frames, fe.ev.unroll = rec, frames, unroll
			}
		}()
		fe.ev.RunFunc(p, s)
		return true
	}()
	if !ok || len(p.rets) != 1 {
		return out
	}
	r := p.rets[0]
	for _, k := range envKeys(r.env) {
		v := r.env[k]
		if k.kind == 'r' || k == ioKey {
			continue
		}
		m, known := cellMetas[k]
		if !known || m.root == nil {
			continue
		}
		b := m.root
		for len(b.args) > 0 && (b.op == OpField || b.op == OpElem || b.op == OpFn && b.sym == "cast") {
			b = b.args[0]
		}
		if b.op == OpFn && strings.HasPrefix(b.sym, "global:") {
			if fe.mutable[b.sym] {
				continue
			}
			st.env[k] = v
			out[k] = v
		} else if b.op == OpAlloc {
			st.env[k] = v
		}
	}
	for _, a := range r.as {
		st.know(a)
	}
	return out
}

// mutableGlobals: package variables (or the memory they refer to) assigned
// outside package initialisation.
func mutableGlobals(w *World) map[string]bool {
	if w.mutable != nil {
		return w.mutable
	}
	w.mutable = map[string]bool{}
	var fns []*ssa.Function
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns = append(fns, m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := w.prog.MethodValue(ms.At(i)); f != nil {
							fns = append(fns, f)
						}
					}
				}
			}
		}
	}
	for len(fns) > 0 {
		f := fns[0]
		fns = append(fns[1:], f.AnonFuncs...)
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for a != nil {
					switch x := a.(type) {
					case *ssa.Global:
						w.mutable["global:"+x.Pkg.Pkg.Name()+"."+x.Name()] = true
						a = nil
					case *ssa.IndexAddr:
						a = x.X
					case *ssa.FieldAddr:
						a = x.X
					case *ssa.Slice:
						a = x.X
					case *ssa.UnOp:
						a = x.X
					default:
						a = nil
					}
				}
			}
		}
	}
	return w.mutable
}
