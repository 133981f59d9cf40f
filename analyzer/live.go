package main

// Only what the results and the caller's memory depend on has to be matched.

import "sort"

func rootOf(r *Term) *Term {
	for len(r.args) > 0 && (r.op == OpField || r.op == OpElem || r.op == OpFn && r.sym == "cast") {
		r = r.args[0]
	}
	return r
}

// liveLoops returns the residual loops the roots depend on, outermost first,
// and reduces their variables to those that matter.
func liveLoops(ev *Eval, roots []*Term, st *State) []*LoopRec {
	cells := map[string][]Key{} // local cells by allocation site
	byRef := map[*Term][]Key{}
	for _, k := range envKeys(st.env) {
		if k.kind == 'r' {
			continue
		}
		m, ok := cellMetas[k]
		if !ok || m.root == nil {
			continue
		}
		b := rootOf(m.root)
		switch {
		case b.op == OpAlloc:
			cells[b.sym] = append(cells[b.sym], k)
		default:
			byRef[b] = append(byRef[b], k)
		}
	}
	phiOf := map[*Term]*PhiRec{}
	for _, l := range ev.loops {
		for _, p := range l.phis {
			phiOf[p.sym] = p
			phiOf[p.fin] = p
		}
	}
	livePhi := map[*PhiRec]bool{}
	liveLoop := map[*LoopRec]bool{}
	doneCell := map[Key]bool{}
	seen := map[int]bool{}
	var scan func(t *Term)
	var addLoop func(l *LoopRec)
	cell := func(k Key) {
		if !doneCell[k] {
			doneCell[k] = true
			leaves(st.env[k], "", func(_ string, t *Term) { scan(t) })
		}
	}
	addLoop = func(l *LoopRec) {
		if l == nil || liveLoop[l] {
			return
		}
		liveLoop[l] = true
		if l.parent != nil && ev.loops[l.parent.id] == l.parent {
			addLoop(l.parent)
		}
		if l.exitC != nil {
			scan(l.exitC)
		}
		scan(l.K)
	}
	scan = func(t *Term) {
		if t == nil {
			return
		}
		walk(t, seen, func(x *Term) {
			if l := ev.loopOf[x]; l != nil {
				addLoop(l)
			}
			if p := phiOf[x]; p != nil && !livePhi[p] {
				livePhi[p] = true
				scan(p.init)
				scan(p.next)
			}
			if x.op == OpAlloc {
				for _, k := range cells[x.sym] {
					cell(k)
				}
			}
			if x.sort == SRef {
				for _, k := range byRef[x] {
					cell(k)
				}
			}
		})
	}
	for _, t := range roots {
		scan(t)
	}
	var out []*LoopRec
	for l := range liveLoop {
		var ps []*PhiRec
		for _, p := range l.phis {
			if livePhi[p] {
				ps = append(ps, p)
			}
		}
		l.phis = ps
		out = append(out, l)
	}
	depthOf := func(l *LoopRec) int {
		n := 0
		for p := l.parent; p != nil; p = p.parent {
			n++
		}
		return n
	}
	sort.Slice(out, func(i, j int) bool {
		if d := depthOf(out[i]) - depthOf(out[j]); d != 0 {
			return d < 0
		}
		return out[i].k.id < out[j].k.id
	})
	return out
}
