package main

// backbone lists the literals that follow from a formula by propositional
// reasoning alone.
func backbone(c *Term) []*Term {
	var atoms []*Term
	idx := map[*Term]int{}
	var collect func(t *Term) bool
	collect = func(t *Term) bool {
		switch t.op {
		case OpAnd, OpOr, OpNot, OpXor:
		case OpIte:
			if t.sort != SBool {
				return false
			}
		default:
			if t == TTrue || t == TFalse {
				return true
			}
			if _, ok := idx[t]; !ok {
				idx[t] = len(atoms)
				atoms = append(atoms, t)
			}
			return len(atoms) <= 16
		}
		for _, a := range t.args {
			if !collect(a) {
				return false
			}
		}
		return true
	}
	if !collect(c) || len(atoms) == 0 {
		return nil
	}
	n := 1
	if len(atoms) > 6 {
		n = 1 << (len(atoms) - 6)
	}
	low := [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}
	column := func(i int) []uint64 {
		r := make([]uint64, n)
		for w := range r {
			if i < 6 {
				r[w] = low[i]
			} else if w>>(i-6)&1 == 1 {
				r[w] = ^uint64(0)
			}
		}
		return r
	}
	memo := map[int][]uint64{}
	var table func(t *Term) []uint64
	table = func(t *Term) []uint64 {
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := make([]uint64, n)
		switch {
		case t == TTrue:
			for w := range r {
				r[w] = ^uint64(0)
			}
		case t == TFalse:
		case t.op == OpAnd:
			for w := range r {
				r[w] = ^uint64(0)
			}
			for _, a := range t.args {
				for w, x := range table(a) {
					r[w] &= x
				}
			}
		case t.op == OpOr:
			for _, a := range t.args {
				for w, x := range table(a) {
					r[w] |= x
				}
			}
		case t.op == OpXor:
			for _, a := range t.args {
				for w, x := range table(a) {
					r[w] ^= x
				}
			}
		case t.op == OpNot:
			for w, x := range table(t.args[0]) {
				r[w] = ^x
			}
		case t.op == OpIte:
			g, x, y := table(t.args[0]), table(t.args[1]), table(t.args[2])
			for w := range r {
				r[w] = g[w]&x[w] | ^g[w]&y[w]
			}
		default:
			r = column(idx[t])
		}
		memo[t.id] = r
		return r
	}
	f := table(c)
	var out []*Term
	for i, a := range atoms {
		col := column(i)
		pos, neg := false, false
		for w := range f {
			pos = pos || f[w]&col[w] != 0
			neg = neg || f[w]&^col[w] != 0
		}
		if pos && !neg {
			out = append(out, a)
		}
		if neg && !pos {
			out = append(out, Not(a))
		}
	}
	return out
}

// enter assumes a branch condition and rewrites the state with what it
// decides.
func (s *State) enter(c *Term) {
	if !settling {
		s.assume(c)
		return
	}
	m := map[*Term]*Term{}
	known := map[*Term]*Term{}
	for _, p := range s.pc {
		known[p], known[Not(p)] = TTrue, TFalse
	}
	if d := Subst(c, known); d != c {
		c, m = d, known
	}
	ls := backbone(c)
	for _, l := range ls {
		m[l], m[Not(l)] = TTrue, TFalse
		s.assume(l)
	}
	s.assume(Subst(c, m))
	if len(m) == 0 {
		return
	}
	memo := map[int]*Term{}
	for k, v := range s.env {
		s.env[k] = mapVal(v, func(t *Term) *Term { return substMemo(t, m, memo) })
	}
}
