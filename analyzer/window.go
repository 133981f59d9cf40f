package main

// Arrays a loop writes at a fixed set of offsets that advance with the
// iteration: what an earlier iteration cannot have written still has the
// contents it had before the loop.

type window struct {
	init *Term
	k    *Term
	c    int64   // step per iteration
	as   []*Term // offsets written in iteration 0
}

// windows by loop variable; the variable's final value has its own entry,
// with k the number of iterations.
var windows = map[*Term]*window{}

// storeIndices lists the indices at which t may differ from base.
func storeIndices(t, base *Term, idx map[*Term]bool, seen map[int]bool) bool {
	if t == base || seen[t.id] {
		return true
	}
	seen[t.id] = true
	switch t.op {
	case OpStore:
		idx[t.args[1]] = true
		return len(idx) <= 16 && storeIndices(t.args[0], base, idx, seen)
	case OpIte:
		return storeIndices(t.args[1], base, idx, seen) && storeIndices(t.args[2], base, idx, seen)
	}
	return false
}

func findWindow(pv *phiVar, k *Term, open map[*Term]bool) *window {
	idx := map[*Term]bool{}
	if !storeIndices(pv.next, pv.sym, idx, map[int]bool{}) || len(idx) == 0 {
		return nil
	}
	w := &window{init: pv.init, k: k}
	for _, t := range termSet(idx) {
		if mentions(t, open) {
			return nil
		}
		s, c, ok := affineIn(t, k)
		if !ok || !c.IsInt() || c.Sign() <= 0 || !c.Num().IsInt64() {
			return nil
		}
		if w.c == 0 {
			w.c = c.Num().Int64()
		} else if w.c != c.Num().Int64() {
			return nil
		}
		if len(w.as) > 0 {
			if _, isC := Sub(s, w.as[0]).constInt(); !isC {
				return nil
			}
		}
		w.as = append(w.as, s)
	}
	return w
}

func (w *window) within(v *window) bool {
	if w == nil || w.c != v.c {
		return false
	}
	for _, a := range w.as {
		in := false
		for _, b := range v.as {
			in = in || a == b
		}
		if !in {
			return false
		}
	}
	return true
}

// untouched: no iteration before k writes index x.
func (w *window) untouched(f *Facts, x *Term) bool {
	if x.sort != SInt {
		return false
	}
	var max *Term
	maxc := int64(0)
	for _, a := range w.as {
		d, _ := Sub(a, w.as[0]).constInt()
		if max == nil || d > maxc {
			max, maxc = a, d
		}
	}
	// a read that advances with the loop
	{
		s := Sub(x, ScaleI(w.c, w.k))
		all := true
		for _, a := range w.as {
			d, isC := Sub(s, a).constInt()
			if !isC || d < 0 && d%w.c == 0 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	g := Sub(x, Add(max, Add(ScaleI(w.c, w.k), I(1-w.c))))
	if c, ok := g.constInt(); ok {
		return c >= 0
	}
	return f != nil && f.Prove(GeZ(g))
}
