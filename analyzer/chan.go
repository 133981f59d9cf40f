package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels as counters: what is buffered, how much fits, closed or not.  Only
// operations that do not wait are understood; the values sent are not.

const (
	chLen, chCap, chClosed = "#len", "#cap", "#closed"
)

func (p *goProg) chanGet(st *State, ch *Term, what string) *Term {
	return p.fe.sel(st.facts(), p.fe.regArr(st, ch, what, SInt, 0), I(0))
}

func (p *goProg) chanSet(st *State, ch *Term, what string, v *Term) {
	p.fe.storeArr(st, ch, what, SInt, 0, I(0), v)
}

// onChan splits on which channel it is.
func (p *goProg) onChan(st *State, ch *Term, f func(*State, *Term) []*Val) []*Val {
	if ch.op != OpIte {
		return f(st, ch)
	}
	a, b := st.clone(), st.clone()
	a.assume(ch.args[0])
	b.assume(Not(ch.args[0]))
	var live []*State
	var vs [][]*Val
	for i, s := range []*State{a, b} {
		if !s.dead() {
			live = append(live, s)
			vs = append(vs, p.onChan(s, ch.args[1+i], f))
		}
	}
	return p.join(st, live, vs)
}

func (p *goProg) makeChan(st *State, x *ssa.MakeChan) *Val {
	r := p.alloc(x)
	n := intOf(p.val(st, x.Size).t, x.Size.Type())
	for _, w := range []string{chLen, chCap, chClosed} {
		st.env[arrayCell(r, w, SInt, 0)] = V(ZeroArr(SInt, 0))
	}
	p.chanSet(st, r, chCap, n)
	return V(r)
}

func (p *goProg) closeChan(st *State, in ssa.Instruction, ch *Term) {
	p.nilCheck(st, in, ch)
	p.onChan(st, ch, func(s *State, c *Term) []*Val {
		if !isNil(c) {
			open := EqI(p.chanGet(s, c, chClosed), I(0))
			p.fe.ev.oblige(s, p.where(in), "close of closed channel", open)
			s.know(open)
			p.chanSet(s, c, chClosed, I(1))
		}
		return nil
	})
}

func (p *goProg) selectChan(st *State, x *ssa.Select) *Val {
	if x.Blocking || len(x.States) != 1 {
		unsup("select that may wait in %s", p.fn)
	}
	q := x.States[0]
	ch := p.val(st, q.Chan).t
	var rest []*Val
	if q.Dir == types.RecvOnly {
		el := q.Chan.Type().Underlying().(*types.Chan).Elem()
		rest = append(rest, p.fe.fnVal(el, "received", []*Term{ch}))
	}
	rs := p.onChan(st, ch, func(s *State, c *Term) []*Val {
		if isNil(c) {
			return []*Val{V(I(-1)), V(TFalse)}
		}
		n := p.chanGet(s, c, chLen)
		shut := Not(EqI(p.chanGet(s, c, chClosed), I(0)))
		if q.Dir == types.RecvOnly {
			got := Ge(n, I(1))
			p.chanSet(s, c, chLen, Ite(got, Sub(n, I(1)), n))
			return []*Val{V(Ite(Or(got, shut), I(0), I(-1))), V(got)}
		}
		p.fe.ev.oblige(s, p.where(x), "send on closed channel", Not(shut))
		s.know(Not(shut))
		fits := Ge(p.chanGet(s, c, chCap), Add(n, I(1)))
		p.chanSet(s, c, chLen, Ite(fits, Add(n, I(1)), n))
		return []*Val{V(Ite(fits, I(0), I(-1))), V(TFalse)}
	})
	return VC(append(rs, rest...)...)
}
