package main

// Loop variables are paired by trial; this orders the trials.  Each variable
// gets a colour from the symbols its start and step mention, refined through
// the variables they mention in turn.  A wrong colour costs time, never
// soundness: every pairing is verified.

import (
	"hash/fnv"
	"sort"
)

type colours map[*Term]uint64 // φ and final-value symbols

func hashStrings(ss []string) uint64 {
	sort.Strings(ss)
	h := fnv.New64a()
	last := ""
	for _, s := range ss {
		if s != last {
			h.Write([]byte(s))
			h.Write([]byte{0})
		}
		last = s
	}
	return h.Sum64()
}

func colourPhis(ev *Eval, ls []*LoopRec, rounds int) colours {
	c := colours{}
	loopSym := map[*Term]bool{}
	for _, l := range ls {
		loopSym[l.k], loopSym[l.K] = true, true
		for _, p := range l.phis {
			h := hashStrings([]string{p.sym.sort.String()})
			c[p.sym] = h
			if p.fin != nil {
				c[p.fin] = h + 1
			}
		}
	}
	leaves := func(t *Term, cur colours) []string {
		var out []string
		walk(t, map[int]bool{}, func(x *Term) {
			switch {
			case loopSym[x]:
			case cur[x] != 0:
				out = append(out, "φ"+u64(cur[x]))
			case x.op == OpSym || x.op == OpFn || x.op == OpField:
				out = append(out, x.sym)
			case x.op == OpSelect && x.args[1].sort == SInt:
				if k := constPart(x.args[1]); k.Sign() != 0 {
					out = append(out, "at"+k.RatString())
				}
			}
		})
		return out
	}
	for r := 0; r < rounds; r++ {
		nc := colours{}
		for _, l := range ls {
			for _, p := range l.phis {
				ss := leaves(p.init, c)
				for i := range ss {
					ss[i] = "i" + ss[i]
				}
				for _, s := range leaves(p.next, c) {
					ss = append(ss, "n"+s)
				}
				ss = append(ss, "self"+u64(c[p.sym]))
				stop := l.K
				if l.kRes {
					stop = l.exitC
				}
				for _, s := range leaves(stop, c) {
					ss = append(ss, "k"+s)
				}
				h := hashStrings(ss)
				nc[p.sym] = h
				if p.fin != nil {
					nc[p.fin] = h + 1
				}
			}
		}
		c = nc
	}
	return c
}

func u64(h uint64) string {
	var b [8]byte
	for i := range b {
		b[i] = byte(h >> (8 * i))
	}
	return string(b[:])
}

func (c *Cmp) likeness(p, q *PhiRec) int {
	n := 0
	for i := range c.colS {
		if c.colS[i][p.sym] == c.colI[i][q.sym] {
			n++
		}
	}
	return n
}

func (c *Cmp) dumpColours(ls []*LoopRec, cs []colours) {
	for _, l := range ls {
		for _, p := range l.phis {
			print(l.where, " ", p.sym.sym, " ")
			for _, x := range cs {
				print(x[p.sym]%10007, " ")
			}
			println()
			println("     K", l.K.str(5), " exit ", l.exitC.str(5))
			println("     init", p.init.str(6))
			println("     next", p.next.str(9))
		}
	}
}

// loopLikeness counts the variables of s that have a look-alike in t.
func (c *Cmp) loopLikeness(s, t *LoopRec) int {
	n := 0
	for i := range c.colS {
		have := map[uint64]int{}
		for _, q := range t.phis {
			have[c.colI[i][q.sym]]++
		}
		for _, p := range s.phis {
			if have[c.colS[i][p.sym]] > 0 {
				have[c.colS[i][p.sym]]--
				n++
			}
		}
	}
	return n
}
