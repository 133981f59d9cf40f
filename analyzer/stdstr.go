package main

// Models of buffered line I/O and of the string functions, beyond
// uninterpreted functions.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	wbufKey = Key{'g', 0, "wbuf"} // text not flushed yet
	werrKey = Key{'g', 0, "werr"} // sticky error of the buffered writer
)

func cellOr(st *State, k Key, d *Term) *Term {
	if v, ok := st.env[k]; ok {
		return v.t
	}
	return d
}

var nilRef = func() *Term { return zeroOf(SRef, 0) }

// fields is the array of the parts strings.Split finds, tail what SplitN
// leaves after n separators.
func fieldsArr(s, sep *Term) *Term {
	return intern(Term{op: OpFn, sort: SArr, es: SStr, sym: "strings.Split", args: []*Term{s, sep}})
}

func fieldsLen(s, sep *Term) *Term {
	n := Fn(SInt, 0, "strings.Split#len", s, sep)
	addAxiom(n, Ge(n, I(1)))
	return n
}

func tailOf(s, sep *Term, n int64) *Term {
	t := Fn(SStr, 0, "tail", s, sep, I(n))
	if c, ok := strConstVal(sep); ok && trimmed(s) && len(c) == 1 && strings.TrimSpace(c) == "" {
		// the last character is not a separator
		l := strLen(t)
		addAxiom(l, Ge(l, I(1)))
	}
	return t
}

// trimmed: without white space at either end.
func trimmed(s *Term) bool {
	if c, ok := strConstVal(s); ok {
		return strings.TrimSpace(c) == c
	}
	if s.op == OpIte {
		return trimmed(s.args[1]) && trimmed(s.args[2])
	}
	return s.op == OpFn && s.sym == "strings.TrimSpace"
}

func headOf(s, sep *Term) *Term { return Select(fieldsArr(s, sep), I(0)) }

// newStrings is a new slice of strings.
func newStrings(name string, n *Term, args ...*Term) *Val {
	ref := intern(Term{op: OpFn, sort: SRef, sym: "newobj:" + name, args: args})
	return VC(V(ref), V(I(0)), V(n), V(n))
}

// newContents is what the slices made by newStrings hold.
func newContents(ref *Term) *Term {
	switch ref.sym {
	case "newobj:strings.Split":
		return fieldsArr(ref.args[0], ref.args[1])
	case "newobj:strings.SplitN":
		s, sep := ref.args[0], ref.args[1]
		k, _ := ref.args[2].constInt()
		if k == 1 {
			return ArrLit(SStr, 0, []*Term{s})
		}
		var els []*Term
		for i := int64(0); i < k-1; i++ {
			els = append(els, Select(fieldsArr(s, sep), I(i)))
		}
		return ArrLit(SStr, 0, append(els, tailOf(s, sep, k-1)))
	}
	return nil
}

// parts is the content of an argument slice of strings of known length.
func (fe *GoFE) parts(st *State, v *Val) []*Term {
	n, ok := v.f[2].t.constInt()
	if !ok || n > 64 {
		return nil
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		arr := fe.regArr(st, v.f[0].t, "", SStr, 0)
		out = append(out, fe.sel(st.facts(), arr, Add(v.f[1].t, I(i))))
	}
	if out == nil {
		out = []*Term{}
	}
	return out
}

// lastSep splits a constant at its only occurrence of a separator, its end.
func lastSep(p *Term) (word, sep *Term) {
	c, ok := strConstVal(p)
	if !ok || len(c) < 2 {
		return nil, nil
	}
	w, q := c[:len(c)-1], c[len(c)-1:]
	if strings.Contains(w, q) || q >= "0" && q <= "9" || q >= "A" && q <= "Z" || q >= "a" && q <= "z" {
		return nil, nil
	}
	return StrConst(w), StrConst(q)
}

// index is where sep is first found, or -1.
func index(s, sep *Term) *Term {
	return Ite(Ge(fieldsLen(s, sep), I(2)), strLen(headOf(s, sep)), I(-1))
}

// headAxioms: a string is its head, a separator and its tail.
func headAxioms(l, h *Term) {
	if len(atomAxioms[l]) > 0 || h.op != OpSelect || h.args[1] != I(0) || h.args[0].op != OpFn || h.args[0].sym != "strings.Split" {
		return
	}
	s, sep := h.args[0].args[0], h.args[0].args[1]
	n := fieldsLen(s, sep)
	addAxiom(l, GeZ(l))
	addAxiom(l, Ge(strLen(s), l))
	addAxiom(l, Or(Ge(I(1), n), EqZ(Sub(strLen(s), Add(Add(l, I(int64(len(mustStr(sep))))), strLen(tailOf(s, sep, 1)))))))
}

func mustStr(t *Term) string {
	c, _ := strConstVal(t)
	return c
}

// gated replaces the choices on top of t that f decides.
func gated(f *Facts, t *Term) *Term {
	for t.op == OpIte {
		switch d := f.Decide(t.args[0]); {
		case d > 0:
			t = t.args[1]
		case d < 0:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// cut recognises a substring that ends or begins at a separator of s.
func cut(s, lo, hi *Term) *Term {
	for _, t := range []*Term{lo, hi} {
		for _, q := range subterms(t) {
			if q.op == OpIte && q.args[2] == I(-1) && headLen(q.args[1]) != nil {
				yes, no := map[*Term]*Term{q: q.args[1]}, map[*Term]*Term{q: I(-1)}
				return Ite(q.args[0], substr(s, Subst(lo, yes), Subst(hi, yes)), substr(s, Subst(lo, no), Subst(hi, no)))
			}
		}
	}
	for _, t := range []*Term{lo, hi} {
		for _, q := range subterms(t) {
			h := headLen(q)
			if h == nil || h.args[0].args[0] != s {
				continue
			}
			if lo == I(0) && hi == q {
				return h
			}
			sep := h.args[0].args[1]
			if hi == strLen(s) && lo == Add(q, strLen(sep)) {
				return tailOf(s, sep, 1)
			}
		}
	}
	return nil
}

// headLen: t is the length of what precedes a separator.
func headLen(t *Term) *Term {
	if t.op == OpFn && t.sym == "len" {
		if h := t.args[0]; h.op == OpSelect && h.args[1] == I(0) && h.args[0].op == OpFn && h.args[0].sym == "strings.Split" {
			return h
		}
	}
	return nil
}

func hasPrefix(s, p *Term) *Term {
	if w, q := lastSep(p); w != nil {
		return And(Ge(fieldsLen(s, q), I(2)), strEq(headOf(s, q), w))
	}
	n := strLen(p)
	if c, ok := strConstVal(p); ok && len(c) == 1 {
		return And(Ge(strLen(s), n), EqT(strAt(s, I(0)), BVConst(8, uint64(c[0]))))
	}
	return And(Ge(strLen(s), n), strEq(substr(s, I(0), n), p))
}

// format lowers a constant format of plain verbs to a concatenation.
func (fe *GoFE) format(st *State, f *Term, v *Val) *Term {
	c, ok := strConstVal(f)
	if !ok {
		return nil
	}
	n, ok := v.f[2].t.constInt()
	if !ok {
		return nil
	}
	var out []*Term
	arg := int64(0)
	for c != "" {
		i := strings.IndexByte(c, '%')
		if i < 0 {
			out = append(out, StrConst(c))
			break
		}
		out = append(out, StrConst(c[:i]))
		c = c[i+1:]
		if c == "" {
			return nil
		}
		if c[0] == '%' {
			out = append(out, StrConst("%"))
			c = c[1:]
			continue
		}
		j := strings.IndexFunc(c, func(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' })
		if j < 0 || arg >= n || strings.ContainsAny(c[:j], "*[") {
			return nil
		}
		arr := fe.regArr(st, v.f[0].t, "", SRef, 0)
		a := fe.sel(st.facts(), arr, Add(v.f[1].t, I(arg)))
		arg++
		iv, known := fe.ifaceMk[a]
		verb := c[:j+1]
		c = c[j+1:]
		if known && (verb == "s" || verb == "v") {
			if b, ok := iv.t.(*types.Basic); ok && b.Kind() == types.String {
				out = append(out, iv.v.t)
				continue
			}
		}
		if known && (verb == "d" || verb == "v") {
			if b, ok := iv.t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				out = append(out, decimal(intOf(iv.v.t, iv.t)))
				continue
			}
		}
		if known && verb[len(verb)-1] == 'f' {
			if b, ok := iv.t.(*types.Basic); ok && b.Kind() == types.Float64 && (verb == "f" || len(verb) == 3 && verb[0] == '.') {
				prec := int64(6)
				if len(verb) == 3 {
					prec = int64(verb[1] - '0')
				}
				out = append(out, Fn(SStr, 0, "strconv.FormatFloat", iv.v.t, BVConst(8, 'f'), I(prec), I(64)))
				continue
			}
		}
		if verb == "v" {
			return nil
		}
		out = append(out, Fn(SStr, 0, "fmt:%"+verb, a))
	}
	if arg != n {
		return nil
	}
	return concat(out...)
}

// constructor results: a new object exactly when the error is nil.
func (fe *GoFE) newOrErr(st *State, name string, sig *types.Signature, as []*Term) []*Val {
	err := Fn(SRef, 0, name+".1", as...)
	obj := intern(Term{op: OpFn, sort: SRef, sym: "newobj:" + name, args: as})
	return []*Val{V(Ite(EqT(err, nilRef()), obj, nilRef())), V(err)}
}

func decimal(t *Term) *Term {
	if c, ok := t.constInt(); ok {
		return StrConst(strconv.FormatInt(c, 10))
	}
	return Fn(SStr, 0, "strconv.Itoa", t)
}

var openers = map[string]bool{
	"github.com/samuel/go-rtlsdr/rtl.Open": true,
	"net.Dial": true, "net.DialTimeout": true, "net.DialTCP": true, "net.DialUDP": true, "net.Listen": true, "net.ListenUDP": true, "net.ListenPacket": true,
}

func (p *goProg) lineIO(st *State, in ssa.Instruction, name string, fn *ssa.Function, args []*Val) ([]*Val, bool) {
	fe := p.fe
	pm := func(i int) types.Type { return fn.Signature.Params().At(i).Type() }
	one := func(t *Term) ([]*Val, bool) { return []*Val{V(t)}, true }
	sticky := func() *Term { return cellOr(st, werrKey, nilRef()) }
	write := func(s *Term) ([]*Val, bool) {
		old := cellOr(st, wbufKey, StrConst(""))
		st.env[wbufKey] = V(Ite(EqT(sticky(), nilRef()), concat(old, s), old))
		return []*Val{V(strLen(s)), V(sticky())}, true
	}
	flush := func() *Term {
		io, txt, old := fe.ioCell(st), cellOr(st, wbufKey, StrConst("")), sticky()
		ok := EqT(old, nilRef())
		err := Ite(ok, Fn(SRef, 0, "send.err", io, txt), old)
		st.env[ioKey] = V(Ite(ok, Fn(SObj, 0, "io:send", io, txt), io))
		st.env[wbufKey] = V(StrConst(""))
		st.env[werrKey] = V(err)
		return err
	}
	isWriter := func(t *Term) bool { return t.op == OpFn && t.sym == "newobj:bufio.NewWriter" }
	switch name {
	case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize":
		return one(intern(Term{op: OpFn, sort: SRef, sym: "newobj:" + strings.TrimSuffix(name, "Size"), args: []*Term{args[0].t}}))
	case "(*bufio.Writer).WriteString":
		return write(args[1].t)
	case "(*bufio.Writer).Write":
		return write(fe.toString(st, args[1], pm(0)))
	case "(*bufio.Writer).WriteByte":
		c, ok := bvConst(args[1].t)
		if !ok {
			return nil, false
		}
		vs, _ := write(StrConst(string([]byte{byte(c)})))
		return vs[1:], true
	case "(*bufio.Writer).WriteRune":
		c, ok := bvConst(args[1].t)
		if !ok {
			return nil, false
		}
		return write(StrConst(string(rune(c))))
	case "(*bufio.Writer).Flush":
		return one(flush())
	case "io.WriteString":
		if iv, ok := fe.ifaceMk[args[0].t]; ok && iv.v.t != nil && isWriter(iv.v.t) {
			return write(args[1].t)
		}
		return nil, false
	case "fmt.Fprintf":
		if iv, ok := fe.ifaceMk[args[0].t]; ok && iv.v.t != nil && isWriter(iv.v.t) {
			if s := fe.format(st, args[1].t, args[2]); s != nil {
				return write(s)
			}
		}
		return nil, false
	case "fmt.Sprintf":
		if s := fe.format(st, args[0].t, args[1]); s != nil {
			return one(s)
		}
		return nil, false
	case "strings.Join":
		if ps := fe.parts(st, args[0]); ps != nil {
			var out []*Term
			for i, q := range ps {
				if i > 0 {
					out = append(out, args[1].t)
				}
				out = append(out, q)
			}
			return one(concat(out...))
		}
		return nil, false
	case "strings.Split":
		if c, ok := strConstVal(args[1].t); ok && c != "" {
			s, sep := args[0].t, args[1].t
			return []*Val{newStrings(name, fieldsLen(s, sep), s, sep)}, true
		}
	case "strings.SplitN":
		c, ok := strConstVal(args[1].t)
		k, ok2 := args[2].t.constInt()
		if !ok || !ok2 || c == "" || k < 1 || k > 16 {
			return nil, false
		}
		s, sep := args[0].t, args[1].t
		n := fieldsLen(s, sep)
		return []*Val{newStrings(name, Ite(Ge(n, I(k)), I(k), n), s, sep, I(k))}, true
	case "strings.Cut":
		if c, ok := strConstVal(args[1].t); ok && c != "" {
			s, sep := args[0].t, args[1].t
			found := Ge(fieldsLen(s, sep), I(2))
			return []*Val{V(Ite(found, headOf(s, sep), s)), V(Ite(found, tailOf(s, sep, 1), StrConst(""))), V(found)}, true
		}
	case "strings.Contains":
		if c, ok := strConstVal(args[1].t); ok && c != "" {
			return one(Ge(fieldsLen(args[0].t, args[1].t), I(2)))
		}
	case "strings.Index":
		if c, ok := strConstVal(args[1].t); ok && c != "" {
			return one(index(args[0].t, args[1].t))
		}
	case "strings.IndexByte":
		if c, ok := bvConst(args[1].t); ok {
			return one(index(args[0].t, StrConst(string([]byte{byte(c)}))))
		}
	case "bytes.TrimSpace":
		str := args[0]
		t := Fn(SStr, 0, "strings.TrimSpace", fe.toString(st, str, nil))
		return []*Val{fe.convert(st, V(t), types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))}, true
	case "strings.HasPrefix":
		return one(hasPrefix(args[0].t, args[1].t))
	case "strings.TrimPrefix":
		s, q := args[0].t, args[1].t
		if w, sep := lastSep(q); w != nil {
			return one(gated(st.facts(), Ite(hasPrefix(s, q), tailOf(s, sep, 1), s)))
		}
		return one(Ite(hasPrefix(s, q), substr(s, strLen(q), strLen(s)), s))
	case "strconv.Itoa":
		return one(decimal(args[0].t))
	case "strconv.FormatUint", "strconv.FormatInt":
		if b, ok := args[1].t.constInt(); !ok || b != 10 {
			return nil, false
		}
		if ci, ok := in.(*ssa.Call); ok && name == "strconv.FormatUint" {
			// integers do not wrap here: a negative one does
			if cv, ok := ci.Call.Args[0].(*ssa.Convert); ok && isSigned(cv.X.Type()) && st.facts().Decide(GeZ(args[0].t)) != 1 {
				return nil, false
			}
		}
		return one(decimal(args[0].t))
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, true // one session at a time here: locks are checked on their own
	}
	if openers[name] && fn.Signature.Results().Len() == 2 {
		as := []*Term{fe.ioCell(st)}
		for i, a := range args {
			as = append(as, fe.argTerms(st, a, pm(i))...)
		}
		fe.calls[name]++
		st.env[ioKey] = V(Fn(SObj, 0, "io:"+name, as...))
		return fe.newOrErr(st, name, fn.Signature, as), true
	}
	return nil, false
}

// subterms lists the terms t is made of, t included.
func subterms(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		for _, a := range x.args {
			walk(a)
		}
		for _, q := range x.poly {
			for _, g := range q.f {
				walk(g.t)
			}
		}
	}
	walk(t)
	return
}

// indexCmp decides a comparison of a search result with a constant by whether
// the search succeeded.
func indexCmp(p *Term, eq bool) *Term {
	var q *Term
	for i := -1; i < len(p.poly); i++ {
		t := p
		if i >= 0 {
			if len(p.poly[i].f) != 1 {
				continue
			}
			t = p.poly[i].f[0].t
		}
		if t.op == OpIte && t.sort == SInt && t.args[2] == I(-1) && headLen(t.args[1]) != nil {
			q = t
		}
	}
	if q == nil {
		return nil
	}
	c, neg := Sub(p, q), false
	if _, ok := c.constRat(); !ok {
		c, neg = Add(p, q), true
	}
	r, ok := c.constRat()
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return nil
	}
	k, g, h := r.Num().Int64(), q.args[0], q.args[1]
	if eq {
		if neg {
			k = -k
		}
		if k > 0 {
			return And(Not(g), Bool(k == 1))
		}
		return And(g, EqZ(Add(h, I(k))))
	}
	switch {
	case neg && k < 0:
		return And(Not(g), Bool(k == -1))
	case neg:
		return Or(Not(g), GeZ(Sub(I(k), h)))
	case k > 0:
		return TTrue
	}
	if k == 0 {
		return g
	}
	return And(g, GeZ(Add(h, I(k))))
}
