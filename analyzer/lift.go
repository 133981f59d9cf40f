package main

// Amd64 assembly as Go source: every routine is rewritten, instruction by
// instruction, into a Go function with labels and gotos, which the rest of
// the analysis then treats like any other function of the package.  General
// registers become ints (a pointer register is an element offset into the
// slice it points into, decided by dataflow), vector registers become one
// variable per lane.  Bounds of memory accesses are then the index obligations
// of the Go function; alignment, instruction-set gating and the like become
// explicit panics.  Nothing here is executed: the functions exist only in the
// loader's overlay.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type asmInstr struct {
	pc    int
	line  string // file:line
	op    string
	args  []string
	label string
}

type asmText struct {
	name    string
	file    string
	frame   int
	argSize int // -1 unless declared
	flags   string
	ins     []asmInstr
}

type asmParam struct {
	name string
	typ  string // Go type
	off  int
	slic bool
	elem string
}

type asmDecl struct {
	name   string
	params []asmParam
	res    []asmParam
	where  string
	body   bool
}

func sizeOfType(t string) int {
	switch t {
	case "byte", "uint8", "int8", "bool":
		return 1
	case "int16", "uint16":
		return 2
	case "int32", "uint32", "float32":
		return 4
	case "complex128":
		return 16
	}
	return 8
}

func alignOfType(t string) int {
	switch t {
	case "complex64":
		return 4
	case "complex128":
		return 8
	}
	return sizeOfType(t)
}

// goDecls lists the functions declared in the Go files of dir that build for
// arch (file name suffixes only), with ABI0 offsets for the given word size.
func goDecls(dir, arch string, word int) (map[string]*asmDecl, error) {
	out := map[string]*asmDecl{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	set := token.NewFileSet()
	for _, f := range fs {
		if !fileForArch(f, arch) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		a, err := parser.ParseFile(set, f, b, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			ps := set.Position(fd.Pos())
			r := &asmDecl{name: fd.Name.Name, where: fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line), body: fd.Body != nil}
			off := 0
			add := func(name, t string) asmParam {
				p := asmParam{name: name, typ: t}
				al, sz := alignOfType(t), sizeOfType(t)
				if al > word {
					al = word
				}
				switch {
				case strings.HasPrefix(t, "[]"):
					p.slic, p.elem, al, sz = true, t[2:], word, 3*word
				case strings.HasPrefix(t, "*"), t == "int", t == "uint", t == "uintptr":
					al, sz = word, word
				case t == "string":
					al, sz = word, 2*word
				}
				off = (off + al - 1) / al * al
				p.off = off
				off += sz
				return p
			}
			fields := func(l *ast.FieldList, res bool) (ps []asmParam) {
				if l == nil {
					return
				}
				for _, fl := range l.List {
					t := exprText(fl.Type)
					if len(fl.Names) == 0 {
						n := "ret"
						if len(ps) > 0 {
							n = fmt.Sprintf("ret%d", len(ps))
						}
						ps = append(ps, add(n, t))
					}
					for _, n := range fl.Names {
						ps = append(ps, add(n.Name, t))
					}
				}
				return
			}
			r.params = fields(fd.Type.Params, false)
			off = (off + word - 1) / word * word
			r.res = fields(fd.Type.Results, true)
			out[r.name] = r
		}
	}
	return out, nil
}

func exprText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.ArrayType:
		if x.Len == nil {
			return "[]" + exprText(x.Elt)
		}
		return "[...]" + exprText(x.Elt)
	case *ast.StarExpr:
		return "*" + exprText(x.X)
	case *ast.SelectorExpr:
		return exprText(x.X) + "." + x.Sel.Name
	case *ast.ParenExpr:
		return "(" + exprText(x.X) + ")"
	case *ast.UnaryExpr:
		return x.Op.String() + exprText(x.X)
	case *ast.BinaryExpr:
		return exprText(x.X) + " " + x.Op.String() + " " + exprText(x.Y)
	case *ast.BasicLit:
		return x.Value
	}
	return "?"
}

func fileForArch(f, arch string) bool {
	if strings.HasSuffix(f, "_test.go") {
		return false
	}
	c := build.Default
	c.GOOS, c.GOARCH, c.CgoEnabled, c.Compiler = "linux", arch, false, "gc"
	ok, err := c.MatchFile(filepath.Dir(f), filepath.Base(f))
	return err == nil && ok
}

var asmLine = regexp.MustCompile(`^\t0x[0-9a-f]+ (\d+) \(([^)]*)\)\t(\S+)(?:\t(.*))?$`)

// assemble lists the routines of the assembly files of dir for arch.
func assemble(dir, arch, pkg string) (map[string]*asmText, error) {
	out := map[string]*asmText{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.s"))
	tmp, err := os.MkdirTemp("", "lift")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	os.WriteFile(filepath.Join(tmp, "go_asm.h"), nil, 0o644)
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		if !fileForArch(f, arch) {
			continue
		}
		c := exec.Command("go", "tool", "asm", "-S", "-p", pkg, "-I", tmp, "-I", filepath.Join(strings.TrimSpace(string(root)), "pkg/include"), "-o", filepath.Join(tmp, "x.o"), f)
		c.Env = baseEnv("GOOS=linux", "GOARCH="+arch)
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		if err := c.Run(); err != nil {
			return nil, fmt.Errorf("%s does not assemble: %s", strings.TrimPrefix(f, repoDir+"/"), strings.TrimSpace(se.String()+so.String()))
		}
		var cur *asmText
		for _, l := range strings.Split(so.String(), "\n") {
			m := asmLine.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			pc, _ := strconv.Atoi(m[1])
			args := splitArgs(m[4])
			where := strings.TrimPrefix(m[2], repoDir+"/")
			if m[3] == "TEXT" {
				n := strings.TrimSuffix(args[0], "(SB)")
				n = n[strings.LastIndex(n, ".")+1:]
				cur = &asmText{name: n, file: where, argSize: -1}
				fl := args[len(args)-1]
				if len(args) > 2 {
					cur.flags = args[1]
				}
				q := strings.SplitN(strings.TrimPrefix(fl, "$"), "-", 2)
				if strings.HasPrefix(fl, "$-") {
					q = strings.SplitN(fl[2:], "-", 2)
				}
				cur.frame, _ = strconv.Atoi(q[0])
				if len(q) > 1 {
					cur.argSize, _ = strconv.Atoi(q[1])
				}
				if out[n] != nil {
					return nil, fmt.Errorf("%s defined twice: %s and %s", n, out[n].file, where)
				}
				out[n] = cur
				continue
			}
			if cur == nil || m[3] == "PCDATA" || m[3] == "FUNCDATA" || m[3] == "END" {
				continue
			}
			for i, a := range args {
				if r := byteRegs[a]; r != "" && arch == "amd64" {
					args[i] = r
				}
			}
			cur.ins = append(cur.ins, asmInstr{pc: pc, line: where, op: m[3], args: args})
		}
	}
	return out, nil
}

var byteRegs = map[string]string{"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX", "SIB": "SI", "DIB": "DI", "BPB": "BP", "SIL": "SI", "DIL": "DI", "BPL": "BP", "R8B": "R8", "R9B": "R9", "R10B": "R10", "R11B": "R11", "R12B": "R12", "R13B": "R13", "R15B": "R15"}

func splitArgs(s string) (out []string) {
	depth, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return
}

// ---------- lifting ----------

type liftErr struct{ msg string }

type lane struct {
	f bool
	w int
}

// regKind: what a general register or argument cell holds.
type regKind struct {
	k byte // 0 undefined, 'i' integer, 'l' 32-bit integer in sign-extended form, 'p' pointer into a slice parameter, 'f' float argument
	p int
}

type mstate struct {
	gpr  map[string]regKind
	arg  map[int]regKind
	mod  map[int]bool
	x    map[string][]lane
	flag byte // 'c' compare, 'r' result, 'f' float compare, 'b' boolean
	ret  bool
}

func (s *mstate) clone() *mstate {
	n := &mstate{gpr: map[string]regKind{}, arg: map[int]regKind{}, mod: map[int]bool{}, x: map[string][]lane{}, flag: s.flag, ret: s.ret}
	for k, v := range s.gpr {
		n.gpr[k] = v
	}
	for k, v := range s.arg {
		n.arg[k] = v
	}
	for k, v := range s.mod {
		n.mod[k] = v
	}
	for k, v := range s.x {
		n.x[k] = v
	}
	return n
}

func sameLanes(a, b []lane) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mergeLanes gives the layout that two paths can agree on: the bytes both
// have set, floats where either has floats of the same width, and otherwise
// the finest integer lanes.
func mergeLanes(a, b []lane) (out []lane) {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		w, pa, pb, n := a[i].w, a[i].w, b[j].w, 1
		if b[j].w < w {
			w = b[j].w
		}
		f := a[i].f || b[j].f
		i, j = i+1, j+1
		for pa != pb {
			n++
			if pa < pb {
				if i == len(a) {
					return
				}
				if a[i].w < w {
					w = a[i].w
				}
				pa += a[i].w
				i++
			} else {
				if j == len(b) {
					return
				}
				if b[j].w < w {
					w = b[j].w
				}
				pb += b[j].w
				j++
			}
		}
		for k := 0; k < pa; k += w {
			out = append(out, lane{f && n == 1, w})
		}
	}
	return
}

// join merges t into s and reports a change.
func (s *mstate) join(t *mstate) bool {
	ch := false
	for k, v := range s.gpr {
		if t.gpr[k] != v {
			delete(s.gpr, k)
			ch = true
		}
	}
	for k, v := range s.arg {
		if t.arg[k] != v {
			delete(s.arg, k)
			ch = true
		}
	}
	for k := range t.mod {
		if !s.mod[k] {
			s.mod[k] = true
			ch = true
		}
	}
	for k, v := range s.x {
		if m := mergeLanes(v, t.x[k]); !sameLanes(m, v) {
			s.x[k] = m
			if len(m) == 0 {
				delete(s.x, k)
			}
			ch = true
		}
	}
	if s.flag != t.flag && s.flag != 0 {
		s.flag = 0
		ch = true
	}
	if s.ret && !t.ret {
		s.ret = false
		ch = true
	}
	return ch
}

type lifter struct {
	states  []*mstate
	decl    *asmDecl
	texts   map[string]*asmText
	decls   map[string]*asmDecl
	vars    map[string]string // package variable -> Go expression over has*
	ins     []asmInstr
	target  map[string]int // label -> index
	unit    []int          // per slice parameter
	out     strings.Builder
	used    map[string]string // variable -> type
	cur     *asmInstr
	issues  map[string]string // ABI findings: key -> text
	frame   int
	temp    int
	aligned map[int]bool
}

func (l *lifter) fail(format string, a ...interface{}) {
	w := ""
	if l.cur != nil {
		w = " at " + l.cur.line + " (" + l.cur.op + " " + strings.Join(l.cur.args, ", ") + ")"
	}
	panic(liftErr{fmt.Sprintf(format, a...) + w})
}

func (l *lifter) v(name, typ string) string { l.used[name] = typ; return name }

func (l *lifter) emit(format string, a ...interface{}) {
	l.out.WriteString("\t" + fmt.Sprintf(format, a...) + "\n")
}

var gprNames = map[string]bool{"AX": true, "BX": true, "CX": true, "DX": true, "SI": true, "DI": true, "BP": true, "R8": true, "R9": true, "R10": true, "R11": true, "R12": true, "R13": true, "R15": true}

func isX(s string) bool {
	return len(s) >= 2 && (s[0] == 'X' || s[0] == 'Y') && s[1] >= '0' && s[1] <= '9'
}
func xn(s string) string { return "X" + s[1:] }

var reFP = regexp.MustCompile(`^([A-Za-z_0-9]+)\+(-?\d+)\(FP\)$`)
var reMem = regexp.MustCompile(`^(-?\d*)\(([A-Z0-9]+)\)(?:\(([A-Z0-9]+)\*(\d+)\))?$`)
var reSB = regexp.MustCompile(`^(\S+)\(SB\)$`)

func (l *lifter) g(r string) string { return l.v("r"+r, "int") }

// cell resolves an argument reference.
func (l *lifter) cell(s string) (off int, ok bool) {
	m := reFP.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	n, _ := strconv.Atoi(m[2])
	n -= 8
	if l.frame > 0 {
		n -= l.frame
	}
	return n, true
}

type comp struct {
	p    *asmParam
	idx  int
	part string // "base", "len", "cap" or "" for a scalar
	res  bool
	size int
}

func (d *asmDecl) comp(off int) *comp {
	for i := range d.params {
		p := &d.params[i]
		if p.slic {
			switch off {
			case p.off:
				return &comp{p, i, "base", false, 8}
			case p.off + 8:
				return &comp{p, i, "len", false, 8}
			case p.off + 16:
				return &comp{p, i, "cap", false, 8}
			}
		} else if off == p.off {
			return &comp{p, i, "", false, sizeOfType(p.typ)}
		}
	}
	for i := range d.res {
		if p := &d.res[i]; off == p.off {
			return &comp{p, i, "", true, sizeOfType(p.typ)}
		}
	}
	return nil
}

// viewType of slice parameter i.
func (l *lifter) viewType(i int) string {
	e := l.decl.params[i].elem
	if e == "complex64" {
		return "float32"
	}
	if e == "complex128" {
		return "float64"
	}
	if l.unit[i] < sizeOfType(e) {
		return "byte"
	}
	return e
}

func (l *lifter) lanesOf(i int) lane {
	switch l.viewType(i) {
	case "float32":
		return lane{true, 4}
	case "float64":
		return lane{true, 8}
	}
	return lane{false, l.unit[i]}
}

type unitChange struct{}

func (l *lifter) needUnit(p, n int) {
	u := l.unit[p]
	if n < 0 {
		n = -n
	}
	if n%u == 0 {
		return
	}
	g := u
	for n%g != 0 {
		g /= 2
	}
	if l.viewType(p) == "float32" || l.viewType(p) == "float64" {
		l.fail("partial access to a %s", l.viewType(p))
	}
	l.unit[p] = g
	if l.unit[p] > 1 {
		l.unit[p] = 1
	}
	panic(unitChange{})
}

// mem resolves a memory operand to parameter and element-offset expression.
func (l *lifter) mem(s *mstate, a string) (p int, off string, ok bool) {
	m := reMem.FindStringSubmatch(a)
	if m == nil {
		return
	}
	disp := 0
	if m[1] != "" {
		disp, _ = strconv.Atoi(m[1])
	}
	k := s.gpr[m[2]]
	if k.k != 'p' {
		l.fail("the base register does not hold a pointer into an argument")
	}
	p = k.p
	l.needUnit(p, disp)
	off = l.g(m[2])
	if disp != 0 {
		off += fmt.Sprintf("+%d", disp/l.unit[p])
	}
	if m[3] != "" {
		if s.gpr[m[3]].k != 'i' {
			l.fail("the index register does not hold an integer")
		}
		sc, _ := strconv.Atoi(m[4])
		if sc%l.unit[p] == 0 {
			off += fmt.Sprintf("+%s*%d", l.g(m[3]), sc/l.unit[p])
		} else {
			l.needUnit(p, sc)
		}
	}
	return p, off, true
}

func (l *lifter) laneVar(x string, ln lane, byteOff int) string {
	n := map[int]string{1: "b", 2: "w", 4: "l", 8: "q"}[ln.w]
	t := map[int]string{1: "uint8", 2: "uint16", 4: "uint32", 8: "uint64"}[ln.w]
	if ln.f {
		n = map[int]string{4: "f", 8: "d"}[ln.w]
		t = map[int]string{4: "float32", 8: "float64"}[ln.w]
	}
	return l.v(strings.ToLower(x)+n+strconv.Itoa(byteOff/ln.w), t)
}

func bits(e string, ln lane) string {
	if !ln.f {
		return e
	}
	return fmt.Sprintf("math.Float%dbits(%s)", ln.w*8, e)
}

// read gives the Go expression for bytes [o, o+want.w) of an x register.
func (l *lifter) read(s *mstate, x string, o int, want lane) string {
	x = xn(x)
	ls := s.x[x]
	pos := 0
	var parts []string
	ut := func(w int) string { return fmt.Sprintf("uint%d", 8*w) }
	for _, ln := range ls {
		if pos+ln.w <= o || pos >= o+want.w {
			pos += ln.w
			continue
		}
		e := l.laneVar(x, ln, pos)
		if pos == o && ln.w == want.w {
			if ln.f == want.f {
				return e
			}
			if want.f {
				return fmt.Sprintf("math.Float%dfrombits(%s)", 8*want.w, e)
			}
			return bits(e, ln)
		}
		if pos <= o && pos+ln.w >= o+want.w { // wider
			r := fmt.Sprintf("%s(%s>>%d)", ut(want.w), bits(e, ln), 8*(o-pos))
			if want.f {
				r = fmt.Sprintf("math.Float%dfrombits(%s)", 8*want.w, r)
			}
			return r
		}
		if pos >= o && pos+ln.w <= o+want.w { // narrower
			q := fmt.Sprintf("%s(%s)", ut(want.w), bits(e, ln))
			if pos > o {
				q += fmt.Sprintf("<<%d", 8*(pos-o))
			}
			parts = append(parts, q)
			pos += ln.w
			continue
		}
		l.fail("lanes overlap")
	}
	if len(parts) == 0 {
		l.fail("register %s is read before it is set on every path", x)
	}
	r := "(" + strings.Join(parts, "|") + ")"
	if want.f {
		r = fmt.Sprintf("math.Float%dfrombits(%s)", 8*want.w, r)
	}
	return r
}

// narrow reports whether no lane of x within [o, o+4) is wider than w.
func (l *lifter) narrow(s *mstate, x string, o, w int) bool {
	pos := 0
	for _, ln := range s.x[xn(x)] {
		if pos >= o && pos < o+4 && ln.w > w {
			return false
		}
		pos += ln.w
	}
	return true
}

func (l *lifter) reads(s *mstate, x string, from, n int, want lane) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, l.read(s, x, from+i*want.w, want))
	}
	return
}

type setLane struct {
	ln lane
	e  string
}

func mk(ln lane, es ...string) (out []setLane) {
	for _, e := range es {
		out = append(out, setLane{ln, e})
	}
	return
}

// keep lists the lanes of bytes [o, end) of x as they are.
func (l *lifter) keep(s *mstate, x string, o, end int) (out []setLane) {
	x = xn(x)
	pos := 0
	for _, ln := range s.x[x] {
		if pos >= o && pos+ln.w <= end {
			out = append(out, setLane{ln, l.laneVar(x, ln, pos)})
		} else if pos < end && pos+ln.w > o {
			// split
			for b := pos; b < pos+ln.w; b++ {
				if b >= o && b < end {
					out = append(out, setLane{lane{false, 1}, l.read(s, x, b, lane{false, 1})})
				}
			}
		}
		pos += ln.w
	}
	return
}

// write sets all lanes of x.
func (l *lifter) write(s *mstate, x string, ls []setLane) {
	x = xn(x)
	var lhs, rhs []string
	pos := 0
	var lay []lane
	for _, q := range ls {
		if pos%q.ln.w != 0 {
			l.fail("unaligned lanes")
		}
		n := l.laneVar(x, q.ln, pos)
		if n != q.e {
			lhs = append(lhs, n)
			rhs = append(rhs, q.e)
		}
		lay = append(lay, q.ln)
		pos += q.ln.w
	}
	s.x[x] = lay
	if len(lhs) > 0 {
		l.emit("%s = %s", strings.Join(lhs, ", "), strings.Join(rhs, ", "))
	}
}

// width of the register as it stands (16 or 32).
func (l *lifter) upper(s *mstate, x string) []setLane {
	w := 0
	for _, ln := range s.x[xn(x)] {
		w += ln.w
	}
	if w > 16 {
		return l.keep(s, x, 16, w)
	}
	return nil
}

func zeros(n int) (out []setLane) { // n bytes
	for i := 0; i < n; i += 4 {
		out = append(out, setLane{lane{true, 4}, "0"})
	}
	return
}

// load gives the lanes of n bytes at a memory operand.
func (l *lifter) load(s *mstate, a string, n int, aligned bool) []setLane {
	p, off, ok := l.mem(s, a)
	if !ok {
		l.fail("operand not understood")
	}
	l.needUnit(p, n)
	if aligned {
		l.alignCheck(p, off)
	}
	u := l.unit[p]
	ln := l.lanesOf(p)
	var out []setLane
	for i := 0; i < n/u; i++ {
		e := fmt.Sprintf("%s[%s+%d]", l.decl.params[p].name, off, i)
		if !ln.f {
			e = fmt.Sprintf("uint%d(%s)", 8*u, e)
		}
		t := l.tmp(ln)
		l.emit("%s = %s", t, e)
		out = append(out, setLane{ln, t})
	}
	return out
}

func (l *lifter) tmp(ln lane) string {
	l.temp++
	t := fmt.Sprintf("uint%d", 8*ln.w)
	if ln.f {
		t = fmt.Sprintf("float%d", 8*ln.w)
	}
	return l.v(fmt.Sprintf("t%d_%s", l.temp, t), t)
}

func (l *lifter) store(s *mstate, a string, n int, aligned bool, get func(o int, want lane) string) {
	p, off, ok := l.mem(s, a)
	if !ok {
		l.fail("operand not understood")
	}
	l.needUnit(p, n)
	if aligned {
		l.alignCheck(p, off)
	}
	u := l.unit[p]
	ln := l.lanesOf(p)
	t := l.viewType(p)
	for i := 0; i < n/u; i++ {
		e := get(i*u, ln)
		if !ln.f {
			e = fmt.Sprintf("%s(%s)", t, e)
		}
		l.emit("%s[%s+%d] = %s", l.decl.params[p].name, off, i, e)
	}
}

func (l *lifter) addr(p int, off string) string {
	q := l.decl.params[p]
	l.aligned[p] = true
	al := alignOfType(q.elem)
	return fmt.Sprintf("(16*q_%s+%d*r_%s+%d*(%s))", q.name, al, q.name, l.unit[p], off)
}

func (l *lifter) alignCheck(p int, off string) {
	l.emit("if %s%%16 != 0 { panic(\"misaligned access\") }", l.addr(p, off))
}

// intVal: the value of an operand as a Go int expression.
func (l *lifter) intVal(s *mstate, a string) string {
	switch {
	case strings.HasPrefix(a, "$"):
		n, err := strconv.ParseInt(a[1:], 0, 64)
		if err != nil {
			l.fail("constant not understood")
		}
		return strconv.FormatInt(n, 10)
	case gprNames[a]:
		switch k := s.gpr[a]; k.k {
		case 'i':
			return l.g(a)
		case 'p':
			return l.addr(k.p, l.g(a))
		case 0:
			l.fail("register %s is read before it is set on every path", a)
		}
		l.fail("register %s does not hold a 64-bit integer", a)
	}
	if off, ok := l.cell(a); ok {
		switch k := s.arg[off]; k.k {
		case 'i':
			return l.v(fmt.Sprintf("arg%d", off), "int")
		case 'p':
			return l.addr(k.p, l.v(fmt.Sprintf("arg%d", off), "int"))
		}
		l.fail("argument cell not understood")
	}
	l.fail("operand not understood")
	return ""
}

func (l *lifter) setInt(s *mstate, r, e string) {
	l.writesReg(r)
	if l.g(r) != e {
		l.emit("%s = %s", l.g(r), e)
	}
	s.gpr[r] = regKind{k: 'i'}
}

func (l *lifter) writesReg(r string) {
	if r == "BP" && l.frame == 0 {
		l.issues["BP"] = fmt.Sprintf("%s: %s overwrites the frame pointer BP, which a routine without a frame must preserve", l.cur.line, l.decl.name)
	}
	if !gprNames[r] {
		l.fail("register %s is not modelled", r)
	}
}

func (l *lifter) result(s *mstate, e string) {
	l.emit("%s, %s = %s, 0", l.v("flA", "int"), l.v("flB", "int"), e)
	s.flag = 'r'
}

var ssePacked = map[string][3]string{ // op -> operator, lane
	"MULPS": {"*", "f", "4"}, "ADDPS": {"+", "f", "4"}, "SUBPS": {"-", "f", "4"}, "DIVPS": {"/", "f", "4"},
	"MULPD": {"*", "f", "8"}, "ADDPD": {"+", "f", "8"}, "SUBPD": {"-", "f", "8"}, "DIVPD": {"/", "f", "8"},
	"MAXPS": {"max", "f", "4"}, "MINPS": {"min", "f", "4"}, "MAXPD": {"max", "f", "8"}, "MINPD": {"min", "f", "8"},
	"PADDB": {"+", "i", "1"}, "PSUBB": {"-", "i", "1"}, "PADDW": {"+", "i", "2"}, "PSUBW": {"-", "i", "2"}, "PADDL": {"+", "i", "4"}, "PSUBL": {"-", "i", "4"},
	"PXOR": {"^", "i", "1"}, "PAND": {"&", "i", "1"}, "POR": {"|", "i", "1"},
}
var sseScalar = map[string][2]string{"MULSS": {"*", "4"}, "ADDSS": {"+", "4"}, "SUBSS": {"-", "4"}, "DIVSS": {"/", "4"}, "MULSD": {"*", "8"}, "ADDSD": {"+", "8"}, "SUBSD": {"-", "8"}, "DIVSD": {"/", "8"}, "MAXSS": {"max", "4"}, "MINSS": {"min", "4"}}

func binop(op, a, b string) string { // a op b, a is the destination's old value
	switch op {
	case "max":
		return fmt.Sprintf("liftMax(%s, %s)", a, b)
	case "min":
		return fmt.Sprintf("liftMin(%s, %s)", a, b)
	}
	return fmt.Sprintf("%s %s %s", a, op, b)
}

// isaOf names the feature an instruction needs beyond SSE2.
func isaOf(op string, args []string) string {
	y := false
	for _, a := range args {
		y = y || len(a) > 1 && a[0] == 'Y' && isX(a)
	}
	switch {
	case strings.HasPrefix(op, "VFMADD"), strings.HasPrefix(op, "VFNMADD"), strings.HasPrefix(op, "VFMSUB"):
		return "HasFMA"
	case op == "VBROADCASTSS" || op == "VBROADCASTSD":
		if isX(args[0]) {
			return "HasAVX2"
		}
		return "HasAVX"
	case strings.HasPrefix(op, "VP") && y, op == "VEXTRACTI128", op == "VINSERTI128", strings.HasPrefix(op, "VPBROADCAST"), strings.HasPrefix(op, "VPGATHER"), strings.HasPrefix(op, "VGATHER"):
		return "HasAVX2"
	case op[0] == 'V' && op != "VERR" && op != "VERW":
		return "HasAVX"
	case strings.HasPrefix(op, "PMOVSX"), strings.HasPrefix(op, "PMOVZX"), strings.HasPrefix(op, "BLEND"), strings.HasPrefix(op, "ROUND"), strings.HasPrefix(op, "PINSR") && op != "PINSRW", strings.HasPrefix(op, "PEXTR") && op != "PEXTRW",
		op == "PMULLD", op == "PMULDQ", op == "PTEST", op == "PACKUSDW", op == "PMINSB", op == "PMAXSB", op == "PMINSD", op == "PMAXSD", op == "PMINUD", op == "PMAXUD", op == "PMINUW", op == "PMAXUW", op == "INSERTPS", op == "EXTRACTPS", op == "DPPS", op == "DPPD", op == "MOVNTDQA", op == "PCMPEQQ", op == "PHMINPOSUW", op == "MPSADBW":
		return "HasSSE41"
	case op == "CRC32B", op == "CRC32L", op == "CRC32Q", op == "CRC32W", op == "PCMPGTQ", strings.HasPrefix(op, "PCMPESTR"), strings.HasPrefix(op, "PCMPISTR"):
		return "HasSSE42"
	case op == "POPCNTQ", op == "POPCNTL", op == "POPCNTW":
		return "HasPOPCNT"
	case op == "PSHUFB", op == "PALIGNR", strings.HasPrefix(op, "PABS"), strings.HasPrefix(op, "PHADD"), strings.HasPrefix(op, "PHSUB"), strings.HasPrefix(op, "PSIGN"), op == "PMADDUBSW", op == "PMULHRSW":
		return "HasSSSE3"
	case op == "MOVDDUP", op == "MOVSHDUP", op == "MOVSLDUP", op == "LDDQU", strings.HasPrefix(op, "HADD"), strings.HasPrefix(op, "HSUB"), strings.HasPrefix(op, "ADDSUB"):
		return "HasSSE3"
	case op == "ANDNL", op == "ANDNQ", op == "BEXTRL", op == "BEXTRQ", strings.HasPrefix(op, "BLS"), op == "TZCNTL", op == "TZCNTQ":
		return "HasBMI1"
	case op == "BZHIL", op == "BZHIQ", op == "MULXL", op == "MULXQ", strings.HasPrefix(op, "PDEP"), strings.HasPrefix(op, "PEXT"), strings.HasPrefix(op, "RORX"), strings.HasPrefix(op, "SARX"), strings.HasPrefix(op, "SHLX"), strings.HasPrefix(op, "SHRX"):
		return "HasBMI2"
	}
	return ""
}

var condJumps = map[string][2]string{ // op -> Go relation on (flA, flB); signed
	"JEQ": {"==", ""}, "JNE": {"!=", ""}, "JLT": {"<", "c"}, "JLE": {"<=", "c"}, "JGT": {">", "c"}, "JGE": {">=", "c"},
	"JCS": {"<", "u"}, "JCC": {">=", "u"}, "JLS": {"<=", "u"}, "JHI": {">", "u"}, "JMI": {"<", "s"}, "JPL": {">=", "s"},
}

// edge rewrites the vector registers to the layout the target expects.
func (l *lifter) edge(s *mstate, label string) {
	if i, ok := l.target[label]; ok {
		l.relayout(s, i)
	}
}

func (l *lifter) relayout(s *mstate, i int) {
	if l.states == nil || i >= len(l.states) || l.states[i] == nil {
		return
	}
	var lhs, rhs []string
	var xs []string
	for x := range l.states[i].x {
		xs = append(xs, x)
	}
	sort.Strings(xs)
	for _, x := range xs {
		want := l.states[i].x[x]
		have := s.x[x]
		pos := 0
		for k, ln := range want {
			if k < len(have) && sameLanes(want[:k+1], have[:k+1]) {
				pos += ln.w
				continue
			}
			v, e := l.laneVar(x, ln, pos), l.read(s, x, pos, ln)
			if v != e {
				lhs, rhs = append(lhs, v), append(rhs, e)
			}
			pos += ln.w
		}
	}
	if len(lhs) > 0 {
		l.emit("%s = %s", strings.Join(lhs, ", "), strings.Join(rhs, ", "))
	}
}

// step emits one instruction and updates the state; it returns the
// successor labels ("" is the fall through).
func (l *lifter) step(s *mstate, in *asmInstr) (next []string) {
	l.cur = in
	op, a := in.op, in.args
	if f := isaOf(op, a); f != "" {
		l.used["isa_"+f] = "bool"
		l.emit("if !%s { panic(\"%s executed without %s\") }", "isa_"+f, op, f)
	}
	if c, ok := condJumps[op]; ok {
		cond := "flA " + c[0] + " flB"
		switch s.flag {
		case 'c':
			if c[1] == "u" {
				l.emit("if flA < 0 || flB < 0 { panic(\"negative number compared as unsigned\") }")
			}
			if c[1] == "s" {
				l.fail("sign of a difference")
			}
		case 'r':
			if c[1] == "u" {
				l.fail("carry of an arithmetic result")
			}
		case 'f', 'd':
			// unordered sets all of ZF, PF, CF
			x, y := "fsX", "fsY"
			if s.flag == 'd' {
				x, y = "fdX", "fdY"
			}
			switch op {
			case "JHI":
				cond = x + " > " + y
			case "JLS":
				cond = "!(" + x + " > " + y + ")"
			case "JCC":
				cond = x + " >= " + y
			case "JCS":
				cond = "!(" + x + " >= " + y + ")"
			default:
				l.fail("condition after a float comparison")
			}
		case 'b':
			switch op {
			case "JEQ":
				cond = "flT"
			case "JNE":
				cond = "!flT"
			default:
				l.fail("condition after a flag test")
			}
		default:
			l.fail("condition codes not set on every path")
		}
		l.emit("if %s {", cond)
		l.edge(s, a[0])
		l.emit("goto %s", a[0])
		l.emit("}")
		return []string{a[0], ""}
	}
	switch op {
	case "JMP":
		if m := reSB.FindStringSubmatch(a[0]); m != nil {
			l.fail("jump to %s", m[1])
		}
		if strings.HasPrefix(a[0], "go:") {
			l.tailGo(s, a[0][3:])
			return nil
		}
		l.edge(s, a[0])
		l.emit("goto %s", a[0])
		return []string{a[0]}
	case "RET":
		if len(l.decl.res) > 0 {
			if !s.ret {
				l.issues["ret"] = fmt.Sprintf("%s: %s returns without having stored its result on every path", in.line, l.decl.name)
			}
			l.emit("return %s", l.v("res0", l.decl.res[0].typ))
		} else {
			l.emit("return")
		}
		return nil
	case "NOP", "VZEROUPPER":
		return []string{""}
	}
	l.plain(s, op, a)
	return []string{""}
}

func (l *lifter) tailGo(s *mstate, name string) {
	d := l.decls[name]
	if d == nil || !d.body {
		l.fail("jump to %s, which is not a Go function of the package", name)
	}
	for k := range s.mod {
		l.fail("jump to %s with argument cell %d changed", name, k)
	}
	var ps []string
	for _, p := range l.decl.params {
		ps = append(ps, p.name)
	}
	call := name + "(" + strings.Join(ps, ", ") + ")"
	if len(l.decl.res) > 0 {
		l.emit("return %s", call)
	} else {
		l.emit("%s", call)
		l.emit("return")
	}
}

func (l *lifter) fpWidth(off, w int, store bool) *comp {
	c := l.decl.comp(off)
	if c == nil {
		l.fail("no argument or result at offset %d", off)
	}
	if c.size != w {
		l.issues["width "+c.p.name+c.part] = fmt.Sprintf("%s: %s accesses %d bytes of %s%s, which has %d", l.cur.line, l.decl.name, w, c.p.name, c.part, c.size)
		l.fail("argument accessed with the wrong width")
	}
	return c
}

func (l *lifter) plain(s *mstate, op string, a []string) {
	nonneg := func(e string) {
		l.emit("if %s < 0 { panic(\"bits of a negative number\") }", e)
	}
	i := func(w int) lane { return lane{false, w} }
	f := func(w int) lane { return lane{true, w} }
	switch op {
	case "MOVQ", "MOVL", "MOVD":
		l.mov(s, op, a)
		return
	case "MOVBQZX", "MOVBLZX", "MOVBQSX", "MOVBLSX", "MOVWLSX", "MOVWQSX", "MOVWLZX", "MOVWQZX":
		n := 1
		if op[3] == 'W' {
			n = 2
		}
		var e string
		if gprNames[a[0]] {
			if k := s.gpr[a[0]].k; k != 'i' && k != 'l' {
				l.fail("register not understood")
			}
			e = fmt.Sprintf("uint%d(%s)", 8*n, l.g(a[0]))
		} else {
			ls := l.load(s, a[0], n, false)
			e = l.assembleInt(ls, n)
		}
		k := byte('i')
		if op[5] == 'S' {
			e = fmt.Sprintf("int%d(%s)", 8*n, e)
			if op[4] == 'L' {
				k = 'l'
			}
		}
		l.setInt(s, a[1], "int("+e+")")
		s.gpr[a[1]] = regKind{k: k}
		return
	case "MOVB", "MOVW":
		n := 1
		if op == "MOVW" {
			n = 2
		}
		if gprNames[a[0]] {
			if k := s.gpr[a[0]].k; k != 'i' && k != 'l' {
				l.fail("register not understood")
			}
			v := l.g(a[0])
			l.store(s, a[1], n, false, func(o int, want lane) string {
				if want.w == n {
					return fmt.Sprintf("uint%d(%s)", 8*n, v)
				}
				return fmt.Sprintf("uint%d(uint%d(%s)>>%d)", 8*want.w, 8*n, v, 8*o)
			})
			return
		}
	case "INCQ", "DECQ":
		d := 1
		if op == "DECQ" {
			d = -1
		}
		l.addImm(s, a[0], d)
		return
	case "ADDQ", "SUBQ":
		if strings.HasPrefix(a[0], "$") {
			n, err := strconv.Atoi(a[0][1:])
			if err != nil {
				l.fail("constant")
			}
			if op == "SUBQ" {
				n = -n
			}
			l.addImm(s, a[1], n)
			return
		}
		k := s.gpr[a[1]]
		if k.k == 'p' {
			kk := s.gpr[a[0]]
			if kk.k == 'p' && kk.p == k.p && op == "SUBQ" {
				l.setInt(s, a[1], fmt.Sprintf("%d*(%s-%s)", l.unit[k.p], l.g(a[1]), l.g(a[0])))
				l.result(s, l.g(a[1]))
				return
			}
			if l.unit[k.p] != 1 {
				l.fail("a number of bytes is added to a pointer")
			}
			o := "+"
			if op == "SUBQ" {
				o = "-"
			}
			v := l.intVal(s, a[0])
			l.writesReg(a[1])
			l.emit("%s = %s %s %s", l.g(a[1]), l.g(a[1]), o, v)
			s.flag = 0
			return
		}
		o := "+"
		if op == "SUBQ" {
			o = "-"
		}
		x, y := l.intVal(s, a[1]), l.intVal(s, a[0])
		l.setInt(s, a[1], fmt.Sprintf("%s %s %s", x, o, y))
		l.result(s, l.g(a[1]))
		return
	case "NEGQ":
		x := l.intVal(s, a[0])
		l.setInt(s, a[0], "-("+x+")")
		l.result(s, l.g(a[0]))
		return
	case "XORQ", "XORL":
		if len(a) == 2 && a[0] == a[1] {
			l.setInt(s, a[0], "0")
			l.result(s, "0")
			return
		}
	case "ANDQ", "TESTQ":
		if len(a) == 2 && a[0] == a[1] {
			l.result(s, l.intVal(s, a[0]))
			return
		}
		if strings.HasPrefix(a[0], "$") && op == "ANDQ" {
			n, err := strconv.ParseInt(a[0][1:], 0, 64)
			if err != nil {
				l.fail("constant")
			}
			if n >= 1<<31 && n < 1<<32 {
				n = int64(int32(n))
			}
			v := l.intVal(s, a[1])
			var e string
			switch {
			case n > 0 && (n+1)&n == 0:
				e = fmt.Sprintf("%s %% %d", v, n+1)
			case n < 0 && (-n)&(-n-1) == 0:
				e = fmt.Sprintf("%s / %d * %d", v, -n, -n)
			default:
				l.fail("mask")
			}
			nonneg(v)
			l.setInt(s, a[1], e)
			l.result(s, l.g(a[1]))
			return
		}
	case "SHRQ", "SARQ", "SHLQ", "SALQ":
		if strings.HasPrefix(a[0], "$") {
			n, err := strconv.Atoi(a[0][1:])
			if err != nil || n < 0 || n > 62 {
				l.fail("shift")
			}
			v := l.intVal(s, a[1])
			if op == "SHLQ" || op == "SALQ" {
				l.setInt(s, a[1], fmt.Sprintf("%s * %d", v, int64(1)<<uint(n)))
			} else {
				nonneg(v)
				l.setInt(s, a[1], fmt.Sprintf("%s / %d", v, int64(1)<<uint(n)))
			}
			l.result(s, l.g(a[1]))
			return
		}
	case "LEAQ":
		m := reMem.FindStringSubmatch(a[0])
		if m != nil && s.gpr[m[2]].k == 'p' {
			p, off, _ := l.mem(s, a[0])
			l.writesReg(a[1])
			l.emit("%s = %s", l.g(a[1]), off)
			s.gpr[a[1]] = regKind{k: 'p', p: p}
			return
		}
		if m != nil && s.gpr[m[2]].k == 'i' {
			e := l.g(m[2])
			if m[1] != "" {
				e += "+(" + m[1] + ")"
			}
			if m[3] != "" {
				e += fmt.Sprintf("+%s*%s", l.intVal(s, m[3]), m[4])
			}
			l.setInt(s, a[1], e)
			return
		}
	case "CMPQ":
		ka, kb := s.gpr[a[0]], s.gpr[a[1]]
		if ka.k == 'p' && kb.k == 'p' && ka.p == kb.p {
			l.emit("%s, %s = %s, %s", l.v("flA", "int"), l.v("flB", "int"), l.g(a[0]), l.g(a[1]))
		} else {
			l.emit("%s, %s = %s, %s", l.v("flA", "int"), l.v("flB", "int"), l.intVal(s, a[0]), l.intVal(s, a[1]))
		}
		s.flag = 'c'
		return
	case "CMPB":
		if m := reSB.FindStringSubmatch(a[0]); m != nil && (a[1] == "$1" || a[1] == "$0") {
			n := m[1][strings.LastIndex(m[1], ".")+1:]
			n = strings.TrimSuffix(n, "+0")
			e, ok := l.vars[n]
			if !ok {
				l.fail("package variable %s not understood", n)
			}
			if a[1] == "$0" {
				e = "!(" + e + ")"
			}
			l.emit("%s = %s", l.v("flT", "bool"), e)
			s.flag = 'b'
			return
		}
	case "UCOMISS", "COMISS", "UCOMISD", "COMISD":
		ln := f(4)
		if strings.HasSuffix(op, "D") {
			ln = f(8)
		}
		if isX(a[0]) && isX(a[1]) {
			if ln.w == 4 {
				l.emit("%s, %s = %s, %s", l.v("fsX", "float32"), l.v("fsY", "float32"), l.read(s, a[1], 0, ln), l.read(s, a[0], 0, ln))
				s.flag = 'f'
			} else {
				l.emit("%s, %s = %s, %s", l.v("fdX", "float64"), l.v("fdY", "float64"), l.read(s, a[1], 0, ln), l.read(s, a[0], 0, ln))
				s.flag = 'd'
			}
			return
		}
	case "MOVSS", "MOVSD":
		n := 4
		if op == "MOVSD" {
			n = 8
		}
		switch {
		case isX(a[0]) && isX(a[1]):
			v := l.read(s, a[0], 0, f(n))
			l.write(s, a[1], append(mk(f(n), v), append(l.keep(s, a[1], n, 16), l.upper(s, a[1])...)...))
		case isX(a[1]):
			if off, ok := l.cell(a[0]); ok {
				c := l.fpWidth(off, n, false)
				l.checkName(a[0], off)
				if c.res || c.part != "" || (c.p.typ != "float32" && c.p.typ != "float64") {
					l.fail("argument kind")
				}
				l.write(s, a[1], append(mk(f(n), c.p.name), append(zeros(16-n), l.upper(s, a[1])...)...))
				return
			}
			ls := l.load(s, a[0], n, false)
			l.write(s, a[1], append(ls, append(zeros(16-n), l.upper(s, a[1])...)...))
		case isX(a[0]):
			if off, ok := l.cell(a[1]); ok {
				c := l.fpWidth(off, n, true)
				l.checkName(a[1], off)
				if !c.res {
					l.fail("a parameter is overwritten")
				}
				l.emit("%s = %s", l.v("res0", c.p.typ), l.read(s, a[0], 0, f(n)))
				s.ret = true
				return
			}
			l.store(s, a[1], n, false, func(o int, want lane) string { return l.read(s, a[0], o, want) })
		default:
			l.fail("operands")
		}
		return
	case "MOVUPS", "MOVUPD", "MOVOU", "MOVAPS", "MOVAPD", "MOVO", "VMOVUPS", "VMOVUPD", "VMOVDQU", "VMOVAPS":
		n := 16
		for _, r := range a {
			if isX(r) && r[0] == 'Y' {
				n = 32
			}
		}
		al := op == "MOVAPS" || op == "MOVAPD" || op == "MOVO" || op == "VMOVAPS"
		if op == "VMOVAPS" && n == 32 {
			l.fail("32-byte alignment is not modelled")
		}
		up := func(x string) []setLane {
			if n == 32 {
				return nil
			}
			if op[0] == 'V' {
				return zeros(16)
			}
			return l.upper(s, x)
		}
		switch {
		case isX(a[0]) && isX(a[1]):
			l.write(s, a[1], append(l.keepAll(s, a[0], n), up(a[1])...))
		case isX(a[1]):
			l.write(s, a[1], append(l.load(s, a[0], n, al), up(a[1])...))
		case isX(a[0]):
			l.store(s, a[1], n, al, func(o int, want lane) string { return l.read(s, a[0], o, want) })
		default:
			l.fail("operands")
		}
		return
	case "PSHUFD", "PSHUFL":
		n, err := strconv.Atoi(strings.TrimPrefix(a[0], "$"))
		if err == nil && isX(a[1]) && isX(a[2]) {
			var ls []setLane
			for j := 0; j < 4; j++ {
				ls = append(ls, l.unitOf(s, a[1], 4*(n>>uint(2*j)&3), 4)...)
			}
			l.write(s, a[2], append(ls, l.upper(s, a[2])...))
			return
		}
	case "MOVHLPS", "MOVLHPS", "MOVHPS", "MOVHPD", "UNPCKLPD":
		if isX(a[0]) && isX(a[1]) {
			var ls []setLane
			if op == "MOVHLPS" {
				ls = append(l.keepAllAt(s, a[0], 8, 8), l.keep(s, a[1], 8, 16)...)
			} else {
				ls = append(l.keep(s, a[1], 0, 8), l.keepAllAt(s, a[0], 0, 8)...)
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "PUNPCKLBW", "PUNPCKHBW", "PUNPCKLWL", "PUNPCKHWL", "PUNPCKLLQ", "PUNPCKHLQ", "PUNPCKLQDQ", "PUNPCKHQDQ":
		if isX(a[0]) && isX(a[1]) {
			w := map[string]int{"BW": 1, "WL": 2, "LQ": 4, "QDQ": 8}[op[7:]]
			o := 0
			if op[6] == 'H' {
				o = 8
			}
			var ls []setLane
			for j := 0; j < 8; j += w {
				ls = append(ls, l.unitOf(s, a[1], o+j, w)...)
				ls = append(ls, l.unitOf(s, a[0], o+j, w)...)
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "PSRAL", "PSRAW", "PSRLL", "PSRLW", "PSLLL", "PSLLW":
		if n, err := strconv.Atoi(strings.TrimPrefix(a[0], "$")); err == nil && isX(a[1]) {
			w := 4
			if op[4] == 'W' {
				w = 2
			}
			var ls []setLane
			for j := 0; j < 16; j += w {
				v := l.read(s, a[1], j, i(w))
				if rest := w - n/8; n%8 == 0 && (rest == 1 || rest == 2) && rest < w && op[2] == 'R' && l.narrow(s, a[1], j, rest) {
					// whole narrower lanes remain
					t := map[byte]string{'A': "int", 'L': "uint"}[op[3]]
					ls = append(ls, setLane{i(w), fmt.Sprintf("uint%d(%s%d(%s%d(%s)))", 8*w, t, 8*w, t, 8*rest, l.read(s, a[1], j+n/8, i(rest)))})
					continue
				}
				switch op[2:4] {
				case "RA":
					if n >= 8*w {
						n = 8*w - 1
					}
					v = fmt.Sprintf("uint%d(int%d(%s)>>%d)", 8*w, 8*w, v, n)
				case "RL":
					v = fmt.Sprintf("%s>>%d", v, n)
				default:
					v = fmt.Sprintf("%s<<%d", v, n)
				}
				ls = append(ls, setLane{i(w), v})
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "PMOVSXBD", "PMOVSXBW", "PMOVSXWD", "PMOVZXBD", "PMOVZXBW", "PMOVZXWD":
		if isX(a[1]) {
			src, dst := map[byte]int{'B': 1, 'W': 2}[op[6]], map[byte]int{'W': 2, 'D': 4}[op[7]]
			var es []string
			if isX(a[0]) {
				es = l.reads(s, a[0], 0, 16/dst, i(src))
			} else {
				for _, q := range l.regroup(l.load(s, a[0], 16/dst*src, false), src) {
					es = append(es, q)
				}
			}
			var ls []setLane
			for _, e := range es {
				if op[4] == 'S' {
					ls = append(ls, setLane{i(dst), fmt.Sprintf("uint%d(int%d(int%d(%s)))", 8*dst, 8*dst, 8*src, e)})
				} else {
					ls = append(ls, setLane{i(dst), fmt.Sprintf("uint%d(%s)", 8*dst, e)})
				}
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "CVTPL2PS":
		if isX(a[0]) && isX(a[1]) {
			var ls []setLane
			for _, e := range l.reads(s, a[0], 0, 4, i(4)) {
				ls = append(ls, setLane{f(4), fmt.Sprintf("float32(int32(%s))", e)})
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "CVTPL2PD":
		if isX(a[0]) && isX(a[1]) {
			var ls []setLane
			for _, e := range l.reads(s, a[0], 0, 2, i(4)) {
				ls = append(ls, setLane{f(8), fmt.Sprintf("float64(int32(%s))", e)})
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "CVTTPS2PL":
		if isX(a[0]) && isX(a[1]) {
			var ls []setLane
			for _, e := range l.reads(s, a[0], 0, 4, f(4)) {
				ls = append(ls, setLane{i(4), fmt.Sprintf("uint32(int32(%s))", e)})
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "PACKSSLW":
		// compared for values in the range of the result
		if isX(a[0]) && isX(a[1]) {
			var ls []setLane
			for _, r := range []string{a[1], a[0]} {
				for _, e := range l.reads(s, r, 0, 4, i(4)) {
					ls = append(ls, setLane{i(2), fmt.Sprintf("uint16(int16(int32(%s)))", e)})
				}
			}
			l.write(s, a[1], append(ls, l.upper(s, a[1])...))
			return
		}
	case "CVTSQ2SS", "CVTSL2SS", "CVTSQ2SD", "CVTSL2SD":
		if gprNames[a[0]] && isX(a[1]) {
			n := 4
			if strings.HasSuffix(op, "SD") {
				n = 8
			}
			k := s.gpr[a[0]].k
			v := l.g(a[0])
			if op[4] == 'L' {
				if k != 'i' && k != 'l' {
					l.fail("register not understood")
				}
				if k == 'i' {
					v = "int32(" + v + ")"
				}
			} else if k != 'i' {
				l.fail("register does not hold a 64-bit integer")
			}
			if len(s.x[xn(a[1])]) == 0 {
				s.x[xn(a[1])] = nil
				l.write(s, a[1], append(mk(f(n), fmt.Sprintf("float%d(%s)", 8*n, v)), zeros(16-n)...))
				return
			}
			l.write(s, a[1], append(mk(f(n), fmt.Sprintf("float%d(%s)", 8*n, v)), append(l.keep(s, a[1], n, 16), l.upper(s, a[1])...)...))
			return
		}
	case "CVTTSS2SL", "CVTTSD2SL", "CVTTSS2SQ", "CVTTSD2SQ":
		if isX(a[0]) && gprNames[a[1]] {
			ln := f(4)
			if op[5] == 'D' {
				ln = f(8)
			}
			if strings.HasSuffix(op, "L") {
				l.setInt(s, a[1], fmt.Sprintf("int(int32(%s))", l.read(s, a[0], 0, ln)))
				s.gpr[a[1]] = regKind{k: 'l'}
			} else {
				l.setInt(s, a[1], fmt.Sprintf("int(%s)", l.read(s, a[0], 0, ln)))
			}
			return
		}
	case "XORPS", "PXOR", "XORPD":
		if len(a) == 2 && a[0] == a[1] {
			l.write(s, a[1], append(zeros(16), l.upper(s, a[1])...))
			return
		}
	case "VBROADCASTSS":
		var v string
		if isX(a[0]) {
			v = l.read(s, a[0], 0, f(4))
		} else {
			v = l.load(s, a[0], 4, false)[0].e
		}
		n := 4
		if a[1][0] == 'Y' {
			n = 8
		}
		var ls []setLane
		for j := 0; j < n; j++ {
			ls = append(ls, setLane{f(4), v})
		}
		if n == 4 {
			ls = append(ls, zeros(16)...)
		}
		l.write(s, a[1], ls)
		return
	case "VEXTRACTF128", "VEXTRACTI128":
		if (a[0] == "$1" || a[0] == "$0") && isX(a[1]) && isX(a[2]) {
			o := 0
			if a[0] == "$1" {
				o = 16
			}
			l.write(s, a[2], append(l.keepAllAt(s, a[1], o, 16), zeros(16)...))
			return
		}
	}
	if p, ok := ssePacked[op]; ok && len(a) == 2 && isX(a[1]) {
		w, _ := strconv.Atoi(p[2])
		ln := lane{p[1] == "f", w}
		l.packed(s, p[0], ln, a[0], a[1], a[1], 16, false)
		return
	}
	if len(a) == 3 && op[0] == 'V' {
		if p, ok := ssePacked[op[1:]]; ok && isX(a[2]) && isX(a[1]) {
			w, _ := strconv.Atoi(p[2])
			n := 16
			if a[2][0] == 'Y' {
				n = 32
			}
			l.packed(s, p[0], lane{p[1] == "f", w}, a[0], a[1], a[2], n, true)
			return
		}
	}
	if p, ok := sseScalar[op]; ok && len(a) == 2 && isX(a[1]) {
		w, _ := strconv.Atoi(p[1])
		var b string
		if isX(a[0]) {
			b = l.read(s, a[0], 0, f(w))
		} else {
			b = l.load(s, a[0], w, false)[0].e
		}
		e := binop(p[0], l.read(s, a[1], 0, f(w)), b)
		l.write(s, a[1], append(mk(f(w), e), append(l.keep(s, a[1], w, 16), l.upper(s, a[1])...)...))
		return
	}
	l.fail("instruction is not modelled")
}

func (l *lifter) packed(s *mstate, o string, ln lane, src, src2, dst string, n int, vex bool) {
	var b []string
	if isX(src) {
		b = l.reads(s, src, 0, n/ln.w, ln)
	} else {
		for _, q := range l.load(s, src, n, !vex) {
			if q.ln != ln {
				l.fail("lane type of a memory operand")
			}
			b = append(b, q.e)
		}
	}
	a := l.reads(s, src2, 0, n/ln.w, ln)
	var ls []setLane
	for j := range a {
		ls = append(ls, setLane{ln, binop(o, a[j], b[j])})
	}
	if n == 16 {
		if vex {
			ls = append(ls, zeros(16)...)
		} else {
			ls = append(ls, l.upper(s, dst)...)
		}
	}
	l.write(s, dst, ls)
}

// assembleInt makes an n-byte integer of loaded lanes.
func (l *lifter) assembleInt(ls []setLane, n int) string {
	if len(ls) == 1 && !ls[0].ln.f {
		return ls[0].e
	}
	var parts []string
	o := 0
	for _, q := range ls {
		e := fmt.Sprintf("uint%d(%s)", 8*n, bits(q.e, q.ln))
		if o > 0 {
			e += fmt.Sprintf("<<%d", 8*o)
		}
		parts = append(parts, e)
		o += q.ln.w
	}
	return "(" + strings.Join(parts, "|") + ")"
}

func (l *lifter) regroup(ls []setLane, w int) (out []string) {
	for len(ls) > 0 {
		n, k := 0, 0
		for k < len(ls) && n < w {
			n += ls[k].ln.w
			k++
		}
		if n != w {
			l.fail("lanes of a memory operand")
		}
		out = append(out, l.assembleInt(ls[:k], w))
		ls = ls[k:]
	}
	return
}

// unitOf copies w bytes at o of a register with the lanes they have.
func (l *lifter) unitOf(s *mstate, x string, o, w int) []setLane {
	return l.keepAllAt(s, x, o, w)
}

func (l *lifter) keepAll(s *mstate, x string, n int) []setLane { return l.keepAllAt(s, x, 0, n) }

func (l *lifter) keepAllAt(s *mstate, x string, o, n int) []setLane {
	x = xn(x)
	pos := 0
	var out []setLane
	got := 0
	for _, ln := range s.x[x] {
		if pos >= o && pos+ln.w <= o+n {
			out = append(out, setLane{ln, l.laneVar(x, ln, pos)})
			got += ln.w
		} else if pos < o+n && pos+ln.w > o {
			w := ln.w
			for w > 1 && (o%w != 0 || w > n) {
				w /= 2
			}
			for b := pos; b < pos+ln.w; b += w {
				if b >= o && b+w <= o+n {
					out = append(out, setLane{lane{false, w}, l.read(s, x, b, lane{false, w})})
					got += w
				}
			}
		}
		pos += ln.w
	}
	if got != n {
		l.fail("register %s is read before it is set on every path", x)
	}
	return out
}

func (l *lifter) addImm(s *mstate, r string, n int) {
	k := s.gpr[r]
	switch k.k {
	case 'p':
		l.needUnit(k.p, n)
		l.writesReg(r)
		l.emit("%s = %s + %d", l.g(r), l.g(r), n/l.unit[k.p])
		s.flag = 0
	case 'i':
		l.setInt(s, r, fmt.Sprintf("%s + %d", l.g(r), n))
		l.result(s, l.g(r))
	default:
		l.fail("register %s is read before it is set on every path", r)
	}
}

func (l *lifter) checkName(a string, off int) {
	m := reFP.FindStringSubmatch(a)
	c := l.decl.comp(off)
	if c == nil {
		return
	}
	want := []string{c.p.name}
	switch c.part {
	case "base":
		want = []string{c.p.name, c.p.name + "_base"}
	case "len", "cap":
		want = []string{c.p.name + "_" + c.part}
	}
	for _, w := range want {
		if m[1] == w {
			return
		}
	}
	l.issues["name "+m[1]+" "+strconv.Itoa(off)] = fmt.Sprintf("%s: %s names its argument at offset %d %s instead of %s", l.cur.line, l.decl.name, off, m[1], want[0])
}

func (l *lifter) mov(s *mstate, op string, a []string) {
	if len(a) != 2 {
		l.fail("operands")
	}
	w := 8
	if op == "MOVL" {
		w = 4
	}
	src, dst := a[0], a[1]
	off, isCell := l.cell(src)
	doff, dCell := l.cell(dst)
	switch {
	case strings.HasPrefix(src, "$") && gprNames[dst]:
		e := l.intVal(s, src)
		if n, err := strconv.ParseInt(e, 10, 64); err == nil && w == 4 {
			e = strconv.FormatInt(int64(uint32(n)), 10)
		}
		l.setInt(s, dst, e)
	case gprNames[src] && gprNames[dst]:
		k := s.gpr[src]
		if w == 4 && k.k != 'l' {
			l.fail("32-bit move of a 64-bit value")
		}
		if k.k == 0 {
			l.fail("register %s is read before it is set on every path", src)
		}
		l.writesReg(dst)
		l.emit("%s = %s", l.g(dst), l.g(src))
		s.gpr[dst] = k
	case isCell && gprNames[dst]:
		c := l.fpWidth(off, w, false)
		l.checkName(src, off)
		if c.res {
			l.fail("a result is read")
		}
		k := s.arg[off]
		if k.k != 'i' && k.k != 'p' {
			l.fail("argument kind")
		}
		l.writesReg(dst)
		l.emit("%s = %s", l.g(dst), l.v(fmt.Sprintf("arg%d", off), "int"))
		s.gpr[dst] = k
	case gprNames[src] && dCell:
		c := l.fpWidth(doff, w, true)
		l.checkName(dst, doff)
		k := s.gpr[src]
		if k.k != 'i' && k.k != 'p' {
			l.fail("register kind")
		}
		if c.res {
			l.emit("%s = %s(%s)", l.v("res0", c.p.typ), c.p.typ, l.g(src))
			s.ret = true
			return
		}
		l.emit("%s = %s", l.v(fmt.Sprintf("arg%d", doff), "int"), l.g(src))
		s.arg[doff] = k
		s.mod[doff] = true
	case gprNames[src] && isX(dst):
		k := s.gpr[src]
		if k.k != 'i' && k.k != 'l' {
			l.fail("register kind")
		}
		if w == 4 {
			l.write(s, dst, append(mk(lane{false, 4}, fmt.Sprintf("uint32(%s)", l.g(src))), append(zeros(12), l.upper(s, dst)...)...))
		} else {
			if k.k != 'i' {
				l.fail("register kind")
			}
			l.write(s, dst, append(mk(lane{false, 8}, fmt.Sprintf("uint64(%s)", l.g(src))), append(zeros(8), l.upper(s, dst)...)...))
		}
	case isCell && isX(dst):
		c := l.fpWidth(off, w, false)
		l.checkName(src, off)
		if c.res || (c.p.typ != "float32" && c.p.typ != "float64") {
			l.fail("argument kind")
		}
		l.write(s, dst, append(mk(lane{true, w}, c.p.name), append(zeros(16-w), l.upper(s, dst)...)...))
	case isX(dst) && isX(src):
		l.write(s, dst, append(l.keepAllAt(s, src, 0, w), append(zeros(16-w), l.upper(s, dst)...)...))
	case isX(dst):
		l.write(s, dst, append(l.load(s, src, w, false), append(zeros(16-w), l.upper(s, dst)...)...))
	case isX(src):
		l.store(s, dst, w, false, func(o int, want lane) string { return l.read(s, src, o, want) })
	default:
		l.fail("operands")
	}
}

// flatten appends text t, with tail jumps to other assembly routines followed.
func (l *lifter) flatten(t *asmText, prefix string, depth int) {
	if depth > 4 {
		l.fail("tail jumps do not end")
	}
	targets := map[string]bool{}
	for _, in := range t.ins {
		if in.op[0] == 'J' {
			targets[in.args[0]] = true
		}
	}
	for _, in := range t.ins {
		n := in
		if targets[strconv.Itoa(in.pc)] {
			n.label = fmt.Sprintf("%sL%d", prefix, in.pc)
		}
		if in.op[0] == 'J' {
			if _, err := strconv.Atoi(in.args[0]); err == nil {
				n.args = []string{prefix + "L" + in.args[0]}
			} else if m := reSB.FindStringSubmatch(in.args[0]); m != nil && in.op == "JMP" {
				name := m[1][strings.LastIndex(m[1], ".")+1:]
				if u := l.texts[name]; u != nil {
					if u.frame != t.frame {
						l.fail("tail jump to %s, whose frame differs", name)
					}
					if n.label != "" {
						l.ins = append(l.ins, asmInstr{op: "NOP", label: n.label, line: n.line})
					}
					l.flatten(u, prefix+name+"_", depth+1)
					continue
				}
				n.args = []string{"go:" + name}
			}
		}
		l.ins = append(l.ins, n)
	}
}

// liftOne rewrites one routine.
func liftOne(d *asmDecl, t *asmText, texts map[string]*asmText, decls map[string]*asmDecl, vars map[string]string, aligned map[int]bool) (src string, unit []int, issues map[string]string, err error) {
	issues = map[string]string{}
	unit = make([]int, len(d.params))
	for i, p := range d.params {
		if p.slic {
			unit[i] = sizeOfType(p.elem)
			if strings.HasPrefix(p.elem, "complex") {
				unit[i] /= 2
			}
		}
	}
	for try := 0; try < 8; try++ {
		var again bool
		src, again, err = liftTry(d, t, texts, decls, vars, unit, issues, aligned)
		if !again {
			return
		}
	}
	return "", unit, issues, fmt.Errorf("%s: access widths do not settle", d.name)
}

func liftTry(d *asmDecl, t *asmText, texts map[string]*asmText, decls map[string]*asmDecl, vars map[string]string, unit []int, issues map[string]string, aligned map[int]bool) (src string, again bool, err error) {
	l := &lifter{decl: d, texts: texts, decls: decls, vars: vars, unit: unit, used: map[string]string{}, issues: issues, target: map[string]int{}, frame: t.frame, aligned: aligned}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case liftErr:
				err = fmt.Errorf("%s", e.msg)
			case unitChange:
				again = true
			default:
				panic(r)
			}
		}
	}()
	l.flatten(t, "", 0)
	for i, in := range l.ins {
		if in.label != "" {
			l.target[in.label] = i
		}
	}
	// dataflow over instructions
	n := len(l.ins)
	states := make([]*mstate, n+1)
	first := &mstate{gpr: map[string]regKind{}, arg: map[int]regKind{}, mod: map[int]bool{}, x: map[string][]lane{}}
	for i, p := range d.params {
		if p.slic {
			first.arg[p.off] = regKind{'p', i}
			first.arg[p.off+8] = regKind{k: 'i'}
			first.arg[p.off+16] = regKind{k: 'i'}
		} else if p.typ == "int" {
			first.arg[p.off] = regKind{k: 'i'}
		}
	}
	states[0] = first
	work := []int{0}
	for len(work) > 0 {
		i := work[0]
		work = work[1:]
		if i >= n {
			l.cur = nil
			l.fail("control runs past the end")
		}
		s := states[i].clone()
		l.out.Reset()
		for _, nx := range l.step(s, &l.ins[i]) {
			j := i + 1
			if nx != "" {
				var ok bool
				if j, ok = l.target[nx]; !ok {
					l.fail("jump target %s", nx)
				}
			}
			if j > n-1 {
				l.fail("control runs past the end")
			}
			if states[j] == nil {
				states[j] = s.clone()
				work = append(work, j)
			} else if states[j].join(s) {
				work = append(work, j)
			}
		}
	}
	// final emission
	l.states = states
	l.out.Reset()
	l.used = map[string]string{}
	l.temp = 0
	jumped := map[string]bool{}
	for i := range l.ins {
		if states[i] == nil {
			continue
		}
		for _, nx := range l.step(states[i].clone(), &l.ins[i]) {
			if nx != "" {
				jumped[nx] = true
			}
		}
	}
	l.out.Reset()
	l.temp = 0
	for i := range l.ins {
		if states[i] == nil {
			continue
		}
		if lb := l.ins[i].label; lb != "" && jumped[lb] {
			l.out.WriteString(lb + ":\n")
		}
		l.out.WriteString(fmt.Sprintf("//line %s\n", absLine(l.ins[i].line)))
		st := states[i].clone()
		for _, nx := range l.step(st, &l.ins[i]) {
			if nx == "" {
				l.relayout(st, i+1)
			}
		}
	}
	var ps []string
	for i, p := range d.params {
		if p.slic {
			ps = append(ps, fmt.Sprintf("%s []%s", p.name, l.viewOrOwn(i)))
		} else {
			ps = append(ps, p.name+" "+p.typ)
		}
	}
	for _, p := range d.params {
		if p.slic {
			ps = append(ps, fmt.Sprintf("q_%s, r_%s int", p.name, p.name))
		}
	}
	for _, f := range isaNames {
		ps = append(ps, "isa_"+f+" bool")
	}
	res := ""
	if len(d.res) > 0 {
		res = " " + d.res[0].typ
	}
	var b strings.Builder
	fmt.Fprintf(&b, "func lift%s(%s)%s {\n", d.name, strings.Join(ps, ", "), res)
	var names []string
	for v := range l.used {
		if !strings.HasPrefix(v, "isa_") {
			names = append(names, v)
		}
	}
	for i, p := range d.params {
		if p.slic {
			for _, o := range []int{0, 8, 16} {
				v := fmt.Sprintf("arg%d", p.off+o)
				if _, ok := l.used[v]; !ok {
					continue
				}
				e := "0"
				if o == 8 {
					e = "len(" + p.name + ")"
				}
				if o == 16 {
					e = "cap(" + p.name + ")"
				}
				if k := sizeOfType(p.elem) / l.unit[i]; k > 1 && o > 0 {
					e += fmt.Sprintf("/%d", k)
				}
				fmt.Fprintf(&b, "\t%s := %s\n", v, e)
			}
		} else if p.typ == "int" {
			if v := fmt.Sprintf("arg%d", p.off); l.used[v] != "" {
				fmt.Fprintf(&b, "\t%s := %s\n", v, p.name)
			}
		}
	}
	sort.Strings(names)
	for _, v := range names {
		if !strings.HasPrefix(v, "arg") {
			fmt.Fprintf(&b, "\tvar %s %s\n\t_ = %s\n", v, l.used[v], v)
		}
	}
	b.WriteString(l.out.String())
	b.WriteString("}\n\n")
	return b.String(), false, nil
}

// viewOrOwn: routines that hand over to Go keep their own types.
func (l *lifter) viewOrOwn(i int) string {
	for _, in := range l.ins {
		if in.op == "JMP" && strings.HasPrefix(in.args[0], "go:") {
			return l.decl.params[i].elem
		}
	}
	return l.viewType(i)
}

var isaNames = []string{"HasSSE3", "HasSSSE3", "HasSSE41", "HasSSE42", "HasPOPCNT", "HasAVX", "HasAVX2", "HasFMA", "HasBMI1", "HasBMI2", "HasSSE2"}

func absLine(s string) string {
	if filepath.IsAbs(s) {
		return s
	}
	return filepath.Join(repoDir, s)
}

// featureVars reads what the package's init assigns to its feature flags.
func featureVars(dir, arch string) (map[string]string, error) {
	out := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	set := token.NewFileSet()
	for _, f := range fs {
		if !fileForArch(f, arch) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		a, err := parser.ParseFile(set, f, b, 0)
		if err != nil {
			return nil, err
		}
		bools := map[string]bool{}
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					for i, n := range v.Names {
						if id, ok := v.Type.(*ast.Ident); ok && id.Name == "bool" && len(v.Values) == 0 {
							bools[n.Name] = true
							out[n.Name] = "false"
						} else if i < len(v.Values) {
							if e := featExpr(v.Values[i]); e != "" {
								out[n.Name] = e
							}
						}
					}
				}
			}
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok {
					return true
				}
				for i, lh := range as.Lhs {
					id, ok := lh.(*ast.Ident)
					if !ok || !bools[id.Name] || as.Tok != token.ASSIGN {
						continue
					}
					e := ""
					if fd.Name.Name == "init" && i < len(as.Rhs) {
						for _, st := range fd.Body.List {
							if st == as {
								e = featExpr(as.Rhs[i])
							}
						}
					}
					if e == "" {
						delete(out, id.Name)
						bools[id.Name] = false
						continue
					}
					out[id.Name] = e
				}
				return true
			})
		}
	}
	return out, nil
}

func featExpr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if exprText(x.X) == "cpu.X86" {
			for _, n := range isaNames {
				if n == x.Sel.Name {
					return "isa_" + n
				}
			}
		}
	case *ast.Ident:
		if x.Name == "true" || x.Name == "false" {
			return x.Name
		}
	case *ast.ParenExpr:
		if s := featExpr(x.X); s != "" {
			return "(" + s + ")"
		}
	case *ast.UnaryExpr:
		if s := featExpr(x.X); s != "" && x.Op == token.NOT {
			return "!" + s
		}
	case *ast.BinaryExpr:
		a, b := featExpr(x.X), featExpr(x.Y)
		if a != "" && b != "" && (x.Op == token.LAND || x.Op == token.LOR) {
			return "(" + a + " " + x.Op.String() + " " + b + ")"
		}
	}
	return ""
}

// liftResult is what the lifting of package dsp gave.
type liftResult struct {
	errs    map[string]string // routine -> why it cannot be followed
	issues  map[string]map[string]string
	units   map[string][]int
	decls   map[string]*asmDecl
	texts   map[string]*asmText
	vars    map[string]string
	aligned map[string]map[int]bool // slice parameters whose address matters
}

var lifted *liftResult

// liftPackage makes the overlay file for package dsp.
func liftPackage() ([]byte, *liftResult, error) {
	dir := filepath.Join(repoDir, "dsp")
	r := &liftResult{errs: map[string]string{}, issues: map[string]map[string]string{}, units: map[string][]int{}, aligned: map[string]map[int]bool{}}
	var err error
	if r.decls, err = goDecls(dir, "amd64", 8); err != nil {
		return nil, nil, err
	}
	if r.texts, err = assemble(dir, "amd64", modPath+"/dsp"); err != nil {
		return nil, nil, err
	}
	if r.vars, err = featureVars(dir, "amd64"); err != nil {
		return nil, nil, err
	}
	var b bytes.Buffer
	b.WriteString("package dsp\n\nimport \"math\"\n\nvar _ = math.Pi\n\nfunc liftMax(a, b float32) float32 {\n\tif a > b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc liftMin(a, b float32) float32 {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\n")
	var names []string
	for n, d := range r.decls {
		if !d.body && r.texts[n] != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r.aligned[n] = map[int]bool{}
		src, units, issues, err := liftOne(r.decls[n], r.texts[n], r.texts, r.decls, r.vars, r.aligned[n])
		if len(issues) > 0 {
			r.issues[n] = issues
		}
		r.units[n] = units
		if err != nil {
			r.errs[n] = err.Error()
			continue
		}
		b.WriteString(src)
	}
	return b.Bytes(), r, nil
}

// liftKnow: what holds of the extra parameters of a rewritten routine.  The
// address of a slice is 16*q + align*r.
func liftKnow(f *ssa.Function) func(p []*Val) []*Term {
	if !strings.HasPrefix(f.Name(), "lift") {
		return nil
	}
	d := lifted.decls[f.Name()[4:]]
	if d == nil {
		return nil
	}
	return func(p []*Val) (out []*Term) {
		isa := map[string]*Term{}
		for i, q := range f.Params {
			if strings.HasPrefix(q.Name(), "isa_") {
				isa[q.Name()[4:]] = p[i].t
			}
		}
		for _, im := range [][2]string{{"HasSSE3", "HasSSE2"}, {"HasSSSE3", "HasSSE3"}, {"HasSSE41", "HasSSSE3"}, {"HasSSE42", "HasSSE41"}, {"HasAVX", "HasSSE42"}, {"HasAVX2", "HasAVX"}, {"HasFMA", "HasAVX"}} {
			out = append(out, Or(Not(isa[im[0]]), isa[im[1]]))
		}
		out = append(out, isa["HasSSE2"])
		for i, q := range f.Params {
			if strings.HasPrefix(q.Name(), "q_") {
				out = append(out, GeZ(p[i].t))
			}
			if strings.HasPrefix(q.Name(), "r_") {
				for _, m := range d.params {
					if m.name == q.Name()[2:] {
						out = append(out, GeZ(p[i].t), GeZ(Sub(I(int64(16/alignOfType(m.elem)-1)), p[i].t)))
					}
				}
			}
		}
		return
	}
}

// liftFixes: every way the slices whose alignment the routine looks at can be
// aligned, as values of the parameters r_NAME.
func liftFixes(r *liftResult, name string) []map[string]int64 {
	d := r.decls[name]
	if d == nil {
		return nil
	}
	out := []map[string]int64{{}}
	for i, m := range d.params {
		if !r.aligned[name][i] {
			continue
		}
		var next []map[string]int64
		for _, o := range out {
			for v := 0; v < 16/alignOfType(m.elem); v++ {
				n := map[string]int64{"r_" + m.name: int64(v)}
				for a, b := range o {
					n[a] = b
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}
