package main

// Assembly of every architecture against the Go declarations: which routines
// exist, which argument and result cells they use, what they store before
// they return, where they continue.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var asmArchs = []struct {
	name string
	word int
}{{"386", 4}, {"amd64", 8}, {"arm", 4}, {"arm64", 8}}

type cell struct {
	name  string // what the assembly may call it
	base  string // the parameter
	part  string
	off   int
	size  int
	res   bool
	first bool // first word of a slice, which the plain name also denotes
}

func sizeOn(t string, word int) int {
	switch {
	case strings.HasPrefix(t, "[]"):
		return 3 * word
	case strings.HasPrefix(t, "*"), t == "int", t == "uint", t == "uintptr":
		return word
	case t == "string":
		return 2 * word
	}
	return sizeOfType(t)
}

// cells of a declaration on an architecture with the given word size.
func (d *asmDecl) cells(word int) (out []cell) {
	one := func(p asmParam, res bool) {
		switch {
		case p.slic:
			out = append(out, cell{p.name + "_base", p.name, "base", p.off, word, res, true},
				cell{p.name + "_len", p.name, "len", p.off + word, word, res, false},
				cell{p.name + "_cap", p.name, "cap", p.off + 2*word, word, res, false})
		case p.typ == "string":
			out = append(out, cell{p.name + "_base", p.name, "base", p.off, word, res, true},
				cell{p.name + "_len", p.name, "len", p.off + word, word, res, false})
		case p.typ == "complex64" || p.typ == "complex128":
			n := sizeOfType(p.typ) / 2
			out = append(out, cell{p.name + "_real", p.name, "real", p.off, n, res, true},
				cell{p.name + "_imag", p.name, "imag", p.off + n, n, res, false})
		default:
			out = append(out, cell{p.name, p.name, "", p.off, sizeOn(p.typ, word), res, false})
		}
	}
	for _, p := range d.params {
		one(p, false)
	}
	for _, p := range d.res {
		one(p, true)
	}
	return
}

func (d *asmDecl) argBytes(word int) int {
	return (d.argExact(word) + word - 1) / word * word
}

func (d *asmDecl) argExact(word int) int {
	n := 0
	for _, ps := range [][]asmParam{d.params, d.res} {
		for _, p := range ps {
			if e := p.off + sizeOn(p.typ, word); e > n {
				n = e
			}
		}
	}
	return n
}

// widthOf an operand by the instruction.
func widthOf(arch, op string) int {
	base := op
	if i := strings.IndexByte(op, '.'); i >= 0 {
		base = op[:i]
	}
	switch arch {
	case "arm":
		switch base {
		case "MOVW", "MOVF":
			return 4
		case "MOVD":
			return 8
		case "MOVB", "MOVBU", "MOVBS":
			return 1
		case "MOVH", "MOVHU", "MOVHS":
			return 2
		}
		return 0
	case "arm64":
		switch base {
		case "MOVD", "FMOVD":
			return 8
		case "MOVW", "MOVWU", "FMOVS":
			return 4
		case "MOVH", "MOVHU":
			return 2
		case "MOVB", "MOVBU":
			return 1
		}
		return 0
	}
	for _, s := range []struct {
		suf string
		n   int
	}{{"SS", 4}, {"SD", 8}, {"DQU", 16}, {"DQA", 16}, {"UPS", 16}, {"APS", 16}} {
		if strings.HasSuffix(base, s.suf) {
			return s.n
		}
	}
	for _, s := range []struct {
		pre string
		n   int
	}{{"MOVBLZX", 1}, {"MOVBLSX", 1}, {"MOVBQZX", 1}, {"MOVBQSX", 1}, {"MOVWLZX", 2}, {"MOVWLSX", 2}, {"MOVWQZX", 2}, {"MOVWQSX", 2}, {"MOVLQSX", 4}, {"MOVLQZX", 4}, {"FMOVF", 4}, {"FMOVD", 8}, {"VPBROADCASTB", 1}, {"VPBROADCASTW", 2}, {"VPBROADCASTD", 4}, {"VPBROADCASTQ", 8}} {
		if strings.HasPrefix(base, s.pre) {
			return s.n
		}
	}
	if strings.HasPrefix(base, "LEA") {
		return 0
	}
	switch base[len(base)-1] {
	case 'Q':
		return 8
	case 'L':
		return 4
	case 'W':
		return 2
	case 'B':
		return 1
	}
	return 0
}

var reFPany = regexp.MustCompile(`^\$?([A-Za-z_0-9.]*?)([+-]\d+)?\(FP\)$`)

func fpOperand(s string) (name string, off int, ok bool) {
	m := reFPany.FindStringSubmatch(s)
	if m == nil {
		return "", 0, false
	}
	off, _ = strconv.Atoi(m[2])
	n := m[1]
	return n[strings.LastIndexByte(n, '.')+1:], off, true
}

var reSBany = regexp.MustCompile(`^\$?(.*?)([+-]\d+)?\(SB\)$`)

// symOperand: a reference to a symbol of the package.
func symOperand(s string) (string, bool) {
	m := reSBany.FindStringSubmatch(s)
	if m == nil || strings.HasSuffix(m[1], "<>") || strings.HasPrefix(m[1], "runtime.") || strings.Contains(m[1], "f32.") || strings.Contains(m[1], "f64.") || strings.HasPrefix(m[1], "i64.") {
		return "", false
	}
	n := m[1]
	return n[strings.LastIndexByte(n, '.')+1:], true
}

type asmFlow struct {
	kind string // "fall", "jump", "cond", "ret", "tail", "call"
	pc   int
	sym  string
}

func flowOf(arch string, in *asmInstr) asmFlow {
	op := in.op
	cond := false
	if i := strings.IndexByte(op, '.'); i >= 0 && arch == "arm" {
		cond = !strings.HasPrefix(op[i:], ".P") && !strings.HasPrefix(op[i:], ".W") && !strings.HasPrefix(op[i:], ".S") && !strings.HasPrefix(op[i:], ".U") && !strings.HasPrefix(op[i:], ".I")
		op = op[:i]
	}
	last := ""
	if len(in.args) > 0 {
		last = in.args[len(in.args)-1]
	}
	isNum := false
	n, err := strconv.Atoi(last)
	isNum = err == nil
	switch {
	case op == "RET" || op == "JMP" && (last == "(R14)" || last == "(R30)"):
		if cond {
			return asmFlow{kind: "condret"}
		}
		return asmFlow{kind: "ret"}
	case arch == "arm" && last == "R15":
		return asmFlow{kind: "ret"}
	case op == "JMP" || op == "B":
		if isNum && !cond {
			return asmFlow{kind: "jump", pc: n}
		}
		if isNum {
			return asmFlow{kind: "cond", pc: n}
		}
		if s, ok := symOperand(last); ok && !cond {
			return asmFlow{kind: "tail", sym: s}
		}
		return asmFlow{kind: "unknown"}
	case op == "CALL" || op == "BL":
		return asmFlow{kind: "call"}
	case isNum && (strings.HasPrefix(op, "J") || arch[0] == 'a' && arch != "amd64" && (strings.HasPrefix(op, "B") && op != "BIC" && op != "BFI" || strings.HasPrefix(op, "CBZ") || strings.HasPrefix(op, "CBNZ") || strings.HasPrefix(op, "TBZ") || strings.HasPrefix(op, "TBNZ"))):
		return asmFlow{kind: "cond", pc: n}
	}
	return asmFlow{kind: "fall"}
}

// wordWrites: general registers an encoded ARM instruction changes.
func wordWrites(w uint32) (out []int) {
	rd, rn := int(w>>12&15), int(w>>16&15)
	switch {
	case w>>24 == 0xf4: // element load or store
		if w&15 != 15 {
			out = append(out, rn)
		}
	case w>>28 == 0xf:
	case w>>25&7 == 3 && w>>4&1 == 1: // media
		out = append(out, rd)
	case w>>21&0x7f == 0x62 && w>>9&7 == 5: // two registers to or from the coprocessor
		if w>>20&1 == 1 {
			out = append(out, rd, rn)
		}
	case w>>25&7 == 6: // load or store of floating registers
		if w>>21&1 == 1 {
			out = append(out, rn)
		}
	case w>>24&15 == 14:
		if w>>4&1 == 1 && w>>20&1 == 1 && w>>9&7 == 5 && rd != 15 {
			out = append(out, rd)
		}
	case w>>26&3 == 0:
		if op := w >> 21 & 15; op < 8 || op > 11 {
			out = append(out, rd)
		}
	case w>>26&3 == 1:
		if w>>20&1 == 1 {
			out = append(out, rd)
		}
		if w>>21&1 == 1 || w>>24&1 == 0 {
			out = append(out, rn)
		}
	}
	return
}

// regWrites: named registers an instruction changes.
func regWrites(arch string, in *asmInstr) (out []string) {
	op, suf := in.op, ""
	if i := strings.IndexByte(op, '.'); i >= 0 {
		op, suf = op[:i], op[i:]
	}
	if op == "WORD" {
		if arch != "arm" || len(in.args) != 1 {
			return nil
		}
		n, err := strconv.ParseInt(strings.TrimPrefix(in.args[0], "$"), 0, 64)
		if err != nil {
			return nil
		}
		for _, r := range wordWrites(uint32(n)) {
			out = append(out, "R"+strconv.Itoa(r))
		}
		return
	}
	if len(in.args) == 0 {
		return nil
	}
	last := in.args[len(in.args)-1]
	for _, p := range []string{"CMP", "TST", "TEQ", "CMN", "TEST", "BT", "UCOMIS", "COMIS", "FCMP", "PTEST", "JMP", "PUSH"} {
		if strings.HasPrefix(op, p) && !strings.HasPrefix(op, "CMPXCHG") && op != "BTS" {
			return nil
		}
	}
	if flowOf(arch, in).kind != "fall" {
		return nil
	}
	if strings.HasPrefix(last, "[") {
		for _, r := range strings.Split(strings.Trim(last, "[]"), ",") {
			out = append(out, strings.TrimSpace(r))
		}
	} else if strings.HasPrefix(last, "(") && strings.Contains(last, ",") {
		for _, r := range strings.Split(strings.Trim(last, "()"), ",") {
			out = append(out, strings.TrimSpace(r))
		}
	} else if !strings.Contains(last, "(") {
		out = append(out, last)
	}
	if arch == "arm" || arch == "arm64" {
		if strings.Contains(suf, ".W") || strings.Contains(suf, ".P") {
			for _, a := range in.args {
				if i := strings.LastIndexByte(a, '('); i >= 0 && !strings.HasPrefix(a, "[") {
					out = append(out, strings.Trim(a[i:], "()"))
				}
			}
		}
	}
	return
}

type abiIssue struct {
	rule  string // "cell", "name", "width", "result", "reg", "stub", "exist", "flow"
	key   string
	where string
	msg   string
}

type abiArch struct {
	arch     string
	word     int
	dir      string
	pkg      string
	decls    map[string]*asmDecl
	texts    map[string]*asmText
	vars     map[string]string
	issues   []abiIssue
	cells    int
	returns  int
	tails    map[string]string // routine that is only a jump -> Go function
	bodyless []string
}

func (a *abiArch) issue(rule, key, where, format string, x ...interface{}) {
	a.issues = append(a.issues, abiIssue{rule, key, where, fmt.Sprintf(format, x...)})
}

// pkgVars lists the package variables with their declared types.
func pkgVars(dir, arch string) map[string]string {
	out := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if !fileForArch(f, arch) {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					t := ""
					if vs.Type != nil {
						t = exprText(vs.Type)
					} else if i < len(vs.Values) {
						if id, ok := vs.Values[i].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							t = "bool"
						}
					}
					out[n.Name] = t
				}
			}
		}
	}
	return out
}

func abiOf(dir, arch string, word int) (*abiArch, error) {
	a := &abiArch{arch: arch, word: word, dir: dir, pkg: modPath + strings.TrimPrefix(dir, repoDir), tails: map[string]string{}}
	var err error
	if a.decls, err = goDecls(dir, arch, word); err != nil {
		return nil, err
	}
	if a.texts, err = assemble(dir, arch, a.pkg); err != nil {
		return nil, err
	}
	a.vars = pkgVars(dir, arch)
	rel := strings.TrimPrefix(dir, repoDir+"/")
	for n, d := range a.decls {
		t := a.texts[n]
		switch {
		case !d.body && t == nil:
			a.issue("exist", arch+" "+n, d.where, "%s has no implementation on %s: it is declared without a body and %s has no assembly for it", n, arch, rel)
		case d.body && t != nil:
			a.issue("exist", arch+" "+n, t.file, "%s is implemented twice on %s: in Go (%s) and in assembly", n, arch, d.where)
		}
		if !d.body {
			a.bodyless = append(a.bodyless, n)
		}
	}
	sort.Strings(a.bodyless)
	for _, n := range a.bodyless {
		if t := a.texts[n]; t != nil {
			a.routine(a.decls[n], t)
		}
	}
	return a, nil
}

func sameTypes(a, b *asmDecl, loose bool) bool {
	eq := func(p, q []asmParam) bool {
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if p[i].off != q[i].off || p[i].slic != q[i].slic || !p[i].slic && p[i].typ != q[i].typ || !loose && p[i].typ != q[i].typ {
				return false
			}
		}
		return true
	}
	return eq(a.params, b.params) && eq(a.res, b.res)
}

var stackRegs = map[string]map[string]string{
	"386":   {"SP": "stack pointer"},
	"amd64": {"SP": "stack pointer", "BP": "frame pointer"},
	"arm":   {"R13": "stack pointer", "SP": "stack pointer", "g": "goroutine register", "R10": "goroutine register", "R14": "return address", "LR": "return address"},
	"arm64": {"RSP": "stack pointer", "SP": "stack pointer", "R29": "frame pointer", "g": "goroutine register", "R28": "goroutine register", "R30": "return address", "LR": "return address"},
}

// state at an instruction: result bytes stored on every path (must), argument
// cells changed on some path (may), stack depth, and registers that hold a
// capacity.
type abiState struct {
	stored  uint64
	changed bool
	depth   int
	saved   bool // frame pointer pushed
	caps    map[string]bool
}

func (s *abiState) clone() *abiState {
	c := *s
	c.caps = map[string]bool{}
	for k := range s.caps {
		c.caps[k] = true
	}
	return &c
}

func (a *abiArch) routine(d *asmDecl, t *asmText) {
	cells := d.cells(a.word)
	resStart := d.argBytes(a.word)
	if len(d.res) > 0 {
		resStart = d.res[0].off
	}
	key := func(s string) string { return a.arch + " " + d.name + " " + s }
	if t.argSize >= 0 && t.argSize != d.argBytes(a.word) && t.argSize != d.argExact(a.word) && !(t.argSize == 0 && len(t.ins) > 0 && flowOf(a.arch, &t.ins[0]).kind == "tail") {
		a.issue("name", key("size"), t.file, "%s on %s is declared with %d bytes of arguments; its Go declaration has %d", d.name, a.arch, t.argSize, d.argBytes(a.word))
	}
	ix := map[int]int{}
	for i := range t.ins {
		if _, ok := ix[t.ins[i].pc]; !ok {
			ix[t.ins[i].pc] = i
		}
	}
	states := make([]*abiState, len(t.ins))
	var work []int
	flow := func(i int, s *abiState, from *asmInstr) {
		if i < 0 || i >= len(t.ins) {
			a.issue("result", key("end"), from.line, "%s on %s runs past its last instruction", d.name, a.arch)
			return
		}
		o := states[i]
		if o == nil {
			states[i] = s.clone()
			work = append(work, i)
			return
		}
		n := o.clone()
		n.stored &= s.stored
		n.changed = n.changed || s.changed
		n.saved = n.saved && s.saved
		for k := range s.caps {
			n.caps[k] = true
		}
		if n.depth != s.depth {
			a.issue("reg", key("depth"), t.ins[i].line, "%s on %s: the stack pointer differs between the paths that meet here", d.name, a.arch)
		}
		if n.stored != o.stored || n.changed != o.changed || n.saved != o.saved || len(n.caps) != len(o.caps) {
			states[i] = n
			work = append(work, i)
		}
	}
	if len(t.ins) == 0 {
		a.issue("result", key("empty"), t.file, "%s on %s has no instructions", d.name, a.arch)
		return
	}
	states[0] = &abiState{caps: map[string]bool{}}
	work = append(work, 0)
	seen := map[string]bool{}
	once := func(rule, k, where, format string, x ...interface{}) {
		if !seen[rule+k+where] {
			seen[rule+k+where] = true
			a.issue(rule, key(k), where, format, x...)
		}
	}
	src := sourceLines(filepath.Join(repoDir, strings.SplitN(t.file, ":", 2)[0]))
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		in, s := &t.ins[i], states[i].clone()
		fl := flowOf(a.arch, in)
		condX := a.arch == "arm" && strings.IndexByte(in.op, '.') >= 0 && isCond(in.op)
		// argument and result cells
		for j, op := range in.args {
			name, off, ok := fpOperand(op)
			if !ok {
				continue
			}
			if a.arch == "386" || a.arch == "amd64" {
				off -= a.word + s.depth // as listed, from the stack pointer
			}
			a.cells++
			store := j == len(in.args)-1 && j > 0
			for _, p := range []string{"CMP", "TEST", "TST", "UCOMIS", "COMIS", "BT"} {
				if strings.HasPrefix(in.op, p) {
					store = false
				}
			}
			var c *cell
			for q := range cells {
				if cells[q].off == off {
					c = &cells[q]
				}
			}
			if c == nil {
				once("cell", "offset "+strconv.Itoa(off), in.line, "%s on %s accesses offset %d (%s), where its Go declaration has no argument or result", d.name, a.arch, off, name)
				continue
			}
			w := widthOf(a.arch, in.op)
			if strings.HasPrefix(op, "$") {
				w = 0
			}
			if w != 0 && w != c.size {
				once("width", "width "+c.name, in.line, "%s on %s accesses %d bytes of %s, which has %d (%s)", d.name, a.arch, w, c.name, c.size, in.op)
			}
			if store && !c.res && w != 0 {
				s.changed = true
			}
			if !store && c.res && s.stored>>uint(off-resStart)&1 == 0 {
				once("cell", "read "+c.name, in.line, "%s on %s reads the result %s before storing it", d.name, a.arch, c.name)
			}
			if store && c.res && !condX {
				for b := 0; b < c.size; b++ {
					s.stored |= 1 << uint(off-resStart+b)
				}
			}
			if name != c.name && !(c.first && name == c.base) {
				a.nameIssue(once, d, in, name, off, c, cells)
			}
			// a capacity is only good for another capacity
			if c.part == "cap" && !store && len(in.args) == 2 {
				s.caps[in.args[1]] = true
			}
			if store && s.caps[in.args[0]] && c.part != "cap" {
				once("cell", "cap "+c.name, in.line, "%s on %s stores a capacity in %s", d.name, a.arch, c.name)
			}
			if store && !s.caps[in.args[0]] && c.part == "cap" && c.res {
				once("cell", "cap "+c.name, in.line, "%s on %s stores something else than a capacity in %s", d.name, a.arch, c.name)
			}
		}
		// capacities used otherwise
		if len(in.args) > 0 && fl.kind == "fall" {
			wr := regWrites(a.arch, in)
			for j, op := range in.args {
				if s.caps[op] && !(j == len(in.args)-1 && isMove(in.op)) {
					last := in.args[len(in.args)-1]
					if _, _, isFP := fpOperand(last); !isFP {
						once("cell", "cap "+op, in.line, "%s on %s computes with a capacity", d.name, a.arch)
					}
				}
			}
			for _, r := range wr {
				isLoad := false
				if _, off, ok := fpOperand(in.args[0]); ok {
					for _, c := range cells {
						isLoad = isLoad || c.off == off && c.part == "cap"
					}
				}
				if !isLoad {
					delete(s.caps, r)
				}
			}
		}
		// registers that belong to the caller
		a.stack(d, t, in, s, src, once)
		// where next
		switch fl.kind {
		case "ret", "condret":
			a.returns++
			a.checkReturn(d, in, s, cells, resStart, once)
			if fl.kind == "condret" {
				flow(i+1, s, in)
			}
		case "jump", "cond":
			j, ok := ix[fl.pc]
			if !ok {
				once("flow", "jump", in.line, "%s on %s jumps to an unknown place", d.name, a.arch)
				break
			}
			flow(j, s, in)
			if fl.kind == "cond" {
				flow(i+1, s, in)
			}
		case "tail":
			a.tail(d, t, in, i, fl.sym, s, once)
		case "unknown":
			once("flow", "jump", in.line, "%s on %s: jump that cannot be followed", d.name, a.arch)
		default:
			flow(i+1, s, in)
		}
	}
}

func isMove(op string) bool {
	return strings.HasPrefix(op, "MOV") || strings.HasPrefix(op, "FMOV") || strings.HasPrefix(op, "LEA")
}

func isCond(op string) bool {
	for _, p := range strings.Split(op, ".")[1:] {
		switch p {
		case "EQ", "NE", "CS", "HS", "CC", "LO", "MI", "PL", "VS", "VC", "HI", "LS", "GE", "LT", "GT", "LE":
			return true
		}
	}
	return false
}

func (a *abiArch) nameIssue(once func(rule, k, where, format string, x ...interface{}), d *asmDecl, in *asmInstr, name string, off int, c *cell, cells []cell) {
	rule := "name"
	// a name that denotes another argument: the offset is wrong
	for _, o := range cells {
		if o.name == name || o.first && name == o.base {
			rule = "cell"
		}
		for _, alt := range []string{"_ptr", "_data"} {
			if o.part == "base" && name == o.base+alt {
				if o.off == off {
					rule = "name"
				} else {
					rule = "cell"
				}
			}
		}
	}
	if rule == "cell" {
		once("cell", fmt.Sprintf("%s %d", name, off), in.line, "%s on %s uses offset %d for %s, but that is where its Go declaration has %s", d.name, a.arch, off, name, c.name)
		return
	}
	once("name", fmt.Sprintf("%s %d", name, off), in.line, "%s on %s calls the argument or result at offset %d %s; its Go declaration implies %s", d.name, a.arch, off, name, c.name)
}

func (a *abiArch) checkReturn(d *asmDecl, in *asmInstr, s *abiState, cells []cell, resStart int, once func(rule, k, where, format string, x ...interface{})) {
	for _, c := range cells {
		if !c.res {
			continue
		}
		for b := 0; b < c.size; b++ {
			if s.stored>>uint(c.off-resStart+b)&1 == 0 {
				once("result", "result "+c.name, in.line, "%s on %s can return here without having stored its result %s", d.name, a.arch, c.name)
				break
			}
		}
	}
	if s.depth != 0 {
		once("reg", "depth", in.line, "%s on %s returns with the stack pointer moved by %d bytes", d.name, a.arch, s.depth)
	}
}

func (a *abiArch) tail(d *asmDecl, t *asmText, in *asmInstr, i int, sym string, s *abiState, once func(rule, k, where, format string, x ...interface{})) {
	g := a.decls[sym]
	if g == nil {
		if a.texts[sym] != nil {
			once("flow", "tail "+sym, in.line, "%s on %s continues in %s, which has no Go declaration", d.name, a.arch, sym)
		} else {
			once("exist", "tail "+sym, in.line, "%s on %s continues in %s, which does not exist", d.name, a.arch, sym)
		}
		return
	}
	if s.depth != 0 {
		once("reg", "depth", in.line, "%s on %s leaves with the stack pointer moved by %d bytes", d.name, a.arch, s.depth)
	}
	if !sameTypes(d, g, !g.body) {
		once("cell", "tail "+sym, in.line, "%s on %s continues in %s, whose arguments and results differ", d.name, a.arch, sym)
		return
	}
	if g.body {
		if s.changed {
			once("stub", "tail "+sym, in.line, "%s on %s continues in %s with changed arguments", d.name, a.arch, sym)
		}
		first := 0
		for first < len(t.ins) && isNop(t.ins[first].op) {
			first++
		}
		if i == first {
			a.tails[d.name] = sym
		}
		return
	}
	a.returns++
}

func isNop(op string) bool { return strings.HasPrefix(op, "NOP") || op == "PCALIGN" }

func (a *abiArch) stack(d *asmDecl, t *asmText, in *asmInstr, s *abiState, src []string, once func(rule, k, where, format string, x ...interface{})) {
	x86 := a.arch == "386" || a.arch == "amd64"
	if !x86 {
		// what the assembler adds at entry and exit
		if in.line == t.file {
			return
		}
		if q := strings.SplitN(in.line, ":", 2); len(q) == 2 {
			if n, _ := strconv.Atoi(q[1]); n > 0 && n <= len(src) && strings.Contains(src[n-1], "RET") {
				return
			}
		}
	}
	if x86 && (strings.HasPrefix(in.op, "PUSH") || strings.HasPrefix(in.op, "POP")) {
		n := a.word
		if strings.HasPrefix(in.op, "POP") {
			n = -n
			if len(in.args) == 1 && in.args[0] == "BP" && s.saved {
				s.saved = false
			}
		} else if len(in.args) == 1 && in.args[0] == "BP" {
			s.saved = true
		}
		s.depth += n
		return
	}
	for _, r := range regWrites(a.arch, in) {
		what := stackRegs[a.arch][r]
		if what == "" {
			continue
		}
		if x86 && r == "SP" && len(in.args) == 2 && strings.HasPrefix(in.args[0], "$") {
			n, err := strconv.Atoi(in.args[0][1:])
			if err == nil && strings.HasPrefix(in.op, "SUB") {
				s.depth += n
				return
			}
			if err == nil && strings.HasPrefix(in.op, "ADD") {
				s.depth -= n
				return
			}
		}
		if r == "BP" && (s.saved || t.frame > 0 || in.line == t.file) {
			continue
		}
		once("reg", "register "+r, in.line, "%s on %s changes the %s %s", d.name, a.arch, what, r)
	}
}

var srcMemo sync.Map

func sourceLines(f string) []string {
	if v, ok := srcMemo.Load(f); ok {
		return v.([]string)
	}
	b, _ := os.ReadFile(f)
	l := strings.Split(string(b), "\n")
	srcMemo.Store(f, l)
	return l
}

// dataRefs: the package symbols the assembly uses exist with the right size.
func (a *abiArch) dataRefs() int {
	n := 0
	for _, name := range a.bodyless {
		t := a.texts[name]
		if t == nil {
			continue
		}
		for i := range t.ins {
			in := &t.ins[i]
			if k := flowOf(a.arch, in).kind; k != "fall" {
				continue
			}
			for _, op := range in.args {
				s, ok := symOperand(op)
				if !ok || s == "" {
					continue
				}
				n++
				ty, isVar := a.vars[s]
				switch {
				case !isVar && a.decls[s] == nil && a.texts[s] == nil:
					a.issue("exist", a.arch+" "+name+" "+s, in.line, "%s on %s uses %s, which does not exist", name, a.arch, s)
				case ty != "" && !strings.HasPrefix(op, "$") && !strings.ContainsAny(ty, "[.") && widthOf(a.arch, in.op) > 0 && widthOf(a.arch, in.op) != sizeOn(ty, a.word):
					a.issue("width", a.arch+" "+name+" "+s, in.line, "%s on %s accesses %d bytes of the variable %s, which has %d", name, a.arch, widthOf(a.arch, in.op), s, sizeOn(ty, a.word))
				}
			}
		}
	}
	return n
}

func asmDirs() (out []string) {
	filepath.Walk(repoDir, func(p string, i os.FileInfo, err error) error {
		if err != nil || !i.IsDir() {
			return nil
		}
		if b := i.Name(); strings.HasPrefix(b, ".") && p != repoDir || b == "testdata" {
			return filepath.SkipDir
		}
		if m, _ := filepath.Glob(filepath.Join(p, "*.s")); len(m) > 0 {
			out = append(out, p)
		}
		return nil
	})
	return
}

// abiAll analyses every directory with assembly on every architecture.
func abiAll(r *Report) []*abiArch { return abiIn(r, "") }

func abiIn(r *Report, only string) (out []*abiArch) {
	for _, dir := range asmDirs() {
		if only != "" && dir != filepath.Join(repoDir, only) {
			continue
		}
		for _, ar := range asmArchs {
			a, err := abiOf(dir, ar.name, ar.word)
			if err != nil {
				r.violate(strings.TrimPrefix(dir, repoDir+"/")+" "+ar.name, dir, "on %s: %v", ar.name, err)
				continue
			}
			out = append(out, a)
		}
	}
	return
}

func abiReport(r *Report, as []*abiArch, rule string, want func(rule string) bool) {
	for _, a := range as {
		bad := 0
		for _, i := range a.issues {
			if want(i.rule) {
				bad++
				r.violate(i.rule+" "+i.key, i.where, "%s", i.msg)
			}
		}
		if len(a.bodyless) == 0 && bad == 0 {
			continue
		}
		rel := strings.TrimPrefix(a.dir, repoDir+"/")
		r.results = append(r.results, ItemResult{Item: rel + " on " + a.arch, Rule: rule, Obligations: a.cells + a.returns + len(a.bodyless), Discharged: a.cells + a.returns + len(a.bodyless) - bad, Functions: a.bodyless,
			Notes: []string{fmt.Sprintf("%d argument and result accesses, %d returns, %d routines", a.cells, a.returns, len(a.bodyless))}})
		for _, n := range a.bodyless {
			r.funcs[rel+"."+n+" ("+a.arch+")"] = true
		}
	}
}

// abiItems: C05's part of the declarations against the assembly.
func abiItems(r *Report) {
	as := abiAll(r)
	abiReport(r, as, "every argument and result access uses an offset and width of the Go declaration, every return follows a store of every result, and the caller's stack, frame and goroutine registers are unchanged", func(k string) bool {
		return k == "cell" || k == "width" || k == "result" || k == "reg" || k == "flow"
	})
	if _, lr, err := liftPackage(); err == nil {
		for n, is := range lr.issues {
			for k, m := range is {
				if !strings.HasPrefix(k, "name ") {
					r.violate("amd64 "+n+" "+k, "dsp", "%s", m)
				}
			}
		}
	}
}

// ---------- C06 ----------

var platforms = [][2]string{{"linux", "386"}, {"linux", "amd64"}, {"linux", "arm"}, {"linux", "arm64"}, {"windows", "386"}, {"windows", "amd64"}, {"windows", "arm64"}, {"darwin", "amd64"}, {"darwin", "arm64"}, {"freebsd", "386"}, {"freebsd", "amd64"}, {"freebsd", "arm"}, {"freebsd", "arm64"}, {"openbsd", "amd64"}, {"netbsd", "arm"}}

func portItems(r *Report) {
	as := abiAll(r)
	for _, a := range as {
		a.cells += a.dataRefs()
	}
	abiReport(r, as, "every function without a body has exactly one implementation, whose argument and result accesses have the offsets and names of the Go declaration", func(k string) bool {
		return k == "exist" || k == "cell" || k == "name" || k == "width" || k == "flow"
	})
	type res struct {
		n    int
		errs []string
	}
	out := make([]res, len(platforms))
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i, pl := range platforms {
		wg.Add(1)
		go func(i int, goos, arch string) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			ov, err := overlayBase()
			if err != nil {
				out[i].errs = []string{err.Error()}
				return
			}
			cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo,
				Dir: repoDir, Env: baseEnv("GOOS="+goos, "GOARCH="+arch), BuildFlags: []string{"-mod=readonly"}, Overlay: ov}
			ps, err := packages.Load(cfg, "./dsp/...", "./borip")
			if err != nil {
				out[i].errs = []string{err.Error()}
				return
			}
			packages.Visit(ps, nil, func(p *packages.Package) {
				if strings.HasPrefix(p.PkgPath, modPath) {
					out[i].n++
					for _, e := range p.Errors {
						out[i].errs = append(out[i].errs, strings.ReplaceAll(e.Error(), repoDir+"/", ""))
					}
				}
			})
		}(i, pl[0], pl[1])
	}
	wg.Wait()
	for i, pl := range platforms {
		name := pl[0] + "/" + pl[1]
		sort.Strings(out[i].errs)
		for j, e := range out[i].errs {
			if j < 5 {
				w := strings.SplitN(e, ": ", 2)
				r.violate("types "+name+" "+stripPos(e), w[0], "does not type-check on %s: %s", name, e)
			}
		}
		r.results = append(r.results, ItemResult{Item: "type-check on " + name, Rule: "the library packages type-check", Obligations: out[i].n, Discharged: out[i].n - min(len(out[i].errs), out[i].n)})
		if out[i].n == 0 && len(out[i].errs) == 0 {
			r.violate("types "+name, repoDir, "no library package found on %s", name)
		}
	}
}

var rePos = regexp.MustCompile(`:\d+(:\d+)?`)

func stripPos(s string) string { return rePos.ReplaceAllString(s, "") }

// ---------- C42 ----------

func sameOp(name, sym string) bool {
	return strings.EqualFold(strings.TrimSuffix(name, "Asm"), sym)
}

var stubMemo map[string]string

// stubTarget: where the routines that are only jumps agree that name continues.
func stubTarget(name string) string {
	if stubMemo == nil {
		stubMemo = map[string]string{}
		n := map[string]map[string]int{}
		for _, ar := range asmArchs {
			a, err := abiOf(filepath.Join(repoDir, "dsp"), ar.name, ar.word)
			if err != nil {
				continue
			}
			for k, v := range a.tails {
				if n[k] == nil {
					n[k] = map[string]int{}
				}
				n[k][v]++
			}
		}
		for k, m := range n {
			best := ""
			for v, c := range m {
				if best == "" || c > m[best] || c == m[best] && v < best {
					best = v
				}
			}
			stubMemo[k] = best
		}
	}
	return stubMemo[name]
}

func stubItems(r *Report) {
	if !worlds(r) {
		return
	}
	dir := filepath.Join(repoDir, "dsp")
	sp := theRepo.pkgs[dspPkg]
	same := func(name string) string {
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && len(f.Blocks) > 0 && n != name && sameOp(name, n) {
				return n
			}
		}
		return ""
	}
	equal := func(a, b string) string {
		fa, fb := theRepo.fn(dspPkg, a), theRepo.fn(dspPkg, b)
		if fa == nil || fb == nil {
			return "one of them is not part of the package"
		}
		d, err := diffFuncs(theRepo, theRepo, fa, fb, Opts{})
		if err != nil {
			return err.Error()
		}
		if len(d.out) > 0 {
			return d.out[0].what + ": " + d.out[0].why
		}
		return ""
	}
	for _, ar := range asmArchs {
		a, err := abiOf(dir, ar.name, ar.word)
		if err != nil {
			r.violate("dsp "+ar.name, dir, "on %s: %v", ar.name, err)
			continue
		}
		res := ItemResult{Item: "stubs on " + ar.name, Rule: "a routine that is only a jump continues, with its arguments untouched, in the Go function of the same operation"}
		for _, i := range a.issues {
			if i.rule == "stub" || i.rule == "exist" || i.rule == "flow" {
				r.violate(i.rule+" "+i.key, i.where, "%s", i.msg)
			}
		}
		for _, n := range a.bodyless {
			t := a.texts[n]
			if t == nil {
				continue
			}
			first := 0
			for first < len(t.ins) && isNop(t.ins[first].op) {
				first++
			}
			if first >= len(t.ins) {
				continue
			}
			fl := flowOf(a.arch, &t.ins[first])
			if fl.kind == "ret" {
				res.Obligations++
				r.violate("stub "+ar.name+" "+n, t.ins[first].line, "%s on %s returns without doing anything", n, ar.name)
			}
			if fl.kind != "tail" {
				continue
			}
			res.Obligations++
			to := fl.sym
			g := a.decls[to]
			if g == nil {
				continue // reported above
			}
			if !g.body {
				// another routine: compare the portable functions behind both
				p, q := same(n), same(to)
				if p == "" {
					p = stubTarget(n)
				}
				if q == "" {
					q = stubTarget(to)
				}
				if p == "" || q == "" || p != q && equal(q, p) != "" {
					r.violate("stub "+ar.name+" "+n, t.ins[first].line, "%s on %s continues in the routine of another operation, %s", n, ar.name, to)
					continue
				}
				res.Discharged++
				continue
			}
			if sameOp(n, to) {
				res.Discharged++
				continue
			}
			want := same(n)
			if want == "" {
				want = stubTarget(n)
			}
			if want != to {
				if w := equal(to, want); w != "" {
					r.violate("stub "+ar.name+" "+n, t.ins[first].line, "%s on %s continues in %s, which does not compute what %s does: %s", n, ar.name, to, want, w)
					continue
				}
			}
			res.Discharged++
		}
		if ar.name != "amd64" {
			var names []string
			for n, d := range a.decls {
				b := theRepo.fn(dspPkg, n)
				if d.body && b != nil && len(b.Blocks) == 0 {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			if len(names) > 0 {
				w, err := loadRepo("linux", ar.name, "./dsp")
				if err != nil {
					r.violate("load "+ar.name, "dsp", "%v", err)
					continue
				}
				for _, n := range names {
					res.Obligations++
					p := same(n)
					if p == "" {
						p = stubTarget(n)
					}
					fa, fb := w.fn(dspPkg, n), w.fn(dspPkg, p)
					why := "no portable function"
					if fa != nil && fb != nil {
						d, err := diffFuncs(w, w, fa, fb, Opts{})
						switch {
						case err != nil:
							why = err.Error()
						case len(d.out) > 0:
							why = d.out[0].what + ": " + d.out[0].why
						default:
							why = ""
						}
					}
					if why != "" {
						r.violate("stub "+ar.name+" "+n, a.decls[n].where, "%s on %s does not compute what the portable %s does: %s", n, ar.name, p, why)
						continue
					}
					res.Discharged++
				}
			}
		}
		r.results = append(r.results, res)
	}
}

// cpuidItems: the routines that ask the processor load its question, and
// store its answer, in the registers the instruction defines.
func cpuidItems(r *Report, as []*abiArch) {
	type inst struct {
		op  string
		in  map[string]int // register -> argument, -1 zero
		out []string
	}
	for _, a := range as {
		if a.arch != "386" && a.arch != "amd64" {
			continue
		}
		for fn, q := range map[string]inst{
			"cpuid":  {"CPUID", map[string]int{"AX": 0, "CX": 1}, []string{"AX", "BX", "CX", "DX"}},
			"xgetbv": {"XGETBV", map[string]int{"CX": -1}, []string{"AX", "DX"}},
		} {
			d, t := a.decls[fn], a.texts[fn]
			if d == nil || t == nil || d.body {
				r.violate("cpuid "+a.arch+" "+fn, a.dir, "%s is not an assembly routine on %s", fn, a.arch)
				continue
			}
			res := ItemResult{Item: fn + " on " + a.arch, Rule: "the instruction's inputs are the routine's arguments and its outputs are stored as the routine's results", Obligations: len(q.in) + len(d.res)}
			cells := d.cells(a.word)
			val := map[string]string{}
			done := false
			bad := func(in *asmInstr, f string, x ...interface{}) {
				r.violate("cpuid "+a.arch+" "+fn, in.line, "%s on %s: %s", fn, a.arch, fmt.Sprintf(f, x...))
			}
			got := make([]string, len(d.res))
			ok := true
			for i := range t.ins {
				in := &t.ins[i]
				fl := flowOf(a.arch, in)
				if fl.kind == "ret" {
					break
				}
				if fl.kind != "fall" {
					bad(in, "control flow that is not followed")
					ok = false
					break
				}
				get := func(s string) string {
					if _, off, isFP := fpOperand(s); isFP {
						off -= a.word
						for j, p := range d.params {
							if p.off == off {
								return fmt.Sprintf("arg%d", j)
							}
						}
						return "?"
					}
					if s == "$0" {
						return "zero"
					}
					return val[s]
				}
				switch {
				case isNop(in.op):
				case in.op == q.op:
					for reg, arg := range q.in {
						want := "zero"
						if arg >= 0 {
							want = fmt.Sprintf("arg%d", arg)
						}
						if val[reg] != want {
							bad(in, "%s does not hold what %s expects", reg, q.op)
							ok = false
						}
					}
					for _, reg := range []string{"AX", "BX", "CX", "DX"} {
						if in.op == "CPUID" || reg == "AX" || reg == "DX" {
							val[reg] = "out " + reg
						}
					}
					done = true
				case strings.HasPrefix(in.op, "MOV") && len(in.args) == 2:
					v := get(in.args[0])
					if _, off, isFP := fpOperand(in.args[1]); isFP {
						off -= a.word
						for _, c := range cells {
							if c.res && c.off == off {
								for j := range d.res {
									if d.res[j].off == off {
										got[j] = v
									}
								}
							}
						}
						continue
					}
					val[in.args[1]] = v
				case strings.HasPrefix(in.op, "XOR") && len(in.args) == 2 && in.args[0] == in.args[1]:
					val[in.args[1]] = "zero"
				default:
					for _, reg := range regWrites(a.arch, in) {
						val[reg] = ""
					}
				}
			}
			if !ok {
				continue
			}
			if !done || len(d.res) != len(q.out) {
				bad(&t.ins[0], "%s is not executed", q.op)
				continue
			}
			for j, reg := range q.out {
				if got[j] != "out "+reg {
					bad(&t.ins[len(t.ins)-1], "result %s is not what %s leaves in %s", d.res[j].name, q.op, reg)
					ok = false
				}
			}
			if ok {
				res.Discharged = res.Obligations
			}
			r.results = append(r.results, res)
		}
	}
}
