package main

// Checks: one per property.  A check runs its items, prints diagnostics and
// writes its evidence file.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Violation struct {
	Key   string `json:"key"` // stable identification: item and quantity, no line numbers
	Where string `json:"where"`
	Msg   string `json:"msg"`
}

type ItemResult struct {
	Item        string   `json:"item"`
	Rule        string   `json:"rule"`
	Quantities  int      `json:"quantities_compared,omitempty"`
	Obligations int      `json:"obligations,omitempty"`
	Discharged  int      `json:"discharged,omitempty"`
	Sites       int      `json:"sites,omitempty"`
	Functions   []string `json:"functions,omitempty"`
	Notes       []string `json:"notes,omitempty"`
}

type Report struct {
	id         string
	tier       string
	results    []ItemResult
	violations []Violation
	rule       string
	assume     []string
	funcs      map[string]bool
}

func (r *Report) violate(key, where, format string, a ...interface{}) {
	r.violations = append(r.violations, Violation{key, where, fmt.Sprintf(format, a...)})
}

type checkDef struct {
	rule   string
	assume []string
	run    func(r *Report)
	jobs   bool // makes use of several processes itself
}

var checks = map[string]*checkDef{}

type finding struct{ prop, key, text string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l[7:], " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			out = append(out, finding{f[0][9:], f[1][4:], f[2]})
		}
	}
	return out
}

func keyOf(s string) string { return strings.ReplaceAll(s, " ", "_") }

// evidDir: where this process writes; the supervising process picks the
// evidence of the search it reports.
func evidDir() string {
	if d := os.Getenv("AN_EVID"); d != "" {
		return d
	}
	return filepath.Join(verifDir, "evidence")
}

const deadline = 840 * time.Second

// superviseMain runs the check.  A proof found in any order of search is a
// proof, so before an alarm (or when one order takes long) other orders are
// tried; what none of them decides is a violation.
func superviseMain(id string) int {
	t0 := time.Now()
	if checks[id] == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	type result struct {
		n    int
		code int
		out  []byte
	}
	tmp, err := os.MkdirTemp("", "an")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	ch := make(chan result, 8)
	var cmds []*exec.Cmd
	start := func(n int) {
		dir := filepath.Join(tmp, strconv.Itoa(n))
		os.MkdirAll(dir, 0o755)
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "SHUFFLE="+strconv.Itoa(n), "AN_EVID="+dir, "AN_JOBS="+tmp)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Stderr = os.Stderr
		cmds = append(cmds, cmd)
		go func() {
			out, err := cmd.Output()
			code := 0
			if err != nil {
				code = 2
				if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 1 {
					code = 1
				}
			}
			ch <- result{n, code, out}
		}()
	}
	defer func() {
		for _, c := range cmds {
			if c.Process != nil {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
		}
	}()
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.Remove(filepath.Join(verifDir, "evidence", id+".violations.txt"))
	report := func(r result) int {
		for _, f := range []string{id + ".json", id + ".violations.txt"} {
			if b, err := os.ReadFile(filepath.Join(tmp, strconv.Itoa(r.n), f)); err == nil {
				os.WriteFile(filepath.Join(verifDir, "evidence", f), b, 0o644)
			}
		}
		os.Stdout.Write(r.out)
		return r.code
	}
	start(0)
	running, more := 1, false
	others := func() {
		if !more {
			more = true
			for n := 1; n <= 3; n++ {
				start(n)
				running++
			}
		}
	}
	var best *result
	slow := time.After(200 * time.Second)
	if checks[id].jobs {
		slow = time.After(500 * time.Second)
	}
	end := time.After(deadline)
	for running > 0 {
		select {
		case r := <-ch:
			running--
			if r.code == 0 {
				return report(r)
			}
			if best == nil || r.code == 1 && (best.code != 1 || r.n == 0) {
				q := r
				best = &q
			}
			others()
		case <-slow:
			others()
		case <-end:
			running = 0
		}
	}
	if best != nil && best.code == 1 {
		return report(*best)
	}
	// no order of search gave an answer
	r := &Report{id: id, tier: "quick", rule: checks[id].rule, assume: checks[id].assume, funcs: map[string]bool{}}
	v := []Violation{{Key: "undecided", Where: repoDir, Msg: "the analysis does not complete on this source"}}
	writeEvidence(r, checks[id], r.tier, 0, time.Since(t0).Seconds(), v)
	replay := filepath.Join(verifDir, "evidence", id+".violations.txt")
	os.WriteFile(replay, []byte("property "+id+"\nthe analysis does not complete on this source\n"), 0o644)
	fmt.Printf("the analysis does not complete on this source [undecided]\n")
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func checkMain(id string) int {
	t0 := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Report{id: id, tier: tier, rule: def.rule, assume: def.assume, funcs: map[string]bool{}}
	def.run(r)
	// stable order, without repetition
	seen := map[string]bool{}
	var vs []Violation
	for _, v := range r.violations {
		v.Key = keyOf(v.Key)
		if !seen[v.Key+v.Where+v.Msg] {
			seen[v.Key+v.Where+v.Msg] = true
			vs = append(vs, v)
		}
	}
	var fresh []Violation
	known := map[string]bool{}
	for _, v := range vs {
		hit := false
		for _, k := range knownFindings() {
			if k.prop == id && k.key == v.Key {
				hit = true
				if !known[k.key] {
					known[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	replay := filepath.Join(evidDir(), id+".violations.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	writeEvidence(r, def, tier, seed, time.Since(t0).Seconds(), fresh)
	if len(fresh) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nre-run: cd /verif && sh check.sh %s\n\n", id, id)
		for _, v := range fresh {
			fmt.Printf("%s: %s [%s]\n", v.Where, v.Msg, v.Key)
			fmt.Fprintf(&b, "%s: %s\n  [%s]\n", v.Where, v.Msg, v.Key)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(verifDir, "evidence", id+".violations.txt"))
		return 1
	}
	fmt.Printf("%s: held (%d items, %.1fs)\n", id, len(r.results), time.Since(t0).Seconds())
	return 0
}

func writeEvidence(r *Report, def *checkDef, tier string, seed int, wall float64, fresh []Violation) {
	var q, o, d, s int
	for _, it := range r.results {
		q += it.Quantities
		o += it.Obligations
		d += it.Discharged
		s += it.Sites
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "wall_s": wall,
		"violations": len(fresh), "assumptions": def.assume,
		"coverage": map[string]interface{}{
			"explanation":          def.rule,
			"items":                r.results,
			"quantities_compared":  q,
			"safety_obligations":   o,
			"safety_discharged":    d,
			"sites_examined":       s,
			"functions_analysed":   len(fns),
			"functions":            fns,
			"prover_calls":         proveCalls,
			"linear_programs":      lpCalls,
			"violations_reported":  fresh,
			"distinct_value_terms": len(allTerms),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evidDir(), r.id+".json"), append(b, '\n'), 0o644)
}

// ---------- items comparing a function with its reference ----------

type diffItem struct {
	pkg        string // path below the module
	impl, spec string
	self       bool // spec names another function of the repository package
	o          Opts
	noOblig    bool
}

var theRepo, theSpec *World

func worlds(r *Report) bool {
	if theRepo == nil {
		w, err := loadRepo("linux", "amd64", "./dsp/...", "./borip/...")
		if err != nil {
			r.violate("load", "/repo", "the packages do not load: %v", err)
			return false
		}
		theRepo = w
	}
	if theSpec == nil {
		w, err := loadSpec()
		if err != nil {
			fmt.Fprintln(os.Stderr, "specifications do not load:", err)
			os.Exit(2)
		}
		theSpec = w
	}
	return true
}

func runDiffs(r *Report, items []diffItem) {
	if !worlds(r) {
		return
	}
	for _, it := range items {
		runDiff(r, it)
	}
}

var theServer *World

// worldOf: the server is loaded by itself, on demand.
func worldOf(r *Report, pkg string) *World {
	if pkg != "boripserver" {
		return theRepo
	}
	if theServer == nil {
		w, err := loadRepo("linux", "amd64", "./dsp/...", "./boripserver")
		if err != nil {
			r.violate("load", "/repo/boripserver", "the package does not load: %v", err)
			return nil
		}
		theServer = w
	}
	return theServer
}

func runDiff(r *Report, it diffItem) {
	defer func() { nanAware = false }()
	name := it.impl
	if len(it.o.alias) > 0 {
		name += " (in place)"
	}
	pkg := modPath + "/" + it.pkg
	repo := worldOf(r, it.pkg)
	if repo == nil {
		return
	}
	f := repo.fn(pkg, it.impl)
	var s = theSpec.fn("verif/analyzer/spec", it.spec)
	sw := theSpec
	if it.self {
		s = repo.fn(pkg, it.spec)
		sw = repo
	}
	if s == nil {
		fmt.Fprintln(os.Stderr, "missing specification", it.spec)
		os.Exit(2)
	}
	if f == nil {
		r.violate(name+"/missing", it.pkg, "function %s not found", it.impl)
		return
	}
	res := ItemResult{Item: it.pkg + "." + name, Rule: "summary of " + it.impl + " equals summary of reference " + it.spec}
	if it.o.total {
		res.Rule = "every obligation of " + it.impl + " follows from its preconditions"
	}
	d, err := diffFuncs(repo, sw, f, s, it.o)
	if err != nil {
		r.violate(name+"/unsupported", it.pkg, "%s cannot be summarised: %v", it.impl, err)
		return
	}
	for fn := range d.i.fe.ev.funcs {
		fn = strings.ReplaceAll(fn, modPath+"/", "")
		if !strings.Contains(fn, ".verif") {
			res.Functions = append(res.Functions, fn)
			r.funcs[fn] = true
		}
	}
	sort.Strings(res.Functions)
	res.Quantities = d.n
	for _, m := range d.out {
		r.violate(name+"/"+m.what, m.where, "%s: %s: %s", it.impl, m.what, m.why)
	}
	if !it.noOblig {
		nanAware = it.o.nan
		bad, n := d.i.unproved(append(d.s.reqs, d.sPC()...))
		res.Obligations = n
		res.Discharged = n - len(bad)
		for _, b := range bad {
			r.violate(name+"/"+b.kind+"/"+site(b.where), b.where, "%s: possible %s: cannot be excluded that %s fails", it.impl, b.kind, short(b.cond))
		}
	}
	r.results = append(r.results, res)
}

// site names the function of a "file:line (Func)" position.
func site(w string) string {
	if i := strings.Index(w, "("); i >= 0 {
		return strings.Trim(w[i:], "()")
	}
	return w
}

// ---------- items bounding what a function writes ----------

type frameItem struct {
	pkg, fn string
	ro      []int // parameters whose memory keeps its contents
}

func runFrame(r *Report, items []frameItem) {
	if !worlds(r) {
		return
	}
	for _, it := range items {
		f := theRepo.fn(modPath+"/"+it.pkg, it.fn)
		if f == nil {
			r.violate(it.fn+"/missing", it.pkg, "function %s not found", it.fn)
			continue
		}
		res := ItemResult{Item: it.pkg + "." + it.fn, Rule: "no memory of an input-only parameter is written with another value"}
		fe := implFE(theRepo)
		resetWorld()
		ip := fe.paramVals(f)
		s, err := fe.summarise(f, ip, nil, nil)
		if err != nil {
			r.violate(it.fn+"/unsupported", it.pkg, "%s cannot be summarised: %v", it.fn, err)
			continue
		}
		for fn := range fe.ev.funcs {
			fn = strings.ReplaceAll(fn, modPath+"/", "")
			if !strings.Contains(fn, ".verif") {
				res.Functions = append(res.Functions, fn)
				r.funcs[fn] = true
			}
		}
		sort.Strings(res.Functions)
		if s.st != nil {
			for _, n := range it.ro {
				if n >= len(ip) || len(ip[n].f) == 0 {
					r.violate(it.fn+"/shape", it.pkg, "%s: parameter %d is no slice", it.fn, n)
					continue
				}
				root := ip[n].f[0].t
				first := newState()
				for _, k := range envKeys(s.st.env) {
					if (k.kind != 'm' && k.kind != 'a') || cellMetas[k].root != root {
						continue
					}
					res.Quantities++
					var a, b []*Term
					leaves(fe.getCell(first, k), "", func(_ string, t *Term) { a = append(a, t) })
					leaves(fe.getCell(s.st, k), "", func(_ string, t *Term) { b = append(b, t) })
					for x := range a {
						if len(a) != len(b) || a[x] != b[x] && EqT(a[x], b[x]) != TTrue {
							r.violate(it.fn+"/writes "+f.Params[n].Name(), fe.pos(f.Pos())+" ("+it.fn+")", "%s: the contents of input %s may change: %s", it.fn, f.Params[n].Name(), short(b[x]))
							break
						}
					}
				}
				res.Obligations++
				res.Discharged++
			}
		}
		r.results = append(r.results, res)
	}
}
