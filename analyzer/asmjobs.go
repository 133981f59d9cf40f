package main

// Checks of the amd64 assembly.  Every routine, with every alignment of the
// slices whose address it looks at, is a job of its own process; jobs run
// side by side.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type asmBad struct{ Kind, Where, Msg string }

type asmResult struct {
	Err         string
	Quantities  int
	Obligations int
	Bad         []asmBad
	Functions   []string
}

// asmRun compares one rewritten routine with its reference, or (total) decides
// its obligations.
func asmRun(iw, sw *World, f, s *ssa.Function, fix map[string]int64, total bool) (res asmResult) {
	o := Opts{total: total, know: liftKnow(f), fix: map[int]int64{}}
	for i, p := range f.Params {
		if v, ok := fix[p.Name()]; ok {
			o.fix[i] = v
		}
	}
	d, err := diffFuncs(iw, sw, f, s, o)
	if err != nil {
		res.Err = err.Error()
		return
	}
	for fn := range d.i.fe.ev.funcs {
		fn = strings.ReplaceAll(fn, modPath+"/", "")
		if !strings.Contains(fn, ".verif") {
			res.Functions = append(res.Functions, strings.Replace(fn, ".lift", ".", 1))
		}
	}
	sort.Strings(res.Functions)
	res.Quantities = d.n
	for _, m := range d.out {
		res.Bad = append(res.Bad, asmBad{m.what, m.where, m.why})
	}
	if total {
		bad, n := d.i.unproved(append(d.s.reqs, d.sPC()...))
		res.Obligations = n
		for _, b := range bad {
			res.Bad = append(res.Bad, asmBad{b.kind, b.where, "cannot be excluded that " + short(b.cond) + " fails"})
		}
	}
	return
}

// asmJob is the process of one job: asmjob FN SPEC MODE [r_x=n ...]
func asmJob(a []string) {
	withLift = true
	var res asmResult
	r := &Report{}
	if !worlds(r) {
		res.Err = r.violations[0].Msg
	} else {
		fix := map[string]int64{}
		for _, x := range a[3:] {
			i := strings.IndexByte(x, '=')
			n, _ := strconv.Atoi(x[i+1:])
			fix[x[:i]] = int64(n)
		}
		f, s := theRepo.fn(modPath+"/dsp", "lift"+a[0]), theSpec.fn("verif/analyzer/spec", a[1])
		switch {
		case f == nil:
			res.Err = "not found"
		case s == nil:
			fmt.Fprintln(os.Stderr, "missing specification", a[1])
			os.Exit(2)
		default:
			res = asmRun(theRepo, theSpec, f, s, fix, a[2] == "obl")
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

type asmItem struct{ fn, spec string }

// asmItems runs the jobs of the given routines.  want selects the obligations
// that belong to the property.
func asmItems(r *Report, items []asmItem, mode string, want func(kind string) bool) {
	_, lr, err := liftPackage()
	if err != nil {
		r.violate("assembly", "dsp", "the assembly cannot be read: %v", err)
		return
	}
	type job struct {
		it  asmItem
		fix string
		res asmResult
	}
	var jobs []*job
	for _, it := range items {
		d := lr.decls[it.fn]
		if d == nil || d.body {
			continue // plain Go: the portable items cover it
		}
		if e := lr.errs[it.fn]; e != "" {
			r.violate(it.fn+"/asm", d.where, "the assembly of %s cannot be followed: %s", it.fn, e)
			continue
		}
		if lr.texts[it.fn] == nil {
			r.violate(it.fn+"/asm", d.where, "%s has no body and no assembly on amd64", it.fn)
			continue
		}
		for _, m := range liftFixes(lr, it.fn) {
			var fs []string
			for k, v := range m {
				fs = append(fs, fmt.Sprintf("%s=%d", k, v))
			}
			sort.Strings(fs)
			jobs = append(jobs, &job{it: it, fix: strings.Join(fs, " ")})
		}
	}
	share := os.Getenv("AN_JOBS")
	var wg sync.WaitGroup
	slots := make(chan bool, runtime.NumCPU())
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			file := ""
			if share != "" {
				file = filepath.Join(share, keyOf(j.it.fn+" "+mode+" "+j.fix)+".json")
				if b, err := os.ReadFile(file); err == nil && json.Unmarshal(b, &j.res) == nil {
					return
				}
			}
			args := append([]string{"asmjob", j.it.fn, j.it.spec, mode}, strings.Fields(j.fix)...)
			c := exec.Command(os.Args[0], args...)
			var out bytes.Buffer
			c.Stdout, c.Stderr = &out, os.Stderr
			if err := c.Run(); err != nil || json.Unmarshal(out.Bytes(), &j.res) != nil {
				j.res = asmResult{Err: fmt.Sprintf("the analysis ended early: %v", err)}
				return
			}
			if file != "" && j.res.Err == "" && len(j.res.Bad) == 0 {
				// proved: the other search orders need not repeat it
				os.WriteFile(file+"."+os.Getenv("SHUFFLE"), out.Bytes(), 0o644)
				os.Rename(file+"."+os.Getenv("SHUFFLE"), file)
			}
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		name := "amd64 assembly " + j.it.fn
		if j.fix != "" {
			name += " with " + j.fix
		}
		res := ItemResult{Item: name, Quantities: j.res.Quantities, Functions: j.res.Functions}
		if mode == "obl" {
			res.Rule = "every memory access stays inside its slice, aligned accesses are aligned, and instruction sets are guarded by their feature"
		} else {
			res.Rule = "summary of the assembly of " + j.it.fn + " equals summary of reference " + j.it.spec
		}
		for _, f := range j.res.Functions {
			r.funcs[f] = true
		}
		if j.res.Err != "" {
			r.violate(j.it.fn+"/asm", "dsp", "the assembly of %s cannot be summarised: %s", j.it.fn, j.res.Err)
			continue
		}
		res.Obligations = j.res.Obligations
		res.Discharged = j.res.Obligations
		for _, b := range j.res.Bad {
			if mode == "obl" {
				res.Discharged--
				if !want(b.Kind) {
					continue
				}
			}
			w := b.Where
			if i := strings.Index(w, "/dsp/"); i >= 0 {
				w = w[i+1:]
			}
			al := ""
			if j.fix != "" {
				al = " (alignment " + j.fix + ")"
			}
			r.violate(j.it.fn+"/asm "+b.Kind, w, "assembly of %s: %s: %s%s", j.it.fn, b.Kind, b.Msg, al)
		}
		r.results = append(r.results, res)
	}
}
