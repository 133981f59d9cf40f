package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); w.Close() })
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: analyzer check ID | diff pkg impl spec")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		if _, child := os.LookupEnv("SHUFFLE"); child {
			os.Exit(checkMain(os.Args[2]))
		}
		os.Exit(superviseMain(os.Args[2]))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "asmjob":
		asmJob(os.Args[2:])
	case "lift":
		liftMain()
	case "diff":
		diffMain(os.Args[2:])
	}
}

func diffMain(a []string) {
	t0 := time.Now()
	var o Opts
	self := false
	for len(a) > 0 && strings.HasPrefix(a[0], "-") {
		switch {
		case a[0] == "-s":
			self = true
		case a[0] == "-r":
			o.results = true
		case a[0] == "-asm":
			withLift = true
		case a[0] == "-g":
			o.settle, o.strict = true, true
		case a[0] == "-G":
			o.strict = true
		case a[0] == "-t":
			o.total, o.nan = true, true
		case a[0] == "-l":
			debugLoops = true
		case a[0] == "-e":
			debugEq = true
		case strings.HasPrefix(a[0], "-a"):
			var x, y int
			fmt.Sscanf(a[0], "-a%d=%d", &x, &y)
			o.alias = map[int]int{x: y}
		}
		a = a[1:]
	}
	_ = strconv.Itoa
	iw, err := loadRepo("linux", "amd64", patterns(a[0])...)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sw, err := loadSpec()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	sp := "verif/analyzer/spec"
	if self {
		sw, sp = iw, modPath+"/"+a[0]
	}
	for i := 1; i+1 < len(a); i += 2 {
		t0 = time.Now()
		pkg := modPath + "/" + a[0]
		f, s := iw.fn(pkg, a[i]), sw.fn(sp, a[i+1])
		if f == nil || s == nil {
			fmt.Println("missing", a[i], f, a[i+1], s)
			continue
		}
		if lifted != nil && strings.HasPrefix(f.Name(), "lift") {
			for _, m := range liftFixes(lifted, f.Name()[4:]) {
				t0 = time.Now()
				res := asmRun(iw, sw, f, s, m, o.total)
				fmt.Printf("%s %v: %d compared, %d mismatches, obligations %d, %v\n", a[i], m, res.Quantities, len(res.Bad), res.Obligations, time.Since(t0))
				for _, b := range res.Bad {
					fmt.Println("   ", b)
				}
			}
			continue
		}
		d, err := diffFuncs(iw, sw, f, s, o)
		if err != nil {
			fmt.Println(a[i], "ERROR", err)
			continue
		}
		nanAware = o.nan
		bad, n := d.i.unproved(append(d.s.reqs, d.sPC()...))
		fmt.Printf("%s: %d mismatches, %d compared, obligations %d/%d unproved, cases %d, %v\n", a[i], len(d.out), d.n, len(bad), n, 0, time.Since(t0))
		for _, m := range d.out {
			fmt.Println("   ", m.what, "|", m.where, "|", m.why)
		}
		for _, b := range bad {
			fmt.Println("    OBL", b.where, b.kind, b.cond, "given", b.pc)
		}
	}
}

func (d *Diff) sPC() []*Term {
	if d.s.st == nil {
		return nil
	}
	return d.s.st.all()
}

func patterns(pkg string) []string {
	if pkg == "boripserver" {
		return []string{"./dsp/...", "./boripserver"}
	}
	return []string{"./dsp/...", "./borip/..."}
}
