package main

// Loading /repo (and the reference specifications) as type-checked SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/samuel/go-dsp"

var repoDir = "/repo"
var verifDir = "/verif"

func init() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
}

type World struct {
	arch, goos string
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	src        map[string]*packages.Package
	errs       []string
	mutable    map[string]bool
}

func baseEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
	return append(env, extra...)
}

// overlay gives /repo a module file of its own and adds the drivers: small
// functions in the repository's packages that call only what users call.
func overlay() (map[string][]byte, error) {
	ov, err := overlayBase()
	if err != nil {
		return nil, err
	}
	fs, err := filepath.Glob(filepath.Join(verifDir, "analyzer/drivers/*.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		// drivers/dsp_dtmf_x.go.txt -> dsp/dtmf/zz_verif_x.go
		parts := strings.Split(strings.TrimSuffix(filepath.Base(f), ".go.txt"), "_")
		d := filepath.Join(append([]string{repoDir}, parts[:len(parts)-1]...)...)
		if _, err := os.Stat(d); err != nil {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(d, "zz_verif_"+parts[len(parts)-1]+".go")] = b
	}
	if withLift {
		src, r, err := liftPackage()
		if err != nil {
			return nil, err
		}
		lifted = r
		ov[filepath.Join(repoDir, "dsp/zz_verif_lift.go")] = src
	}
	return ov, nil
}

func overlayBase() (map[string][]byte, error) {
	ov := map[string][]byte{}
	tmpl, err := os.ReadFile(filepath.Join(verifDir, "analyzer/stubs/repo.mod"))
	if err != nil {
		return nil, err
	}
	if _, err := os.Stat(filepath.Join(repoDir, "go.mod")); err != nil {
		ov[filepath.Join(repoDir, "go.mod")] = []byte(strings.ReplaceAll(string(tmpl), "RTLDIR", filepath.Join(verifDir, "analyzer/stubs/go-rtlsdr")))
	}
	return ov, nil
}

// withLift adds the amd64 assembly of package dsp, rewritten in Go.
var withLift = false

// loadRepo type-checks the given package patterns of /repo.
func loadRepo(goos, arch string, patterns ...string) (*World, error) {
	ov, err := overlay()
	if err != nil {
		return nil, err
	}
	w := &World{arch: arch, goos: goos, fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Env:        baseEnv("GOOS="+goos, "GOARCH="+arch),
		Fset:       w.fset,
		BuildFlags: []string{"-mod=readonly"},
		Overlay:    ov,
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	// a driver that no longer fits the repository is left out: what needs it
	// reports that, and nothing else
	out := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				if m := reDriver.FindString(e.Pos + e.Msg); m != "" {
					delete(ov, m)
					out = true
				}
			}
		}
	})
	if out {
		if ps, err = packages.Load(cfg, patterns...); err != nil {
			return nil, err
		}
	}
	return w, w.build(ps)
}

var reDriver = regexp.MustCompile(`/[^ :]*/zz_verif_\w+\.go`)

func loadSpec() (*World, error) {
	w := &World{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        filepath.Join(verifDir, "analyzer"),
		Env:        baseEnv("GOOS=linux", "GOARCH=amd64"),
		Fset:       w.fset,
		BuildFlags: []string{"-mod=vendor"},
	}
	ps, err := packages.Load(cfg, "./spec")
	if err != nil {
		return nil, err
	}
	return w, w.build(ps)
}

func (w *World) build(ps []*packages.Package) error {
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || strings.HasPrefix(p.PkgPath, "verif/") {
			for _, e := range p.Errors {
				w.errs = append(w.errs, e.Error())
			}
		}
	})
	sort.Strings(w.errs)
	if len(w.errs) > 0 {
		return fmt.Errorf("type checking: %s", strings.Join(w.errs, "; "))
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	for i, p := range ps {
		if sps[i] == nil {
			continue
		}
		w.pkgs[p.PkgPath] = sps[i]
		w.src[p.PkgPath] = p
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) && w.pkgs[p.PkgPath] == nil {
			if sp := prog.Package(p.Types); sp != nil {
				w.pkgs[p.PkgPath] = sp
				w.src[p.PkgPath] = p
			}
		}
	})
	for _, sp := range w.pkgs {
		sp.Build()
	}
	return nil
}

// fn finds a function or method ("Name" or "Type.Name") of a package.
func (w *World) fn(pkg, name string) *ssa.Function {
	sp := w.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn := sp.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			if f := w.prog.LookupMethod(t, sp.Pkg, name[i+1:]); f != nil && f.Synthetic == "" {
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

// funcsOf lists the package-level functions and methods with source.
func (w *World) funcsOf(pkg string) []*ssa.Function {
	var out []*ssa.Function
	p := w.src[pkg]
	if p == nil {
		return nil
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					if fn := w.prog.FuncValue(o); fn != nil {
						out = append(out, fn)
					}
				}
			}
		}
	}
	return out
}
