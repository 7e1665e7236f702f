package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sfomuseum/go-edtf"

// World is the program under verification.
type World struct {
	repo    string
	verif   string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fset    *token.FileSet
	overlay map[string][]byte // generated files, by path

	gmu     sync.Mutex
	globals map[*ssa.Global]int
	nglob   int
	stdErrs map[string]int
	used    map[string]int  // models used
	execd   map[string]bool // functions of the repository that were executed

	inits []*ssa.Package // packages to initialize, in dependency order

	stop   atomic.Bool                    // a failing input is known: end all proofs
	onFail func(c *Contract, f *Failure)  // told of every failed obligation with a model
	onSlow func(c *Contract)              // told of every condition that takes long
	onDone func(c *Contract, r *VCResult) // told of every finished condition
}

func (w *World) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	if r, err := filepath.Rel(w.repo, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (w *World) typ(pkg, name string) types.Type {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s is not part of the program", pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		unsup("type %s.%s", pkg, name)
	}
	return o.Type()
}

func (w *World) errType() types.Type { return types.NewPointer(w.typ("errors", "errorString")) }

func (w *World) global(pkg, name string) *ssa.Global {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (w *World) stdErr(name string) int {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	if id, ok := w.stdErrs[name]; ok {
		return id
	}
	w.nglob--
	w.stdErrs[name] = w.nglob
	return w.nglob
}

func (w *World) useModel(name string) {
	w.gmu.Lock()
	w.used[name]++
	w.gmu.Unlock()
}

// libDirs are the packages of the repository that are verified: everything
// that is not a front end.
func libDirs(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		top := strings.Split(rel, string(filepath.Separator))[0]
		if rel != "." && (strings.HasPrefix(top, ".") || strings.HasPrefix(top, "_")) || top == "cmd" || top == "wasm" || top == "app" || top == "bin" || top == "docs" || top == "tests" || top == "testdata" || top == "vendor" {
			return filepath.SkipDir
		}
		fs, _ := filepath.Glob(filepath.Join(p, "*.go"))
		n := 0
		for _, f := range fs {
			b := filepath.Base(f)
			if !strings.HasSuffix(b, "_test.go") && b != "verif_contracts.go" {
				n++
			}
		}
		if n > 0 {
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// LoadWorld type-checks the current sources together with the generated files.
func LoadWorld(repo, verif string, overlay map[string][]byte, patterns []string) (*World, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
	}
	// the go.mod of the repository must stay as it is
	mf, cleanup, err := modCopy(repo)
	if err != nil {
		return nil, err
	}
	defer cleanup()
	cfg.BuildFlags = []string{"-modfile=" + mf}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{repo: repo, verif: verif, prog: prog, fset: prog.Fset, overlay: overlay, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, stdErrs: map[string]int{}, used: map[string]int{}, execd: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if w.isRepo(p.Path()) {
			if sp := w.pkgs[p.Path()]; sp != nil {
				w.inits = append(w.inits, sp)
			}
		}
	}
	texts := map[string]bool{}
	for _, p := range ps {
		visit(p.Types)
		if !w.isRepo(p.PkgPath) || strings.Contains(p.PkgPath, "/zz_verif") {
			continue
		}
		for i, f := range p.Syntax {
			if i < len(p.CompiledGoFiles) && strings.Contains(filepath.Base(p.CompiledGoFiles[i]), "verif") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) < 20 {
					if t, err := strconv.Unquote(l.Value); err == nil {
						texts[t] = true
					}
				}
				return true
			})
		}
	}
	repoTexts = nil
	for t := range texts {
		repoTexts = append(repoTexts, t)
	}
	sort.Strings(repoTexts)
	return w, nil
}

// modCopy makes copies of go.mod and go.sum outside of the repository.
func modCopy(repo string) (string, func(), error) {
	dir, err := os.MkdirTemp("", "verif-mod-")
	if err != nil {
		return "", nil, err
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, n), b, 0o644)
		}
		if err != nil && n == "go.mod" {
			return "", nil, err
		}
	}
	return filepath.Join(dir, "go.mod"), func() { os.RemoveAll(dir) }, nil
}

// writeOverlay writes the generated files and the JSON description the go
// command takes.
func writeOverlay(dir string, overlay map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	var names []string
	for p := range overlay {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%03d_%s", i, filepath.Base(p)))
		if err := os.WriteFile(f, overlay[p], 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

func (w *World) useFunc(f *ssa.Function) {
	if f.Pkg == nil || !w.isRepo(f.Pkg.Pkg.Path()) || strings.Contains(f.Pkg.Pkg.Path(), "/zz_verif") {
		return
	}
	n := strings.TrimPrefix(f.String(), modPath+"/")
	if strings.Contains(n, "ZZ") {
		return
	}
	w.gmu.Lock()
	w.execd[n] = true
	w.gmu.Unlock()
}

// funcs lists the functions of the repository that were executed.
func (w *World) funcs() []string {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	var out []string
	for f := range w.execd {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}
