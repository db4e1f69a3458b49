package main

// Loading of the repository with the harness files laid over it.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pinpt/ripsrc"
const symPath = modPath + "/ripsrc/verifsym"

// Harness is one symbolic driver: a Go function and the bounds it runs under.
type Harness struct {
	ID     string   `json:"id"`
	Prop   string   `json:"prop"`
	Pkg    string   `json:"pkg"`
	Fn     string   `json:"fn"`
	Tiers  []string `json:"tiers"`  // quick, thorough (default both)
	Groups []string `json:"groups"` // substitution groups
	Reach  []string `json:"reach"`  // labels that must be reached
	Covers string   `json:"covers"` // what it decides, with bounds
	// bounds
	Quick    Bounds            `json:"quick"`
	Thorough Bounds            `json:"thorough"`
	Env      map[string]string `json:"env"`
	NoReplay bool              `json:"noreplay"`
	NoMerge  bool              `json:"nomerge"`
	// packages that natively get the file system of the model, or an os.Exit
	// that the harness sees
	RewriteFS   []string `json:"rewrite_fs"`
	RewriteExit []string `json:"rewrite_exit"`
	// imports of a package that get the substitutes natively too
	RewriteImports map[string][]string `json:"rewrite_imports"`
	SkipInit       []string            `json:"skip_init"` // packages, by prefix
	RunInit        []string            `json:"run_init"`  // packages otherwise skipped
	SymFmt         bool                `json:"symfmt"`    // numbers are formatted without choosing a value
	Tags           string              `json:"tags"`

	fn        *ssa.Function
	StepLimit int64 `json:"-"`
	Random    bool  `json:"-"`
	bounds    Bounds
}

type Bounds struct {
	Params   map[string]int64 `json:"params"`
	Steps    int64            `json:"steps"`
	Seconds  int              `json:"seconds"`
	Paths    int64            `json:"paths"`
	MaxDec   int              `json:"decisions"`
	MayTrunc bool             `json:"may_truncate"`
	Random   bool             `json:"random"`
}

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	substs    map[string]*ssa.Function
	noMerge   bool
	repo      string
	verif     string
	overlay   map[string][]byte
	ovFiles   map[string]string // path in the repository -> real file
	inits     []*ssa.Package
	root      *ssa.Package
	initNotes []string
	skipInit  []string
	runInit   map[string]bool
	debug     bool
	tags      string
	cross     bool
	seed      int64
	workers   int
	// substitution directives: group -> name -> function object
	directives []directive
}

type directive struct {
	group, name string
	pkg, fn     string
}

func (e *Engine) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if o := f.Origin(); o != nil {
			p = o.Pkg
		}
		if p == nil {
			if ob := f.Object(); ob != nil && ob.Pkg() != nil {
				return e.repoPkg(ob.Pkg().Path()) && !e.harnessFile(f)
			}
			return false
		}
	}
	return e.repoPkg(p.Pkg.Path()) && !e.harnessFile(f)
}

func (e *Engine) repoPkg(p string) bool {
	return strings.HasPrefix(p, modPath) && p != symPath
}

func (e *Engine) harnessFile(f *ssa.Function) bool {
	pos := e.prog.Fset.Position(f.Pos())
	_, ok := e.ovFiles[pos.Filename]
	return ok
}

// overlayFiles maps every harness source to the place it takes in the repository.
func (e *Engine) overlayFiles() error {
	e.overlay = map[string][]byte{}
	e.ovFiles = map[string]string{}
	dir := filepath.Join(e.verif, "harness")
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		into := ""
		sc := bufio.NewScanner(strings.NewReader(string(b)))
		for sc.Scan() {
			if strings.HasPrefix(sc.Text(), "//sym:into ") {
				into = strings.TrimSpace(sc.Text()[len("//sym:into "):])
				break
			}
			if strings.HasPrefix(sc.Text(), "package ") {
				break
			}
		}
		if into == "" {
			return nil
		}
		dst := filepath.Join(e.repo, into, "zz_sym_"+filepath.Base(p))
		e.overlay[dst] = b
		e.ovFiles[dst] = p
		return nil
	})
}

func goEnv(repo string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv
		if i := strings.IndexByte(kv, '='); i >= 0 {
			k = kv[:i]
		}
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "PWD="+repo)
	return env
}

func ensureMod(repo string) {
	for _, f := range []string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(repo, f)); err != nil {
			b, err := os.ReadFile(filepath.Join("/opt/vp/mod", f))
			if err == nil {
				os.WriteFile(filepath.Join(repo, f), b, 0644)
			}
		}
	}
}

func (e *Engine) load(patterns []string) error {
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:        e.repo,
		Env:        goEnv(e.repo),
		BuildFlags: []string{"-tags", e.tags},
		Overlay:    e.overlay,
	}
	patterns = append([]string{symPath}, patterns...)
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
		for i, f := range p.Syntax {
			_ = i
			e.collectDirectives(p, f)
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	prog.Build()
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.inits = spkgs
	return nil
}

func (e *Engine) collectDirectives(p *packages.Package, f *ast.File) {
	if !strings.HasPrefix(p.PkgPath, modPath) {
		return
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, "//sym:subst") {
				continue
			}
			fs := strings.Fields(c.Text)
			grp := ""
			if i := strings.IndexByte(fs[0], '['); i >= 0 {
				grp = strings.Trim(fs[0][i:], "[]")
			}
			for _, n := range fs[1:] {
				e.directives = append(e.directives, directive{grp, n, p.PkgPath, fd.Name.Name})
			}
		}
	}
}

// selectSubsts activates the substitutions of the given groups ("" always).
func (e *Engine) selectSubsts(groups []string) error {
	on := map[string]bool{"": true}
	for _, g := range groups {
		on[g] = true
	}
	e.substs = map[string]*ssa.Function{}
	for _, d := range e.directives {
		if !on[d.group] {
			continue
		}
		p := e.pkgs[d.pkg]
		f := p.Func(d.fn)
		if f == nil {
			return fmt.Errorf("substitute %s not found", d.fn)
		}
		e.substs[d.name] = f
	}
	return nil
}

func readSpecs(verif string) ([]*Harness, error) {
	var all []*Harness
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "specs", "*.json"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var hs []*Harness
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.DisallowUnknownFields()
		if err := d.Decode(&hs); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		all = append(all, hs...)
	}
	return all, nil
}

func (h *Harness) inTier(t string) bool {
	if len(h.Tiers) == 0 {
		return true
	}
	for _, x := range h.Tiers {
		if x == t {
			return true
		}
	}
	return false
}

var _ = types.Universe
