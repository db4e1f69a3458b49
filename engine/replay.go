package main

// Native replay: the same harness compiled by the Go tool chain and run on
// the values the solver chose.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replayer struct {
	e      *Engine
	hs     []*Harness
	pats   []string
	dir    string
	bin    string
	loaded chan bool
	vos    bool // the file system of the model natively
}

type replayInput struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Vars    map[string]int64 `json:"vars"`
}

func (r *replayer) build() error {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return err
	}
	r.dir = d
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + symPath + "\"\n")
	alias := map[string]string{}
	for i, p := range r.pats {
		alias[p] = fmt.Sprintf("p%d", i)
		fmt.Fprintf(&sb, "\t%s %q\n", alias[p], p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tverifsym.Main(map[string]func(){\n")
	for _, h := range r.hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.ID, alias[modPath+"/"+h.Pkg], h.Fn)
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(d, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0644); err != nil {
		return err
	}
	rep := map[string]string{}
	for dst, src := range r.e.ovFiles {
		rep[dst] = src
	}
	rep[filepath.Join(r.e.repo, "zz_symreplay", "main.go")] = mainFile
	rw, err := r.rewrites(d)
	if err != nil {
		return err
	}
	for k, v := range rw {
		rep[k] = v
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, ob, 0644)
	r.bin = filepath.Join(d, "replay")
	cmd := exec.Command("go", "build", "-tags", r.e.tags, "-overlay", of, "-o", r.bin, "./zz_symreplay")
	cmd.Dir = r.e.repo
	cmd.Env = goEnv(r.e.repo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	// a git that answers from the harness's model
	os.MkdirAll(filepath.Join(d, "bin"), 0755)
	return os.Symlink(r.bin, filepath.Join(d, "bin", "git"))
}

func (r *replayer) cleanup() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

type nativeResult struct {
	kind string // ok, assert, panic, crash, deadlock, assume, error
	msg  string
	obs  []string
	out  string
}

func (r *replayer) run(h *Harness, vars []NamedVal, try int) nativeResult {
	in := replayInput{Harness: h.ID, Params: h.bounds.Params, Vars: map[string]int64{}}
	for _, v := range vars {
		in.Vars[v.Name] = v.Val
	}
	d, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return nativeResult{kind: "error", msg: err.Error()}
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(in)
	f := filepath.Join(d, "in.json")
	os.WriteFile(f, b, 0644)
	obs := filepath.Join(d, "obs")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin)
	tmp := filepath.Join(d, "tmp")
	os.MkdirAll(tmp, 0755)
	cmd.Dir = tmp
	env := []string{"PATH=" + filepath.Join(r.dir, "bin") + ":/usr/bin:/bin", "HOME=" + tmp, "TMPDIR=" + tmp, "TZ=UTC", "SYM_REPLAY=" + f, "SYM_OUT=" + obs, "SYM_REPO=" + r.e.repo, "GODEBUG=", "GOTRACEBACK=single"}
	if r.vos {
		env = append(env, "SYM_VOS=1")
	}
	switch try % 4 {
	case 1:
		env = append(env, "GOMAXPROCS=1")
	case 2:
		env = append(env, "GOMAXPROCS=2")
	}
	cmd.Env = env
	cmd.WaitDelay = time.Second
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	res := nativeResult{out: out.String()}
	ob, _ := os.ReadFile(obs)
	for _, l := range strings.Split(string(ob), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			res.obs = append(res.obs, l[4:])
		case strings.HasPrefix(l, "ASSERT "):
			res.kind, res.msg = "assert", l[7:]
		case strings.HasPrefix(l, "ASSUME"):
			res.kind = "assume"
		case strings.HasPrefix(l, "PANIC "):
			res.kind, res.msg = "panic", l[6:]
		case strings.HasPrefix(l, "OK"):
			res.kind = "ok"
		case strings.HasPrefix(l, "MISSING "):
			res.kind, res.msg = "error", "no value for "+l[8:]
		}
	}
	if res.kind == "" {
		switch {
		case ctx.Err() != nil:
			res.kind, res.msg = "deadlock", "still running after 20 s"
		case strings.Contains(res.out, "all goroutines are asleep"):
			res.kind, res.msg = "deadlock", "all goroutines are asleep"
		case strings.Contains(res.out, "panic:") || strings.Contains(res.out, "fatal error:"):
			res.kind = "panic"
			for _, l := range strings.Split(res.out, "\n") {
				if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
					res.msg = l
					break
				}
			}
		default:
			res.kind, res.msg = "error", fmt.Sprintf("%v: %s", err, tail(res.out, 300))
		}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// check replays violations and a sample of passing paths.
func (r *replayer) check(hr *harnessResult) {
	h := hr.h
	for _, v := range hr.ex.violations {
		var last nativeResult
		ok := false
		tries := 1
		if h.usesOrder(v.Vars) {
			tries = 200
		}
		if h.NoReplay {
			tries = 0
			last = nativeResult{kind: "none", msg: "this harness has no native counterpart"}
		}
		sem := make(chan struct{}, 8)
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < tries; i++ {
			mu.Lock()
			stop := ok
			mu.Unlock()
			if stop {
				break
			}
			sem <- struct{}{}
			wg.Add(1)
			go func(i int) {
				defer func() { <-sem; wg.Done() }()
				res := r.run(h, v.Vars, i)
				mu.Lock()
				defer mu.Unlock()
				if !ok {
					last = res
				}
				switch res.kind {
				case "assert", "panic", "deadlock":
					ok = true
				}
			}(i)
		}
		wg.Wait()
		x := violation{Harness: h.ID, Prop: h.Prop, Kind: v.Kind, Msg: v.Msg, Vars: v.Vars, Params: h.bounds.Params, Native: last.kind + ": " + last.msg}
		if ok {
			hr.violations = append(hr.violations, x)
		} else {
			hr.spurious = append(hr.spurious, x)
		}
	}
	if h.NoReplay {
		return
	}
	// passing paths: same values natively must pass with the same observations
	n := len(hr.ex.samples)
	if n > 12 {
		n = 12
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	step := 1
	if len(hr.ex.samples) > n {
		step = len(hr.ex.samples) / n
	}
	for k := 0; k < n; k++ {
		s := hr.ex.samples[k*step]
		if h.usesOrder(s.Vars) {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			res := r.run(h, s.Vars, 0)
			mu.Lock()
			defer mu.Unlock()
			hr.validated++
			if res.kind != "ok" {
				hr.mismatches = append(hr.mismatches, "native "+res.kind+" "+res.msg+" "+strings.ReplaceAll(tail(res.out, 400), "\n", " | "))
				return
			}
			a, b := strings.Join(s.Obs, "\n"), strings.Join(res.obs, "\n")
			if a != b {
				hr.mismatches = append(hr.mismatches, fmt.Sprintf("symbolic %q native %q for %v", a, b, s.Vars))
			}
		}()
	}
	wg.Wait()
}

// usesOrder tells whether the path depended on scheduling or map order choices.
func (h *Harness) usesOrder(vs []NamedVal) bool {
	for _, v := range vs {
		if strings.HasPrefix(v.Name, "sched") || strings.HasPrefix(v.Name, "maporder") || strings.HasPrefix(v.Name, "maprot") {
			return true
		}
	}
	return false
}

// rewrites returns replacement files for the native build: copies of the
// sources of some packages that import stand-ins for os, io/ioutil and
// compress/gzip.
func (r *replayer) rewrites(dir string) (map[string]string, error) {
	rep := map[string]string{}
	kinds := map[string]map[string]string{}
	add := func(pkgs []string, m map[string]string) {
		for _, p := range pkgs {
			kinds[p] = m
		}
	}
	sp := symPath
	for _, h := range r.hs {
		add(h.RewriteExit, map[string]string{"os": sp + "/xos"})
		add(h.RewriteFS, map[string]string{"os": sp + "/vos", "io/ioutil": sp + "/vioutil", "compress/gzip": sp + "/vgzip", "path/filepath": sp + "/vfilepath"})
		r.vos = r.vos || len(h.RewriteFS) > 0
	}
	imports := map[string]bool{}
	for _, h := range r.hs {
		for p, is := range h.RewriteImports {
			m := map[string]string{}
			for _, i := range is {
				m[i] = sp + "/" + shimName(i)
				imports[i] = true
			}
			add([]string{p}, m)
		}
	}
	if len(kinds) == 0 {
		return nil, nil
	}
	base := filepath.Join(r.e.repo, strings.TrimPrefix(sp, modPath+"/"))
	put := func(name, text string) error {
		f := filepath.Join(dir, name+".go")
		rep[filepath.Join(base, name, name+".go")] = f
		return os.WriteFile(f, []byte(text), 0644)
	}
	fs := map[string]string{}
	for _, n := range []string{"Open", "Create", "OpenFile", "ReadFile", "WriteFile", "ReadDir", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "Stat", "CreateTemp", "MkdirTemp", "TempDir", "Getwd", "Chdir", "Chmod", "Truncate", "SameFile"} {
		fs[n] = "var " + n + " = vs.V" + n
	}
	fs["Lstat"] = "var Lstat = vs.VStat"
	fs["File"] = "type File = vs.VFile"
	for i, n := range []string{"Stdout", "Stderr", "Stdin"} {
		fs[n] = fmt.Sprintf("var %s = vs.VStd(%d)", n, i+1)
	}
	fs["Exit"] = "var Exit = vs.VExit"
	texts := []struct {
		name, path string
		m          map[string]string
	}{
		{"vos", "os", fs},
		{"vioutil", "io/ioutil", map[string]string{
			"ReadFile": fs["ReadFile"], "WriteFile": fs["WriteFile"], "ReadDir": "var ReadDir = vs.VReadDirInfo",
			"TempFile": "var TempFile = vs.VCreateTemp", "TempDir": "var TempDir = vs.VMkdirTemp"}},
		{"vgzip", "compress/gzip", map[string]string{
			"Writer": "type Writer = vs.VGzipWriter", "Reader": "type Reader = vs.VGzipReader",
			"NewWriter": "var NewWriter = vs.VGzipNewWriter", "NewReader": "var NewReader = vs.VGzipNewReader",
			"NewWriterLevel": "var NewWriterLevel = vs.VGzipNewWriterLevel"}},
		{"vfilepath", "path/filepath", map[string]string{"Abs": "var Abs = vs.VAbs", "EvalSymlinks": "var EvalSymlinks = vs.VEvalSymlinks",
			"Walk": "var Walk = vs.VWalk", "WalkDir": "var WalkDir = vs.VWalkDir", "Glob": "var Glob = vs.VGlob"}},
		{"xos", "os", map[string]string{"Exit": fs["Exit"]}},
	}
	for _, t := range texts {
		s, err := r.e.shim(t.name, t.path, t.m)
		if err != nil {
			return nil, err
		}
		if err := put(t.name, s); err != nil {
			return nil, err
		}
	}
	for i := range imports {
		m := map[string]string{}
		from := sp
		for _, d := range r.e.directives {
			if strings.HasPrefix(d.name, i+".") {
				m[d.name[len(i)+1:]] = "var " + d.name[len(i)+1:] + " = vs." + d.fn
				from = d.pkg
			}
		}
		s, err := r.e.shim(shimName(i), i, m)
		if err != nil {
			return nil, err
		}
		s = strings.Replace(s, strconv.Quote(sp), strconv.Quote(from), 1)
		if from != sp {
			s = strings.Replace(s, "var _ = vs.Symbolic\n", "", 1)
		}
		if err := put(shimName(i), s); err != nil {
			return nil, err
		}
	}
	for p, m := range kinds {
		files, _ := filepath.Glob(filepath.Join(r.e.repo, p, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
			if err != nil {
				return nil, err
			}
			text, changed := string(src), false
			for i := len(af.Imports) - 1; i >= 0; i-- {
				im := af.Imports[i]
				ip, _ := strconv.Unquote(im.Path.Value)
				to, ok := m[ip]
				if !ok {
					continue
				}
				changed = true
				lo, hi := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
				name := ""
				if im.Name == nil {
					name = filepath.Base(ip) + " "
					if sp := r.e.pkgs[ip]; imports[ip] && sp != nil {
						name = sp.Pkg.Name() + " "
					}
				}
				text = text[:lo] + name + strconv.Quote(to) + text[hi:]
			}
			if !changed {
				continue
			}
			out := filepath.Join(dir, strings.ReplaceAll(p, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(out, []byte(text), 0644); err != nil {
				return nil, err
			}
			rep[f] = out
		}
	}
	return rep, nil
}

func shimName(path string) string {
	s := "x"
	for _, c := range path {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			s += string(c)
		}
	}
	return s
}

// shim is a package with the exported names of another one, some replaced.
func (e *Engine) shim(name, path string, repl map[string]string) (string, error) {
	var sb strings.Builder
	var p *types.Package
	if sp := e.pkgs[path]; sp != nil && strings.Contains(path, ".") {
		p = sp.Pkg
	} else {
		var err error
		p, err = importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
		if err != nil {
			return "", err
		}
	}
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\torig %q\n\tvs %q\n)\n\nvar _ = vs.Symbolic\n", name, path, symPath)
	sc := p.Scope()
	used := false
	for _, n := range sc.Names() {
		if !token.IsExported(n) {
			continue
		}
		if r, ok := repl[n]; ok {
			sb.WriteString(r + "\n")
			continue
		}
		used = true
		switch sc.Lookup(n).(type) {
		case *types.TypeName:
			fmt.Fprintf(&sb, "type %s = orig.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = orig.%s\n", n, n)
		case *types.Func, *types.Var:
			fmt.Fprintf(&sb, "var %s = orig.%s\n", n, n)
		}
	}
	s := sb.String()
	if !used {
		s = strings.Replace(s, fmt.Sprintf("\torig %q\n", path), "", 1)
	}
	return s, nil
}
