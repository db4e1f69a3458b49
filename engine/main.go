package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func (w *Worker) setup() {
	w.tiFast = map[types.Type]*TI{}
	w.T = newTerms()
	w.reset()
}

// reset forgets all compiled code and the initial heap.
func (w *Worker) reset() {
	w.fns = nil
	w.fns = map[fnKey]*Fn{}
	w.globals = map[globalKey]*Obj{}
	w.meths = map[methKey]*Fn{}
	w.implCache = map[[2]*TI]bool{}
	w.initDone = map[string]bool{}
	w.undo = nil
	w.newFns = nil
	b := func(k types.BasicKind) *TI { return w.ti(types.Typ[k]) }
	w.tiByte, w.tiRune, w.tiInt, w.tiString, w.tiBool = b(types.Uint8), b(types.Int32), b(types.Int), b(types.String), b(types.Bool)
	w.tiRtErr = w.ti(w.eng.typeOf(symPath, "RuntimeError"))
	w.tiErrIf = w.ti(types.Universe.Lookup("error").Type())
}

// initHeap runs the package initialisers.
func (w *Worker) initHeap() {
	w.initing = true
	w.stepLimit = 1 << 60
	w.stepCheck = 1 << 60
	w.steps = 0
	w.gs = nil
	g := w.newG()
	w.g, w.mainG = g, g
	w.names = map[string]int{}
	w.ext = map[string]any{}
	w.model = &Model{}
	w.runInit(w.eng.root.Func("init"))
	w.initing = false
}

type harnessResult struct {
	h          *Harness
	ex         *Explorer
	dur        time.Duration
	violations []violation
	spurious   []violation
	validated  int
	mismatches []string
	missing    []string
	initNotes  []string
	known      []string
}

type violation struct {
	Harness string     `json:"harness"`
	Prop    string     `json:"property"`
	Kind    string     `json:"kind"`
	Msg     string     `json:"message"`
	Vars    []NamedVal `json:"vars"`
	Params  map[string]int64
	Native  string `json:"native_result"`
	File    string `json:"-"`
}

func (e *Engine) explore(h *Harness, pool []*Worker) *harnessResult {
	ex := &Explorer{eng: e, hn: h, cache: newQueryCache(), byKind: map[string]int64{}, reached: map[string]int64{}, cuts: map[string]int64{}, fns: map[string]int64{}, notes: map[string]bool{}, violKeys: map[string]bool{}, rnd: rand.New(rand.NewSource(e.seed))}
	ex.cond = sync.NewCond(&ex.mu)
	b := h.bounds
	if b.Steps == 0 {
		b.Steps = 20000000
	}
	if b.Seconds == 0 {
		b.Seconds = 120
	}
	if b.Paths == 0 {
		b.Paths = 1 << 50
	}
	if b.MaxDec == 0 {
		b.MaxDec = 4000
	}
	h.StepLimit, h.Random = b.Steps, b.Random
	ex.maxPaths, ex.maxDec, ex.maxViol = b.Paths, b.MaxDec, 4
	t0 := time.Now()
	ex.deadline = t0.Add(time.Duration(b.Seconds) * time.Second)
	ex.stack = []task{{}}
	done := make(chan struct{})
	go ex.watch(done)
	var wg sync.WaitGroup
	for _, w := range pool {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.ex = ex
			w.sol = newSolver(ex.cache, &ex.st, e.cross, &ex.errs)
			defer w.sol.close()
			for {
				t, ok := ex.pop()
				if !ok {
					return
				}
				w.runTask(t)
			}
		}()
	}
	wg.Wait()
	close(done)
	return &harnessResult{h: h, ex: ex, dur: time.Since(t0)}
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "harness ids (comma separated prefixes)")
	verif := flag.String("verif", "/verif", "directory of the machinery")
	repo := flag.String("repo", "/repo", "directory of the code")
	dbg := flag.Bool("v", false, "verbose")
	cross := flag.Bool("cross", false, "ask a second solver too")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	norep := flag.Bool("noreplay", false, "do not build the native replay")
	secs := flag.Int("t", 0, "override time limit per harness")
	prof := flag.String("cpuprofile", "", "")
	params := flag.String("p", "", "override parameters a=1,b=2")
	flag.BoolVar(&forkProf, "forks", false, "count where paths fork")
	dump := flag.Int("dump", 0, "print sample paths")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	e := &Engine{repo: *repo, verif: *verif, debug: *dbg, cross: *cross, workers: *workers, seed: 1}
	code := e.run(*prop, *tier, *only, *norep, *secs, *params, *dump)
	if forkProf {
		printForks()
	}
	if code != 0 {
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}

func (e *Engine) logf(f string, a ...any) {
	if e.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (e *Engine) run(prop, tier, only string, norep bool, secs int, params string, dump int) int {
	t0 := time.Now()
	all, err := readSpecs(e.verif)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var hs []*Harness
	for _, h := range all {
		if h.Prop != prop && prop != "all" || !h.inTier(tier) {
			continue
		}
		if only != "" {
			ok := false
			for _, o := range strings.Split(only, ",") {
				if strings.HasPrefix(h.ID, o) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		h.bounds = h.Quick
		if tier == "thorough" && (h.Thorough.Params != nil || h.Thorough.Seconds != 0) {
			h.bounds = h.Thorough
		}
		if secs > 0 {
			h.bounds.Seconds = secs
		}
		if params != "" {
			m := map[string]int64{}
			for k, v := range h.bounds.Params {
				m[k] = v
			}
			for _, kv := range strings.Split(params, ",") {
				var n int64
				i := strings.IndexByte(kv, '=')
				fmt.Sscan(kv[i+1:], &n)
				m[kv[:i]] = n
			}
			h.bounds.Params = m
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", prop, tier)
		return 2
	}
	// one load per set of build tags
	var results []*harnessResult
	done := map[string]bool{}
	for _, h := range hs {
		if done[h.tags()] {
			continue
		}
		done[h.tags()] = true
		var gr []*Harness
		for _, g := range hs {
			if g.tags() == h.tags() {
				gr = append(gr, g)
			}
		}
		ge := *e
		ge.tags = h.tags()
		rs, code := ge.runGroup(gr, norep, dump)
		if code != 0 {
			return code
		}
		results = append(results, rs...)
	}
	return e.report(prop, tier, results, time.Since(t0), norep)
}

func (h *Harness) tags() string {
	if h.Tags == "" {
		return "no_license"
	}
	return h.Tags
}

func (e *Engine) runGroup(hs []*Harness, norep bool, dump int) (results []*harnessResult, code int) {
	t0 := time.Now()
	pk := map[string]bool{}
	for _, h := range hs {
		pk[h.Pkg] = true
		e.skipInit = append(e.skipInit, h.SkipInit...)
		for _, p := range h.RunInit {
			if e.runInit == nil {
				e.runInit = map[string]bool{}
			}
			e.runInit[p] = true
		}
	}
	var pats []string
	for p := range pk {
		pats = append(pats, modPath+"/"+p)
	}
	sort.Strings(pats)
	rp := &replayer{e: e, hs: hs, pats: pats}
	repDone := make(chan error, 1)
	ensureMod(e.repo)
	if err := e.overlayFiles(); err != nil {
		fmt.Println("ERROR", err)
		return nil, 2
	}
	if !norep {
		late := false
		for _, h := range hs {
			late = late || len(h.RewriteImports) > 0
		}
		loaded := make(chan bool, 1)
		go func() {
			if late {
				if !<-loaded { // needs the types of packages
					repDone <- nil
					return
				}
			}
			repDone <- rp.build()
		}()
		rp.loaded = loaded
		defer rp.cleanup()
	}
	// the package whose initialiser brings in everything
	if err := e.load(pats); err != nil {
		fmt.Println("ERROR", err)
		if !norep {
			rp.loaded <- false
			<-repDone
		}
		return nil, 2
	}
	e.logf("loaded in %v", time.Since(t0))
	if !norep {
		rp.loaded <- true
	}
	pool := make([]*Worker, e.workers)
	for i := range pool {
		pool[i] = &Worker{eng: e, id: i}
		pool[i].tiFast = map[types.Type]*TI{}
		pool[i].T = newTerms()
	}
	lastKey := ""
	for _, h := range hs {
		p := e.pkgs[modPath+"/"+h.Pkg]
		if p == nil || p.Func(h.Fn) == nil {
			fmt.Println("ERROR harness function not found:", h.Pkg, h.Fn)
			return nil, 2
		}
		h.fn = p.Func(h.Fn)
		key := strings.Join(h.Groups, ",") + "|" + h.Pkg + fmt.Sprint(h.NoMerge)
		if key != lastKey {
			lastKey = key
			t1 := time.Now()
			e.noMerge = h.NoMerge
			e.root = p
			e.initNotes = nil
			if err := e.selectSubsts(h.Groups); err != nil {
				fmt.Println("ERROR", err)
				return nil, 2
			}
			var wg sync.WaitGroup
			for _, w := range pool {
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.reset()
					w.initHeap()
				}()
			}
			wg.Wait()
			e.logf("initialised in %v; %d initialiser parts not run", time.Since(t1), len(e.initNotes))
			if e.debug && os.Getenv("INITNOTES") != "" {
				for _, n := range e.initNotes {
					e.logf("  %s", firstLine(n))
				}
			}
		}
		r := e.explore(h, pool)
		for _, n := range e.initNotes {
			if strings.HasPrefix(n, modPath) {
				r.initNotes = append(r.initNotes, firstLine(n))
			}
		}
		for _, l := range h.Reach {
			if r.ex.reached[l] == 0 {
				r.missing = append(r.missing, l)
			}
		}
		results = append(results, r)
		ex := r.ex
		e.logf("%s: %v paths=%d %v steps=%d dec=%d q=%d hit=%d solved=%d solver=%v unk=%d left=%d reach=%v", h.ID, r.dur.Round(time.Millisecond), ex.paths, ex.byKind, ex.steps, ex.decisions, ex.st.Queries, ex.st.CacheHits, ex.st.Solved, time.Duration(ex.st.Nanos).Round(time.Millisecond), ex.st.Unknown, ex.pendLeft, ex.reached)
		for k, n := range ex.cuts {
			e.logf("   cut %d× %s", n, k)
		}
		for _, s := range ex.errs.s {
			e.logf("   err %s", s)
		}
		for _, v := range ex.violations {
			e.logf("   VIOL %s %s", v.Kind, v.Msg)
			if len(v.Vars) < 200 {
				var sb bytes.Buffer
				for _, x := range v.Vars {
					fmt.Fprintf(&sb, " %s=%d", x.Name, x.Val)
				}
				e.logf("       %s", sb.String())
			}
		}
		for i, s := range ex.samples {
			if i < dump {
				e.logf("   SAMPLE %v %v", s.Vars, s.Obs)
			}
		}
	}
	if !norep {
		if err := <-repDone; err != nil {
			fmt.Println("ERROR replay build:", err)
			return nil, 2
		}
		for _, r := range results {
			rp.check(r)
			e.logf("%s: validated %d sampled paths natively, %d mismatches", r.h.ID, r.validated, len(r.mismatches))
			for _, m := range r.mismatches {
				e.logf("   MISMATCH %s", m)
			}
		}
	}
	return results, 0
}

func (e *Engine) report(prop, tier string, rs []*harnessResult, dur time.Duration, norep bool) int {
	evDir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(evDir, 0755)
	code := 0
	for _, r := range rs {
		for _, k := range r.known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.h.Prop, k)
		}
		for i, v := range r.violations {
			f := filepath.Join(evDir, fmt.Sprintf("%s-replay-%d.json", r.h.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0644)
			fmt.Printf("%s: %s: %s\n  native run: %s\n", r.h.ID, v.Kind, firstLine(v.Msg), firstLine(v.Native))
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.h.Prop, f)
			code = 1
		}
		if norep && len(r.ex.violations) > 0 {
			code = 3
		}
		for _, v := range r.spurious {
			fmt.Printf("note: %s: not reproduced natively, not reported: %s: %s (native: %s)\n", r.h.ID, v.Kind, firstLine(v.Msg), firstLine(v.Native))
		}
		for _, m := range r.missing {
			fmt.Printf("note: %s: label %q was not reached\n", r.h.ID, m)
		}
		for _, m := range r.mismatches {
			fmt.Printf("note: %s: sampled path differs natively: %s\n", r.h.ID, m)
		}
		ex := r.ex
		st := "complete"
		if ex.timedOut || ex.pendLeft > 0 {
			st = fmt.Sprintf("TRUNCATED with %d pending", ex.pendLeft)
		}
		fmt.Printf("%s: %d paths (%v), %d assertions, %d solver queries (%d sent, %.1fs), %s, %.1fs\n", r.h.ID, ex.paths, kinds(ex.byKind), ex.asserts, ex.st.Queries, ex.st.Solved, float64(ex.st.Nanos)/1e9, st, r.dur.Seconds())
		for k, n := range ex.cuts {
			fmt.Printf("  cut: %d× %s\n", n, k)
		}
	}
	if prop != "all" {
		e.writeEvidence(prop, tier, rs, dur)
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s %.1fs\n", prop, tier, dur.Seconds())
	}
	return code
}

func kinds(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for i, k := range ks {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%s:%d", k, m[k])
	}
	return s
}

var _ = context.Background
var _ = exec.Command
