package main

// Path exploration: replay of decision prefixes, one solver query per new
// branch side, work shared between workers.

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// dec is one recorded decision. kind: 'b' branch, 'v' value of a concretised
// term (val), taken tells whether the term equals val.
type dec struct {
	val    uint64
	isVal  bool
	taken  bool
	forced bool
}

type task struct {
	prefix []dec
	model  []uint64
}

type outcome struct {
	kind string // ok, assert, panic, deadlock, crash, assume, bound, unsupported, internal
	msg  string
	term *Term
}

type varInfo struct {
	name string
	w    uint8
	lo   int64 // value shown = lo + v
}

// PathResult is what one explored path left behind.
type PathResult struct {
	Kind  string
	Msg   string
	Vars  []NamedVal
	Obs   []string
	Steps int64
	Id    int64
}

type NamedVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type Explorer struct {
	eng  *Engine
	hn   *Harness
	mu   sync.Mutex
	cond *sync.Cond

	stack   []task
	running int
	stop    bool

	cache *queryCache
	st    SolverStats
	errs  errLog

	paths      int64
	byKind     map[string]int64
	violations []PathResult
	samples    []PathResult
	reached    map[string]int64
	cuts       map[string]int64
	asserts    int64 // assertion obligations decided by the solver or by the path
	assertsSym int64
	fns        map[string]int64
	steps      int64
	deadline   time.Time
	maxViol    int
	timedOut   bool
	halt       int32
	pendLeft   int
	maxPaths   int64
	maxDec     int
	notes      map[string]bool
	rnd        *rand.Rand
	violKeys   map[string]bool
	decisions  int64
}

type fnKey = *ssa.Function
type globalKey = *ssa.Global

type Worker struct {
	eng *Engine
	ex  *Explorer
	id  int
	T   *Terms
	sol *Solver

	tiMap     typeutil.Map
	tiFast    map[types.Type]*TI
	fns       map[fnKey]*Fn
	globals   map[globalKey]*Obj
	initDone  map[string]bool
	clock     int64
	meths     map[methKey]*Fn
	implCache map[[2]*TI]bool
	tiByte    *TI
	tiRune    *TI
	tiInt     *TI
	tiString  *TI
	tiBool    *TI
	tiRtErr   *TI
	tiErrIf   *TI
	initing   bool
	undo      []undoEnt
	newFns    []*Fn

	// per path
	g          *G
	mainG      *G
	gs         []*G
	runq       []*G
	ackCh      chan struct{}
	aborting   bool
	cleanup    bool // runTask is ending the goroutines that are left
	outcome    outcome
	steps      int64
	stepLimit  int64
	stepCheck  int64
	prefix     []dec
	pos        int
	trace      []dec
	pc         []*Term
	pcVars     map[uint32][]int // variable -> indices of pc
	model      *Model
	vars       []varInfo
	names      map[string]int
	obs        []obsEnt
	schedFork  bool
	maxPreempt int
	preempts   int
	delays     int // how often a goroutine may still be passed over, -1: no limit
	mapMode    int
	nchan      int
	switches   int
	reached    map[string]bool
	ext        map[string]any
	asserts    int64
	assertsSym int64
	epoch      uint32
	atoms      map[*Term]bool
	nAtoms     int
}

type obsEnt struct {
	name string
	v    V
	ti   *TI
}

func (w *Worker) setOutcome(kind, msg string) {
	if w.outcome.kind == "" {
		w.outcome = outcome{kind: kind, msg: msg}
	}
	w.aborting = true
}

func (w *Worker) record(r any) {
	switch r := r.(type) {
	case pathEnd:
		if w.outcome.kind == "" {
			w.outcome = outcome{kind: "internal", msg: "path ended without outcome"}
		}
	case *targetPanic:
		w.setOutcome("panic", w.panicText(r.v)+" at "+r.where)
	case *unsupported:
		at := ""
		if w.g != nil && w.g.top != nil {
			at = " at " + w.where(w.g.top)
		}
		w.setOutcome("unsupported", r.what+at)
	default:
		at := ""
		if w.g != nil && w.g.top != nil {
			at = " at " + w.where(w.g.top)
		}
		w.setOutcome("internal", engineErr(r)+at)
	}
}

func (w *Worker) fatal(msg string) {
	w.setOutcome("crash", msg+" at "+w.where(w.g.top))
	panic(pathEnd{})
}

func (w *Worker) bound(msg string) {
	w.setOutcome("bound", msg)
	panic(pathEnd{})
}

func (w *Worker) panicText(v V) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	s := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = "<" + i.ti.t.String() + ">"
			}
		}()
		s = w.concStr(w.format1(nil, v, 'v', false))
	}()
	return s
}

// --- variables, constraints and decisions

func (w *Worker) fresh(name string, width uint8, lo int64) *Term {
	if n := w.names[name]; n > 0 {
		w.names[name] = n + 1
		name = name + "#" + strconv.Itoa(n)
	} else {
		w.names[name] = 1
	}
	idx := uint32(len(w.vars))
	w.vars = append(w.vars, varInfo{name, width, lo})
	if w.initing {
		panic("symbolic variable in initialiser")
	}
	return w.T.variable(idx, width)
}

func (w *Worker) addPC(t *Term) {
	if t.op == OpConst {
		return
	}
	if t.op == OpAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	if w.atoms[t] {
		return
	}
	w.atoms[t] = true
	i := len(w.pc)
	w.pc = append(w.pc, t)
	for _, v := range t.vars {
		w.pcVars[v] = append(w.pcVars[v], i)
	}
}

// slice returns the constraints sharing variables (transitively) with t.
func (w *Worker) slicePC(t *Term) []*Term {
	seenV := map[uint32]bool{}
	seenC := map[int]bool{}
	var todo []uint32
	push := func(vs []uint32) {
		for _, v := range vs {
			if !seenV[v] {
				seenV[v] = true
				todo = append(todo, v)
			}
		}
	}
	push(t.vars)
	var idx []int
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, i := range w.pcVars[v] {
			if !seenC[i] {
				seenC[i] = true
				idx = append(idx, i)
				push(w.pc[i].vars)
			}
		}
	}
	sort.Ints(idx)
	r := make([]*Term, 0, len(idx)+1)
	for _, i := range idx {
		r = append(r, w.pc[i])
	}
	return r
}

// check decides pc ∧ t.
func (w *Worker) check(t *Term) (Verdict, map[uint32]uint64) {
	if t.op == OpConst {
		if t.val == 0 {
			return Unsat, nil
		}
		return Sat, nil
	}
	q := append(w.slicePC(t), t)
	v, m := w.sol.solve(q)
	if v == Sat {
		// the answer must satisfy our own reading of the constraints
		mm := w.mergeModel(m)
		for _, c := range q {
			if c.eval(mm) == 0 {
				w.ex.errs.add("model does not satisfy " + c.String())
				return Unknown, nil
			}
		}
	}
	return v, m
}

func (w *Worker) nextEpoch() uint32 {
	w.epoch++
	return w.epoch
}

func (w *Worker) mergeModel(m map[uint32]uint64) *Model {
	n := make([]uint64, len(w.vars))
	copy(n, w.model.v)
	for k, v := range m {
		n[k] = v
	}
	return &Model{v: n, epoch: w.nextEpoch()}
}

func (w *Worker) pushTask(d dec, m map[uint32]uint64) {
	p := make([]dec, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = d
	mm := w.mergeModel(m)
	w.ex.push(task{p, mm.v})
}

// decide resolves a boolean term on this path.
func (w *Worker) decide(t *Term) bool {
	if t.op == OpConst {
		return t.val != 0
	}
	if w.initing {
		panic("symbolic decision in initialiser")
	}
	// constraints already on the path are the same when it is replayed
	if w.atoms[t] {
		return true
	}
	nt := w.T.not(t)
	if w.atoms[nt] {
		return false
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.isVal {
			panic("replay mismatch")
		}
		w.trace = append(w.trace, d)
		if !d.forced {
			if d.taken {
				w.addPC(t)
			} else {
				w.addPC(w.T.not(t))
			}
		}
		return d.taken
	}
	if len(w.trace) >= w.ex.maxDec {
		w.bound("decision limit")
	}
	if atomic.LoadInt32(&w.ex.halt) != 0 {
		w.bound("time limit")
	}
	taken := t.eval(w.model) != 0
	other := nt
	if !taken {
		other = t
	}
	v, m := w.check(other)
	d := dec{taken: taken, forced: v == Unsat}
	if v == Sat {
		w.pushTask(dec{taken: !taken}, m)
		if forkProf {
			w.noteFork()
		}
	} else if v == Unknown {
		w.ex.cut("solver gave no answer for a branch; that side is unexplored")
	}
	w.trace = append(w.trace, d)
	if !d.forced {
		if taken {
			w.addPC(t)
		} else {
			w.addPC(nt)
		}
	}
	return taken
}

// concTerm picks one concrete value for t, forking over the others.
func (w *Worker) concTerm(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	for n := 0; ; n++ {
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			w.pos++
			if !d.isVal {
				panic("replay mismatch")
			}
			w.trace = append(w.trace, d)
			eq := w.eqConst(t, d.val)
			if d.taken {
				if !d.forced {
					w.addPC(eq)
				}
				return d.val
			}
			w.addPC(w.T.not(eq))
			continue
		}
		if len(w.trace) >= w.ex.maxDec {
			w.bound("decision limit")
		}
		v := t.eval(w.model)
		eq := w.eqConst(t, v)
		ver, m := w.check(w.T.not(eq))
		d := dec{val: v, isVal: true, taken: true, forced: ver == Unsat}
		if ver == Sat {
			w.pushTask(dec{val: v, isVal: true}, m)
		} else if ver == Unknown {
			w.ex.cut("solver gave no answer for a value; the others are unexplored")
		}
		w.trace = append(w.trace, d)
		if !d.forced {
			w.addPC(eq)
		}
		return v
	}
}

func (w *Worker) eqConst(t *Term, v uint64) *Term {
	if t.w == 0 {
		if v != 0 {
			return t
		}
		return w.T.not(t)
	}
	return w.T.eq(t, w.T.konst(t.w, v))
}

// concInt makes an integer concrete (sign-extended for signed types).
func (w *Worker) concInt(v V, ti *TI) uint64 {
	t, ok := v.P.(*Term)
	if !ok {
		return v.N
	}
	n := w.concTerm(t)
	if ti.signed {
		return sext(n, ti.w)
	}
	return n
}

func (w *Worker) concStr(s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(w.concTerm(t))
		}
	}
	return string(b)
}

// evalStr shows a string under the current model without constraining it.
func (w *Worker) evalStr(s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(t.eval(w.model))
		}
	}
	return string(b)
}

func (w *Worker) chooseSched(n int) int {
	if w.delays >= 0 && n > w.delays+1 {
		n = w.delays + 1
	}
	if n < 2 {
		return 0
	}
	i := w.choose("sched", n)
	if w.delays >= 0 {
		w.delays -= i
	}
	return i
}

// choose forks over 0..n-1.
func (w *Worker) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(w.concTerm(w.rangeVar(name, n)))
}

func (w *Worker) rangeVar(name string, n int) *Term {
	width := uint8(8)
	if n > 256 {
		width = 16
	}
	if n > 65536 {
		width = 32
	}
	t := w.fresh(name, width, 0)
	w.assumeRange(w.T.cmp(OpUlt, t, w.T.konst(width, uint64(n))))
	return t
}

// assumeRange adds a constraint on a fresh variable that zero satisfies.
func (w *Worker) assumeRange(c *Term) {
	if c.op == OpConst {
		return
	}
	w.addPC(c)
	// the model may hold a stale value for this index
	if c.eval(w.model) == 0 {
		v := c.vars[0]
		nm := &Model{v: append([]uint64(nil), w.model.v...), epoch: w.nextEpoch()}
		if int(v) < len(nm.v) {
			nm.v[v] = 0
		}
		w.model = nm
	}
}

// assume restricts the path to t.
func (w *Worker) assume(t *Term) {
	if t.op == OpConst {
		if t.val == 0 {
			w.setOutcome("assume", "")
			panic(pathEnd{})
		}
		return
	}
	if w.atoms[t] {
		return
	}
	if t.eval(w.model) != 0 {
		w.addPC(t)
		return
	}
	v, m := w.check(t)
	switch v {
	case Unsat:
		w.setOutcome("assume", "")
		panic(pathEnd{})
	case Unknown:
		w.ex.cut("solver gave no answer for an assumption")
		w.setOutcome("assume", "unknown")
		panic(pathEnd{})
	}
	w.model = w.mergeModel(m)
	w.addPC(t)
}

// assert requires t for every value on this path.
func (w *Worker) assert(t *Term, msg string) {
	w.asserts++
	if t.op == OpConst {
		if t.val != 0 {
			return
		}
		w.setOutcome("assert", msg)
		panic(pathEnd{})
	}
	w.assertsSym++
	if w.pos < len(w.prefix) {
		return // decided by the path this one was forked from
	}
	v, m := w.check(w.T.not(t))
	switch v {
	case Unsat:
		return
	case Unknown:
		w.ex.cut("solver gave no answer for an assertion")
		return
	}
	w.model = w.mergeModel(m)
	w.addPC(w.T.not(t))
	w.setOutcome("assert", msg)
	panic(pathEnd{})
}

// --- work list

func (ex *Explorer) push(t task) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, t)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() (task, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return task{}, false
		}
		if time.Now().After(ex.deadline) || ex.paths >= ex.maxPaths {
			if len(ex.stack) > 0 || ex.running > 0 {
				ex.timedOut = true
			}
			ex.pendLeft = len(ex.stack)
			ex.stop = true
			ex.cond.Broadcast()
			return task{}, false
		}
		if n := len(ex.stack); n > 0 {
			i := n - 1
			if ex.hn.Random {
				i = ex.rnd.Intn(n)
			}
			t := ex.stack[i]
			ex.stack[i] = ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.running++
			return t, true
		}
		if ex.running == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return task{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) cut(s string) {
	ex.mu.Lock()
	ex.cuts[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s] = true
	ex.mu.Unlock()
}

// watch ends the exploration at its deadline.
func (ex *Explorer) watch(done chan struct{}) {
	t := time.NewTimer(time.Until(ex.deadline))
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		ex.mu.Lock()
		if !ex.stop {
			ex.stop = true
			if len(ex.stack) > 0 || ex.running > 0 {
				ex.timedOut = true
			}
			ex.pendLeft = len(ex.stack)
		}
		ex.mu.Unlock()
		atomic.StoreInt32(&ex.halt, 1)
		ex.cond.Broadcast()
	}
}

// slowStep is entered now and then from the interpreter loop.
func (w *Worker) slowStep() {
	if w.initing {
		w.stepCheck = w.steps + 1<<30
		return
	}
	if w.steps > w.stepLimit {
		w.bound("step limit")
	}
	if atomic.LoadInt32(&w.ex.halt) != 0 {
		w.bound("time limit")
	}
	w.stepCheck = w.steps + 1<<21
	if w.stepCheck > w.stepLimit {
		w.stepCheck = w.stepLimit
	}
}

// runTask executes the harness once along a prefix.
func (w *Worker) runTask(t task) {
	if len(w.T.tab) > 1500000 {
		w.T.reset()
	}
	w.outcome = outcome{}
	w.aborting, w.cleanup = false, false
	w.steps = 0
	w.stepLimit = w.ex.hn.StepLimit
	w.stepCheck = 0
	w.prefix = t.prefix
	w.pos = 0
	w.trace = w.trace[:0]
	w.pc = w.pc[:0]
	w.pcVars = map[uint32][]int{}
	w.atoms = map[*Term]bool{}
	w.model = &Model{v: t.model, epoch: w.nextEpoch()}
	w.vars = w.vars[:0]
	w.names = map[string]int{}
	w.obs = nil
	w.schedFork = false
	w.maxPreempt = 0
	w.preempts = 0
	w.delays = -1
	w.mapMode = 0
	w.nchan = 0
	w.clock = 0
	w.gs = nil
	w.runq = nil
	w.ackCh = make(chan struct{})
	w.reached = map[string]bool{}
	w.ext = map[string]any{}
	w.asserts, w.assertsSym = 0, 0
	g := w.newG()
	w.mainG, w.g = g, g
	fn := w.fnOf(w.ex.hn.fn)
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.record(r)
			}
		}()
		w.invoke(nil, fn, nil, nil)
		if w.outcome.kind == "" {
			w.outcome = outcome{kind: "ok"}
		}
	}()
	// end every other goroutine
	w.aborting, w.cleanup = true, true
	for _, x := range w.gs[1:] {
		if !x.done {
			x.ch <- struct{}{}
			<-w.ackCh
		}
	}
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			u.o.set(u.i, u.v)
		}
	}
	w.undo = w.undo[:0]
	w.finish()
}

func (w *Worker) finish() {
	ex := w.ex
	res := PathResult{Kind: w.outcome.kind, Msg: w.outcome.msg, Steps: w.steps}
	keep := false
	viol := false
	switch res.Kind {
	case "assert", "panic", "deadlock", "crash":
		keep, viol = true, true
	}
	id := atomic.AddInt64(&ex.paths, 1)
	res.Id = id
	// thin sampling of passing paths for native validation
	if res.Kind == "ok" && (id <= 4 || id&(id-1) == 0 || id%997 == 0) {
		keep = true
	}
	if keep {
		for i, v := range w.vars {
			x := w.model.get(uint32(i)) & mask2(v.w)
			res.Vars = append(res.Vars, NamedVal{v.name, int64(x) + v.lo})
		}
		if !viol {
			for _, o := range w.obs {
				res.Obs = append(res.Obs, o.name+"="+w.showModel(o.v, o.ti, 0))
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.running--
	ex.byKind[res.Kind]++
	ex.steps += w.steps
	ex.decisions += int64(len(w.trace))
	ex.asserts += w.asserts
	ex.assertsSym += w.assertsSym
	for k := range w.reached {
		ex.reached[k]++
	}
	switch res.Kind {
	case "bound", "unsupported", "internal":
		ex.cuts[res.Kind+": "+firstLine(res.Msg)]++
		if res.Kind == "internal" {
			ex.errs.add(res.Msg)
		}
	}
	for _, f := range w.newFns {
		ex.fns[f.name]++
	}
	w.newFns = w.newFns[:0]
	if viol {
		key := res.Kind + "|" + violKey(res.Msg)
		if !ex.violKeys[key] || len(ex.violations) < 3 {
			ex.violKeys[key] = true
			ex.violations = append(ex.violations, res)
		}
		if len(ex.violations) >= ex.maxViol {
			ex.stop = true
			ex.cond.Broadcast()
		}
	} else if keep && len(ex.samples) < 64 {
		ex.samples = append(ex.samples, res)
	}
	if len(ex.stack) == 0 && ex.running == 0 {
		ex.cond.Broadcast()
	}
}

func violKey(s string) string {
	if i := strings.Index(s, " at "); i >= 0 {
		return s[i:]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (w *Worker) noteFn(fn *Fn) {
	if fn.inRepo {
		w.newFns = append(w.newFns, fn)
	}
}

// showModel prints a value under the path's model for comparison with a native run.
func (w *Worker) showModel(v V, ti *TI, d int) string {
	if d > 6 {
		return "…"
	}
	switch ti.kind {
	case KBool:
		if t, ok := v.P.(*Term); ok {
			return strconv.FormatBool(t.eval(w.model) != 0)
		}
		return strconv.FormatBool(v.N != 0)
	case KInt:
		n := v.N
		if t, ok := v.P.(*Term); ok {
			n = t.eval(w.model)
			if ti.signed {
				n = sext(n, ti.w)
			}
		}
		if ti.signed {
			return strconv.FormatInt(int64(n), 10)
		}
		return strconv.FormatUint(n, 10)
	case KString:
		return strconv.Quote(w.evalStr(asStr(v)))
	case KSlice:
		s := asSlice(v)
		if ti.elem.isByte {
			return strconv.Quote(w.evalStr(w.sliceStr(s)))
		}
		var sb strings.Builder
		sb.WriteByte('[')
		if s != nil {
			for i := 0; i < s.len; i++ {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(w.showModel(w.load(s.o, s.off+i*ti.elem.n, ti.elem), ti.elem, d+1))
			}
		}
		sb.WriteByte(']')
		return sb.String()
	case KIface:
		if v.P == nil {
			return "<nil>"
		}
		i := v.P.(*Iface)
		return w.showModel(i.v, i.ti, d+1)
	case KPtr:
		if v.P == nil {
			return "<nil>"
		}
		e := w.ti(ti.t.Underlying().(*types.Pointer).Elem())
		return "&" + w.showModel(w.load(v.P.(*Obj), int(v.N), e), e, d+1)
	case KStruct:
		var sb strings.Builder
		sb.WriteByte('{')
		for i, f := range ti.fields {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(w.showModel(aggPart(v.P.(*Agg), ti.offs[i], f), f, d+1))
		}
		sb.WriteByte('}')
		return sb.String()
	}
	return fmt.Sprintf("<%v>", ti.kind)
}

var (
	forkProf bool
	forkMu   sync.Mutex
	forks    = map[string]int{}
)

// noteFork counts where symbolic branches fork (a development aid).
func (w *Worker) noteFork() {
	if w.g.top == nil {
		return
	}
	s := w.where(w.g.top)
	if i := strings.Index(s, " < "); i > 0 {
		if j := strings.Index(s[i+3:], " < "); j > 0 {
			s = s[:i+3+j]
		}
	}
	forkMu.Lock()
	forks[s]++
	forkMu.Unlock()
}

func printForks() {
	var ks []string
	for k := range forks {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forks[ks[i]] > forks[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Printf("  fork %d %s\n", forks[k], k)
		}
	}
}
