package main

// Functions the interpreter implements itself: the harness interface, the
// runtime's assembly and linknamed parts, synchronisation, and library
// functions that would otherwise need reflection.

import (
	"crypto/sha256"
	"go/types"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]Intrinsic

var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "syscall": true, "internal/abi": true, "internal/cpu": true,
	"internal/poll": true, "internal/godebug": true, "internal/reflectlite": true, "runtime/debug": true,
	"runtime/pprof": true, "crypto/tls": true, "net/http": true, "net": true, "crypto/x509": true,
	"gopkg.in/src-d/enry.v1/data":          true,
	"github.com/boyter/scc/processor":      true,
	"golang.org/x/text/unicode/norm":       true,
	"gopkg.in/neurosnap/sentences.v1/data": true,
}

func skipInitPkg(p string) bool {
	if skipInit[p] || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "crypto/internal/") || strings.HasPrefix(p, "vendor/") || strings.HasPrefix(p, "golang.org/x/") || strings.HasPrefix(p, "net/") || strings.HasPrefix(p, "github.com/jdkato/") || strings.HasPrefix(p, "testing") {
		return true
	}
	return false
}

func (w *Worker) lookupIntrinsic(name string, f *ssa.Function) Intrinsic {
	if f.Synthetic == "package initializer" {
		return func(w *Worker, fr *Frame, args []V) V { w.runInit(f); return V{} }
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if strings.HasPrefix(name, symPath+".") {
		if in, ok := intrinsics["verifsym."+name[len(symPath)+1:]]; ok {
			return in
		}
	}
	return nil
}

// runInit runs a package initialiser instruction by instruction; what cannot
// be executed leaves its zero value behind and is reported.
func (w *Worker) runInit(f *ssa.Function) {
	path := f.Pkg.Pkg.Path()
	if w.initDone[path] {
		return
	}
	w.initDone[path] = true
	skip := skipInitPkg(path)
	for _, p := range w.eng.skipInit {
		skip = skip || strings.HasPrefix(path, p)
	}
	if w.eng.runInit[path] {
		skip = false
	}
	fn := &Fn{ssa: f, name: f.String(), regOf: map[ssa.Value]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.initNote(path, "compile: "+engineErr(r))
				fn = nil
			}
		}()
		if skip {
			fn = nil
			return
		}
		w.compile(fn)
	}()
	if fn == nil {
		// imports still have to be initialised
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.Synthetic == "package initializer" {
						w.runInit(g)
					}
				}
			}
		}
		return
	}
	fr := &Frame{w: w, g: w.g, fn: fn, regs: make([]V, fn.nregs)}
	b := fn.blocks[0]
	for b != nil {
		for i, in := range b.ins {
			func() {
				sp, stk := w.g.sp, w.g.stk
				defer func() {
					if r := recover(); r != nil {
						w.g.sp, w.g.stk = sp, stk
						msg := ""
						switch r := r.(type) {
						case *targetPanic:
							msg = w.panicText(r.v) + " at " + r.where
						case *unsupported:
							msg = r.what
							if w.g.top != nil {
								msg += " at " + w.where(w.g.top)
							}
						default:
							msg = engineErr(r)
							if w.g.top != nil {
								msg += " at " + w.where(w.g.top)
							}
						}
						w.initNote(path, w.eng.prog.Fset.Position(b.pos[i]).String()+": "+msg)
						w.g.recoverFor = nil
						w.g.deferOf = nil
						w.aborting = false
						w.outcome = outcome{}
					}
				}()
				w.g.top = fr
				in(fr)
			}()
		}
		b = func() (n *Blk) {
			defer func() {
				if r := recover(); r != nil {
					w.initNote(path, "term: "+engineErr(r))
				}
			}()
			return b.term(fr)
		}()
	}
}

func (w *Worker) initNote(path, msg string) {
	if w.id == 0 {
		w.eng.initNotes = append(w.eng.initNotes, path+": "+msg)
	}
}

// --- argument access

func argStr(v V) *Str { return asStr(v) }

func (w *Worker) cstr(v V) string { return w.concStr(asStr(v)) }

func (w *Worker) intArg(v V) int {
	if t, ok := v.P.(*Term); ok {
		return int(int64(sext(w.concTerm(t), t.w)))
	}
	return int(int64(v.N))
}

func intV(n int) V { return V{N: uint64(int64(n))} }

func tuple(vs ...V) V { return V{P: &Agg{vs}} }

func nilV() V { return V{} }

func ptrObj(v V) (*Obj, int) { return v.P.(*Obj), int(v.N) }

func (w *Worker) ld(p V) V    { o, i := ptrObj(p); return o.get(i) }
func (w *Worker) st(p V, x V) { o, i := ptrObj(p); w.set(o, i, x) }

func (w *Worker) mustPtr(v V) {
	if v.P == nil {
		w.nilDeref()
	}
}

func init() {
	I := map[string]Intrinsic{}
	intrinsics = I

	// --- harness interface
	I["verifsym.Symbolic"] = func(w *Worker, fr *Frame, a []V) V { return boolV(true) }
	I["verifsym.Byte"] = func(w *Worker, fr *Frame, a []V) V { return V{P: w.fresh(w.cstr(a[0]), 8, 0)} }
	I["verifsym.Bool"] = func(w *Worker, fr *Frame, a []V) V { return V{P: w.fresh(w.cstr(a[0]), 0, 0)} }
	I["verifsym.Int"] = func(w *Worker, fr *Frame, a []V) V {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if hi < lo {
			panic(&unsupported{"empty range"})
		}
		if lo == hi {
			return V{N: uint64(lo)}
		}
		n := uint64(hi - lo)
		width := uint8(8)
		for width < 64 && n > mask(width) {
			width *= 2
		}
		t := w.fresh(w.cstr(a[0]), width, lo)
		if n != mask(width) {
			w.assumeRange(w.T.cmp(OpUle, t, w.T.konst(width, n)))
		}
		r := w.T.zext(t, 64)
		if lo != 0 {
			r = w.T.bin(OpAdd, r, w.T.konst(64, uint64(lo)))
		}
		return V{P: r}
	}
	I["verifsym.Choose"] = func(w *Worker, fr *Frame, a []V) V {
		n := int(int64(a[1].N))
		if n <= 0 {
			panic(&unsupported{"Choose of nothing"})
		}
		if n == 1 {
			return V{}
		}
		return intV(w.choose(w.cstr(a[0]), n))
	}
	I["verifsym.Bytes"] = func(w *Worker, fr *Frame, a []V) V {
		n := int(a[1].N)
		name := w.cstr(a[0])
		o := &Obj{b: make([]byte, n), s: make([]*Term, n)}
		for i := range o.s {
			o.s[i] = w.fresh(name+"["+strconv.Itoa(i)+"]", 8, 0)
		}
		return V{P: &Slice{o: o, len: n, cap: n}}
	}
	measured := func(w *Worker, a []V, elem *TI) V {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if hi < lo || lo < 0 {
			panic(&unsupported{"empty range"})
		}
		t := w.fresh(w.cstr(a[0]), 32, lo)
		w.assumeRange(w.T.cmp(OpUle, t, w.T.konst(32, uint64(hi-lo))))
		lt := w.T.bin(OpAdd, w.T.zext(t, 64), w.T.konst(64, uint64(lo)))
		return V{P: &Slice{o: w.newArr(elem, int(hi)), len: int(hi), cap: int(hi), lt: lt}}
	}
	I["verifsym.RepoFile"] = func(w *Worker, fr *Frame, a []V) V {
		b, err := os.ReadFile(filepath.Join(w.eng.repo, w.cstr(a[0])))
		if err != nil {
			panic(&unsupported{err.Error()})
		}
		return w.str(string(b))
	}
	I["verifsym.Zeros"] = func(w *Worker, fr *Frame, a []V) V { return measured(w, a, w.tiByte) }
	I["verifsym.Empties"] = func(w *Worker, fr *Frame, a []V) V {
		return measured(w, a, w.ti(types.NewSlice(types.Typ[types.Byte])))
	}
	I["verifsym.Assume"] = func(w *Worker, fr *Frame, a []V) V { w.assume(w.term(a[0], w.tiBool)); return V{} }
	I["verifsym.Assert"] = func(w *Worker, fr *Frame, a []V) V {
		if a[0].P == nil && a[0].N != 0 {
			w.asserts++
			return V{}
		}
		w.assert(w.term(a[0], w.tiBool), w.evalStr(asStr(a[1]))+" at "+w.where(fr))
		return V{}
	}
	I["verifsym.Reach"] = func(w *Worker, fr *Frame, a []V) V { w.reached[w.cstr(a[0])] = true; return V{} }
	I["verifsym.And"] = func(w *Worker, fr *Frame, a []V) V {
		return w.boolT(w.T.and(w.term(a[0], w.tiBool), w.term(a[1], w.tiBool)))
	}
	I["verifsym.Or"] = func(w *Worker, fr *Frame, a []V) V {
		return w.boolT(w.T.or(w.term(a[0], w.tiBool), w.term(a[1], w.tiBool)))
	}
	I["verifsym.Implies"] = func(w *Worker, fr *Frame, a []V) V {
		return w.boolT(w.T.or(w.T.not(w.term(a[0], w.tiBool)), w.term(a[1], w.tiBool)))
	}
	I["verifsym.EqBytes"] = func(w *Worker, fr *Frame, a []V) V {
		return w.boolT(w.strEq(w.sliceStr(asSlice(a[0])), w.sliceStr(asSlice(a[1]))))
	}
	I["verifsym.IteInt"] = func(w *Worker, fr *Frame, a []V) V {
		return w.val(w.T.ite(w.term(a[0], w.tiBool), w.term(a[1], w.tiInt), w.term(a[2], w.tiInt)), w.tiInt)
	}
	I["verifsym.IteByte"] = func(w *Worker, fr *Frame, a []V) V {
		return w.val(w.T.ite(w.term(a[0], w.tiBool), w.term(a[1], w.tiByte), w.term(a[2], w.tiByte)), w.tiByte)
	}
	I["verifsym.IsConcrete"] = func(w *Worker, fr *Frame, a []V) V {
		return boolV(w.sliceStr(asSlice(a[0])).t == nil)
	}
	I["verifsym.ConcInt"] = func(w *Worker, fr *Frame, a []V) V { return V{N: w.concInt(a[0], w.tiInt)} }
	I["verifsym.ConcStr"] = func(w *Worker, fr *Frame, a []V) V { return w.str(w.cstr(a[0])) }
	I["verifsym.Observe"] = func(w *Worker, fr *Frame, a []V) V {
		if a[1].P == nil {
			return V{}
		}
		i := a[1].P.(*Iface)
		w.obs = append(w.obs, obsEnt{w.cstr(a[0]), i.v, i.ti})
		return V{}
	}
	I["verifsym.Param"] = func(w *Worker, fr *Frame, a []V) V {
		if v, ok := w.ex.hn.bounds.Params[w.cstr(a[0])]; ok {
			return V{N: uint64(v)}
		}
		return a[1]
	}
	I["verifsym.SchedDelays"] = func(w *Worker, fr *Frame, a []V) V {
		w.delays = int(int64(a[0].N))
		return V{}
	}
	I["verifsym.SchedFork"] = func(w *Worker, fr *Frame, a []V) V {
		w.schedFork = int64(a[0].N) >= 0
		w.maxPreempt = int(int64(a[0].N))
		w.delays = -1
		return V{}
	}
	I["verifsym.MapOrder"] = func(w *Worker, fr *Frame, a []V) V { w.mapMode = int(a[0].N); return V{} }
	I["verifsym.Yield"] = func(w *Worker, fr *Frame, a []V) V { w.yield(); return V{} }
	I["verifsym.NumGoroutine"] = func(w *Worker, fr *Frame, a []V) V {
		n := 0
		for _, g := range w.gs {
			if !g.done {
				n++
			}
		}
		return intV(n)
	}
	// Unsupported ends the path as not explored.
	I["verifsym.Unsupported"] = func(w *Worker, fr *Frame, a []V) V {
		panic(&unsupported{w.cstr(a[0])})
	}

	// --- unsafe helpers
	ident := func(w *Worker, fr *Frame, a []V) V { return a[0] }
	I["internal/abi.NoEscape"] = ident
	I["internal/abi.Escape"] = ident
	I["strings.noescape"] = ident
	I["(*strings.Builder).copyCheck"] = func(w *Worker, fr *Frame, a []V) V { return V{} }
	I["internal/stringslite.Clone"] = ident
	I["strings.Clone"] = ident
	I["github.com/tinylib/msgp/msgp.UnsafeString"] = func(w *Worker, fr *Frame, a []V) V {
		return V{P: w.sliceStr(asSlice(a[0]))}
	}
	I["github.com/tinylib/msgp/msgp.UnsafeBytes"] = func(w *Worker, fr *Frame, a []V) V {
		return V{P: w.strSlice(asStr(a[0]))}
	}

	// --- bytealg and friends
	idxByte := func(w *Worker, s *Str, c V) V {
		for i := 0; i < len(s.s); i++ {
			if w.decide(w.eqv(w.tiByte, s.at(i), c)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	lastIdxByte := func(w *Worker, s *Str, c V) V {
		for i := len(s.s) - 1; i >= 0; i-- {
			if w.decide(w.eqv(w.tiByte, s.at(i), c)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	idx := func(w *Worker, s, sub *Str) V {
		for i := 0; i+len(sub.s) <= len(s.s); i++ {
			if w.decide(w.strEq(s.sub(i, i+len(sub.s)), sub)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	lastIdx := func(w *Worker, s, sub *Str) V {
		for i := len(s.s) - len(sub.s); i >= 0; i-- {
			if w.decide(w.strEq(s.sub(i, i+len(sub.s)), sub)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	count := func(w *Worker, s *Str, c V) V {
		n := 0
		var t *Term
		for i := 0; i < len(s.s); i++ {
			e := w.eqv(w.tiByte, s.at(i), c)
			if e.op == OpConst {
				n += int(e.val)
				continue
			}
			x := w.T.ite(e, w.T.konst(64, 1), w.T.konst(64, 0))
			if t == nil {
				t = x
			} else {
				t = w.T.bin(OpAdd, t, x)
			}
		}
		if t == nil {
			return intV(n)
		}
		return w.val(w.T.bin(OpAdd, t, w.T.konst(64, uint64(n))), w.tiInt)
	}
	cmp := func(w *Worker, a, b *Str) V {
		if a.t == nil && b.t == nil {
			return intV(strings.Compare(a.s, b.s))
		}
		eq, lt := w.strEq(a, b), w.strLess(a, b, false)
		one := w.T.konst(64, 1)
		return w.val(w.T.ite(eq, w.T.konst(64, 0), w.T.ite(lt, w.T.konst(64, ^uint64(0)), one)), w.tiInt)
	}
	S := func(v V) *Str { return asStr(v) }
	B := func(w *Worker, v V) *Str { return w.sliceStr(asSlice(v)) }
	I["internal/bytealg.IndexByte"] = func(w *Worker, fr *Frame, a []V) V { return idxByte(w, B(w, a[0]), a[1]) }
	I["internal/bytealg.IndexByteString"] = func(w *Worker, fr *Frame, a []V) V { return idxByte(w, S(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByte"] = func(w *Worker, fr *Frame, a []V) V { return lastIdxByte(w, B(w, a[0]), a[1]) }
	I["internal/bytealg.LastIndexByteString"] = func(w *Worker, fr *Frame, a []V) V { return lastIdxByte(w, S(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(w *Worker, fr *Frame, a []V) V { return count(w, B(w, a[0]), a[1]) }
	I["internal/bytealg.CountString"] = func(w *Worker, fr *Frame, a []V) V { return count(w, S(a[0]), a[1]) }
	I["internal/bytealg.Compare"] = func(w *Worker, fr *Frame, a []V) V { return cmp(w, B(w, a[0]), B(w, a[1])) }
	I["internal/bytealg.CompareString"] = func(w *Worker, fr *Frame, a []V) V { return cmp(w, S(a[0]), S(a[1])) }
	I["internal/bytealg.Equal"] = func(w *Worker, fr *Frame, a []V) V { return w.boolT(w.strEq(B(w, a[0]), B(w, a[1]))) }
	I["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, a []V) V {
		n := w.intArg(a[0])
		return V{P: &Slice{o: w.newArr(w.tiByte, n), len: n, cap: n}}
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["bytes.Count"] = nil
	delete(I, "bytes.Count")
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/stringslite.Index"] = func(w *Worker, fr *Frame, a []V) V { return idx(w, S(a[0]), S(a[1])) }
	I["strings.Index"] = I["internal/stringslite.Index"]
	I["bytes.Index"] = func(w *Worker, fr *Frame, a []V) V { return idx(w, B(w, a[0]), B(w, a[1])) }
	I["strings.LastIndex"] = func(w *Worker, fr *Frame, a []V) V { return lastIdx(w, S(a[0]), S(a[1])) }
	I["bytes.LastIndex"] = func(w *Worker, fr *Frame, a []V) V { return lastIdx(w, B(w, a[0]), B(w, a[1])) }
	I["strings.Contains"] = func(w *Worker, fr *Frame, a []V) V {
		s, sub := S(a[0]), S(a[1])
		r := w.T.f
		for i := 0; i+len(sub.s) <= len(s.s); i++ {
			r = w.T.or(r, w.strEq(s.sub(i, i+len(sub.s)), sub))
		}
		return w.boolT(r)
	}
	I["bytes.Contains"] = func(w *Worker, fr *Frame, a []V) V {
		s, sub := B(w, a[0]), B(w, a[1])
		r := w.T.f
		for i := 0; i+len(sub.s) <= len(s.s); i++ {
			r = w.T.or(r, w.strEq(s.sub(i, i+len(sub.s)), sub))
		}
		return w.boolT(r)
	}
	hasPrefix := func(s, p *Str, w *Worker) V {
		if len(s.s) < len(p.s) {
			return V{}
		}
		return w.boolT(w.strEq(s.sub(0, len(p.s)), p))
	}
	hasSuffix := func(s, p *Str, w *Worker) V {
		if len(s.s) < len(p.s) {
			return V{}
		}
		return w.boolT(w.strEq(s.sub(len(s.s)-len(p.s), len(s.s)), p))
	}
	I["strings.HasPrefix"] = func(w *Worker, fr *Frame, a []V) V { return hasPrefix(S(a[0]), S(a[1]), w) }
	I["strings.HasSuffix"] = func(w *Worker, fr *Frame, a []V) V { return hasSuffix(S(a[0]), S(a[1]), w) }
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["bytes.HasPrefix"] = func(w *Worker, fr *Frame, a []V) V { return hasPrefix(B(w, a[0]), B(w, a[1]), w) }
	I["bytes.HasSuffix"] = func(w *Worker, fr *Frame, a []V) V { return hasSuffix(B(w, a[0]), B(w, a[1]), w) }

	// --- runtime
	I["runtime.GOMAXPROCS"] = func(w *Worker, fr *Frame, a []V) V { return intV(2) }
	I["runtime.NumCPU"] = func(w *Worker, fr *Frame, a []V) V { return intV(1) }
	I["runtime.NumGoroutine"] = I["verifsym.NumGoroutine"]
	I["runtime.Gosched"] = func(w *Worker, fr *Frame, a []V) V { w.yield(); return V{} }
	nop := func(w *Worker, fr *Frame, a []V) V { return V{} }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.ReadMemStats", "runtime/debug.FreeOSMemory", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "runtime/debug.PrintStack", "runtime.SetBlockProfileRate", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "time.initLocal", "sync.runtime_registerPoolCleanup", "internal/synctest.Release", "internal/runtime/sys.Prefetch"} {
		I[n] = nop
	}
	I["runtime/debug.Stack"] = func(w *Worker, fr *Frame, a []V) V { return V{P: w.strSlice(&Str{s: "stack"})} }
	I["runtime.Caller"] = func(w *Worker, fr *Frame, a []V) V { return tuple(V{}, V{P: emptyStr}, V{}, V{}) }
	I["runtime.Goexit"] = func(w *Worker, fr *Frame, a []V) V { panic(&unsupported{"Goexit"}) }
	I["(*internal/godebug.Setting).Value"] = func(w *Worker, fr *Frame, a []V) V { return V{P: emptyStr} }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/godebug.New"] = func(w *Worker, fr *Frame, a []V) V {
		return V{P: w.newObj(w.ti(w.eng.typeOf("internal/godebug", "Setting")))}
	}
	I["internal/synctest.IsInBubble"] = nop
	I["internal/cpu.Initialize"] = nop
	I["os.Getenv"] = func(w *Worker, fr *Frame, a []V) V { return V{P: emptyStr} }
	I["os.LookupEnv"] = func(w *Worker, fr *Frame, a []V) V { return tuple(V{P: emptyStr}, V{}) }
	I["syscall.Getenv"] = I["os.LookupEnv"]
	I["os.Getpid"] = func(w *Worker, fr *Frame, a []V) V { return intV(4242) }
	I["time.now"] = func(w *Worker, fr *Frame, a []V) V {
		w.clock += 1000
		return tuple(V{N: uint64(int64(1700000000))}, V{N: 0}, V{N: uint64(w.clock)})
	}
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeNano"] = func(w *Worker, fr *Frame, a []V) V { w.clock += 1000; return V{N: uint64(w.clock)} }
	I["time.runtimeIsBubbled"] = nop
	I["verifsym.Idle"] = func(w *Worker, fr *Frame, a []V) V { w.idle(int64(a[0].N)); return V{} }
	I["time.Sleep"] = func(w *Worker, fr *Frame, a []V) V { w.yield(); return V{} }
	I["math/rand.Int63"] = func(w *Worker, fr *Frame, a []V) V { w.clock++; return V{N: uint64(w.clock)} }
	I["hash/maphash.rthash"] = nop
	I["errors.init"] = nil
	delete(I, "errors.init")

	// --- math
	f1 := func(f func(float64) float64) Intrinsic {
		return func(w *Worker, fr *Frame, a []V) V {
			return V{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	I["math.Float64bits"] = ident
	I["math.Float64frombits"] = ident
	I["math.Float32bits"] = func(w *Worker, fr *Frame, a []V) V {
		return V{N: uint64(math.Float32bits(float32(math.Float64frombits(a[0].N))))}
	}
	I["math.Float32frombits"] = func(w *Worker, fr *Frame, a []V) V {
		return V{N: math.Float64bits(float64(math.Float32frombits(uint32(a[0].N))))}
	}
	I["math.Floor"], I["math.Ceil"], I["math.Sqrt"], I["math.Abs"], I["math.Trunc"] = f1(math.Floor), f1(math.Ceil), f1(math.Sqrt), f1(math.Abs), f1(math.Trunc)
	f2 := func(f func(x, y float64) float64) Intrinsic {
		return func(w *Worker, fr *Frame, a []V) V {
			return V{N: math.Float64bits(f(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}
		}
	}
	I["math.Min"], I["math.Max"], I["math.Pow"], I["math.Mod"] = f2(math.Min), f2(math.Max), f2(math.Pow), f2(math.Mod)
	I["math.Log"], I["math.Exp"], I["math.Log2"] = f1(math.Log), f1(math.Exp), f1(math.Log2)
	bit := func(f func(uint64) int, wd uint8) Intrinsic {
		return func(w *Worker, fr *Frame, a []V) V {
			x := a[0].N
			if t, ok := a[0].P.(*Term); ok {
				x = w.concTerm(t)
			}
			return intV(f(x & mask(wd)))
		}
	}
	I["math/bits.Len64"] = bit(bits.Len64, 64)
	I["math/bits.Len32"] = bit(bits.Len64, 32)
	I["math/bits.Len"] = bit(bits.Len64, 64)
	I["math/bits.TrailingZeros64"] = bit(bits.TrailingZeros64, 64)
	I["math/bits.TrailingZeros"] = bit(bits.TrailingZeros64, 64)
	I["math/bits.OnesCount64"] = bit(bits.OnesCount64, 64)
	I["math/bits.LeadingZeros64"] = bit(bits.LeadingZeros64, 64)

	// --- strconv on symbolic integers: split on the value
	fmtInt := func(w *Worker, v V, base int) V {
		if s := w.symDecimal(v, w.tiInt); s != nil && base == 10 {
			return V{P: s}
		}
		return w.str(strconv.FormatInt(int64(w.concInt(v, w.tiInt)), base))
	}
	I["strconv.Itoa"] = func(w *Worker, fr *Frame, a []V) V { return fmtInt(w, a[0], 10) }
	I["strconv.FormatInt"] = func(w *Worker, fr *Frame, a []V) V { return fmtInt(w, a[0], w.intArg(a[1])) }
	I["internal/strconv.Itoa"] = I["strconv.Itoa"]
	I["internal/strconv.FormatInt"] = I["strconv.FormatInt"]
	I["strconv.Quote"] = func(w *Worker, fr *Frame, a []V) V { return w.str(strconv.Quote(w.cstr(a[0]))) }
	I["internal/strconv.Quote"] = I["strconv.Quote"]
	// errors about numbers only need to be errors; splitting on the text would fork needlessly
	numErr := func(w *Worker, fr *Frame, a []V) V {
		return w.errPtr("strconv", "NumError", map[string]V{"Func": a[0], "Num": a[1], "Err": w.errorV("invalid syntax")})
	}
	rangeErr := func(w *Worker, fr *Frame, a []V) V {
		return w.errPtr("strconv", "NumError", map[string]V{"Func": a[0], "Num": a[1], "Err": w.errorV("value out of range")})
	}
	I["strconv.syntaxError"] = numErr
	I["strconv.rangeError"] = rangeErr

	// --- sync
	lock := func(w *Worker, fr *Frame, a []V) V {
		w.mustPtr(a[0])
		w.schedPoint(fr)
		p := a[0]
		if w.ld(p).N != 0 {
			w.block("mutex lock", func() bool { return w.ld(p).N == 0 })
		}
		w.st(p, V{N: 1})
		return V{}
	}
	unlock := func(w *Worker, fr *Frame, a []V) V {
		w.mustPtr(a[0])
		if w.ld(a[0]).N == 0 {
			w.fatal("fatal error: sync: unlock of unlocked mutex")
		}
		w.st(a[0], V{})
		w.schedPoint(fr)
		return V{}
	}
	trylock := func(w *Worker, fr *Frame, a []V) V {
		if w.ld(a[0]).N != 0 {
			return V{}
		}
		w.st(a[0], V{N: 1})
		return boolV(true)
	}
	for _, p := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)"} {
		I[p+".Lock"], I[p+".Unlock"], I[p+".TryLock"] = lock, unlock, trylock
	}
	// RWMutex: slot 0 counts readers, -1 writer
	I["(*sync.RWMutex).Lock"] = func(w *Worker, fr *Frame, a []V) V {
		w.mustPtr(a[0])
		w.schedPoint(fr)
		p := a[0]
		if w.ld(p).N != 0 {
			w.block("rwmutex lock", func() bool { return w.ld(p).N == 0 })
		}
		w.st(p, V{N: ^uint64(0)})
		return V{}
	}
	I["(*sync.RWMutex).Unlock"] = func(w *Worker, fr *Frame, a []V) V {
		if w.ld(a[0]).N != ^uint64(0) {
			w.fatal("fatal error: sync: Unlock of unlocked RWMutex")
		}
		w.st(a[0], V{})
		w.schedPoint(fr)
		return V{}
	}
	I["(*sync.RWMutex).RLock"] = func(w *Worker, fr *Frame, a []V) V {
		w.mustPtr(a[0])
		w.schedPoint(fr)
		p := a[0]
		if w.ld(p).N == ^uint64(0) {
			w.block("rwmutex rlock", func() bool { return w.ld(p).N != ^uint64(0) })
		}
		w.st(p, V{N: w.ld(p).N + 1})
		return V{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(w *Worker, fr *Frame, a []V) V {
		n := w.ld(a[0]).N
		if n == 0 || n == ^uint64(0) {
			w.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		w.st(a[0], V{N: n - 1})
		w.schedPoint(fr)
		return V{}
	}
	wgAdd := func(w *Worker, p V, n int64) {
		w.mustPtr(p)
		c := int64(w.ld(p).N) + n
		if c < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		w.st(p, V{N: uint64(c)})
	}
	I["(*sync.WaitGroup).Add"] = func(w *Worker, fr *Frame, a []V) V {
		wgAdd(w, a[0], int64(w.intArg(a[1])))
		w.schedPoint(fr)
		return V{}
	}
	I["(*sync.WaitGroup).Done"] = func(w *Worker, fr *Frame, a []V) V {
		wgAdd(w, a[0], -1)
		w.schedPoint(fr)
		return V{}
	}
	I["(*sync.WaitGroup).Wait"] = func(w *Worker, fr *Frame, a []V) V {
		w.mustPtr(a[0])
		w.schedPoint(fr)
		p := a[0]
		if w.ld(p).N != 0 {
			w.block("waitgroup wait", func() bool { return w.ld(p).N == 0 })
		}
		return V{}
	}
	I["(*sync.WaitGroup).Go"] = func(w *Worker, fr *Frame, a []V) V {
		p := a[0]
		cl := a[1].P.(*Closure)
		wgAdd(w, p, 1)
		w.spawn(fr, func(caller *Frame) {
			w.invoke(caller, cl.fn, nil, cl.free)
			wgAdd(w, p, -1)
		})
		return V{}
	}
	// Cond: slot of notify list is used as a ticket counter kept aside
	I["(*sync.Cond).Wait"] = func(w *Worker, fr *Frame, a []V) V {
		p := a[0]
		key := ptrKey{p.P, p.N}
		q, _ := w.ext["cond"].(map[ptrKey][]*bool)
		if q == nil {
			q = map[ptrKey][]*bool{}
			w.ext["cond"] = q
		}
		woken := new(bool)
		q[key] = append(q[key], woken)
		lk := w.condLocker(p)
		w.invokeMeth(fr, lk, "Unlock")
		if !*woken {
			w.block("cond wait", func() bool { return *woken })
		}
		w.invokeMeth(fr, lk, "Lock")
		return V{}
	}
	wake := func(all bool) Intrinsic {
		return func(w *Worker, fr *Frame, a []V) V {
			key := ptrKey{a[0].P, a[0].N}
			q, _ := w.ext["cond"].(map[ptrKey][]*bool)
			if q == nil {
				return V{}
			}
			for len(q[key]) > 0 {
				*q[key][0] = true
				q[key] = q[key][1:]
				if !all {
					break
				}
			}
			return V{}
		}
	}
	I["(*sync.Cond).Signal"], I["(*sync.Cond).Broadcast"] = wake(false), wake(true)
	I["(*sync.Pool).Get"] = func(w *Worker, fr *Frame, a []V) V {
		o, i := ptrObj(a[0])
		ti := w.ti(w.eng.typeOf("sync", "Pool"))
		nf := w.load(o, i+ti.offs[len(ti.offs)-1], ti.fields[len(ti.fields)-1])
		if nf.P == nil {
			return V{}
		}
		cl := nf.P.(*Closure)
		return w.invoke(fr, cl.fn, nil, cl.free)
	}
	I["(*sync.Pool).Put"] = nop

	// --- sync/atomic
	for _, t := range []struct {
		n string
		w uint8
		s bool
	}{{"Int32", 32, true}, {"Uint32", 32, false}, {"Int64", 64, true}, {"Uint64", 64, false}, {"Uintptr", 64, false}, {"Pointer", 64, false}} {
		t := t
		nrm := func(n uint64) uint64 {
			if t.s {
				return sext(n, t.w)
			}
			return n & mask(t.w)
		}
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			I[pk+"Load"+t.n] = func(w *Worker, fr *Frame, a []V) V { w.mustPtr(a[0]); w.schedPoint(fr); return w.ld(a[0]) }
			I[pk+"Store"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				w.mustPtr(a[0])
				w.schedPoint(fr)
				w.st(a[0], a[1])
				return V{}
			}
			I[pk+"Swap"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				w.schedPoint(fr)
				o := w.ld(a[0])
				w.st(a[0], a[1])
				return o
			}
			I[pk+"Add"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				w.mustPtr(a[0])
				w.schedPoint(fr)
				x := V{N: nrm(w.ld(a[0]).N + a[1].N)}
				w.st(a[0], x)
				return x
			}
			I[pk+"CompareAndSwap"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				w.mustPtr(a[0])
				w.schedPoint(fr)
				if w.ld(a[0]) == a[1] {
					w.st(a[0], a[2])
					return boolV(true)
				}
				return V{}
			}
			I[pk+"And"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				o := w.ld(a[0])
				w.st(a[0], V{N: nrm(o.N & a[1].N)})
				return o
			}
			I[pk+"Or"+t.n] = func(w *Worker, fr *Frame, a []V) V {
				o := w.ld(a[0])
				w.st(a[0], V{N: nrm(o.N | a[1].N)})
				return o
			}
		}
	}
	I["(*sync/atomic.Value).Load"] = func(w *Worker, fr *Frame, a []V) V { w.schedPoint(fr); return w.ld(a[0]) }
	I["(*sync/atomic.Value).Store"] = func(w *Worker, fr *Frame, a []V) V { w.schedPoint(fr); w.st(a[0], a[1]); return V{} }

	// --- sort with reflection-based swapping
	sortSlice := func(stable bool) Intrinsic {
		return func(w *Worker, fr *Frame, a []V) V {
			if a[0].P == nil {
				return V{}
			}
			i := a[0].P.(*Iface)
			s := asSlice(i.v)
			if s == nil {
				return V{}
			}
			cl := a[1].P.(*Closure)
			x := &sortIf{n: s.len, less: func(i, j int) bool {
				r := w.invoke(fr, cl.fn, []V{intV(i), intV(j)}, cl.free)
				return w.decide(w.term(r, w.tiBool))
			}, swap: func(p, q int) {
				x := w.load(s.o, s.off+p*i.ti.elem.n, i.ti.elem)
				y := w.load(s.o, s.off+q*i.ti.elem.n, i.ti.elem)
				w.store(s.o, s.off+p*i.ti.elem.n, i.ti.elem, y)
				w.store(s.o, s.off+q*i.ti.elem.n, i.ti.elem, x)
			}}
			if stable {
				sort.Stable(x)
			} else {
				sort.Sort(x)
			}
			return V{}
		}
	}
	I["sort.Slice"], I["sort.SliceStable"] = sortSlice(false), sortSlice(true)

	// --- hashes on concrete data
	I["crypto/sha256.Sum256"] = func(w *Worker, fr *Frame, a []V) V {
		s := w.concStr(B(w, a[0]))
		h := sha256.Sum256([]byte(s))
		e := make([]V, len(h))
		for i := range h {
			e[i] = V{N: uint64(h[i])}
		}
		return V{P: &Agg{e}}
	}
	I["os.Exit"] = func(w *Worker, fr *Frame, a []V) V {
		if cl := w.ext["onexit"]; cl != nil {
			c := cl.(*Closure)
			w.invoke(fr, c.fn, []V{a[0]}, c.free)
		}
		w.setOutcome("ok", "exit")
		panic(pathEnd{})
	}
	I["verifsym.OnExit"] = func(w *Worker, fr *Frame, a []V) V { w.ext["onexit"] = a[0].P.(*Closure); return V{} }

	// --- errors
	// unwrap gives the errors in another.
	unwrap := func(w *Worker, fr *Frame, i *Iface) (one V, many []V) {
		m := w.methodByName(i.ti, "Unwrap")
		if m == nil || m.ssa.Signature.Results().Len() != 1 {
			return V{}, nil
		}
		r := w.invoke(fr, m, []V{i.v}, nil)
		t, ok := m.ssa.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			return r, nil
		}
		if sl := asSlice(r); sl != nil {
			et := w.ti(t.Elem())
			for k := 0; k < sl.len; k++ {
				many = append(many, w.load(sl.o, sl.off+k*et.n, et))
			}
		}
		return V{}, many
	}
	var is func(w *Worker, fr *Frame, err, target V) bool
	is = func(w *Worker, fr *Frame, err, target V) bool {
		for err.P != nil {
			i := err.P.(*Iface)
			if t := target.P.(*Iface); i.ti == t.ti && types.Comparable(i.ti.t) && w.decide(w.eqv(i.ti, i.v, t.v)) {
				return true
			}
			if m := w.methodByName(i.ti, "Is"); m != nil && m.ssa.Signature.Results().Len() == 1 {
				if w.decide(w.term(w.invoke(fr, m, []V{i.v, target}, nil), w.tiBool)) {
					return true
				}
			}
			var many []V
			err, many = unwrap(w, fr, i)
			for _, e := range many {
				if is(w, fr, e, target) {
					return true
				}
			}
		}
		return false
	}
	I["errors.Is"] = func(w *Worker, fr *Frame, a []V) V {
		if a[0].P == nil || a[1].P == nil {
			return boolV(a[0].P == nil && a[1].P == nil)
		}
		return boolV(is(w, fr, a[0], a[1]))
	}
	var as func(w *Worker, fr *Frame, err V, tgt *Iface, et *TI) bool
	as = func(w *Worker, fr *Frame, err V, tgt *Iface, et *TI) bool {
		for err.P != nil {
			i := err.P.(*Iface)
			if et.kind == KIface && w.implements(i.ti, et) {
				o, k := ptrObj(tgt.v)
				w.store(o, k, et, err)
				return true
			}
			if et.kind != KIface && i.ti == et {
				o, k := ptrObj(tgt.v)
				w.store(o, k, et, i.v)
				return true
			}
			var many []V
			err, many = unwrap(w, fr, i)
			for _, e := range many {
				if as(w, fr, e, tgt, et) {
					return true
				}
			}
		}
		return false
	}
	I["errors.As"] = func(w *Worker, fr *Frame, a []V) V {
		tgt := a[1].P.(*Iface)
		return boolV(as(w, fr, a[0], tgt, w.ti(tgt.ti.t.Underlying().(*types.Pointer).Elem())))
	}
	I["reflect.DeepEqual"] = func(w *Worker, fr *Frame, a []V) V { return w.boolT(w.deepEq(a[0], a[1], w.tiErrIf, 0)) }
	I["(reflect.rtype).String"] = func(w *Worker, fr *Frame, a []V) V { return w.str("type") }
	I["internal/reflectlite.TypeOf"] = nop
	addFmt(I)
	addRegexp(I)
}

type sortIf struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (s *sortIf) Len() int           { return s.n }
func (s *sortIf) Less(i, j int) bool { return s.less(i, j) }
func (s *sortIf) Swap(i, j int)      { s.swap(i, j) }

func (e *Engine) typeOf(pkg, name string) types.Type {
	return e.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
}

// errPtr makes a pointer to a struct error value.
func (w *Worker) errPtr(pkg, name string, fields map[string]V) V {
	t := w.eng.typeOf(pkg, name)
	ti := w.ti(t)
	o := w.newObj(ti)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			w.store(o, ti.offs[i], ti.fields[i], v)
		}
	}
	return V{P: o}
}

func (w *Worker) condLocker(p V) V {
	ti := w.ti(w.eng.typeOf("sync", "Cond"))
	st := ti.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return w.load(p.P.(*Obj), int(p.N)+ti.offs[i], ti.fields[i])
		}
	}
	panic("cond")
}

func (w *Worker) invokeMeth(fr *Frame, iv V, name string, args ...V) V {
	if iv.P == nil {
		w.nilDeref()
	}
	i := iv.P.(*Iface)
	m := w.methodByName(i.ti, name)
	return w.invoke(fr, m, append([]V{i.v}, args...), nil)
}

// iterOrder fixes the order in which a map is ranged over.
func (w *Worker) iterOrder(m *Map) []*mapEnt {
	r := make([]*mapEnt, 0, len(m.ents))
	for _, e := range m.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	if w.initing || w.mapMode == 0 || len(r) < 2 {
		return r
	}
	lim := w.mapMode
	if len(r) <= lim {
		for i := 0; i < len(r)-1; i++ {
			k := w.choose("maporder", len(r)-i)
			r[i], r[i+k] = r[i+k], r[i]
		}
		return r
	}
	// beyond the limit: rotations in either direction
	k := w.choose("maprot", 2*len(r))
	w.ex.note("map iteration orders beyond the permutation limit: rotations and reversals only")
	q := make([]*mapEnt, 0, len(r))
	for i := range r {
		j := (i + k) % len(r)
		if k >= len(r) {
			j = len(r) - 1 - j
		}
		q = append(q, r[j])
	}
	return q
}

func (w *Worker) deepEq(a, b V, ti *TI, d int) *Term {
	if d > 50 {
		panic(&unsupported{"deep equality"})
	}
	switch ti.kind {
	case KIface:
		if a.P == nil || b.P == nil {
			return w.T.boolc(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.ti != y.ti {
			return w.T.f
		}
		return w.deepEq(x.v, y.v, x.ti, d+1)
	case KPtr:
		if a.P == nil || b.P == nil || (a.P == b.P && a.N == b.N) {
			return w.T.boolc(a.P == b.P)
		}
		e := w.ti(ti.t.Underlying().(*types.Pointer).Elem())
		return w.deepEq(w.load(a.P.(*Obj), int(a.N), e), w.load(b.P.(*Obj), int(b.N), e), e, d+1)
	case KSlice:
		x, y := asSlice(a), asSlice(b)
		if x == nil || y == nil {
			return w.T.boolc(x == nil && y == nil)
		}
		if x.len != y.len {
			return w.T.f
		}
		if ti.elem.isByte {
			return w.strEq(w.sliceStr(x), w.sliceStr(y))
		}
		r := w.T.t
		for i := 0; i < x.len; i++ {
			r = w.T.and(r, w.deepEq(w.load(x.o, x.off+i*ti.elem.n, ti.elem), w.load(y.o, y.off+i*ti.elem.n, ti.elem), ti.elem, d+1))
		}
		return r
	case KStruct:
		r := w.T.t
		for i, f := range ti.fields {
			r = w.T.and(r, w.deepEq(aggPart(a.P.(*Agg), ti.offs[i], f), aggPart(b.P.(*Agg), ti.offs[i], f), f, d+1))
		}
		return r
	case KArray:
		r := w.T.t
		for i := 0; i < ti.len; i++ {
			r = w.T.and(r, w.deepEq(aggPart(a.P.(*Agg), i*ti.elem.n, ti.elem), aggPart(b.P.(*Agg), i*ti.elem.n, ti.elem), ti.elem, d+1))
		}
		return r
	case KMap:
		if a.P == nil || b.P == nil {
			return w.T.boolc(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Map), b.P.(*Map)
		if x.live != y.live {
			return w.T.f
		}
		r := w.T.t
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(y, e.k)
			if f == nil {
				return w.T.f
			}
			r = w.T.and(r, w.deepEq(e.v, f.v, ti.elem, d+1))
		}
		return r
	case KFunc:
		return w.T.boolc(a.P == nil && b.P == nil)
	}
	return w.eqv(ti, a, b)
}

var _ = os.Args
