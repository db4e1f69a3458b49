package main

// Calls, panics, goroutines, channels.

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v      V
	where  string
	goexit bool
}

type unsupported struct{ what string }

// pathEnd unwinds every goroutine of the interpreted program.
type pathEnd struct{}

func fullRune(b []byte) bool { return utf8.FullRune(b) }
func decodeRuneBytes(b []byte) (rune, int) {
	return utf8.DecodeRune(b)
}

func (w *Worker) where(fr *Frame) string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		p := w.eng.prog.Fset.Position(f.pos)
		if n > 0 {
			sb.WriteString(" < ")
		}
		fmt.Fprintf(&sb, "%s (%s:%d)", f.fn.name, shortFile(p.Filename), p.Line)
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (w *Worker) rtPanic(msg string) {
	panic(&targetPanic{v: w.rtError(msg), where: w.where(w.g.top)})
}

func (w *Worker) rtError(msg string) V {
	return V{P: &Iface{w.tiRtErr, w.str(msg)}}
}

func (w *Worker) nilDeref() {
	w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

// errorV makes an error value of the interpreted program.
func (w *Worker) errorV(msg string) V {
	return w.errorStr(&Str{s: msg})
}

const maxDepth = 4000

func (w *Worker) invoke(caller *Frame, fn *Fn, args []V, free []V) V {
	for fn.subst != nil {
		fn = fn.subst
		free = nil
	}
	if fn.intr != nil {
		return fn.intr(w, caller, args)
	}
	if !fn.compiled {
		w.compile(fn)
	}
	g := w.g
	var regs []V
	if g.sp+fn.nregs <= len(g.stk) {
		regs = g.stk[g.sp : g.sp+fn.nregs : g.sp+fn.nregs]
		g.sp += fn.nregs
	} else {
		n := 1 << 13
		if fn.nregs > n {
			n = fn.nregs
		}
		saveStk, saveSp := g.stk, g.sp
		g.stk = make([]V, n)
		g.sp = fn.nregs
		regs = g.stk[:fn.nregs:fn.nregs]
		defer func() { g.stk, g.sp = saveStk, saveSp }()
	}
	fr := &Frame{w: w, g: g, fn: fn, regs: regs, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			w.fatal("stack overflow in " + fn.name)
		}
	}
	for i, p := range fn.params {
		regs[p] = args[i]
	}
	for i, p := range fn.free {
		regs[p] = free[i]
	}
	if !fn.hasDefer {
		g.top = fr
		w.run(fr, fn.blocks[0])
		g.top = caller
		clear(regs)
		if len(g.stk) > 0 && g.sp >= fn.nregs {
			g.sp -= fn.nregs
		}
		return fr.ret
	}
	sp := g.sp
	stk := g.stk
	w.runProtected(fr)
	g.stk, g.sp = stk, sp
	g.top = caller
	clear(regs)
	g.sp -= fn.nregs
	return fr.ret
}

func (w *Worker) run(fr *Frame, b *Blk) {
	for b != nil {
		w.steps += b.n
		if w.steps > w.stepCheck {
			w.slowStep()
		}
		for _, f := range b.ins {
			f(fr)
		}
		b = b.term(fr)
	}
}

func (w *Worker) runProtected(fr *Frame) {
	stk, sp := fr.g.stk, fr.g.sp
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			fr.g.stk, fr.g.sp = stk, sp
			fr.g.top = fr
			fr.panic = tp
		}()
		fr.g.top = fr
		w.run(fr, fr.fn.blocks[0])
	}()
	if fr.panic == nil {
		return
	}
	// panicking: run the defers, each of which may replace or recover the panic
	w.runDefersPanicking(fr)
	fr.g.stk, fr.g.sp = stk, sp
	fr.g.top = fr
	if fr.panic != nil {
		panic(fr.panic)
	}
	// recovered
	if fr.fn.recover != nil {
		w.run(fr, fr.fn.recover)
	} else {
		fr.ret = w.zeroResult(fr.fn)
	}
}

func (w *Worker) runDefersPanicking(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panic = tp
				}
			}()
			fr.g.deferOf = fr
			d.call(fr)
		}()
		fr.g.top = fr
	}
}

func (w *Worker) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.g.deferOf = nil
		d.call(fr)
	}
}

// prepCall evaluates callee and arguments now and returns the call.
func (w *Worker) prepCall(fn *Fn, c *ssa.CallCommon, in ssa.Instruction) func(fr *Frame) func(caller *Frame) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bf := w.builtin(b, c, in)
		args := w.opnds(fn, c.Args)
		return func(fr *Frame) func(*Frame) {
			vs := getAll(args, fr)
			return func(caller *Frame) { bf(caller, vs) }
		}
	}
	res := w.callee(fn, c)
	return func(fr *Frame) func(*Frame) {
		f, args, free := res(fr)
		return func(caller *Frame) {
			// a frame directly called as a deferred function may recover
			d := caller.g.deferOf
			caller.g.pendDefer = d
			caller.g.deferOf = nil
			caller.w.invokeDeferred(caller, f, args, free, d)
		}
	}
}

func (w *Worker) invokeDeferred(caller *Frame, fn *Fn, args []V, free []V, of *Frame) {
	for fn.subst != nil {
		fn, free = fn.subst, nil
	}
	if fn.intr != nil {
		fn.intr(w, caller, args)
		return
	}
	// recover() looks at the panicking frame through recoverTarget
	w.g.recoverFor = append(w.g.recoverFor, recEnt{of, -1})
	n := len(w.g.recoverFor)
	depth := 1
	if caller != nil {
		depth = caller.depth + 1
	}
	w.g.recoverFor[n-1].depth = depth
	defer func() { w.g.recoverFor = w.g.recoverFor[:n-1] }()
	w.invoke(caller, fn, args, free)
}

type recEnt struct {
	of    *Frame
	depth int
}

func (w *Worker) opnds(fn *Fn, vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = w.opnd(fn, v)
	}
	return r
}

func getAll(ops []opnd, fr *Frame) []V {
	r := make([]V, len(ops))
	for i := range ops {
		r[i] = ops[i].get(fr)
	}
	return r
}

// callee resolves function and arguments.
func (w *Worker) callee(fn *Fn, c *ssa.CallCommon) func(fr *Frame) (*Fn, []V, []V) {
	if c.IsInvoke() {
		x := w.opnd(fn, c.Value)
		args := w.opnds(fn, c.Args)
		m := c.Method
		return func(fr *Frame) (*Fn, []V, []V) {
			v := x.get(fr)
			if v.P == nil {
				fr.w.nilDeref()
			}
			i := v.P.(*Iface)
			f := fr.w.method(i.ti, m)
			as := make([]V, len(args)+1)
			as[0] = i.v
			for k := range args {
				as[k+1] = args[k].get(fr)
			}
			return f, as, nil
		}
	}
	args := w.opnds(fn, c.Args)
	if f := c.StaticCallee(); f != nil {
		callee := w.fnOf(f)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl := w.opnd(fn, mc)
			return func(fr *Frame) (*Fn, []V, []V) {
				return callee, getAll(args, fr), cl.get(fr).P.(*Closure).free
			}
		}
		return func(fr *Frame) (*Fn, []V, []V) { return callee, getAll(args, fr), nil }
	}
	x := w.opnd(fn, c.Value)
	return func(fr *Frame) (*Fn, []V, []V) {
		v := x.get(fr)
		if v.P == nil {
			fr.w.nilDeref()
		}
		cl := v.P.(*Closure)
		return cl.fn, getAll(args, fr), cl.free
	}
}

type methKey struct {
	ti *TI
	m  *types.Func
}

func (w *Worker) method(ti *TI, m *types.Func) *Fn {
	k := methKey{ti, m}
	if f := w.meths[k]; f != nil {
		return f
	}
	f := w.eng.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	if f == nil {
		panic(fmt.Sprintf("no method %v on %v", m, ti.t))
	}
	fn := w.fnOf(f)
	w.meths[k] = fn
	return fn
}

func (w *Worker) methodByName(ti *TI, name string) *Fn {
	ms := w.eng.prog.MethodSets.MethodSet(ti.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			f := w.eng.prog.MethodValue(s)
			if f == nil {
				return nil
			}
			return w.fnOf(f)
		}
	}
	return nil
}

func (w *Worker) call(fn *Fn, c *ssa.CallCommon, in *ssa.Call) func(fr *Frame) V {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bf := w.builtin(b, c, in)
		args := w.opnds(fn, c.Args)
		switch len(args) {
		case 1:
			a := args[0]
			if b.Name() == "len" {
				return w.lenBuiltin(c, a)
			}
		}
		return func(fr *Frame) V { return bf(fr, getAll(args, fr)) }
	}
	res := w.callee(fn, c)
	return func(fr *Frame) V {
		f, args, free := res(fr)
		return fr.w.invoke(fr, f, args, free)
	}
}

func (w *Worker) lenBuiltin(c *ssa.CallCommon, a opnd) func(fr *Frame) V {
	ti := w.ti(c.Args[0].Type())
	switch ti.kind {
	case KString:
		return func(fr *Frame) V { return V{N: uint64(len(asStr(a.get(fr)).s))} }
	case KSlice:
		return func(fr *Frame) V {
			v := a.get(fr)
			if v.P == nil {
				return V{}
			}
			s := v.P.(*Slice)
			if s.lt != nil {
				return V{P: s.lt}
			}
			return V{N: uint64(s.len)}
		}
	case KMap:
		return func(fr *Frame) V {
			v := a.get(fr)
			if v.P == nil {
				return V{}
			}
			return V{N: uint64(v.P.(*Map).live)}
		}
	case KChan:
		return func(fr *Frame) V {
			v := a.get(fr)
			if v.P == nil {
				return V{}
			}
			return V{N: uint64(len(v.P.(*Chan).buf))}
		}
	case KArray:
		return func(fr *Frame) V { return V{N: uint64(ti.len)} }
	case KPtr:
		n := uint64(ti.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) V { return V{N: n} }
	}
	panic("len of " + ti.t.String())
}

func (w *Worker) growSlice(eti *TI, s *Slice, need int) *Slice {
	var ln int
	if s != nil {
		ln = s.len
	}
	c := 0
	if s != nil {
		c = s.cap
	}
	nc := c * 2
	if c > 256 {
		nc = c + c/4 + 192
	}
	if nc < need {
		nc = need
	}
	if eti.isByte && nc < 8 {
		nc = 8
	} else if nc < 4 {
		nc = 4
		if need == 1 && c == 0 {
			nc = 1
		}
	}
	if nc > 1<<27 {
		panic(&unsupported{"huge slice"})
	}
	o := w.newArr(eti, nc)
	if s != nil {
		w.copySlots(o, 0, s.o, s.off, ln*eti.n)
	}
	return &Slice{o: o, len: ln, cap: nc}
}

func (w *Worker) appendSlice(eti *TI, a, b *Slice) *Slice {
	if b == nil || b.len == 0 {
		return a
	}
	al := 0
	if a != nil {
		al = a.len
	}
	need := al + b.len
	var r *Slice
	if a == nil || need > a.cap {
		r = w.growSlice(eti, a, need)
		r.len = need
	} else {
		r = &Slice{o: a.o, off: a.off, len: need, cap: a.cap}
	}
	w.copySlots(r.o, r.off+al*eti.n, b.o, b.off, b.len*eti.n)
	return r
}

func sliceV(s *Slice) V {
	if s == nil {
		return V{}
	}
	return V{P: s}
}

func (w *Worker) builtin(b *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction) func(fr *Frame, args []V) V {
	switch b.Name() {
	case "append":
		sti := w.ti(c.Args[0].Type())
		eti := sti.elem
		if len(c.Args) == 1 {
			return func(fr *Frame, args []V) V { return args[0] }
		}
		if w.ti(c.Args[1].Type()).kind == KString {
			return func(fr *Frame, args []V) V {
				s := asStr(args[1])
				if len(s.s) == 0 {
					return args[0]
				}
				return sliceV(fr.w.appendSlice(eti, asSlice(args[0]), fr.w.strSlice(s)))
			}
		}
		return func(fr *Frame, args []V) V {
			return sliceV(fr.w.appendSlice(eti, asSlice(args[0]), asSlice(args[1])))
		}
	case "copy":
		eti := w.ti(c.Args[0].Type()).elem
		str := w.ti(c.Args[1].Type()).kind == KString
		return func(fr *Frame, args []V) V {
			d := asSlice(args[0])
			var s *Slice
			if str {
				s = fr.w.strSlice(asStr(args[1]))
			} else {
				s = asSlice(args[1])
			}
			if d == nil || s == nil {
				return V{}
			}
			n := d.len
			if s.len < n {
				n = s.len
			}
			fr.w.copySlots(d.o, d.off, s.o, s.off, n*eti.n)
			return V{N: uint64(n)}
		}
	case "len":
		f := w.lenBuiltin(c, opnd{})
		_ = f
		return func(fr *Frame, args []V) V { return w.lenBuiltin(c, opnd{-1, args[0]})(fr) }
	case "cap":
		ti := w.ti(c.Args[0].Type())
		return func(fr *Frame, args []V) V {
			switch ti.kind {
			case KSlice:
				if s := asSlice(args[0]); s != nil {
					return V{N: uint64(s.cap)}
				}
				return V{}
			case KChan:
				if args[0].P == nil {
					return V{}
				}
				return V{N: uint64(args[0].P.(*Chan).cap)}
			case KArray:
				return V{N: uint64(ti.len)}
			case KPtr:
				return V{N: uint64(ti.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
			}
			panic("cap")
		}
	case "close":
		return func(fr *Frame, args []V) V { fr.w.chanClose(fr, args[0]); return V{} }
	case "delete":
		return func(fr *Frame, args []V) V {
			if args[0].P != nil {
				fr.w.mapDelete(args[0].P.(*Map), args[1])
			}
			return V{}
		}
	case "clear":
		ti := w.ti(c.Args[0].Type())
		return func(fr *Frame, args []V) V {
			if args[0].P == nil {
				return V{}
			}
			if ti.kind == KMap {
				m := args[0].P.(*Map)
				fr.w.mapDirty(m)
				for _, e := range m.ents {
					e.dead = true
				}
				m.ents, m.idx, m.nsym, m.live = nil, map[any]*mapEnt{}, 0, 0
				return V{}
			}
			s := args[0].P.(*Slice)
			for i := 0; i < s.len; i++ {
				fr.w.store(s.o, s.off+i*ti.elem.n, ti.elem, ti.elem.zero)
			}
			return V{}
		}
	case "print", "println":
		return func(fr *Frame, args []V) V { return V{} }
	case "recover":
		return func(fr *Frame, args []V) V {
			g := fr.g
			n := len(g.recoverFor)
			if n == 0 {
				return V{}
			}
			e := g.recoverFor[n-1]
			if e.of == nil || e.of.panic == nil || fr.depth != e.depth || e.of.panic.goexit {
				return V{}
			}
			v := e.of.panic.v
			e.of.panic = nil
			return v
		}
	case "panic":
		return func(fr *Frame, args []V) V {
			panic(&targetPanic{v: args[0], where: fr.w.where(fr)})
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, args []V) V {
			if args[0].P == nil {
				fr.w.rtPanic(fmt.Sprintf("value method %s.%s called using nil pointer", asStr(args[1]).s, asStr(args[2]).s))
			}
			return args[0]
		}
	case "ssa:deferstack":
		return func(fr *Frame, args []V) V { return V{} }
	case "min", "max":
		ti := w.ti(c.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *Frame, args []V) V {
			w := fr.w
			r := args[0]
			for _, x := range args[1:] {
				switch ti.kind {
				case KInt:
					if r.P == nil && x.P == nil {
						var less bool
						if ti.signed {
							less = int64(x.N) < int64(r.N)
						} else {
							less = x.N < r.N
						}
						if less == isMin {
							r = x
						}
						continue
					}
					op := OpUlt
					if ti.signed {
						op = OpSlt
					}
					xt, rt := w.term(x, ti), w.term(r, ti)
					if isMin {
						r = w.val(w.T.ite(w.T.cmp(op, xt, rt), xt, rt), ti)
					} else {
						r = w.val(w.T.ite(w.T.cmp(op, rt, xt), xt, rt), ti)
					}
				case KString:
					if w.decide(w.strLess(asStr(x), asStr(r), false)) == isMin {
						r = x
					}
				default:
					panic(&unsupported{"min/max of " + ti.t.String()})
				}
			}
			return r
		}
	// package unsafe
	case "String":
		return func(fr *Frame, args []V) V {
			n := int(args[1].N)
			if n == 0 || args[0].P == nil {
				return V{P: emptyStr}
			}
			return V{P: fr.w.objStr(args[0].P.(*Obj), int(args[0].N), n)}
		}
	case "StringData":
		return func(fr *Frame, args []V) V {
			s := asStr(args[0])
			if len(s.s) == 0 {
				return V{}
			}
			return V{P: fr.w.strSlice(s).o}
		}
	case "SliceData":
		return func(fr *Frame, args []V) V {
			s := asSlice(args[0])
			if s == nil {
				return V{}
			}
			return V{P: s.o, N: uint64(s.off)}
		}
	case "Slice":
		return func(fr *Frame, args []V) V {
			n := int(fr.w.concInt(args[1], w.ti(c.Args[1].Type())))
			if args[0].P == nil {
				return V{}
			}
			return V{P: &Slice{o: args[0].P.(*Obj), off: int(args[0].N), len: n, cap: n}}
		}
	case "Add":
		eti := w.ti(types.Typ[types.Byte])
		_ = eti
		return func(fr *Frame, args []V) V {
			return V{P: args[0].P, N: args[0].N + args[1].N}
		}
	case "real", "imag", "complex":
		return func(fr *Frame, args []V) V { panic(&unsupported{"complex"}) }
	}
	panic("builtin " + b.Name())
}

// --- goroutines

type G struct {
	id         int
	ch         chan struct{}
	top        *Frame
	stk        []V
	sp         int
	ready      func() bool // nil: runnable
	alarm      int64       // when it goes on, if it waits for time to pass
	done       bool
	deferOf    *Frame
	pendDefer  *Frame
	recoverFor []recEnt
	what       string
}

func (w *Worker) newG() *G {
	g := &G{id: len(w.gs), ch: make(chan struct{}, 1), stk: make([]V, 1<<12)}
	w.gs = append(w.gs, g)
	return g
}

func (w *Worker) spawn(fr *Frame, f func(caller *Frame)) {
	if w.initing {
		return // background goroutines of package initialisers are not modelled
	}
	g := w.newG()
	root := &Frame{w: w, g: g, fn: &Fn{name: "go"}, pos: fr.pos}
	g.top = root
	go func() {
		<-g.ch
		defer func() {
			r := recover()
			w.goroutineExit(g, r)
		}()
		if w.aborting {
			panic(pathEnd{})
		}
		f(root)
	}()
	w.runq = append(w.runq, g)
	w.schedPoint(fr)
}

// goroutineExit runs on the goroutine's own native goroutine while it holds the token.
func (w *Worker) goroutineExit(g *G, r any) {
	g.done = true
	if w.cleanup { // ended by runTask, which waits for us
		w.ackCh <- struct{}{}
		return
	}
	if r != nil || w.aborting {
		if r != nil {
			w.record(r)
		}
		w.aborting = true
		w.mainG.ch <- struct{}{}
		return
	}
	var n *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.record(r)
				n = nil
			}
		}()
		n = w.pickNext()
		if n == nil {
			w.setOutcome("deadlock", w.deadlockMsg())
		}
	}()
	if n == nil {
		w.aborting = true
		w.mainG.ch <- struct{}{}
		return
	}
	w.g = n
	n.ch <- struct{}{}
}

func (w *Worker) deadlockMsg() string {
	var sb strings.Builder
	sb.WriteString("all goroutines are asleep:")
	for _, g := range w.gs {
		if !g.done {
			fmt.Fprintf(&sb, " [g%d %s at %s]", g.id, g.what, w.where(g.top))
		}
	}
	return sb.String()
}

// pickNext removes and returns the goroutine to run next, or nil.
func (w *Worker) pickNext() *G {
	// wake goroutines whose condition holds
	for _, g := range w.gs {
		if g.ready != nil && g.ready() {
			g.ready = nil
			w.runq = append(w.runq, g)
		}
	}
	if len(w.runq) == 0 {
		// time passes when nothing else can go on
		var next *G
		for _, g := range w.gs {
			if g.alarm != 0 && !g.done && (next == nil || g.alarm < next.alarm) {
				next = g
			}
		}
		if next == nil {
			return nil
		}
		w.clock = max(w.clock, next.alarm)
		next.alarm, next.ready = 0, nil
		return next
	}
	i := 0
	if w.schedFork && len(w.runq) > 1 {
		i = w.chooseSched(len(w.runq))
	}
	g := w.runq[i]
	w.runq = append(w.runq[:i:i], w.runq[i+1:]...)
	return g
}

// idle parks the current goroutine until d has passed.
func (w *Worker) idle(d int64) {
	w.g.alarm = max(1, w.clock+d)
	w.block("timer", func() bool { return false })
}

// block parks the current goroutine until ready() holds.
func (w *Worker) block(what string, ready func() bool) {
	if w.initing {
		panic(&unsupported{"blocking in initialiser"})
	}
	g := w.g
	g.ready = ready
	g.what = what
	n := w.pickNext()
	if n == nil {
		w.setOutcome("deadlock", w.deadlockMsg())
		panic(pathEnd{})
	}
	w.switchTo(g, n)
}

func (w *Worker) switchTo(g, n *G) {
	if n == g {
		return
	}
	w.switches++
	w.g = n
	n.ch <- struct{}{}
	<-g.ch
	if w.aborting {
		panic(pathEnd{})
	}
	w.g = g
}

// yield lets other runnable goroutines run.
func (w *Worker) yield() {
	g := w.g
	w.runq = append(w.runq, g)
	n := w.pickNext()
	w.switchTo(g, n)
}

// schedPoint is a point where a preemption may be explored.
func (w *Worker) schedPoint(fr *Frame) {
	if !w.schedFork || w.preempts >= w.maxPreempt || w.initing {
		return
	}
	g := w.g
	for _, x := range w.gs {
		if x.ready != nil && x.ready() {
			x.ready = nil
			w.runq = append(w.runq, x)
		}
	}
	if len(w.runq) == 0 {
		return
	}
	i := w.chooseSched(len(w.runq) + 1)
	if i == 0 {
		return
	}
	w.preempts++
	n := w.runq[i-1]
	w.runq = append(w.runq[:i-1:i-1], w.runq[i:]...)
	w.runq = append(w.runq, g)
	w.switchTo(g, n)
}

// --- channels

type waiter struct {
	g    *G
	v    V      // value to send / received
	ok   bool   // received from an open channel
	done *int32 // shared by the cases of a select: set once to the case chosen +1
	idx  int32
	send bool
}

type Chan struct {
	cap    int
	buf    []V
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   *TI
	id     int
}

func (w *Worker) newChan(n int, elem *TI) *Chan {
	w.nchan++
	return &Chan{cap: n, elem: elem, id: w.nchan}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if *x.done == 0 {
			return x
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if *x.done == 0 {
			return true
		}
	}
	return false
}

// trySend completes a send if possible without blocking.
func (w *Worker) trySend(c *Chan, v V) bool {
	if c.closed {
		w.rtPanicPlain("send on closed channel")
	}
	if r := popWaiter(&c.recvq); r != nil {
		r.v, r.ok = v, true
		*r.done = r.idx + 1
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (w *Worker) rtPanicPlain(msg string) { w.rtPanic(msg) }

func (w *Worker) tryRecv(c *Chan) (v V, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]V(nil), c.buf[1:]...)
		if s := popWaiter(&c.sendq); s != nil {
			c.buf = append(c.buf, s.v)
			*s.done = s.idx + 1
		}
		return v, true, true
	}
	if s := popWaiter(&c.sendq); s != nil {
		*s.done = s.idx + 1
		return s.v, true, true
	}
	if c.closed {
		return V{}, false, true
	}
	return V{}, false, false
}

func (w *Worker) chanSend(fr *Frame, cv V, v V) {
	if cv.P == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	w.schedPoint(fr)
	c := cv.P.(*Chan)
	if w.trySend(c, v) {
		return
	}
	var done int32
	x := &waiter{g: w.g, v: v, done: &done, send: true}
	c.sendq = append(c.sendq, x)
	w.block("chan send", func() bool { return done != 0 || c.closed })
	if done == 0 {
		done = -1
		w.rtPanicPlain("send on closed channel")
	}
}

func (w *Worker) chanRecv(fr *Frame, cv V) (V, bool) {
	if cv.P == nil {
		w.block("receive from nil channel", func() bool { return false })
	}
	w.schedPoint(fr)
	c := cv.P.(*Chan)
	if v, ok, d := w.tryRecv(c); d {
		return v, ok
	}
	var done int32
	x := &waiter{g: w.g, done: &done}
	c.recvq = append(c.recvq, x)
	w.block("chan receive", func() bool { return done != 0 || c.closed })
	if done == 0 {
		done = -1
		return V{}, false
	}
	return x.v, x.ok
}

func (w *Worker) chanClose(fr *Frame, cv V) {
	if cv.P == nil {
		w.rtPanicPlain("close of nil channel")
	}
	w.schedPoint(fr)
	c := cv.P.(*Chan)
	if c.closed {
		w.rtPanicPlain("close of closed channel")
	}
	c.closed = true
}

func (w *Worker) selectInstr(fn *Fn, in *ssa.Select) func(fr *Frame) {
	type st struct {
		send bool
		ch   opnd
		val  opnd
		eti  *TI
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, ch: w.opnd(fn, s.Chan), eti: w.ti(s.Chan.Type()).elem}
		if x.send {
			x.val = w.opnd(fn, s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, x)
	}
	d := w.reg(fn, in)
	blocking := in.Blocking
	pos := in.Pos()
	return func(fr *Frame) {
		fr.pos = pos
		w := fr.w
		w.schedPoint(fr)
		result := func(i int, v V, ok bool) {
			e := make([]V, 2+nrecv)
			e[0] = V{N: uint64(int64(i))}
			e[1] = boolV(ok)
			k := 0
			for j, s := range sts {
				if s.send {
					continue
				}
				e[2+k] = s.eti.zero
				if j == i && ok {
					e[2+k] = v
				}
				k++
			}
			fr.regs[d] = V{P: &Agg{e}}
		}
		chans := make([]*Chan, len(sts))
		vals := make([]V, len(sts))
		var ready []int
		for i := range sts {
			cv := sts[i].ch.get(fr)
			if sts[i].send {
				vals[i] = sts[i].val.get(fr)
			}
			if cv.P == nil {
				continue
			}
			c := cv.P.(*Chan)
			chans[i] = c
			if sts[i].send {
				if c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap {
					ready = append(ready, i)
				}
			} else if c.closed || len(c.buf) > 0 || hasWaiter(c.sendq) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if len(ready) > 1 && w.schedFork {
				i = ready[w.chooseSched(len(ready))]
			}
			if sts[i].send {
				w.trySend(chans[i], vals[i])
				result(i, V{}, false)
			} else {
				v, ok, _ := w.tryRecv(chans[i])
				result(i, v, ok)
			}
			return
		}
		if !blocking {
			result(-1, V{}, false)
			return
		}
		var done int32
		ws := make([]*waiter, len(sts))
		for i, c := range chans {
			if c == nil {
				continue
			}
			x := &waiter{g: w.g, v: vals[i], done: &done, idx: int32(i), send: sts[i].send}
			ws[i] = x
			if sts[i].send {
				c.sendq = append(c.sendq, x)
			} else {
				c.recvq = append(c.recvq, x)
			}
		}
		w.block("select", func() bool {
			if done != 0 {
				return true
			}
			for _, c := range chans {
				if c != nil && c.closed {
					return true
				}
			}
			return false
		})
		if done == 0 {
			done = -1
			for i, c := range chans {
				if c != nil && c.closed {
					if sts[i].send {
						w.rtPanicPlain("send on closed channel")
					}
					result(i, V{}, false)
					return
				}
			}
		}
		i := int(done - 1)
		result(i, ws[i].v, ws[i].ok)
	}
}

// engineErr formats an internal failure.
func engineErr(r any) string {
	return fmt.Sprintf("%v\n%s", r, debug.Stack())
}

var _ = token.NoPos
