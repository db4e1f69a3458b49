package main

// Compilation of SSA functions into closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(w *Worker, fr *Frame, args []V) V

type Fn struct {
	ssa      *ssa.Function
	name     string
	nregs    int
	params   []int
	free     []int
	blocks   []*Blk
	hasDefer bool
	recover  *Blk
	intr     Intrinsic
	subst    *Fn
	compiled bool
	calls    int64
	inRepo   bool
	resTI    []*TI
	tupleTI  *TI
	regOf    map[ssa.Value]int
}

type Blk struct {
	idx  int
	ins  []func(fr *Frame)
	pos  []token.Pos
	term func(fr *Frame) *Blk
	n    int64
	ssa  *ssa.BasicBlock
}

type deferred struct {
	call func(caller *Frame)
}

type Frame struct {
	w      *Worker
	g      *G
	fn     *Fn
	regs   []V
	defers []deferred
	panic  *targetPanic
	// parent frame whose defers are being run, when this frame is a deferred call
	deferOf *Frame
	caller  *Frame
	ret     V
	pos     token.Pos
	depth   int
}

type opnd struct {
	r int
	c V
}

func (o *opnd) get(fr *Frame) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

func (w *Worker) fnOf(f *ssa.Function) *Fn {
	if x := w.fns[f]; x != nil {
		return x
	}
	fn := &Fn{ssa: f}
	w.fns[f] = fn
	name := f.String()
	if o := f.Origin(); o != nil {
		fn.name = o.String()
	} else {
		fn.name = name
	}
	if in := w.lookupIntrinsic(fn.name, f); in != nil {
		fn.intr = in
		return fn
	}
	if s := w.eng.substs[fn.name]; s != nil {
		if s != f {
			fn.subst = w.fnOf(s)
			return fn
		}
	}
	return fn
}

func (w *Worker) opnd(fn *Fn, v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, w.constV(v)}
	case *ssa.Global:
		return opnd{-1, V{P: w.globalObj(v)}}
	case *ssa.Function:
		return opnd{-1, V{P: &Closure{fn: w.fnOf(v)}}}
	case *ssa.Builtin:
		panic("builtin as value")
	}
	r, ok := fn.regOf[v]
	if !ok {
		r = fn.nregs
		fn.nregs++
		fn.regOf[v] = r
	}
	return opnd{r: r}
}

func (w *Worker) reg(fn *Fn, v ssa.Value) int {
	o := w.opnd(fn, v)
	return o.r
}

func (w *Worker) globalObj(g *ssa.Global) *Obj {
	if o := w.globals[g]; o != nil {
		return o
	}
	ini := w.initing
	w.initing = true
	o := w.newObj(w.ti(g.Type().(*types.Pointer).Elem()))
	w.initing = ini
	o.base = true
	w.globals[g] = o
	return o
}

func (w *Worker) constV(c *ssa.Const) V {
	ti := w.ti(c.Type())
	if c.Value == nil {
		return ti.zero
	}
	switch ti.kind {
	case KBool:
		return boolV(constant.BoolVal(c.Value))
	case KInt:
		if ti.signed {
			n := c.Int64()
			return V{N: uint64(n)}
		}
		return V{N: c.Uint64()}
	case KFloat:
		f := c.Float64()
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return V{N: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return w.str(constant.StringVal(c.Value))
		}
		return w.str(string(rune(c.Int64())))
	case KComplex:
		return V{P: c.Complex128()}
	case KPtr, KUnsafe:
		return V{N: c.Uint64()}
	}
	panic(fmt.Sprintf("const %v of %v", c, c.Type()))
}

func (w *Worker) compile(fn *Fn) {
	f := fn.ssa
	if f.Blocks == nil {
		panic(&unsupported{"no body: " + fn.name})
	}
	fn.compiled = true
	fn.regOf = map[ssa.Value]int{}
	for _, p := range f.Params {
		fn.params = append(fn.params, w.reg(fn, p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, w.reg(fn, p))
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fn.resTI = append(fn.resTI, w.ti(res.At(i).Type()))
	}
	fn.inRepo = w.eng.inRepo(f)
	fn.blocks = make([]*Blk, len(f.Blocks))
	for i, b := range f.Blocks {
		fn.blocks[i] = &Blk{idx: i, ssa: b}
	}
	for i, b := range f.Blocks {
		w.compileBlock(fn, fn.blocks[i], b)
	}
	if f.Recover != nil {
		fn.recover = fn.blocks[f.Recover.Index]
	}
	if !w.initing || fn.inRepo {
		w.noteFn(fn)
	}
	fn.regOf = nil
}

func (w *Worker) zeroResult(fn *Fn) V {
	switch len(fn.resTI) {
	case 0:
		return V{}
	case 1:
		return fn.resTI[0].zero
	}
	e := make([]V, len(fn.resTI))
	for i, t := range fn.resTI {
		e[i] = t.zero
	}
	return V{P: &Agg{e}}
}

type phiMove struct {
	dst int
	src opnd
}

func (w *Worker) edge(fn *Fn, from, to *ssa.BasicBlock) func(fr *Frame) *Blk {
	target := fn.blocks[to.Index]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var moves []phiMove
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		moves = append(moves, phiMove{w.reg(fn, phi), w.opnd(fn, phi.Edges[pi])})
	}
	switch len(moves) {
	case 0:
		return func(fr *Frame) *Blk { return target }
	case 1:
		m := moves[0]
		return func(fr *Frame) *Blk { fr.regs[m.dst] = m.src.get(fr); return target }
	}
	// parallel copy only where a destination is also a source
	dsts := map[int]bool{}
	for _, m := range moves {
		dsts[m.dst] = true
	}
	conflict := false
	for _, m := range moves {
		if m.src.r >= 0 && dsts[m.src.r] && m.src.r != m.dst {
			conflict = true
		}
	}
	if !conflict {
		return func(fr *Frame) *Blk {
			for i := range moves {
				fr.regs[moves[i].dst] = moves[i].src.get(fr)
			}
			return target
		}
	}
	return func(fr *Frame) *Blk {
		var buf [8]V
		tmp := buf[:0]
		for i := range moves {
			tmp = append(tmp, moves[i].src.get(fr))
		}
		for i := range moves {
			fr.regs[moves[i].dst] = tmp[i]
		}
		return target
	}
}

func (w *Worker) compileBlock(fn *Fn, blk *Blk, b *ssa.BasicBlock) {
	// a two-way edge to the same block is distinguished by predecessor index,
	// which go/ssa does not produce with differing phis
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			blk.term = w.edge(fn, b, b.Succs[0])
		case *ssa.If:
			c := w.opnd(fn, in.Cond)
			et := w.edge(fn, b, b.Succs[0])
			ef := w.edge(fn, b, b.Succs[1])
			pos := in.Cond.Pos()
			merged := w.shortCircuit(fn, b, in)
			if merged != nil {
				blk.term = merged
				break
			}
			blk.term = func(fr *Frame) *Blk {
				v := c.get(fr)
				if v.P == nil {
					if v.N != 0 {
						return et(fr)
					}
					return ef(fr)
				}
				fr.pos = pos
				if fr.w.decide(v.P.(*Term)) {
					return et(fr)
				}
				return ef(fr)
			}
		case *ssa.Return:
			ops := make([]opnd, len(in.Results))
			for i, r := range in.Results {
				ops[i] = w.opnd(fn, r)
			}
			switch len(ops) {
			case 0:
				blk.term = func(fr *Frame) *Blk { return nil }
			case 1:
				o := ops[0]
				blk.term = func(fr *Frame) *Blk { fr.ret = o.get(fr); return nil }
			default:
				blk.term = func(fr *Frame) *Blk {
					e := make([]V, len(ops))
					for i := range ops {
						e[i] = ops[i].get(fr)
					}
					fr.ret = V{P: &Agg{e}}
					return nil
				}
			}
		case *ssa.Panic:
			o := w.opnd(fn, in.X)
			pos := in.Pos()
			blk.term = func(fr *Frame) *Blk {
				fr.pos = pos
				v := o.get(fr)
				if v.P == nil {
					fr.w.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(&targetPanic{v: v, where: fr.w.where(fr)})
			}
		default:
			c := w.instr(fn, in)
			if c != nil {
				blk.ins = append(blk.ins, c)
				blk.pos = append(blk.pos, in.Pos())
			}
		}
	}
	blk.n = int64(len(b.Instrs))
	if blk.term == nil {
		blk.term = func(fr *Frame) *Blk { panic("block without terminator") }
	}
}

// pureScalar reports whether an instruction may be evaluated speculatively.
func pureScalar(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		b, ok := in.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *ssa.UnOp:
		return in.Op == token.NOT || in.Op == token.SUB || in.Op == token.XOR
	case *ssa.Convert:
		a, ok1 := in.X.Type().Underlying().(*types.Basic)
		b, ok2 := in.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0
	}
	return false
}

// shortCircuit recognises chains "if c1 goto T else B2; B2: pure; if c2 goto T
// else F" (and the dual) and decides the whole chain with one condition, as a
// symbolic byte compared against a class would otherwise fork per comparison.
func (w *Worker) shortCircuit(fn *Fn, b *ssa.BasicBlock, in *ssa.If) func(fr *Frame) *Blk {
	type link struct {
		blk   *ssa.BasicBlock
		onT   bool // shared target is taken when the condition is true
		cond  opnd
		insts []func(fr *Frame)
	}
	if w.eng.noMerge {
		return nil
	}
	hasPhi := func(x *ssa.BasicBlock) bool {
		if len(x.Instrs) == 0 {
			return false
		}
		_, ok := x.Instrs[0].(*ssa.Phi)
		return ok
	}
	phiSame := func(t, p1, p2 *ssa.BasicBlock) bool {
		i1, i2 := -1, -1
		for i, p := range t.Preds {
			if p == p1 {
				i1 = i
			}
			if p == p2 {
				i2 = i
			}
		}
		for _, x := range t.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			if phi.Edges[i1] != phi.Edges[i2] {
				c1, ok1 := phi.Edges[i1].(*ssa.Const)
				c2, ok2 := phi.Edges[i2].(*ssa.Const)
				if ok1 && ok2 && c1.Value != nil && c2.Value != nil && constant.Compare(c1.Value, token.EQL, c2.Value) {
					continue
				}
				return false
			}
		}
		return true
	}
	// the shared target
	for _, shared := range []int{0, 1} {
		T := b.Succs[shared]
		if T == b.Succs[1-shared] {
			return nil
		}
		chain := []link{{blk: b, onT: shared == 0, cond: w.opnd(fn, in.Cond)}}
		cur := b
		next := b.Succs[1-shared]
		for len(chain) < 40 {
			n := next
			if n == cur || n == T || len(n.Preds) != 1 || hasPhi(n) {
				break
			}
			last, ok := n.Instrs[len(n.Instrs)-1].(*ssa.If)
			if !ok {
				break
			}
			pure := true
			for _, x := range n.Instrs[:len(n.Instrs)-1] {
				if !pureScalar(x) {
					pure = false
					break
				}
			}
			if !pure {
				break
			}
			var si int
			if n.Succs[0] == T && n.Succs[1] != T {
				si = 0
			} else if n.Succs[1] == T && n.Succs[0] != T {
				si = 1
			} else {
				break
			}
			if !phiSame(T, b, n) {
				break
			}
			l := link{blk: n, onT: si == 0}
			for _, x := range n.Instrs[:len(n.Instrs)-1] {
				if c := w.instr(fn, x); c != nil {
					l.insts = append(l.insts, c)
				}
			}
			l.cond = w.opnd(fn, last.Cond)
			chain = append(chain, l)
			cur = n
			next = n.Succs[1-si]
		}
		if len(chain) < 2 {
			continue
		}
		lastBlk := chain[len(chain)-1].blk
		eT := w.edge(fn, b, T)
		eF := w.edge(fn, lastBlk, next)
		c0 := chain[0].cond
		onT0 := chain[0].onT
		eF0 := fn.blocks[b.Succs[1-shared].Index]
		pos := in.Cond.Pos()
		return func(fr *Frame) *Blk {
			v := c0.get(fr)
			if v.P == nil {
				if (v.N != 0) == onT0 {
					return eT(fr)
				}
				return eF0 // ordinary execution of the next link
			}
			w := fr.w
			toT := v.P.(*Term)
			if !onT0 {
				toT = w.T.not(toT)
			}
			for i := 1; i < len(chain); i++ {
				l := &chain[i]
				for _, f := range l.insts {
					f(fr)
				}
				x := l.cond.get(fr)
				t, ok := x.P.(*Term)
				if !ok {
					t = w.T.boolc(x.N != 0)
				}
				if !l.onT {
					t = w.T.not(t)
				}
				toT = w.T.or(toT, t)
			}
			fr.pos = pos
			if w.decide(toT) {
				return eT(fr)
			}
			return eF(fr)
		}
	}
	return nil
}

func (w *Worker) instr(fn *Fn, in ssa.Instruction) func(fr *Frame) {
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := w.ti(in.Type().(*types.Pointer).Elem())
		d := w.reg(fn, in)
		return func(fr *Frame) { fr.regs[d] = V{P: fr.w.newObj(ti)} }
	case *ssa.BinOp:
		return w.binop(fn, in)
	case *ssa.UnOp:
		return w.unop(fn, in)
	case *ssa.Call:
		call := w.call(fn, &in.Call, in)
		d := w.reg(fn, in)
		pos := in.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			fr.regs[d] = call(fr)
		}
	case *ssa.ChangeInterface:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		return func(fr *Frame) { fr.regs[d] = o.get(fr) }
	case *ssa.ChangeType:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		return func(fr *Frame) { fr.regs[d] = o.get(fr) }
	case *ssa.Convert:
		return w.convert(fn, in, in.X)
	case *ssa.MultiConvert:
		return w.convert(fn, in, in.X)
	case *ssa.Defer:
		prep := w.prepCall(fn, &in.Call, in)
		fn.hasDefer = true
		return func(fr *Frame) {
			f := prep(fr)
			fr.defers = append(fr.defers, deferred{f})
		}
	case *ssa.Extract:
		o := w.opnd(fn, in.Tuple)
		d := w.reg(fn, in)
		i := in.Index
		return func(fr *Frame) { fr.regs[d] = o.get(fr).P.(*Agg).e[i] }
	case *ssa.Field:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		sti := w.ti(in.X.Type())
		off, fti := sti.offs[in.Field], sti.fields[in.Field]
		return func(fr *Frame) { fr.regs[d] = aggPart(o.get(fr).P.(*Agg), off, fti) }
	case *ssa.FieldAddr:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		sti := w.ti(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(sti.offs[in.Field])
		pos := in.Pos()
		return func(fr *Frame) {
			p := o.get(fr)
			if p.P == nil {
				fr.pos = pos
				fr.w.nilDeref()
			}
			if sp, ok := p.P.(*SymPtr); ok {
				p = fr.w.concPtr(sp)
			}
			fr.regs[d] = V{P: p.P, N: p.N + off}
		}
	case *ssa.Go:
		prep := w.prepCall(fn, &in.Call, in)
		return func(fr *Frame) {
			f := prep(fr)
			fr.w.spawn(fr, f)
		}
	case *ssa.Index:
		o := w.opnd(fn, in.X)
		ix := w.opnd(fn, in.Index)
		iti := w.ti(in.Index.Type())
		d := w.reg(fn, in)
		xti := w.ti(in.X.Type())
		pos := in.Pos()
		if xti.kind == KString {
			return func(fr *Frame) {
				fr.pos = pos
				fr.regs[d] = fr.w.strIndex(asStr(o.get(fr)), ix.get(fr), iti)
			}
		}
		n, eti := xti.len, xti.elem
		return func(fr *Frame) {
			fr.pos = pos
			i := fr.w.index(ix.get(fr), iti, n)
			fr.regs[d] = aggPart(o.get(fr).P.(*Agg), i*eti.n, eti)
		}
	case *ssa.IndexAddr:
		return w.indexAddr(fn, in)
	case *ssa.Lookup:
		return w.lookup(fn, in)
	case *ssa.MakeChan:
		sz := w.opnd(fn, in.Size)
		sti := w.ti(in.Size.Type())
		ti := w.ti(in.Type())
		d := w.reg(fn, in)
		return func(fr *Frame) {
			n := fr.w.concInt(sz.get(fr), sti)
			fr.regs[d] = V{P: fr.w.newChan(int(n), ti.elem)}
		}
	case *ssa.MakeClosure:
		c := w.fnOf(in.Fn.(*ssa.Function))
		ops := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = w.opnd(fn, b)
		}
		d := w.reg(fn, in)
		return func(fr *Frame) {
			fv := make([]V, len(ops))
			for i := range ops {
				fv[i] = ops[i].get(fr)
			}
			fr.regs[d] = V{P: &Closure{c, fv}}
		}
	case *ssa.MakeInterface:
		o := w.opnd(fn, in.X)
		ti := w.ti(in.X.Type())
		d := w.reg(fn, in)
		return func(fr *Frame) { fr.regs[d] = V{P: &Iface{ti, o.get(fr)}} }
	case *ssa.MakeMap:
		ti := w.ti(in.Type())
		d := w.reg(fn, in)
		return func(fr *Frame) { fr.regs[d] = V{P: fr.w.newMap(ti.key)} }
	case *ssa.MakeSlice:
		l, c := w.opnd(fn, in.Len), w.opnd(fn, in.Cap)
		lti, cti := w.ti(in.Len.Type()), w.ti(in.Cap.Type())
		ti := w.ti(in.Type())
		d := w.reg(fn, in)
		pos := in.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			n := int64(fr.w.concInt(l.get(fr), lti))
			cp := int64(fr.w.concInt(c.get(fr), cti))
			if n < 0 || n > 1<<40 {
				fr.w.rtPanic("runtime error: makeslice: len out of range")
			}
			if cp < n || cp > 1<<40 {
				fr.w.rtPanic("runtime error: makeslice: cap out of range")
			}
			if cp > 1<<27 {
				panic(&unsupported{"huge allocation"})
			}
			fr.regs[d] = V{P: &Slice{o: fr.w.newArr(ti.elem, int(cp)), len: int(n), cap: int(cp)}}
		}
	case *ssa.MapUpdate:
		m, k, v := w.opnd(fn, in.Map), w.opnd(fn, in.Key), w.opnd(fn, in.Value)
		pos := in.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			mv := m.get(fr)
			if mv.P == nil {
				fr.w.rtPanic("assignment to entry in nil map")
			}
			fr.w.mapSet(mv.P.(*Map), k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		return w.next(fn, in)
	case *ssa.Range:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		ti := w.ti(in.X.Type())
		if ti.kind == KString {
			return func(fr *Frame) { fr.regs[d] = V{P: &strIter{s: asStr(o.get(fr))}} }
		}
		return func(fr *Frame) {
			v := o.get(fr)
			it := &mapIter{}
			if v.P != nil {
				it.ents = fr.w.iterOrder(v.P.(*Map))
			}
			fr.regs[d] = V{P: it}
		}
	case *ssa.RunDefers:
		fn.hasDefer = true
		return func(fr *Frame) { fr.w.runDefers(fr) }
	case *ssa.Select:
		return w.selectInstr(fn, in)
	case *ssa.Send:
		c, x := w.opnd(fn, in.Chan), w.opnd(fn, in.X)
		pos := in.Pos()
		return func(fr *Frame) {
			fr.pos = pos
			fr.w.chanSend(fr, c.get(fr), x.get(fr))
		}
	case *ssa.Slice:
		return w.slice(fn, in)
	case *ssa.SliceToArrayPointer:
		o := w.opnd(fn, in.X)
		d := w.reg(fn, in)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		pos := in.Pos()
		return func(fr *Frame) {
			s := asSlice(o.get(fr))
			l := 0
			if s != nil {
				l = s.len
			}
			if l < n {
				fr.pos = pos
				fr.w.rtPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", l, n))
			}
			if s == nil {
				fr.regs[d] = V{}
				return
			}
			fr.regs[d] = V{P: s.o, N: uint64(s.off)}
		}
	case *ssa.Store:
		a, v := w.opnd(fn, in.Addr), w.opnd(fn, in.Val)
		ti := w.ti(in.Val.Type())
		pos := in.Pos()
		return func(fr *Frame) {
			p := a.get(fr)
			o, ok := p.P.(*Obj)
			if !ok {
				fr.pos = pos
				if p.P == nil {
					fr.w.nilDeref()
				}
				p = fr.w.concPtr(p.P.(*SymPtr))
				o = p.P.(*Obj)
			}
			fr.w.store(o, int(p.N), ti, v.get(fr))
		}
	case *ssa.TypeAssert:
		return w.typeAssert(fn, in)
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (w *Worker) indexAddr(fn *Fn, in *ssa.IndexAddr) func(fr *Frame) {
	o := w.opnd(fn, in.X)
	ix := w.opnd(fn, in.Index)
	iti := w.ti(in.Index.Type())
	d := w.reg(fn, in)
	pos := in.Pos()
	onlyLoads := in.Referrers() != nil
	if onlyLoads {
		for _, r := range *in.Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				onlyLoads = false
			}
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		eti := w.ti(u.Elem())
		if eti.agg {
			onlyLoads = false
		}
		return func(fr *Frame) {
			s, _ := o.get(fr).P.(*Slice)
			iv := ix.get(fr)
			n := 0
			if s != nil {
				n = s.len
				if s.lt != nil && !fr.w.decide(fr.w.T.cmp(OpUlt, fr.w.T.zext(fr.w.term(iv, iti), 64), s.lt)) {
					fr.pos = pos
					fr.w.rtPanic("runtime error: index out of range")
				}
			}
			if iv.P == nil {
				if iv.N >= uint64(n) {
					fr.pos = pos
					fr.w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(iv.N), n))
				}
				fr.regs[d] = V{P: s.o, N: uint64(s.off + int(iv.N)*eti.n)}
				return
			}
			fr.pos = pos
			if onlyLoads {
				t := fr.w.indexTerm(iv, iti, n)
				fr.regs[d] = V{P: &SymPtr{o: s.o, off: s.off, n: n, t: t, ti: eti}}
				return
			}
			i := fr.w.index(iv, iti, n)
			fr.regs[d] = V{P: s.o, N: uint64(s.off + i*eti.n)}
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		eti := w.ti(at.Elem())
		n := int(at.Len())
		if eti.agg {
			onlyLoads = false
		}
		return func(fr *Frame) {
			p := o.get(fr)
			if p.P == nil {
				fr.pos = pos
				fr.w.nilDeref()
			}
			iv := ix.get(fr)
			if iv.P == nil {
				if iv.N >= uint64(n) {
					fr.pos = pos
					fr.w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(iv.N), n))
				}
				fr.regs[d] = V{P: p.P, N: p.N + iv.N*uint64(eti.n)}
				return
			}
			fr.pos = pos
			if onlyLoads {
				t := fr.w.indexTerm(iv, iti, n)
				fr.regs[d] = V{P: &SymPtr{o: p.P.(*Obj), off: int(p.N), n: n, t: t, ti: eti}}
				return
			}
			i := fr.w.index(iv, iti, n)
			fr.regs[d] = V{P: p.P, N: p.N + uint64(i*eti.n)}
		}
	}
	panic("indexAddr")
}

// SymPtr is the address of a scalar element at a symbolic index known to be
// in range; it only occurs as the operand of loads.
type SymPtr struct {
	o   *Obj
	off int
	n   int
	t   *Term // 64 bits
	ti  *TI
}

func (w *Worker) concPtr(p *SymPtr) V {
	i := w.concTerm(p.t)
	return V{P: p.o, N: uint64(p.off) + i*uint64(p.ti.n)}
}

// table reads element t of a sequence of scalars.
func (w *Worker) table(t *Term, n int, ti *TI, at func(i int) V) (V, bool) {
	if n > 2048 || ti.kind != KInt && ti.kind != KBool {
		return V{}, false
	}
	um := umax(t)
	if um < uint64(n-1) {
		n = int(um) + 1
	}
	runs := 0
	var last V
	for i := 0; i < n; i++ {
		v := at(i)
		if i == 0 || v != last {
			runs++
			if runs > 80 {
				return V{}, false
			}
		}
		last = v
	}
	end := n - 1
	res := w.term(at(end), ti)
	for i := end - 1; i >= 0; i-- {
		if at(i) != at(i+1) {
			res = w.T.ite(w.T.cmp(OpUle, t, w.T.konst(64, uint64(i))), w.term(at(i), ti), res)
		}
	}
	return w.val(res, ti), true
}

func (w *Worker) loadSym(p *SymPtr) V {
	if v, ok := w.table(p.t, p.n, p.ti, func(i int) V { return p.o.get(p.off + i) }); ok {
		return v
	}
	q := w.concPtr(p)
	return q.P.(*Obj).get(int(q.N))
}

// indexTerm checks the range and returns the 64-bit index.
func (w *Worker) indexTerm(v V, ti *TI, n int) *Term {
	t := w.term(v, ti)
	if ti.signed {
		t = w.T.sext(t, 64)
	} else {
		t = w.T.zext(t, 64)
	}
	if !w.decide(w.T.cmp(OpUlt, t, w.T.konst(64, uint64(n)))) {
		w.rtPanic(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
	}
	return t
}

func (w *Worker) index(v V, ti *TI, n int) int {
	if v.P == nil {
		if v.N >= uint64(n) {
			w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(v.N), n))
		}
		return int(v.N)
	}
	return int(w.concTerm(w.indexTerm(v, ti, n)))
}

func (w *Worker) strIndex(s *Str, v V, ti *TI) V {
	if v.P == nil {
		if v.N >= uint64(len(s.s)) {
			w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(v.N), len(s.s)))
		}
		return s.at(int(v.N))
	}
	t := w.indexTerm(v, ti, len(s.s))
	if r, ok := w.table(t, len(s.s), w.tiByte, s.at); ok {
		return r
	}
	return s.at(int(w.concTerm(t)))
}

func (w *Worker) lookup(fn *Fn, in *ssa.Lookup) func(fr *Frame) {
	o := w.opnd(fn, in.X)
	ix := w.opnd(fn, in.Index)
	d := w.reg(fn, in)
	xti := w.ti(in.X.Type())
	pos := in.Pos()
	if xti.kind == KString {
		iti := w.ti(in.Index.Type())
		return func(fr *Frame) {
			fr.pos = pos
			fr.regs[d] = fr.w.strIndex(asStr(o.get(fr)), ix.get(fr), iti)
		}
	}
	zero := xti.elem.zero
	commaOk := in.CommaOk
	return func(fr *Frame) {
		fr.pos = pos
		mv := o.get(fr)
		var e *mapEnt
		if mv.P != nil {
			e = fr.w.mapFind(mv.P.(*Map), ix.get(fr))
		}
		r := zero
		if e != nil {
			r = e.v
		}
		if commaOk {
			r = V{P: &Agg{[]V{r, boolV(e != nil)}}}
		}
		fr.regs[d] = r
	}
}

type strIter struct {
	s *Str
	i int
}

type mapIter struct {
	ents []*mapEnt
	i    int
}

func (w *Worker) next(fn *Fn, in *ssa.Next) func(fr *Frame) {
	o := w.opnd(fn, in.Iter)
	d := w.reg(fn, in)
	if in.IsString {
		return func(fr *Frame) {
			it := o.get(fr).P.(*strIter)
			if it.i >= len(it.s.s) {
				fr.regs[d] = V{P: &Agg{[]V{{}, {}, {}}}}
				return
			}
			i := it.i
			r, n := fr.w.decodeRune(it.s, i)
			it.i += n
			fr.regs[d] = V{P: &Agg{[]V{{N: 1}, {N: uint64(i)}, r}}}
		}
	}
	tup := in.Type().(*types.Tuple)
	var kz, vz V
	if t := tup.At(1).Type(); t != types.Typ[types.Invalid] {
		kz = w.ti(t).zero
	}
	if t := tup.At(2).Type(); t != types.Typ[types.Invalid] {
		vz = w.ti(t).zero
	}
	return func(fr *Frame) {
		it := o.get(fr).P.(*mapIter)
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.dead {
				continue
			}
			fr.regs[d] = V{P: &Agg{[]V{{N: 1}, e.k, e.v}}}
			return
		}
		fr.regs[d] = V{P: &Agg{[]V{{}, kz, vz}}}
	}
}

func (w *Worker) slice(fn *Fn, in *ssa.Slice) func(fr *Frame) {
	x := w.opnd(fn, in.X)
	get := func(v ssa.Value) func(fr *Frame) (int, bool) {
		if v == nil {
			return func(fr *Frame) (int, bool) { return 0, false }
		}
		o := w.opnd(fn, v)
		ti := w.ti(v.Type())
		return func(fr *Frame) (int, bool) {
			c := o.get(fr)
			if c.P == nil {
				return int(c.N), true
			}
			return int(fr.w.concInt(c, ti)), true
		}
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	d := w.reg(fn, in)
	pos := in.Pos()
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		return func(fr *Frame) {
			fr.pos = pos
			s := asStr(x.get(fr))
			i, _ := lo(fr)
			j, ok := hi(fr)
			if !ok {
				j = len(s.s)
			}
			if j < 0 || j > len(s.s) {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", j, len(s.s)))
			}
			if i < 0 || i > j {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", i, j))
			}
			fr.regs[d] = V{P: s.sub(i, j)}
		}
	case *types.Slice:
		eti := w.ti(u.Elem())
		return func(fr *Frame) {
			fr.pos = pos
			s := asSlice(x.get(fr))
			var off, ln, cp int
			var o *Obj
			if s != nil {
				off, ln, cp, o = s.off, s.len, s.cap, s.o
			}
			i, _ := lo(fr)
			j, ok := hi(fr)
			if !ok {
				j = ln
			}
			k, ok := mx(fr)
			if !ok {
				k = cp
			} else if k < 0 || k > cp {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", k, cp))
			}
			if j < 0 || j > k {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", j, k))
			}
			if i < 0 || i > j {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", i, j))
			}
			if s == nil {
				fr.regs[d] = V{}
				return
			}
			fr.regs[d] = V{P: &Slice{o: o, off: off + i*eti.n, len: j - i, cap: k - i}}
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := int(at.Len())
		eti := w.ti(at.Elem())
		return func(fr *Frame) {
			fr.pos = pos
			p := x.get(fr)
			if p.P == nil {
				fr.w.nilDeref()
			}
			i, _ := lo(fr)
			j, ok := hi(fr)
			if !ok {
				j = n
			}
			k, ok := mx(fr)
			if !ok {
				k = n
			}
			if k < 0 || k > n || j < 0 || j > k || i < 0 || i > j {
				fr.w.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with length %d", i, j, k, n))
			}
			fr.regs[d] = V{P: &Slice{o: p.P.(*Obj), off: int(p.N) + i*eti.n, len: j - i, cap: k - i}}
		}
	}
	panic("slice")
}

func (w *Worker) typeAssert(fn *Fn, in *ssa.TypeAssert) func(fr *Frame) {
	o := w.opnd(fn, in.X)
	d := w.reg(fn, in)
	ti := w.ti(in.AssertedType)
	pos := in.Pos()
	commaOk := in.CommaOk
	if ti.kind == KIface {
		return func(fr *Frame) {
			v := o.get(fr)
			ok := v.P != nil && fr.w.implements(v.P.(*Iface).ti, ti)
			if commaOk {
				if !ok {
					v = V{}
				}
				fr.regs[d] = V{P: &Agg{[]V{v, boolV(ok)}}}
				return
			}
			if !ok {
				fr.pos = pos
				dyn := "nil"
				if v.P != nil {
					dyn = v.P.(*Iface).ti.t.String()
				}
				fr.w.rtPanic("interface conversion: " + dyn + " is not " + ti.t.String())
			}
			fr.regs[d] = v
		}
	}
	return func(fr *Frame) {
		v := o.get(fr)
		ok := v.P != nil && v.P.(*Iface).ti == ti
		if commaOk {
			r := ti.zero
			if ok {
				r = v.P.(*Iface).v
			}
			fr.regs[d] = V{P: &Agg{[]V{r, boolV(ok)}}}
			return
		}
		if !ok {
			fr.pos = pos
			dyn := "nil"
			if v.P != nil {
				dyn = v.P.(*Iface).ti.t.String()
			}
			fr.w.rtPanic("interface conversion: interface is " + dyn + ", not " + ti.t.String())
		}
		fr.regs[d] = v.P.(*Iface).v
	}
}

func (w *Worker) implements(ti, it *TI) bool {
	k := [2]*TI{ti, it}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(ti.t, it.iface)
	w.implCache[k] = r
	return r
}

func (w *Worker) unop(fn *Fn, in *ssa.UnOp) func(fr *Frame) {
	o := w.opnd(fn, in.X)
	d := w.reg(fn, in)
	ti := w.ti(in.Type())
	pos := in.Pos()
	switch in.Op {
	case token.MUL:
		if !ti.agg {
			return func(fr *Frame) {
				p := o.get(fr)
				if ob, ok := p.P.(*Obj); ok {
					if ob.e != nil {
						fr.regs[d] = ob.e[p.N]
					} else {
						fr.regs[d] = ob.get(int(p.N))
					}
					return
				}
				fr.pos = pos
				if p.P == nil {
					fr.w.nilDeref()
				}
				fr.regs[d] = fr.w.loadSym(p.P.(*SymPtr))
			}
		}
		return func(fr *Frame) {
			p := o.get(fr)
			ob, ok := p.P.(*Obj)
			if !ok {
				fr.pos = pos
				if p.P == nil {
					fr.w.nilDeref()
				}
				p = fr.w.concPtr(p.P.(*SymPtr))
				ob = p.P.(*Obj)
			}
			fr.regs[d] = fr.w.load(ob, int(p.N), ti)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[d] = V{N: 1 - v.N}
				return
			}
			fr.regs[d] = fr.w.boolT(fr.w.T.not(v.P.(*Term)))
		}
	case token.SUB:
		if ti.kind == KFloat {
			return func(fr *Frame) { fr.regs[d] = V{N: math.Float64bits(-math.Float64frombits(o.get(fr).N))} }
		}
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[d] = V{N: norm(ti, -v.N)}
				return
			}
			w := fr.w
			fr.regs[d] = w.val(w.T.bin(OpSub, w.T.konst(ti.w, 0), v.P.(*Term)), ti)
		}
	case token.XOR:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[d] = V{N: norm(ti, ^v.N)}
				return
			}
			w := fr.w
			fr.regs[d] = w.val(w.T.bin(OpBXor, v.P.(*Term), w.T.konst(ti.w, ^uint64(0))), ti)
		}
	case token.ARROW:
		commaOk := in.CommaOk
		eti := w.ti(in.X.Type()).elem
		return func(fr *Frame) {
			fr.pos = pos
			v, ok := fr.w.chanRecv(fr, o.get(fr))
			if !ok {
				v = eti.zero
			}
			if commaOk {
				fr.regs[d] = V{P: &Agg{[]V{v, boolV(ok)}}}
				return
			}
			fr.regs[d] = v
		}
	}
	panic("unop " + in.Op.String())
}

func norm(ti *TI, n uint64) uint64 {
	if ti.w == 64 {
		return n
	}
	if ti.signed {
		return sext(n, ti.w)
	}
	return n & mask(ti.w)
}

func (w *Worker) binop(fn *Fn, in *ssa.BinOp) func(fr *Frame) {
	x, y := w.opnd(fn, in.X), w.opnd(fn, in.Y)
	d := w.reg(fn, in)
	ti := w.ti(in.X.Type())
	pos := in.Pos()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if ti.kind == KIface || w.ti(in.Y.Type()).kind == KIface {
			// mixed comparison does not occur in SSA; both are interfaces
		}
		if ti.kind == KInt || ti.kind == KBool {
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = boolV((a.N == b.N) != neg)
					return
				}
				w := fr.w
				t := w.T.eq(w.term(a, ti), w.term(b, ti))
				if neg {
					t = w.T.not(t)
				}
				fr.regs[d] = w.boolT(t)
			}
		}
		return func(fr *Frame) {
			fr.pos = pos
			t := fr.w.eqv(ti, x.get(fr), y.get(fr))
			if neg {
				t = fr.w.T.not(t)
			}
			fr.regs[d] = fr.w.boolT(t)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		orEq := op == token.LEQ || op == token.GEQ
		switch ti.kind {
		case KInt:
			var so Op
			if ti.signed {
				so = OpSlt
				if orEq {
					so = OpSle
				}
			} else {
				so = OpUlt
				if orEq {
					so = OpUle
				}
			}
			signed := ti.signed
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				if a.P == nil && b.P == nil {
					var r bool
					if signed {
						r = int64(a.N) < int64(b.N)
					} else {
						r = a.N < b.N
					}
					if orEq && a.N == b.N {
						r = true
					}
					fr.regs[d] = boolV(r)
					return
				}
				w := fr.w
				fr.regs[d] = w.boolT(w.T.cmp(so, w.term(a, ti), w.term(b, ti)))
			}
		case KFloat:
			return func(fr *Frame) {
				a, b := math.Float64frombits(x.get(fr).N), math.Float64frombits(y.get(fr).N)
				fr.regs[d] = boolV(a < b || orEq && a == b)
			}
		case KString:
			return func(fr *Frame) {
				fr.regs[d] = fr.w.boolT(fr.w.strLess(asStr(x.get(fr)), asStr(y.get(fr)), orEq))
			}
		}
		panic("compare " + ti.t.String())
	}
	switch ti.kind {
	case KString:
		return func(fr *Frame) { fr.regs[d] = V{P: asStr(x.get(fr)).concat(asStr(y.get(fr)))} }
	case KFloat:
		f32 := ti.w == 32
		return func(fr *Frame) {
			a, b := math.Float64frombits(x.get(fr).N), math.Float64frombits(y.get(fr).N)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[d] = V{N: math.Float64bits(r)}
		}
	case KComplex:
		return func(fr *Frame) { panic(&unsupported{"complex arithmetic"}) }
	case KBool:
		return func(fr *Frame) {
			a, b := fr.w.term(x.get(fr), ti), fr.w.term(y.get(fr), ti)
			switch op {
			case token.AND:
				fr.regs[d] = fr.w.boolT(fr.w.T.and(a, b))
			case token.OR:
				fr.regs[d] = fr.w.boolT(fr.w.T.or(a, b))
			default:
				panic("bool op")
			}
		}
	}
	yti := w.ti(in.Y.Type())
	switch op {
	case token.ADD:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.P == nil && b.P == nil {
				fr.regs[d] = V{N: norm(ti, a.N+b.N)}
				return
			}
			fr.regs[d] = fr.w.symBin(OpAdd, a, b, ti)
		}
	case token.SUB:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.P == nil && b.P == nil {
				fr.regs[d] = V{N: norm(ti, a.N-b.N)}
				return
			}
			fr.regs[d] = fr.w.symBin(OpSub, a, b, ti)
		}
	case token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.P == nil && b.P == nil {
				var r uint64
				switch op {
				case token.MUL:
					r = a.N * b.N
				case token.AND:
					r = a.N & b.N
				case token.OR:
					r = a.N | b.N
				case token.XOR:
					r = a.N ^ b.N
				case token.AND_NOT:
					r = a.N &^ b.N
				}
				fr.regs[d] = V{N: norm(ti, r)}
				return
			}
			w := fr.w
			switch op {
			case token.MUL:
				fr.regs[d] = w.symBin(OpMul, a, b, ti)
			case token.AND:
				fr.regs[d] = w.symBin(OpBAnd, a, b, ti)
			case token.OR:
				fr.regs[d] = w.symBin(OpBOr, a, b, ti)
			case token.XOR:
				fr.regs[d] = w.symBin(OpBXor, a, b, ti)
			case token.AND_NOT:
				nb := w.T.bin(OpBXor, w.term(b, ti), w.T.konst(ti.w, ^uint64(0)))
				fr.regs[d] = w.val(w.T.bin(OpBAnd, w.term(a, ti), nb), ti)
			}
		}
	case token.QUO, token.REM:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			w := fr.w
			if a.P == nil && b.P == nil {
				if b.N == 0 {
					fr.pos = pos
					w.rtPanic("runtime error: integer divide by zero")
				}
				var r uint64
				if ti.signed {
					if int64(b.N) == -1 {
						if op == token.QUO {
							r = -a.N
						}
					} else if op == token.QUO {
						r = uint64(int64(a.N) / int64(b.N))
					} else {
						r = uint64(int64(a.N) % int64(b.N))
					}
				} else if op == token.QUO {
					r = a.N / b.N
				} else {
					r = a.N % b.N
				}
				fr.regs[d] = V{N: norm(ti, r)}
				return
			}
			fr.pos = pos
			bt := w.term(b, ti)
			if w.decide(w.T.eq(bt, w.T.konst(ti.w, 0))) {
				w.rtPanic("runtime error: integer divide by zero")
			}
			var so Op
			at := w.term(a, ti)
			half := mask(ti.w) >> 1
			signed := ti.signed && !(umax(at) <= half && umax(bt) <= half)
			switch {
			case signed && op == token.QUO:
				so = OpSDiv
			case signed:
				so = OpSRem
			case op == token.QUO:
				so = OpUDiv
			default:
				so = OpURem
			}
			fr.regs[d] = w.val(w.T.bin(so, at, bt), ti)
		}
	case token.SHL, token.SHR:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			w := fr.w
			if b.P == nil {
				if yti.signed && int64(b.N) < 0 {
					fr.pos = pos
					w.rtPanic("runtime error: negative shift amount")
				}
				if a.P == nil {
					var r uint64
					if op == token.SHL {
						if b.N < 64 {
							r = a.N << b.N
						}
					} else if ti.signed {
						s := b.N
						if s > 63 {
							s = 63
						}
						r = uint64(int64(a.N) >> s)
					} else if b.N < 64 {
						r = a.N >> b.N
					}
					fr.regs[d] = V{N: norm(ti, r)}
					return
				}
			} else if yti.signed {
				bt := w.term(b, yti)
				if w.decide(w.T.cmp(OpSlt, bt, w.T.konst(yti.w, 0))) {
					fr.pos = pos
					w.rtPanic("runtime error: negative shift amount")
				}
			}
			W := ti.w
			if yti.w > W {
				W = yti.w
			}
			at := w.term(a, ti)
			bt := w.T.zext(w.term(b, yti), W)
			if b.P == nil {
				W = ti.w
				n := b.N
				if n > uint64(W) {
					n = uint64(W)
				}
				bt = w.T.konst(W, n)
				if n == uint64(W) && W == 64 {
					bt = w.T.konst(W, 64)
				}
			}
			var r *Term
			if op == token.SHL {
				r = w.T.bin(OpShl, w.T.zext(at, W), bt)
			} else if ti.signed {
				r = w.T.bin(OpAShr, w.T.sext(at, W), bt)
			} else {
				r = w.T.bin(OpLShr, w.T.zext(at, W), bt)
			}
			fr.regs[d] = w.val(w.T.trunc(r, ti.w), ti)
		}
	}
	panic("binop " + op.String())
}

func (w *Worker) symBin(op Op, a, b V, ti *TI) V {
	return w.val(w.T.bin(op, w.term(a, ti), w.term(b, ti)), ti)
}

func (w *Worker) convert(fn *Fn, in ssa.Value, X ssa.Value) func(fr *Frame) {
	o := w.opnd(fn, X)
	d := w.reg(fn, in)
	from, to := w.ti(X.Type()), w.ti(in.Type())
	pos := in.Pos()
	f := w.conv(from, to)
	return func(fr *Frame) {
		v := o.get(fr)
		fr.pos = pos
		fr.regs[d] = f(fr.w, v)
	}
}

func (w *Worker) conv(from, to *TI) func(w *Worker, v V) V {
	switch {
	case from.kind == KInt && to.kind == KInt:
		return func(w *Worker, v V) V {
			if v.P == nil {
				return V{N: norm(to, v.N)}
			}
			t := v.P.(*Term)
			switch {
			case to.w < from.w:
				t = w.T.trunc(t, to.w)
			case from.signed:
				t = w.T.sext(t, to.w)
			default:
				t = w.T.zext(t, to.w)
			}
			return w.val(t, to)
		}
	case from.kind == KInt && to.kind == KFloat:
		return func(w *Worker, v V) V {
			n := w.concInt(v, from)
			var f float64
			if from.signed {
				f = float64(int64(n))
			} else {
				f = float64(n)
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return V{N: math.Float64bits(f)}
		}
	case from.kind == KFloat && to.kind == KInt:
		return func(w *Worker, v V) V {
			f := math.Float64frombits(v.N)
			if to.signed {
				return V{N: norm(to, uint64(int64(f)))}
			}
			return V{N: norm(to, uint64(f))}
		}
	case from.kind == KFloat && to.kind == KFloat:
		return func(w *Worker, v V) V {
			if to.w == 32 {
				return V{N: math.Float64bits(float64(float32(math.Float64frombits(v.N))))}
			}
			return v
		}
	case from.kind == KInt && to.kind == KString:
		return func(w *Worker, v V) V {
			if t, ok := v.P.(*Term); ok {
				if w.decide(w.T.cmp(OpUlt, t, w.T.konst(t.w, 0x80))) {
					b := w.T.trunc(t, 8)
					if b.op == OpConst {
						return w.str(string([]byte{byte(b.val)}))
					}
					return V{P: &Str{s: "\x00", t: []*Term{b}}}
				}
			}
			n := int64(w.concInt(v, from))
			if n < 0 || n > 0x10ffff {
				n = 0xfffd
			}
			return w.str(string(rune(n)))
		}
	case from.kind == KString && to.kind == KSlice:
		if to.elem.isByte {
			return func(w *Worker, v V) V { return V{P: w.strSlice(asStr(v))} }
		}
		return func(w *Worker, v V) V {
			s := asStr(v)
			var rs []V
			for i := 0; i < len(s.s); {
				r, n := w.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			ob := w.newArr(to.elem, len(rs))
			copy(ob.e, rs)
			return V{P: &Slice{o: ob, len: len(rs), cap: len(rs)}}
		}
	case from.kind == KSlice && to.kind == KString:
		if from.elem.isByte {
			return func(w *Worker, v V) V { return V{P: w.sliceStr(asSlice(v))} }
		}
		ic := w.conv(from.elem, to)
		return func(w *Worker, v V) V {
			s := asSlice(v)
			r := emptyStr
			if s != nil {
				for i := 0; i < s.len; i++ {
					r = r.concat(ic(w, s.o.get(s.off+i)).P.(*Str))
				}
			}
			return V{P: r}
		}
	case (from.kind == KPtr || from.kind == KUnsafe) && (to.kind == KPtr || to.kind == KUnsafe):
		return func(w *Worker, v V) V { return v }
	case from.kind == KUnsafe && to.kind == KInt:
		return func(w *Worker, v V) V {
			if v.P == nil {
				return V{N: v.N}
			}
			// an address: keep it traceable for a conversion back
			return V{N: 0x1000 + v.N, P: nil}
		}
	case from.kind == KInt && to.kind == KUnsafe:
		return func(w *Worker, v V) V { return V{N: v.N} }
	case from.kind == KSlice && to.kind == KArray:
		return func(w *Worker, v V) V {
			s := asSlice(v)
			n := 0
			if s != nil {
				n = s.len
			}
			if n < to.len {
				w.rtPanic("runtime error: cannot convert slice to array: length too small")
			}
			if to.len == 0 {
				return to.zero
			}
			return w.load(s.o, s.off, to)
		}
	}
	if from.kind == to.kind {
		return func(w *Worker, v V) V { return v }
	}
	return func(w *Worker, v V) V {
		panic(&unsupported{fmt.Sprintf("conversion %v to %v", from.t, to.t)})
	}
}

// decodeRune decodes one rune at i; symbolic bytes are split into ASCII and
// the rest, the latter decoded on concrete values.
func (w *Worker) decodeRune(s *Str, i int) (V, int) {
	if s.t != nil {
		if t := s.t[i]; t != nil {
			if w.decide(w.T.cmp(OpUlt, t, w.T.konst(8, 0x80))) {
				return w.val(w.T.zext(t, 32), w.tiRune), 1
			}
		}
	}
	var buf [4]byte
	n := 0
	for n < 4 && i+n < len(s.s) {
		if s.t != nil && s.t[i+n] != nil {
			if n > 0 {
				// a continuation byte decides the length: ask for it only when needed
				if fullRune(buf[:n]) {
					break
				}
			}
			buf[n] = byte(w.concTerm(s.t[i+n]))
		} else {
			buf[n] = s.s[i+n]
		}
		n++
		if n == 1 && buf[0] < 0x80 {
			break
		}
	}
	r, k := decodeRuneBytes(buf[:n])
	return V{N: uint64(int64(r))}, k
}
