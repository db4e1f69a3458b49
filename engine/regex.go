package main

// Regular expressions over symbolic text. Compilation is the library's own,
// run natively; matching walks the compiled program.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"sync"
)

var progCache sync.Map // expr -> *syntax.Prog

func progOf(expr string) *syntax.Prog {
	if p, ok := progCache.Load(expr); ok {
		return p.(*syntax.Prog)
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		panic(&unsupported{"regexp " + expr})
	}
	re = re.Simplify()
	p, err := syntax.Compile(re)
	if err != nil {
		panic(&unsupported{"regexp " + expr})
	}
	progCache.Store(expr, p)
	return p
}

func (w *Worker) regexpObj(expr string, re *regexp.Regexp) V {
	p := progOf(expr)
	names := re.SubexpNames()
	no := w.newArr(w.tiString, len(names))
	for i, n := range names {
		no.e[i] = w.str(n)
	}
	mc := p.NumCap
	if mc < 2 {
		mc = 2
	}
	prog := w.errPtr("regexp/syntax", "Prog", map[string]V{"NumCap": intV(p.NumCap)})
	return w.errPtr("regexp", "Regexp", map[string]V{
		"expr": w.str(expr), "numSubexp": intV(re.NumSubexp()), "prog": prog, "matchcap": intV(mc),
		"subexpNames": {P: &Slice{o: no, len: len(names), cap: len(names)}},
	})
}

func (w *Worker) regexpExpr(p V) string {
	w.mustPtr(p)
	return asStr(p.P.(*Obj).get(int(p.N))).s
}

func addRegexp(I map[string]Intrinsic) {
	I["regexp.Compile"] = func(w *Worker, fr *Frame, a []V) V {
		expr := w.cstr(a[0])
		re, err := regexp.Compile(expr)
		if err != nil {
			return tuple(V{}, w.errorV(err.Error()))
		}
		return tuple(w.regexpObj(expr, re), V{})
	}
	I["regexp.MustCompile"] = func(w *Worker, fr *Frame, a []V) V {
		expr := w.cstr(a[0])
		re, err := regexp.Compile(expr)
		if err != nil {
			w.rtPanic("regexp: Compile(" + expr + "): " + err.Error())
		}
		return w.regexpObj(expr, re)
	}
	// (re, r io.RuneReader, b []byte, s string, pos, ncap int, dstCap []int) []int
	find := func(w *Worker, fr *Frame, a []V) V {
		if a[1].P != nil {
			panic(&unsupported{"regexp on a reader"})
		}
		s := asStr(a[3])
		if a[2].P != nil {
			s = w.sliceStr(asSlice(a[2]))
		}
		pos, ncap := int(a[4].N), int(a[5].N)
		cap := w.rexec(progOf(w.regexpExpr(a[0])), s, pos, ncap)
		if cap == nil {
			return V{}
		}
		var r *Slice
		if d := asSlice(a[6]); d != nil && d.cap > 0 {
			r = &Slice{o: d.o, off: d.off, len: 0, cap: d.cap}
		}
		o := w.newArr(w.tiInt, len(cap)+1)
		for i, c := range cap {
			o.e[i] = intV(c)
		}
		x := &Slice{o: o, len: len(cap), cap: len(cap) + 1}
		if len(cap) == 0 {
			return V{P: x}
		}
		return sliceV(w.appendSlice(w.tiInt, r, x))
	}
	I["(*regexp.Regexp).find"] = find
	I["(*regexp.Regexp).doExecute"] = find // its name before Go 1.27
	I["(*regexp.Regexp).doMatch"] = func(w *Worker, fr *Frame, a []V) V {
		if a[1].P != nil {
			panic(&unsupported{"regexp on a reader"})
		}
		s := asStr(a[3])
		if a[2].P != nil {
			s = w.sliceStr(asSlice(a[2]))
		}
		p := progOf(w.regexpExpr(a[0]))
		if s.t != nil {
			if t := w.rmatchTerm(p, s); t != nil {
				return w.boolT(t)
			}
		}
		return boolV(w.rexec(p, s, 0, 0) != nil)
	}
}

// rmatchTerm is the condition under which the (ASCII) text matches.
func (w *Worker) rmatchTerm(p *syntax.Prog, s *Str) *Term {
	for i := range p.Inst {
		in := &p.Inst[i]
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil
		}
	}
	ascii := w.T.t
	for i := range s.s {
		b := s.at(i)
		if t, ok := b.P.(*Term); ok {
			ascii = w.T.and(ascii, w.T.cmp(OpUlt, t, w.T.konst(8, 0x80)))
		} else if b.N >= 0x80 {
			return nil
		}
	}
	if !w.decide(ascii) {
		return nil
	}
	n := len(p.Inst)
	match := w.T.f
	cur := make([]*Term, n)
	var order []uint32
	add := func(set []*Term, ord *[]uint32, pc uint32, c *Term, i int) {
		type it struct {
			pc uint32
			c  *Term
		}
		todo := []it{{pc, c}}
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if x.c == w.T.f {
				continue
			}
			old := set[x.pc]
			if old == nil {
				set[x.pc] = x.c
				*ord = append(*ord, x.pc)
			} else {
				nw := w.T.or(old, x.c)
				if nw == old {
					continue
				}
				set[x.pc] = nw
			}
			in := &p.Inst[x.pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				if old != nil && old == w.T.t {
					continue
				}
				todo = append(todo, it{in.Out, x.c}, it{in.Arg, x.c})
			case syntax.InstCapture, syntax.InstNop:
				todo = append(todo, it{in.Out, x.c})
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if op&syntax.EmptyBeginText != 0 && i != 0 || op&syntax.EmptyEndText != 0 && i != len(s.s) {
					continue
				}
				todo = append(todo, it{in.Out, x.c})
			case syntax.InstMatch:
				match = w.T.or(match, x.c)
			}
		}
	}
	for i := 0; ; i++ {
		add(cur, &order, uint32(p.Start), w.T.t, i)
		if match == w.T.t || i == len(s.s) {
			return match
		}
		next := make([]*Term, n)
		var nord []uint32
		for _, pc := range order {
			in := &p.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				c := w.T.and(cur[pc], w.runeMatch(in, s.at(i)))
				add(next, &nord, in.Out, c, i+1)
			}
		}
		cur, order = next, nord
	}
}

// runeMatch is the condition under which an ASCII rune matches an instruction.
func (w *Worker) runeMatch(in *syntax.Inst, v V) *Term {
	t, ok := v.P.(*Term)
	if !ok {
		return w.T.boolc(in.MatchRune(rune(v.N)))
	}
	r := w.T.f
	for lo := 0; lo < 128; {
		if !in.MatchRune(rune(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 128 && in.MatchRune(rune(hi+1)) {
			hi++
		}
		var c *Term
		if lo == hi {
			c = w.T.eq(t, w.T.konst(t.w, uint64(lo)))
		} else {
			c = w.T.cmp(OpUle, t, w.T.konst(t.w, uint64(hi)))
			if lo > 0 {
				c = w.T.and(w.T.cmp(OpUle, w.T.konst(t.w, uint64(lo)), t), c)
			}
		}
		r = w.T.or(r, c)
		lo = hi + 1
	}
	return r
}

// rexec is a backtracking matcher: leftmost, first alternative preferred.
func (w *Worker) rexec(p *syntax.Prog, s *Str, pos, ncap int) []int {
	if s.t == nil {
		// nothing symbolic: ordinary backtracking below is still fine
	}
	n := len(s.s) + 1
	for start := pos; start < n; start++ {
		visited := make(map[uint64]bool)
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		if ncap >= 1 {
			caps[0] = start
		}
		if w.rback(p, s, uint32(p.Start), start, caps, visited) {
			return caps
		}
	}
	return nil
}

func (w *Worker) rback(p *syntax.Prog, s *Str, pc uint32, i int, caps []int, vis map[uint64]bool) bool {
	for {
		k := uint64(pc)<<32 | uint64(i)
		if vis[k] {
			return false
		}
		vis[k] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if w.rback(p, s, in.Out, i, caps, vis) {
				return true
			}
			pc = in.Arg
		case syntax.InstNop:
			pc = in.Out
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				old := caps[in.Arg]
				caps[in.Arg] = i
				if w.rback(p, s, in.Out, i, caps, vis) {
					return true
				}
				caps[in.Arg] = old
				return false
			}
			pc = in.Out
		case syntax.InstEmptyWidth:
			if !w.emptyOK(s, i, syntax.EmptyOp(in.Arg)) {
				return false
			}
			pc = in.Out
		case syntax.InstMatch:
			if len(caps) > 1 {
				caps[1] = i
			}
			return true
		default:
			if i >= len(s.s) {
				return false
			}
			r, sz := w.decodeRune(s, i)
			if !w.decide(w.runeMatchFull(in, r)) {
				return false
			}
			i += sz
			pc = in.Out
		}
	}
}

func (w *Worker) runeMatchFull(in *syntax.Inst, v V) *Term {
	return w.runeMatch(in, v)
}

func (w *Worker) emptyOK(s *Str, i int, op syntax.EmptyOp) bool {
	if op&syntax.EmptyBeginText != 0 && i != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && i != len(s.s) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && i != 0 && !w.decide(w.eqv(w.tiByte, s.at(i-1), V{N: '\n'})) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && i != len(s.s) && !w.decide(w.eqv(w.tiByte, s.at(i), V{N: '\n'})) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		r1, r2 := rune(-1), rune(-1)
		if i > 0 {
			r1 = rune(w.concStr(s.sub(i-1, i))[0])
		}
		if i < len(s.s) {
			r2 = rune(w.concStr(s.sub(i, i+1))[0])
		}
		f := syntax.EmptyOpContext(r1, r2)
		if op&syntax.EmptyWordBoundary != 0 && f&syntax.EmptyWordBoundary == 0 {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && f&syntax.EmptyNoWordBoundary == 0 {
			return false
		}
	}
	return true
}

var _ = fmt.Sprint
