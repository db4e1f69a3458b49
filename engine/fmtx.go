package main

// fmt, without reflection: strings keep their symbolic bytes, numbers are
// split on their value.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type sbuf struct{ parts []*Str }

func (b *sbuf) str(s string) { b.parts = append(b.parts, &Str{s: s}) }
func (b *sbuf) add(s *Str)   { b.parts = append(b.parts, s) }
func (b *sbuf) done() *Str {
	n, sym := 0, false
	for _, p := range b.parts {
		n += len(p.s)
		if p.t != nil {
			sym = true
		}
	}
	var sb strings.Builder
	sb.Grow(n)
	for _, p := range b.parts {
		sb.WriteString(p.s)
	}
	r := &Str{s: sb.String()}
	if sym {
		r.t = make([]*Term, n)
		k := 0
		for _, p := range b.parts {
			copy(r.t[k:], p.t)
			k += len(p.s)
		}
	}
	return r
}

func (w *Worker) format1(fr *Frame, v V, verb rune, plus bool) *Str {
	var b sbuf
	if v.P == nil {
		b.str("<nil>")
		return b.done()
	}
	i := v.P.(*Iface)
	w.fmtVal(fr, &b, i.v, i.ti, verb, spec{plus: plus}, 0)
	return b.done()
}

type spec struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (s spec) native(verb rune) string {
	f := "%"
	if s.plus {
		f += "+"
	}
	if s.minus {
		f += "-"
	}
	if s.sharp {
		f += "#"
	}
	if s.space {
		f += " "
	}
	if s.zero {
		f += "0"
	}
	if s.hasWid {
		f += strconv.Itoa(s.wid)
	}
	if s.hasPrec {
		f += "." + strconv.Itoa(s.prec)
	}
	return f + string(verb)
}

func (s spec) plain() bool { return !s.hasWid && !s.hasPrec && !s.sharp && !s.space }

func (w *Worker) fmtMethods(fr *Frame, b *sbuf, v V, ti *TI, verb rune, sp spec) bool {
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
	default:
		return false
	}
	if sp.sharp {
		return false
	}
	for _, n := range []string{"Error", "String"} {
		m := w.methodByName(ti, n)
		if m == nil || m.ssa == nil {
			continue
		}
		sg := m.ssa.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || w.ti(sg.Results().At(0).Type()).kind != KString {
			continue
		}
		if ti.kind == KPtr && v.P == nil {
			b.str("<nil>")
			return true
		}
		s := asStr(w.invoke(fr, m, []V{v}, nil))
		w.fmtStr(b, s, verb, sp)
		return true
	}
	return false
}

func (w *Worker) fmtStr(b *sbuf, s *Str, verb rune, sp spec) {
	if (verb == 's' || verb == 'v') && sp.plain() {
		b.add(s)
		return
	}
	b.str(fmt.Sprintf(sp.native(verb), w.concStr(s)))
}

// symDecimal is a symbolic number in decimal, its length decided.
func (w *Worker) symDecimal(v V, ti *TI) *Str {
	t, ok := v.P.(*Term)
	if !ok || !w.ex.hn.SymFmt {
		return nil
	}
	if ti.signed {
		t = w.T.sext(t, 64)
	} else {
		t = w.T.zext(t, 64)
	}
	b := &sbuf{}
	if ti.signed && w.decide(w.T.cmp(OpSlt, t, w.T.konst(64, 0))) {
		b.str("-")
		t = w.T.bin(OpSub, w.T.konst(64, 0), t)
	}
	n, p := 1, uint64(10)
	for n < 19 && !w.decide(w.T.cmp(OpUlt, t, w.T.konst(64, p))) {
		n++
		p *= 10
	}
	s := &Str{s: strings.Repeat("0", n), t: make([]*Term, n)}
	for i := n - 1; i >= 0; i-- {
		d := w.T.bin(OpURem, t, w.T.konst(64, 10))
		s.t[i] = w.T.bin(OpAdd, w.T.trunc(d, 8), w.T.konst(8, '0'))
		t = w.T.bin(OpUDiv, t, w.T.konst(64, 10))
	}
	b.add(s)
	return b.done()
}

func (w *Worker) fmtVal(fr *Frame, b *sbuf, v V, ti *TI, verb rune, sp spec, depth int) {
	if depth > 10 {
		b.str("...")
		return
	}
	if verb == 'T' {
		b.str(types.TypeString(ti.t, func(p *types.Package) string { return p.Name() }))
		return
	}
	if verb == 'p' {
		b.str("0xc000000000")
		return
	}
	if ti.kind != KIface && w.fmtMethods(fr, b, v, ti, verb, sp) {
		return
	}
	switch ti.kind {
	case KBool:
		t := w.decide(w.term(v, ti))
		b.str(fmt.Sprintf(sp.native(verb), t))
	case KInt:
		if s := w.symDecimal(v, ti); s != nil && (verb == 'd' || verb == 'v') && sp.plain() {
			b.add(s)
			return
		}
		n := w.concInt(v, ti)
		if ti.signed {
			if verb == 'c' || verb == 'U' || verb == 'q' {
				b.str(fmt.Sprintf(sp.native(verb), rune(n)))
				return
			}
			b.str(fmt.Sprintf(sp.native(verb), int64(n)))
		} else {
			b.str(fmt.Sprintf(sp.native(verb), n))
		}
	case KFloat:
		f := math.Float64frombits(v.N)
		if ti.w == 32 {
			b.str(fmt.Sprintf(sp.native(verb), float32(f)))
		} else {
			b.str(fmt.Sprintf(sp.native(verb), f))
		}
	case KString:
		w.fmtStr(b, asStr(v), verb, sp)
	case KIface:
		if v.P == nil {
			b.str("<nil>")
			return
		}
		i := v.P.(*Iface)
		w.fmtVal(fr, b, i.v, i.ti, verb, sp, depth)
	case KSlice, KArray:
		if ti.elem.isByte && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			var s *Str
			if ti.kind == KSlice {
				s = w.sliceStr(asSlice(v))
			} else {
				o := w.newObj(ti)
				w.store(o, 0, ti, v)
				s = w.objStr(o, 0, ti.len)
			}
			w.fmtStr(b, s, verb, sp)
			return
		}
		b.str("[")
		n := ti.len
		var sl *Slice
		if ti.kind == KSlice {
			sl = asSlice(v)
			n = 0
			if sl != nil {
				n = sl.len
			}
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.str(" ")
			}
			if sl != nil {
				w.fmtVal(fr, b, w.load(sl.o, sl.off+i*ti.elem.n, ti.elem), ti.elem, verb, sp, depth+1)
			} else {
				w.fmtVal(fr, b, aggPart(v.P.(*Agg), i*ti.elem.n, ti.elem), ti.elem, verb, sp, depth+1)
			}
		}
		b.str("]")
	case KStruct:
		b.str("{")
		st := ti.t.Underlying().(*types.Struct)
		for i, f := range ti.fields {
			if i > 0 {
				b.str(" ")
			}
			if sp.plus {
				b.str(st.Field(i).Name() + ":")
			}
			w.fmtVal(fr, b, aggPart(v.P.(*Agg), ti.offs[i], f), f, verb, sp, depth+1)
		}
		b.str("}")
	case KPtr:
		if v.P == nil {
			b.str("<nil>")
			return
		}
		e := w.ti(ti.t.Underlying().(*types.Pointer).Elem())
		if depth == 0 && (e.kind == KStruct || e.kind == KSlice || e.kind == KArray || e.kind == KMap) {
			b.str("&")
			w.fmtVal(fr, b, w.load(v.P.(*Obj), int(v.N), e), e, verb, sp, depth+1)
			return
		}
		b.str("0xc000000000")
	case KMap:
		b.str("map[")
		if v.P != nil {
			type kv struct{ k, v *Str }
			var kvs []kv
			for _, e := range v.P.(*Map).ents {
				if e.dead {
					continue
				}
				var kb, vb sbuf
				w.fmtVal(fr, &kb, e.k, ti.key, verb, sp, depth+1)
				w.fmtVal(fr, &vb, e.v, ti.elem, verb, sp, depth+1)
				kvs = append(kvs, kv{kb.done(), vb.done()})
			}
			sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].k.s < kvs[j].k.s })
			for i, x := range kvs {
				if i > 0 {
					b.str(" ")
				}
				b.add(x.k)
				b.str(":")
				b.add(x.v)
			}
		}
		b.str("]")
	case KFunc, KChan, KUnsafe:
		if v.P == nil {
			b.str("<nil>")
		} else {
			b.str("0xc000000000")
		}
	default:
		b.str("?")
	}
}

func (w *Worker) fmtArgs(v V) []V {
	s := asSlice(v)
	if s == nil {
		return nil
	}
	r := make([]V, s.len)
	for i := range r {
		r[i] = s.o.get(s.off + i)
	}
	return r
}

// sprintf also returns the operands of %w.
func (w *Worker) sprintf(fr *Frame, format *Str, args []V) (*Str, []V) {
	f := w.concStr(format)
	var b sbuf
	var wrapped []V
	ai := 0
	moved := false
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			b.str(f[i:])
			break
		}
		b.str(f[i : i+j])
		i += j + 1
		var sp spec
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
		}
		index := func() { // an argument by its number
			if i >= len(f) || f[i] != '[' {
				return
			}
			e := strings.IndexByte(f[i:], ']')
			if e < 0 {
				return
			}
			if n, err := strconv.Atoi(f[i+1 : i+e]); err == nil && n > 0 && n <= len(args) {
				ai, moved = n-1, true
			}
			i += e + 1
		}
		num := func() (int, bool) {
			index()
			if i < len(f) && f[i] == '*' {
				i++
				if ai < len(args) && args[ai].P != nil {
					n := w.intArg(args[ai].P.(*Iface).v)
					ai++
					return n, true
				}
				return 0, false
			}
			k := i
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
			if k == i {
				return 0, false
			}
			n, _ := strconv.Atoi(f[k:i])
			return n, true
		}
		sp.wid, sp.hasWid = num()
		if i < len(f) && f[i] == '.' {
			i++
			sp.prec, _ = num()
			sp.hasPrec = true
		}
		index()
		if i >= len(f) {
			b.str("%!(NOVERB)")
			break
		}
		verb, n := utf8.DecodeRuneInString(f[i:])
		i += n
		if verb == '%' {
			b.str("%")
			continue
		}
		if ai >= len(args) {
			b.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		if a.P == nil {
			if verb == 'v' {
				b.str("<nil>")
			} else {
				b.str("%!" + string(verb) + "(<nil>)")
			}
			continue
		}
		it := a.P.(*Iface)
		w.fmtVal(fr, &b, it.v, it.ti, verb, sp, 0)
	}
	if ai < len(args) && !moved {
		b.str("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				b.str(", ")
			}
			if a.P != nil {
				b.add(w.format1(fr, V{P: &Iface{w.tiString, w.str(a.P.(*Iface).ti.t.String() + "=")}}, 's', false))
			}
			b.add(w.format1(fr, a, 'v', false))
		}
		b.str(")")
	}
	return b.done(), wrapped
}

func (w *Worker) sprint(fr *Frame, args []V, ln bool) *Str {
	var b sbuf
	prevStr := false
	for i, a := range args {
		isStr := a.P != nil && a.P.(*Iface).ti.kind == KString && a.P.(*Iface).ti.named == ""
		if i > 0 && (ln || !isStr && !prevStr) {
			b.str(" ")
		}
		b.add(w.format1(fr, a, 'v', false))
		prevStr = isStr
	}
	if ln {
		b.str("\n")
	}
	return b.done()
}

func (w *Worker) fwrite(fr *Frame, wr V, s *Str) V {
	if wr.P == nil {
		w.nilDeref()
	}
	return w.invokeMeth(fr, wr, "Write", V{P: w.strSlice(s)})
}

func addFmt(I map[string]Intrinsic) {
	I["fmt.Sprintf"] = func(w *Worker, fr *Frame, a []V) V {
		s, _ := w.sprintf(fr, asStr(a[0]), w.fmtArgs(a[1]))
		return V{P: s}
	}
	I["fmt.Errorf"] = func(w *Worker, fr *Frame, a []V) V {
		s, wr := w.sprintf(fr, asStr(a[0]), w.fmtArgs(a[1]))
		if len(wr) > 1 {
			et := w.tiErrIf
			o := w.newArr(et, len(wr))
			n := 0
			for _, e := range wr {
				if e.P != nil {
					w.store(o, n*et.n, et, e)
					n++
				}
			}
			p := w.errPtr("fmt", "wrapErrors", map[string]V{"msg": {P: s}, "errs": {P: &Slice{o: o, len: n, cap: n}}})
			return V{P: &Iface{w.ti(types.NewPointer(w.eng.typeOf("fmt", "wrapErrors"))), p}}
		}
		if len(wr) > 0 && wr[0].P != nil {
			p := w.errPtr("fmt", "wrapError", map[string]V{"msg": {P: s}, "err": wr[0]})
			return V{P: &Iface{w.ti(types.NewPointer(w.eng.typeOf("fmt", "wrapError"))), p}}
		}
		return w.errorStr(s)
	}
	I["fmt.Sprint"] = func(w *Worker, fr *Frame, a []V) V { return V{P: w.sprint(fr, w.fmtArgs(a[0]), false)} }
	I["fmt.Sprintln"] = func(w *Worker, fr *Frame, a []V) V { return V{P: w.sprint(fr, w.fmtArgs(a[0]), true)} }
	I["fmt.Fprintf"] = func(w *Worker, fr *Frame, a []V) V {
		s, _ := w.sprintf(fr, asStr(a[1]), w.fmtArgs(a[2]))
		return w.fwrite(fr, a[0], s)
	}
	I["fmt.Fprint"] = func(w *Worker, fr *Frame, a []V) V { return w.fwrite(fr, a[0], w.sprint(fr, w.fmtArgs(a[1]), false)) }
	I["fmt.Fprintln"] = func(w *Worker, fr *Frame, a []V) V { return w.fwrite(fr, a[0], w.sprint(fr, w.fmtArgs(a[1]), true)) }
	logf := func(w *Worker, fr *Frame, a []V) V { return V{} }
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print"} {
		I[n] = logf
	}
}

func (w *Worker) errorStr(s *Str) V {
	p := w.errPtr("errors", "errorString", map[string]V{"s": {P: s}})
	return V{P: &Iface{w.ti(types.NewPointer(w.eng.typeOf("errors", "errorString"))), p}}
}
