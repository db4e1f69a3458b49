package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a value of the interpreted program.
//
//	integers, booleans: N (sign- or zero-extended to 64 bits), or P=*Term
//	floats: N holds math.Float64bits
//	string: P=*Str; pointer: P=*Obj,N=slot (nil: P=nil)
//	slice: P=*Slice; map: P=*Map; chan: P=*Chan; func: P=*Closure; interface: P=*Iface
//	struct, array, tuple: P=*Agg (flattened, immutable)
type V struct {
	N uint64
	P any
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

type TI struct {
	t        types.Type
	kind     Kind
	w        uint8
	signed   bool
	agg      bool
	allBytes bool
	n        int // slots
	len      int
	elem     *TI
	key      *TI
	fields   []*TI
	offs     []int
	zero     V
	isByte   bool
	slots    []*TI // scalar type of each slot, for aggregates up to a size
	iface    *types.Interface
	named    string
}

type Obj struct {
	e    []V
	b    []byte
	s    []*Term
	base bool
	ti   *TI
}

type Slice struct {
	o        *Obj
	off      int
	len, cap int
	lt       *Term // length, at most len, of a slice that is only measured and indexed
}

type Str struct {
	s string
	t []*Term
}

type Agg struct{ e []V }

type Iface struct {
	ti *TI
	v  V
}

type Closure struct {
	fn   *Fn
	free []V
}

type mapEnt struct {
	k, v V
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int
	live int
	base bool
	key  *TI
}

func (w *Worker) ti(t types.Type) *TI {
	if x := w.tiFast[t]; x != nil {
		return x
	}
	if x := w.tiMap.At(t); x != nil {
		w.tiFast[t] = x.(*TI)
		return x.(*TI)
	}
	ti := &TI{t: t}
	w.tiMap.Set(t, ti)
	w.tiFast[t] = ti
	w.fillTI(ti)
	return ti
}

func (w *Worker) fillTI(ti *TI) {
	ti.n = 1
	if n, ok := types.Unalias(ti.t).(*types.Named); ok {
		ti.named = n.String()
	}
	switch u := ti.t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
			ti.isByte, ti.allBytes = true, true
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
			ti.zero = V{P: complex128(0)}
		case types.String, types.UntypedString:
			ti.kind = KString
			ti.zero = V{P: emptyStr}
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = KUnsafe
		default:
			panic(fmt.Sprintf("basic %v", u))
		}
	case *types.Pointer:
		ti.kind = KPtr
		// elem resolved lazily (recursive types)
	case *types.Slice:
		ti.kind = KSlice
		ti.zero = V{}
		ti.elem = w.ti(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = w.ti(u.Key())
		ti.elem = w.ti(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = w.ti(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
		ti.iface = u
	case *types.Struct:
		ti.kind, ti.agg = KStruct, true
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := w.ti(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.n
		}
		ti.n = off
		z := make([]V, 0, off)
		for _, f := range ti.fields {
			z = f.appendZero(z)
		}
		ti.zero = V{P: &Agg{z}}
	case *types.Array:
		ti.kind, ti.agg = KArray, true
		ti.elem = w.ti(u.Elem())
		ti.len = int(u.Len())
		ti.n = ti.len * ti.elem.n
		ti.allBytes = ti.elem.allBytes
		if ti.n <= 1<<16 {
			z := make([]V, 0, ti.n)
			for i := 0; i < ti.len; i++ {
				z = ti.elem.appendZero(z)
			}
			ti.zero = V{P: &Agg{z}}
		}
	case *types.Tuple:
		ti.kind, ti.agg = KTuple, true
		off := 0
		for i := 0; i < u.Len(); i++ {
			f := w.ti(u.At(i).Type())
			ti.fields = append(ti.fields, f)
			off++
		}
	default:
		// iterator and other ssa-internal types
		ti.kind = KInvalid
	}
}

var emptyStr = &Str{}

func (ti *TI) appendZero(z []V) []V {
	if ti.agg {
		if ti.zero.P == nil {
			for i := 0; i < ti.len; i++ {
				z = ti.elem.appendZero(z)
			}
			return z
		}
		return append(z, ti.zero.P.(*Agg).e...)
	}
	return append(z, ti.zero)
}

func (w *Worker) newObj(ti *TI) *Obj {
	if ti.allBytes {
		return &Obj{b: make([]byte, ti.n), ti: ti, base: w.initing}
	}
	o := &Obj{ti: ti, base: w.initing}
	if !ti.agg {
		o.e = []V{ti.zero}
	} else if ti.zero.P != nil {
		z := ti.zero.P.(*Agg).e
		o.e = make([]V, len(z))
		copy(o.e, z)
	} else {
		o.e = ti.appendZero(make([]V, 0, ti.n))
	}
	return o
}

func (w *Worker) newArr(elem *TI, n int) *Obj {
	if elem.allBytes {
		return &Obj{b: make([]byte, n*elem.n), base: w.initing}
	}
	o := &Obj{base: w.initing}
	o.e = make([]V, n*elem.n)
	if elem.agg {
		z := elem.zero.P.(*Agg).e
		for i := 0; i < n; i++ {
			copy(o.e[i*elem.n:], z)
		}
	} else if elem.zero.P != nil {
		for i := range o.e {
			o.e[i] = elem.zero
		}
	}
	return o
}

type undoEnt struct {
	o *Obj
	i int
	v V
	f func()
}

func (o *Obj) size() int {
	if o.e != nil {
		return len(o.e)
	}
	return len(o.b)
}

// get reads one slot.
func (o *Obj) get(i int) V {
	if o.e != nil {
		return o.e[i]
	}
	if o.s != nil {
		if t := o.s[i]; t != nil {
			return V{P: t}
		}
	}
	return V{N: uint64(o.b[i])}
}

func (w *Worker) set(o *Obj, i int, v V) {
	if o.base && !w.initing {
		w.undo = append(w.undo, undoEnt{o: o, i: i, v: o.get(i)})
	}
	o.set(i, v)
}

func (o *Obj) set(i int, v V) {
	if o.e != nil {
		o.e[i] = v
		return
	}
	if t, ok := v.P.(*Term); ok {
		if o.s == nil {
			o.s = make([]*Term, len(o.b))
		}
		o.s[i] = t
		return
	}
	o.b[i] = byte(v.N)
	if o.s != nil {
		o.s[i] = nil
	}
}

func (w *Worker) load(o *Obj, i int, ti *TI) V {
	if !ti.agg {
		return o.get(i)
	}
	e := make([]V, ti.n)
	if o.e != nil {
		copy(e, o.e[i:i+ti.n])
	} else {
		for k := range e {
			e[k] = o.get(i + k)
		}
	}
	return V{P: &Agg{e}}
}

func (w *Worker) store(o *Obj, i int, ti *TI, v V) {
	if !ti.agg {
		if !o.base && o.e != nil {
			o.e[i] = v
			return
		}
		w.set(o, i, v)
		return
	}
	e := v.P.(*Agg).e
	if !o.base && o.e != nil {
		copy(o.e[i:i+ti.n], e)
		return
	}
	for k := range e {
		w.set(o, i+k, e[k])
	}
}

// copySlots copies n slots (memmove semantics).
func (w *Worker) copySlots(d *Obj, di int, s *Obj, si, n int) {
	if n == 0 {
		return
	}
	if d.base && !w.initing {
		tmp := make([]V, n)
		for k := 0; k < n; k++ {
			tmp[k] = s.get(si + k)
		}
		for k := 0; k < n; k++ {
			w.set(d, di+k, tmp[k])
		}
		return
	}
	if d.e != nil && s.e != nil {
		copy(d.e[di:di+n], s.e[si:si+n])
		return
	}
	if d.e == nil && s.e == nil {
		copy(d.b[di:di+n], s.b[si:si+n])
		if s.s != nil {
			if d.s == nil {
				d.s = make([]*Term, len(d.b))
			}
			copy(d.s[di:di+n], s.s[si:si+n])
		} else if d.s != nil {
			for k := di; k < di+n; k++ {
				d.s[k] = nil
			}
		}
		return
	}
	tmp := make([]V, n)
	for k := 0; k < n; k++ {
		tmp[k] = s.get(si + k)
	}
	for k := 0; k < n; k++ {
		d.set(di+k, tmp[k])
	}
}

// field extraction from flattened aggregates
func aggPart(a *Agg, off int, ti *TI) V {
	if !ti.agg {
		return a.e[off]
	}
	return V{P: &Agg{a.e[off : off+ti.n : off+ti.n]}}
}

// --- strings

func (w *Worker) str(s string) V {
	if s == "" {
		return V{P: emptyStr}
	}
	return V{P: &Str{s: s}}
}

func (s *Str) at(i int) V {
	if s.t != nil {
		if t := s.t[i]; t != nil {
			return V{P: t}
		}
	}
	return V{N: uint64(s.s[i])}
}

func (s *Str) sub(i, j int) *Str {
	if i == j {
		return emptyStr
	}
	r := &Str{s: s.s[i:j]}
	if s.t != nil {
		for _, t := range s.t[i:j] {
			if t != nil {
				r.t = s.t[i:j:j]
				break
			}
		}
	}
	return r
}

func (a *Str) concat(b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		copy(r.t[len(a.s):], b.t)
	}
	return r
}

func (w *Worker) byteTerm(v V) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return w.T.konst(8, v.N)
}

func (s *Str) term(w *Worker, i int) *Term {
	if s.t != nil && s.t[i] != nil {
		return s.t[i]
	}
	return w.T.konst(8, uint64(s.s[i]))
}

func (w *Worker) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return w.T.f
	}
	if a.t == nil && b.t == nil {
		return w.T.boolc(a.s == b.s)
	}
	// cheap definite mismatch first
	for i := 0; i < len(a.s); i++ {
		if (a.t == nil || a.t[i] == nil) && (b.t == nil || b.t[i] == nil) && a.s[i] != b.s[i] {
			return w.T.f
		}
	}
	r := w.T.t
	for i := len(a.s) - 1; i >= 0; i-- {
		x, y := a.term(w, i), b.term(w, i)
		if x != y {
			r = w.T.and(w.T.eq(x, y), r)
		}
	}
	return r
}

// strLess is a<b (or a<=b when orEq).
func (w *Worker) strLess(a, b *Str, orEq bool) *Term {
	if a.t == nil && b.t == nil {
		if orEq {
			return w.T.boolc(a.s <= b.s)
		}
		return w.T.boolc(a.s < b.s)
	}
	n := len(a.s)
	if len(b.s) < n {
		n = len(b.s)
	}
	var r *Term
	switch {
	case len(a.s) < len(b.s):
		r = w.T.t
	case len(a.s) > len(b.s):
		r = w.T.f
	default:
		r = w.T.boolc(orEq)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.term(w, i), b.term(w, i)
		r = w.T.or(w.T.cmp(OpUlt, x, y), w.T.and(w.T.eq(x, y), r))
	}
	return r
}

func (w *Worker) sliceStr(sl *Slice) *Str {
	if sl == nil || sl.len == 0 {
		return emptyStr
	}
	return w.objStr(sl.o, sl.off, sl.len)
}

func (w *Worker) objStr(o *Obj, off, n int) *Str {
	if n == 0 {
		return emptyStr
	}
	if o.e == nil {
		r := &Str{s: string(o.b[off : off+n])}
		if o.s != nil {
			for _, t := range o.s[off : off+n] {
				if t != nil {
					r.t = append([]*Term(nil), o.s[off:off+n]...)
					break
				}
			}
		}
		return r
	}
	b := make([]byte, n)
	var ts []*Term
	for i := 0; i < n; i++ {
		v := o.e[off+i]
		if t, ok := v.P.(*Term); ok {
			if ts == nil {
				ts = make([]*Term, n)
			}
			ts[i] = t
		} else {
			b[i] = byte(v.N)
		}
	}
	return &Str{s: string(b), t: ts}
}

func (w *Worker) strSlice(s *Str) *Slice {
	o := &Obj{b: []byte(s.s), base: w.initing}
	if s.t != nil {
		o.s = append([]*Term(nil), s.t...)
	}
	if o.b == nil {
		o.b = []byte{}
	}
	return &Slice{o: o, len: len(s.s), cap: len(s.s)}
}

func asStr(v V) *Str {
	if v.P == nil {
		return emptyStr
	}
	return v.P.(*Str)
}

func asSlice(v V) *Slice {
	if v.P == nil {
		return nil
	}
	s := v.P.(*Slice)
	if s.lt != nil {
		panic(&unsupported{"operation on a slice of symbolic length"})
	}
	return s
}

// --- equality

// eqv returns the term for a==b at type ti.
func (w *Worker) eqv(ti *TI, a, b V) *Term {
	switch ti.kind {
	case KBool, KInt:
		if a.P == nil && b.P == nil {
			return w.T.boolc(a.N == b.N)
		}
		return w.T.eq(w.term(a, ti), w.term(b, ti))
	case KFloat:
		return w.T.boolc(math.Float64frombits(a.N) == math.Float64frombits(b.N))
	case KComplex:
		return w.T.boolc(a.P == b.P)
	case KString:
		return w.strEq(asStr(a), asStr(b))
	case KPtr, KUnsafe:
		if a.P == nil || b.P == nil {
			return w.T.boolc(a.P == nil && b.P == nil && a.N == b.N)
		}
		return w.T.boolc(a.P == b.P && a.N == b.N)
	case KSlice, KMap, KFunc:
		return w.T.boolc(a.P == nil && b.P == nil)
	case KChan:
		return w.T.boolc(a.P == b.P)
	case KIface:
		if a.P == nil || b.P == nil {
			return w.T.boolc(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.ti != y.ti {
			return w.T.f
		}
		if !types.Comparable(x.ti.t) {
			w.rtPanic("runtime error: comparing uncomparable type " + x.ti.t.String())
		}
		return w.eqv(x.ti, x.v, y.v)
	case KStruct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := w.T.t
		for i, f := range ti.fields {
			r = w.T.and(r, w.eqv(f, aggPart(x, ti.offs[i], f), aggPart(y, ti.offs[i], f)))
			if r == w.T.f {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := w.T.t
		for i := 0; i < ti.len; i++ {
			r = w.T.and(r, w.eqv(ti.elem, aggPart(x, i*ti.elem.n, ti.elem), aggPart(y, i*ti.elem.n, ti.elem)))
			if r == w.T.f {
				return r
			}
		}
		return r
	}
	panic(fmt.Sprintf("eqv %v", ti.t))
}

// term lifts a scalar to a term.
func (w *Worker) term(v V, ti *TI) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if ti.kind == KBool {
		return w.T.boolc(v.N != 0)
	}
	return w.T.konst(ti.w, v.N)
}

// val lowers a term to a scalar value of type ti.
func (w *Worker) val(t *Term, ti *TI) V {
	if t.op == OpConst {
		if ti.signed {
			return V{N: sext(t.val, ti.w)}
		}
		return V{N: t.val}
	}
	return V{P: t}
}

func boolV(b bool) V {
	if b {
		return V{N: 1}
	}
	return V{}
}

func (w *Worker) boolT(t *Term) V {
	if t.op == OpConst {
		return V{N: t.val}
	}
	return V{P: t}
}

// --- map keys

type ptrKey struct {
	o any
	i uint64
}
type ifaceKey struct {
	ti *TI
	k  any
}

// hashKey returns a comparable Go value identifying a concrete key, or
// false if the key is symbolic.
func (w *Worker) hashKey(ti *TI, v V) (any, bool) {
	switch ti.kind {
	case KBool, KInt:
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case KFloat:
		f := math.Float64frombits(v.N)
		return f, true
	case KString:
		s := asStr(v)
		if s.t != nil {
			return nil, false
		}
		return s.s, true
	case KPtr, KUnsafe:
		return ptrKey{v.P, v.N}, true
	case KChan:
		return ptrKey{v.P, 0}, true
	case KIface:
		if v.P == nil {
			return ifaceKey{}, true
		}
		x := v.P.(*Iface)
		if !types.Comparable(x.ti.t) {
			w.rtPanic("runtime error: hash of unhashable type " + x.ti.t.String())
		}
		k, ok := w.hashKey(x.ti, x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{x.ti, k}, true
	case KStruct, KArray:
		a := v.P.(*Agg)
		var k any = ""
		add := func(f *TI, p V) bool {
			x, ok := w.hashKey(f, p)
			if !ok {
				return false
			}
			k = [2]any{k, x}
			return true
		}
		if ti.kind == KStruct {
			for i, f := range ti.fields {
				if !add(f, aggPart(a, ti.offs[i], f)) {
					return nil, false
				}
			}
		} else {
			for i := 0; i < ti.len; i++ {
				if !add(ti.elem, aggPart(a, i*ti.elem.n, ti.elem)) {
					return nil, false
				}
			}
		}
		return k, true
	}
	panic(fmt.Sprintf("map key %v", ti.t))
}

func (w *Worker) newMap(key *TI) *Map {
	return &Map{idx: map[any]*mapEnt{}, key: key, base: w.initing}
}

func (w *Worker) mapFind(m *Map, k V) *mapEnt {
	if m == nil {
		if k.P != nil && m == nil {
			return nil
		}
		return nil
	}
	h, ok := w.hashKey(m.key, k)
	if ok {
		if e := m.idx[h]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := w.hashKey(m.key, e.k); c {
				continue
			}
			if w.decide(w.eqv(m.key, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.decide(w.eqv(m.key, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapDirty(m *Map) {
	if m.base && !w.initing {
		ents := make([]*mapEnt, len(m.ents))
		idx := make(map[any]*mapEnt, len(m.idx))
		old := *m
		for i, e := range m.ents {
			c := *e
			ents[i] = &c
		}
		for _, e := range ents {
			if h, ok := w.hashKey(m.key, e.k); ok && !e.dead {
				idx[h] = e
			}
		}
		w.undo = append(w.undo, undoEnt{f: func() { *m = old }})
		m.ents, m.idx, m.base = ents, idx, false
	}
}

func (w *Worker) mapSet(m *Map, k, v V) {
	w.mapDirty(m)
	if e := w.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if h, ok := w.hashKey(m.key, k); ok {
		m.idx[h] = e
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *Map, k V) {
	if m == nil {
		return
	}
	w.mapDirty(m)
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if h, ok := w.hashKey(m.key, e.k); ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.live*2 < len(m.ents) {
		n := make([]*mapEnt, 0, m.live)
		for _, e := range m.ents {
			if !e.dead {
				n = append(n, e)
			}
		}
		m.ents = n
	}
}

var _ = typeutil.Map{}
