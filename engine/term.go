package main

// Bit-vector and boolean terms: construction with light simplification,
// evaluation under a model, SMT-LIB printing.

import (
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
)

// Term is an interned node; w==0 means boolean.
type Term struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	id      uint32
	vars    []uint32
	ev      uint64
	um      uint64
	epoch   uint32
	refs    int32 // scratch for printing
	mark    uint32
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

type Terms struct {
	tab    map[termKey]*Term
	nextID uint32
	t, f   *Term
	mark   uint32
}

func newTerms() *Terms {
	s := &Terms{}
	s.reset()
	return s
}

func (s *Terms) reset() {
	s.tab = map[termKey]*Term{}
	s.nextID = 1
	s.t = s.mk(OpConst, 0, 1, nil, nil, nil)
	s.f = s.mk(OpConst, 0, 0, nil, nil, nil)
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	// subset checks keep sharing
	r := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func (s *Terms) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: s.nextID}
	s.nextID++
	if op == OpVar {
		t.vars = []uint32{uint32(val)}
	} else {
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = mergeVars(t.vars, c.vars)
		}
	}
	t.um = computeUmax(t)
	s.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	sh := 64 - uint(w)
	return uint64(int64(v<<sh) >> sh)
}

func (s *Terms) konst(w uint8, v uint64) *Term { return s.mk(OpConst, w, v&mask(w), nil, nil, nil) }
func (s *Terms) boolc(b bool) *Term {
	if b {
		return s.t
	}
	return s.f
}
func (s *Terms) variable(idx uint32, w uint8) *Term {
	return s.mk(OpVar, w, uint64(idx), nil, nil, nil)
}

func (s *Terms) not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return s.boolc(a.val == 0)
	case OpNot:
		return a.a
	}
	return s.mk(OpNot, 0, 0, a, nil, nil)
}

func (s *Terms) and(a, b *Term) *Term {
	if a.op == OpConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return s.f
	}
	return s.mk(OpAnd, 0, 0, a, b, nil)
}

func (s *Terms) or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return s.t
	}
	return s.mk(OpOr, 0, 0, a, b, nil)
}

func (s *Terms) ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OpConst && b.op == OpConst {
			if a.val != 0 {
				return c
			}
			return s.not(c)
		}
		if a.op == OpConst {
			if a.val != 0 {
				return s.or(c, b)
			}
			return s.and(s.not(c), b)
		}
		if b.op == OpConst {
			if b.val != 0 {
				return s.or(s.not(c), a)
			}
			return s.and(c, a)
		}
	}
	if c.op == OpNot {
		return s.ite(c.a, b, a)
	}
	return s.mk(OpIte, a.w, 0, c, a, b)
}

func (s *Terms) eq(a, b *Term) *Term {
	if a == b {
		return s.t
	}
	if a.op == OpConst && b.op == OpConst {
		return s.boolc(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OpConst {
			if a.val != 0 {
				return b
			}
			return s.not(b)
		}
		if b.op == OpConst {
			if b.val != 0 {
				return a
			}
			return s.not(a)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch a.op {
		case OpZExt:
			if b.val > mask(a.a.w) {
				return s.f
			}
			return s.eq(a.a, s.konst(a.a.w, b.val))
		case OpSExt:
			if sext(b.val&mask(a.a.w), a.a.w)&mask(a.w) != b.val {
				return s.f
			}
			return s.eq(a.a, s.konst(a.a.w, b.val))
		case OpIte:
			if a.b.op == OpConst && a.c.op == OpConst {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return s.t
				case x:
					return a.a
				case y:
					return s.not(a.a)
				default:
					return s.f
				}
			}
			if a.b.op == OpConst || a.c.op == OpConst {
				return s.ite(a.a, s.eq(a.b, b), s.eq(a.c, b))
			}
		case OpAdd:
			if a.b.op == OpConst {
				return s.eq(a.a, s.konst(a.w, b.val-a.b.val))
			}
		}
	} else if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return s.eq(a.a, b.a)
	} else if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return s.eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, a, b, nil)
}

// umax returns an upper bound of the unsigned value.
func umax(t *Term) uint64 { return t.um }

func computeUmax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpZExt:
		return t.a.um
	case OpIte:
		if t.b.um > t.c.um {
			return t.b.um
		}
		return t.c.um
	case OpBAnd:
		if t.b.um < t.a.um {
			return t.b.um
		}
		return t.a.um
	case OpAdd:
		if r := t.a.um + t.b.um; r >= t.a.um && r <= mask(t.w) {
			return r
		}
	case OpLShr:
		if t.b.op == OpConst && t.b.val < 64 {
			return t.a.um >> t.b.val
		}
		return t.a.um
	case OpUDiv:
		if t.b.op == OpConst && t.b.val != 0 {
			return t.a.um / t.b.val
		}
	case OpURem:
		if t.b.op == OpConst && t.b.val != 0 {
			return t.b.val - 1
		}
	}
	return mask2(t.w)
}

func (s *Terms) cmp(op Op, a, b *Term) *Term {
	if a == b {
		return s.boolc(op == OpUle || op == OpSle)
	}
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpUlt:
			return s.boolc(a.val < b.val)
		case OpUle:
			return s.boolc(a.val <= b.val)
		case OpSlt:
			return s.boolc(int64(sext(a.val, a.w)) < int64(sext(b.val, b.w)))
		case OpSle:
			return s.boolc(int64(sext(a.val, a.w)) <= int64(sext(b.val, b.w)))
		}
	}
	// signed comparison of values that are provably non-negative is unsigned
	if op == OpSlt || op == OpSle {
		half := mask(a.w) >> 1
		if umax(a) <= half && umax(b) <= half {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		} else if a.op == OpConst && a.val > half && umax(b) <= half {
			return s.t
		} else if b.op == OpConst && b.val > half && umax(a) <= half {
			return s.f
		}
	}
	if op == OpUlt || op == OpUle {
		ma, mb := umax(a), umax(b)
		if b.op == OpConst {
			if op == OpUlt && ma < b.val || op == OpUle && ma <= b.val {
				return s.t
			}
			if op == OpUlt && b.val == 0 {
				return s.f
			}
		}
		if a.op == OpConst {
			if op == OpUlt && mb <= a.val || op == OpUle && mb < a.val {
				return s.f
			}
			if op == OpUle && a.val == 0 {
				return s.t
			}
		}
		if a.op == OpZExt && b.op == OpConst {
			return s.cmp(op, a.a, s.konst(a.a.w, b.val))
		}
		if b.op == OpZExt && a.op == OpConst {
			return s.cmp(op, s.konst(b.a.w, a.val), b.a)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return s.cmp(op, a.a, b.a)
		}
	}
	return s.mk(op, 0, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := int64(sext(x, w)), int64(sext(y, w))
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := int64(sext(x, w)), int64(sext(y, w))
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		sx := int64(sext(x, w))
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (s *Terms) bin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return s.konst(a.w, evalBin(op, a.w, a.val, b.val))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
	}
	if b.op == OpConst {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.val == 0 {
				return a
			}
		case OpMul, OpUDiv, OpSDiv:
			if b.val == 1 {
				return a
			}
			if op == OpMul && b.val == 0 {
				return b
			}
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(b.w) || umax(a) <= b.val && b.val&(b.val+1) == 0 {
				return a
			}
		}
		if op == OpSub {
			return s.bin(OpAdd, a, s.konst(a.w, -b.val))
		}
		if op == OpAdd && a.op == OpAdd && a.b.op == OpConst {
			return s.bin(OpAdd, a.a, s.konst(a.w, a.b.val+b.val))
		}
		if op == OpUDiv && bits.OnesCount64(b.val) == 1 {
			return s.bin(OpLShr, a, s.konst(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if op == OpURem && bits.OnesCount64(b.val) == 1 {
			return s.bin(OpBAnd, a, s.konst(a.w, b.val-1))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return s.konst(a.w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return s.mk(op, a.w, 0, a, b, nil)
}

func (s *Terms) zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return s.konst(w, a.val)
	}
	if a.op == OpZExt {
		return s.mk(OpZExt, w, 0, a.a, nil, nil)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return s.ite(a.a, s.konst(w, a.b.val), s.konst(w, a.c.val))
	}
	return s.mk(OpZExt, w, 0, a, nil, nil)
}

func (s *Terms) sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return s.konst(w, sext(a.val, a.w))
	}
	if umax(a) <= mask(a.w)>>1 {
		return s.zext(a, w)
	}
	return s.mk(OpSExt, w, 0, a, nil, nil)
}

func (s *Terms) trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return s.konst(w, a.val)
	}
	if a.op == OpZExt || a.op == OpSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return s.trunc(a.a, w)
		}
		if a.op == OpZExt {
			return s.zext(a.a, w)
		}
		return s.sext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return s.ite(a.a, s.konst(w, a.b.val), s.konst(w, a.c.val))
	}
	switch a.op {
	case OpAdd, OpSub, OpBAnd, OpBOr, OpBXor, OpMul:
		return s.bin(a.op, s.trunc(a.a, w), s.trunc(a.b, w))
	}
	return s.mk(OpTrunc, w, 0, a, nil, nil)
}

// Model gives variable values; missing ones are zero.
type Model struct {
	v     []uint64
	epoch uint32
}

func (m *Model) get(i uint32) uint64 {
	if int(i) < len(m.v) {
		return m.v[i]
	}
	return 0
}

func (t *Term) eval(m *Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m.get(uint32(t.val)) & mask2(t.w)
	}
	if t.epoch == m.epoch {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - t.a.eval(m)
	case OpAnd:
		r = t.a.eval(m)
		if r != 0 {
			r = t.b.eval(m)
		}
	case OpOr:
		r = t.a.eval(m)
		if r == 0 {
			r = t.b.eval(m)
		}
	case OpIte:
		if t.a.eval(m) != 0 {
			r = t.b.eval(m)
		} else {
			r = t.c.eval(m)
		}
	case OpEq:
		r = b2u(t.a.eval(m) == t.b.eval(m))
	case OpUlt:
		r = b2u(t.a.eval(m) < t.b.eval(m))
	case OpUle:
		r = b2u(t.a.eval(m) <= t.b.eval(m))
	case OpSlt:
		r = b2u(int64(sext(t.a.eval(m), t.a.w)) < int64(sext(t.b.eval(m), t.b.w)))
	case OpSle:
		r = b2u(int64(sext(t.a.eval(m), t.a.w)) <= int64(sext(t.b.eval(m), t.b.w)))
	case OpZExt:
		r = t.a.eval(m)
	case OpSExt:
		r = sext(t.a.eval(m), t.a.w) & mask(t.w)
	case OpTrunc:
		r = t.a.eval(m) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, t.a.eval(m), t.b.eval(m))
	}
	t.ev = r
	t.epoch = m.epoch
	return r
}

func mask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

var opNames = [...]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr"}

// printer renders a set of assertions with variables renamed in order of
// first occurrence, so that equal queries up to renaming share one text.
type printer struct {
	sb    strings.Builder
	ren   map[uint32]int
	order []uint32
	ws    []uint8
	mark  uint32
	names map[*Term]string
	nlet  int
}

func (p *printer) countRefs(t *Term, seen map[*Term]int) {
	if t.op == OpConst || t.op == OpVar {
		return
	}
	seen[t]++
	if seen[t] > 1 {
		return
	}
	if t.a != nil {
		p.countRefs(t.a, seen)
	}
	if t.b != nil {
		p.countRefs(t.b, seen)
	}
	if t.c != nil {
		p.countRefs(t.c, seen)
	}
}

func (p *printer) varName(t *Term) string {
	i, ok := p.ren[uint32(t.val)]
	if !ok {
		i = len(p.order)
		p.ren[uint32(t.val)] = i
		p.order = append(p.order, uint32(t.val))
		p.ws = append(p.ws, t.w)
	}
	if t.w == 0 {
		return "p" + strconv.Itoa(i)
	}
	return "v" + strconv.Itoa(i)
}

func (p *printer) atom(t *Term) (string, bool) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true", true
			}
			return "false", true
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")", true
	case OpVar:
		return p.varName(t), true
	}
	if n, ok := p.names[t]; ok {
		return n, true
	}
	return "", false
}

func (p *printer) body(t *Term) {
	sb := &p.sb
	sb.WriteByte('(')
	switch t.op {
	case OpZExt:
		sb.WriteString("(_ zero_extend " + strconv.Itoa(int(t.w-t.a.w)) + ")")
	case OpSExt:
		sb.WriteString("(_ sign_extend " + strconv.Itoa(int(t.w-t.a.w)) + ")")
	case OpTrunc:
		sb.WriteString("(_ extract " + strconv.Itoa(int(t.w-1)) + " 0)")
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		sb.WriteByte(' ')
		p.expr(x)
	}
	sb.WriteByte(')')
}

func (p *printer) expr(t *Term) {
	if s, ok := p.atom(t); ok {
		p.sb.WriteString(s)
		return
	}
	p.body(t)
}

func (p *printer) assert(t *Term) {
	seen := map[*Term]int{}
	p.countRefs(t, seen)
	p.names = map[*Term]string{}
	p.nlet = 0
	p.sb.WriteString("(assert ")
	closers := 0
	var emit func(t *Term)
	done := map[*Term]bool{}
	emit = func(t *Term) {
		if t.op == OpConst || t.op == OpVar || done[t] {
			return
		}
		done[t] = true
		if t.a != nil {
			emit(t.a)
		}
		if t.b != nil {
			emit(t.b)
		}
		if t.c != nil {
			emit(t.c)
		}
		if seen[t] > 1 {
			n := "l" + strconv.Itoa(p.nlet)
			p.nlet++
			p.sb.WriteString("(let ((" + n + " ")
			p.body(t)
			p.sb.WriteString(")) ")
			p.names[t] = n
			closers++
		}
	}
	emit(t)
	p.expr(t)
	for i := 0; i < closers; i++ {
		p.sb.WriteByte(')')
	}
	p.sb.WriteString(")\n")
}

func newPrinter() *printer { return &printer{ren: map[uint32]int{}} }

// String is for diagnostics.
func (t *Term) String() string {
	p := newPrinter()
	p.names = map[*Term]string{}
	var f func(t *Term, d int)
	f = func(t *Term, d int) {
		if t.op == OpConst {
			if t.w == 0 {
				p.sb.WriteString(strconv.FormatBool(t.val != 0))
			} else {
				p.sb.WriteString(strconv.FormatUint(t.val, 10))
			}
			return
		}
		if t.op == OpVar {
			p.sb.WriteString("x" + strconv.Itoa(int(t.val)))
			return
		}
		if d > 6 {
			p.sb.WriteString("…")
			return
		}
		n := "ext"
		if int(t.op) < len(opNames) && opNames[t.op] != "" {
			n = opNames[t.op]
		}
		p.sb.WriteString("(" + n)
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				p.sb.WriteByte(' ')
				f(x, d+1)
			}
		}
		p.sb.WriteByte(')')
	}
	f(t, 0)
	return p.sb.String()
}
