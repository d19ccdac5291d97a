package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Op is a term constructor. Terms are hash-consed per Store; w is the bit width, 0 meaning Bool.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // low w bits
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
}

type Term struct {
	op   Op
	w    uint8
	c    uint64
	name string
	args []*Term
	id   int32
	vars []*Term // sorted by id
	def  int32   // solver generation in which this node was defined
	mgen int32   // eval memo generation
	mval uint64
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 int32
	name       string
}

type Store struct {
	raw    bool // keep x = x for the solver (v.Eq, v.Same)
	tab    map[tkey]*Term
	ntab   map[string]*Term // n-ary and/or
	all    []*Term
	tru    *Term
	fls    *Term
	bytes  [256]*Term
	evalGn int32
}

func NewStore() *Store {
	s := &Store{tab: map[tkey]*Term{}, ntab: map[string]*Term{}, evalGn: 1}
	s.tru = s.Const(0, 1)
	s.fls = s.Const(0, 0)
	for i := range s.bytes {
		s.bytes[i] = s.Const(8, uint64(i))
	}
	return s
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(c uint64, w uint8) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := 64 - uint(w)
	return int64(c<<sh) >> sh
}

func (s *Store) mk(op Op, w uint8, c uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, c: c, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 3:
		k.a2 = args[2].id
		fallthrough
	case 2:
		k.a1 = args[1].id
		fallthrough
	case 1:
		k.a0 = args[0].id
	}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, name: name, args: append([]*Term(nil), args...), id: int32(len(s.all))}
	s.finish(t)
	s.tab[k] = t
	return t
}

func (s *Store) finish(t *Term) {
	if t.op == OpVar {
		t.vars = []*Term{t}
	} else if len(t.args) == 1 {
		t.vars = t.args[0].vars
	} else if len(t.args) > 1 {
		set := map[*Term]bool{}
		for _, a := range t.args {
			for _, x := range a.vars {
				set[x] = true
			}
		}
		for x := range set {
			t.vars = append(t.vars, x)
		}
		sort.Slice(t.vars, func(i, j int) bool { return t.vars[i].id < t.vars[j].id })
	}
	s.all = append(s.all, t)
}

func (s *Store) Const(w uint8, c uint64) *Term  { return s.mk(OpConst, w, c&mask(w), "") }
func (s *Store) Var(name string, w uint8) *Term { return s.mk(OpVar, w, 0, name) }
func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tru
	}
	return s.fls
}

func (s *Store) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.c == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return s.mk(OpNot, 0, 0, "", a)
}

func (s *Store) nary(op Op, xs []*Term) *Term {
	unit, zero := s.tru, s.fls
	if op == OpOr {
		unit, zero = s.fls, s.tru
	}
	seen := map[int32]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if t.op == OpNot && seen[t.args[0].id] {
			return false
		}
		if n, ok := s.tab[tkey{op: OpNot, a0: t.id, a1: -1, a2: -1}]; ok && seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	sb.WriteByte(byte(op))
	for _, t := range out {
		sb.WriteString(strconv.Itoa(int(t.id)))
		sb.WriteByte(',')
	}
	k := sb.String()
	if t, ok := s.ntab[k]; ok {
		return t
	}
	t := &Term{op: op, args: out, id: int32(len(s.all))}
	s.finish(t)
	s.ntab[k] = t
	return t
}

func (s *Store) And(xs ...*Term) *Term { return s.nary(OpAnd, xs) }
func (s *Store) Or(xs ...*Term) *Term  { return s.nary(OpOr, xs) }

func (s *Store) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	if c.op == OpNot {
		return s.Ite(c.args[0], b, a)
	}
	return s.mk(OpIte, a.w, 0, "", c, a, b)
}

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		if s.raw && !a.isConst() { // leave it to the solver
			return s.mk(OpEq, 0, 0, "", a, a)
		}
		return s.tru
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.c == 1 {
				return a
			}
			return s.Not(a)
		}
		if a.op == OpAdd && a.args[1].isConst() {
			return s.Eq(a.args[0], s.Const(a.w, b.c-a.args[1].c))
		}
		if a.op == OpZExt {
			in := a.args[0]
			if b.c > mask(in.w) {
				return s.fls
			}
			return s.Eq(in, s.Const(in.w, b.c))
		}
		if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
			return s.Ite(a.args[0], s.Bool(a.args[1].c == b.c), s.Bool(a.args[2].c == b.c))
		}
		return s.mk(OpEq, 0, 0, "", a, b)
	}
	if a.op == OpAdd && b.op == OpAdd && a.args[1].isConst() && b.args[1].isConst() && a.args[1] == b.args[1] {
		return s.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, "", a, b)
}

func (s *Store) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Bool(evalOp(op, a.w, []uint64{a.c, b.c}, a.w) == 1)
	}
	if a == b {
		return s.Bool(op == OpUle || op == OpSle)
	}
	if op == OpUlt && b.isConst() && b.c == 0 {
		return s.fls
	}
	if op == OpUle && a.isConst() && a.c == 0 {
		return s.tru
	}
	return s.mk(op, 0, 0, "", a, b)
}

// Bin builds an arithmetic/bitwise term of width w.
func (s *Store) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return s.Const(w, evalOp(op, w, []uint64{a.c, b.c}, w))
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return s.Bin(OpAdd, a.args[0], s.Const(w, a.args[1].c+b.c))
			}
		} else if a.op == OpAdd && a.args[1].isConst() {
			return s.Bin(OpAdd, s.Bin(OpAdd, a.args[0], b), a.args[1])
		} else if b.op == OpAdd && b.args[1].isConst() {
			return s.Bin(OpAdd, s.Bin(OpAdd, a, b.args[0]), b.args[1])
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if a == b {
			return s.Const(w, 0)
		}
		if b.isConst() {
			return s.Bin(OpAdd, a, s.Const(w, -b.c))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
		}
	case OpBOr, OpBXor:
		if a == b {
			if op == OpBOr {
				return a
			}
			return s.Const(w, 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if b.isConst() && b.c >= uint64(w) && op != OpAShr {
			return s.Const(w, 0)
		}
	case OpUDiv:
		if b.isConst() && b.c == 1 {
			return a
		}
	}
	return s.mk(op, w, 0, "", a, b)
}

func (s *Store) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, evalOp(op, a.w, []uint64{a.c}, a.w))
	}
	if a.op == op {
		return a.args[0]
	}
	return s.mk(op, a.w, 0, "", a)
}

// Resize converts a to width w, sign extending if signed.
func (s *Store) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed && w > a.w {
			return s.Const(w, uint64(sext(a.c, a.w)))
		}
		return s.Const(w, a.c)
	}
	if w < a.w {
		if (a.op == OpZExt || a.op == OpSExt) && a.args[0].w >= w {
			return s.Resize(a.args[0], w, false)
		}
		return s.mk(OpExtract, w, 0, "", a)
	}
	if signed {
		if a.op == OpZExt {
			return s.Resize(a.args[0], w, false)
		}
		return s.mk(OpSExt, w, 0, "", a)
	}
	if a.op == OpZExt {
		return s.Resize(a.args[0], w, false)
	}
	return s.mk(OpZExt, w, 0, "", a)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes op over constants; w is the result width (operand width for comparisons), aw the operand width.
func evalOp(op Op, w uint8, a []uint64, aw uint8) uint64 {
	m := mask(w)
	switch op {
	case OpNot:
		return a[0] ^ 1
	case OpEq:
		return b2u(a[0] == a[1])
	case OpUlt:
		return b2u(a[0] < a[1])
	case OpUle:
		return b2u(a[0] <= a[1])
	case OpSlt:
		return b2u(sext(a[0], aw) < sext(a[1], aw))
	case OpSle:
		return b2u(sext(a[0], aw) <= sext(a[1], aw))
	case OpAdd:
		return (a[0] + a[1]) & m
	case OpSub:
		return (a[0] - a[1]) & m
	case OpMul:
		return (a[0] * a[1]) & m
	case OpUDiv:
		if a[1] == 0 {
			return m
		}
		return a[0] / a[1]
	case OpURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OpSDiv:
		x, y := sext(a[0], aw), sext(a[1], aw)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a[0], aw), sext(a[1], aw)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a[0] & a[1]
	case OpBOr:
		return a[0] | a[1]
	case OpBXor:
		return a[0] ^ a[1]
	case OpBNot:
		return ^a[0] & m
	case OpNeg:
		return (-a[0]) & m
	case OpShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & m
	case OpLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OpAShr:
		sh := a[1]
		if sh >= uint64(w) {
			sh = uint64(w) - 1
		}
		return uint64(sext(a[0], w)>>sh) & m
	case OpZExt, OpExtract:
		return a[0] & m
	case OpSExt:
		return uint64(sext(a[0], aw)) & m
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Model maps variable names to values.
type Model map[string]uint64

func (s *Store) NewEval() { s.evalGn++ }

// Eval evaluates t under m (memoised until NewEval; missing variables are 0).
func (s *Store) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.mgen == s.evalGn {
		return t.mval
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = m[t.name] & mask(t.w)
	case OpAnd:
		r = 1
		for _, a := range t.args {
			if s.Eval(a, m) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if s.Eval(a, m) == 1 {
				r = 1
				break
			}
		}
	case OpIte:
		if s.Eval(t.args[0], m) == 1 {
			r = s.Eval(t.args[1], m)
		} else {
			r = s.Eval(t.args[2], m)
		}
	default:
		var buf [2]uint64
		for i, a := range t.args {
			buf[i] = s.Eval(a, m)
		}
		w := t.w
		if w == 0 && len(t.args) > 0 {
			w = t.args[0].w
		}
		r = evalOp(t.op, w, buf[:len(t.args)], t.args[0].w)
	}
	t.mgen = s.evalGn
	t.mval = r
	return r
}

func constSMT(w uint8, c uint64) string {
	if w == 0 {
		if c == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, c)
	}
	return fmt.Sprintf("(_ bv%d %d)", c, w)
}

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func varSMT(t *Term) string { return "|" + t.name + "!" + strconv.Itoa(int(t.w)) + "|" }

// Domain of small helpers.
func log2(x uint64) int { return bits.Len64(x) - 1 }
