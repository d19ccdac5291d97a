package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: bool, uint64 (every integer type, masked to its width), *Term (symbolic bool or
// integer), float64, complex128, string, *SymStr, *Cell (pointer), *SymPtr, *Struct, *Array, Slice,
// *Map, Iface, *Closure, Tuple, *Iter, RVal, RType, SlicePtr, StrPtr, *ssa.Builtin, *Chan.
type Value interface{}

// Cell is one addressable memory location; ep is the epoch of its allocation.
type Cell struct {
	v  Value
	ep int32
}

// SymPtr points to cells[idx] for a symbolic idx known to be in range.
type SymPtr struct {
	cells []Cell
	idx   *Term
}

type Struct struct{ f []Cell }
type Array struct{ e []Cell }
type Slice struct{ c []Cell }
type Tuple []Value

// SymStr has a concrete length and symbolic bytes.
type SymStr struct{ b []*Term }

type Iface struct {
	t types.Type // canonical; nil for nil interfaces
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type mapEntry struct {
	k Value
	c Cell
}

type Map struct {
	e  []*mapEntry
	ep int32
}

// allOrders is the number of map entries up to which a range over a map is explored in every order.
const allOrders = 5

type Iter struct {
	m    *Map
	rest []*mapEntry
	// fixed: the entries come in the order of rest, otherwise in any order
	fixed bool
	str   Value
	pos   int
	vt    types.Type
}

type RType struct{ t types.Type }
type RVal struct {
	t    types.Type // nil: invalid
	v    Value
	addr *Cell // where the value lives, if addressable
}
type SlicePtr struct{ s Slice }
type StrPtr struct{ s Value }

// Chan is a channel. A goroutine runs to its end where it is started, so an unbuffered channel keeps what is sent
// until it is received; an operation that would block forever in this one schedule is not supported.
type Chan struct {
	ep     int32
	q      []Value
	max    int
	closed bool
}

var nilPtr = (*Cell)(nil)

var canonMu sync.Mutex
var canonMap typeutil.Map

// canon returns the representative of t's identity class.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	canonMu.Lock()
	defer canonMu.Unlock()
	if r := canonMap.At(t); r != nil {
		return r.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

// intInfo reports width and signedness of an integer type (0 if not an integer).
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i] = Cell{in.zero(u.Field(i).Type()), in.epoch}
		}
		return s
	case *types.Array:
		a := &Array{e: make([]Cell, u.Len())}
		for i := range a.e {
			a.e[i] = Cell{in.zero(u.Elem()), in.epoch}
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported{fmt.Sprintf("zero of %v", t)})
}

// copyVal copies aggregates so that the result shares no cell with v.
func (in *Interp) copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		s := &Struct{f: make([]Cell, len(x.f))}
		for i := range x.f {
			s.f[i] = Cell{in.copyVal(x.f[i].v), in.epoch}
		}
		return s
	case *Array:
		a := &Array{e: make([]Cell, len(x.e))}
		for i := range x.e {
			a.e[i] = Cell{in.copyVal(x.e[i].v), in.epoch}
		}
		return a
	}
	return v
}

func (in *Interp) load(p Value) Value {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.copyVal(p.v)
	case *SymPtr:
		return in.loadSym(p)
	case SlicePtr:
		if len(p.s.c) == 0 {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.copyVal(p.s.c[0].v)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

// loadSym merges the candidates of a symbolic index into one ite term when they are scalars.
func (in *Interp) loadSym(p *SymPtr) Value {
	var w uint8
	scalar := true
	for i := range p.cells {
		switch x := p.cells[i].v.(type) {
		case bool:
		case uint64:
			w = 255
		case *Term:
			if x.w != 0 {
				w = 255
			}
		default:
			scalar = false
		}
	}
	if !scalar || p.cells == nil {
		i := in.concretize(p.idx)
		return in.copyVal(p.cells[i].v)
	}
	iw := p.idx.w
	if w == 0 {
		conds := []*Term{}
		for i := range p.cells {
			conds = append(conds, in.st.And(in.st.Eq(p.idx, in.st.Const(iw, uint64(i))), in.boolTerm(p.cells[i].v)))
		}
		return in.fold(in.st.Or(conds...))
	}
	ew := uint8(64) // element width is recovered from the load's type by the caller
	if in.loadW != 0 {
		ew = in.loadW
	}
	// group equal constants
	type grp struct {
		t     *Term
		conds []*Term
	}
	var gs []*grp
	byT := map[*Term]*grp{}
	for i := range p.cells {
		t := in.intTerm(p.cells[i].v, ew)
		g := byT[t]
		if g == nil {
			g = &grp{t: t}
			byT[t] = g
			gs = append(gs, g)
		}
		g.conds = append(g.conds, in.st.Eq(p.idx, in.st.Const(iw, uint64(i))))
	}
	best := 0
	for i, g := range gs {
		if len(g.conds) > len(gs[best].conds) {
			best = i
		}
	}
	res := gs[best].t
	for i, g := range gs {
		if i != best {
			res = in.st.Ite(in.st.Or(g.conds...), g.t, res)
		}
	}
	return in.fold(res)
}

func (in *Interp) store(p Value, v Value) {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.write(p, v)
	case *SymPtr:
		i := in.concretize(p.idx)
		in.write(&p.cells[i], v)
	case SlicePtr:
		in.write(&p.s.c[0], v)
	default:
		panic(unsupported{fmt.Sprintf("store through %T", p)})
	}
}

// write stores v into c, keeping the identity of the cells inside aggregates.
func (in *Interp) write(c *Cell, v Value) {
	switch x := v.(type) {
	case *Struct:
		if old, ok := c.v.(*Struct); ok && len(old.f) == len(x.f) {
			for i := range x.f {
				in.write(&old.f[i], x.f[i].v)
			}
			return
		}
		v = in.copyVal(v)
	case *Array:
		if old, ok := c.v.(*Array); ok && len(old.e) == len(x.e) {
			for i := range x.e {
				in.write(&old.e[i], x.e[i].v)
			}
			return
		}
		v = in.copyVal(v)
	}
	in.wrote(c.ep, c)
	if c.ep == 0 && in.epoch > 0 {
		in.journal = append(in.journal, undo{c: c, v: c.v})
	}
	c.v = v
}

// wrote is the write monitor: a store to memory that existed at the last Freeze is recorded.
func (in *Interp) wrote(ep int32, what Value) {
	if in.frozen > 0 && ep < in.frozen {
		if in.quiet == 0 {
			in.suspect()
		} else {
			in.locked[what] = true
		}
	}
}

// didRead records an unlocked load of what was stored to under a lock.
func (in *Interp) didRead(what Value) {
	switch what.(type) {
	case *Cell, *Map:
		if in.frozen > 0 && in.quiet == 0 && in.rlocked == 0 && in.locked[what] {
			in.suspect()
		}
	}
}

func (in *Interp) suspect() {
	in.frozenWrites++
	if in.frozenWrites == 1 {
		in.frozenAt = in.where()
	}
}

type undo struct {
	c *Cell
	v Value
	m *Map
	e []*mapEntry
	f func()
}

func (in *Interp) newCell(v Value) *Cell { return &Cell{v, in.epoch} }

// --- scalars ---

func (in *Interp) fold(t *Term) Value {
	if t.op == OpConst {
		if t.w == 0 {
			return t.c == 1
		}
		return t.c
	}
	return t
}

func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.st.Bool(x)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("bool from %T", v)})
}

func (in *Interp) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return in.st.Const(w, x)
	case *Term:
		if x.w != w {
			panic(unsupported{fmt.Sprintf("width %d vs %d", x.w, w)})
		}
		return x
	}
	panic(unsupported{fmt.Sprintf("int from %T", v)})
}

// --- strings ---

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(unsupported{fmt.Sprintf("string from %T", v)})
}

func (in *Interp) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		b := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			b[i] = in.st.bytes[x[i]]
		}
		return b
	case *SymStr:
		return x.b
	}
	panic(unsupported{fmt.Sprintf("string from %T", v)})
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OpConst {
			return &SymStr{b}
		}
	}
	raw := make([]byte, len(b))
	for i, t := range b {
		raw[i] = byte(t.c)
	}
	return string(raw)
}

func (in *Interp) concat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	return &SymStr{append(append(r, x...), y...)}
}

func (in *Interp) substr(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic(unsupported{fmt.Sprintf("string from %T", v)})
}

func (in *Interp) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := in.strBytes(a), in.strBytes(b)
	cs := make([]*Term, 0, 8)
	for i := range x {
		e := in.st.Eq(x[i], y[i])
		if e.isTrue() {
			continue
		}
		if e.isFalse() {
			return false
		}
		cs = append(cs, e)
	}
	return in.fold(in.st.And(cs...))
}

func (in *Interp) strLess(a, b Value, orEq bool) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := min(len(x), len(y))
	res := in.st.Bool(len(x) < len(y) || (orEq && len(x) == len(y)))
	for i := n - 1; i >= 0; i-- {
		res = in.st.Or(in.st.Cmp(OpUlt, x[i], y[i]), in.st.And(in.st.Eq(x[i], y[i]), res))
	}
	return in.fold(res)
}

// --- equality ---

func (in *Interp) eq(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case bool, uint64, *Term:
		if isBoolT(t) {
			if p, ok := a.(bool); ok {
				if q, ok := b.(bool); ok {
					return p == q
				}
			}
			return in.fold(in.st.Eq(in.boolTerm(a), in.boolTerm(b)))
		}
		if p, ok := a.(uint64); ok {
			if q, ok := b.(uint64); ok {
				return p == q
			}
		}
		w, _ := intInfo(t)
		return in.fold(in.st.Eq(in.intTerm(a, w), in.intTerm(b, w)))
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case string, *SymStr:
		return in.strEq(a, b)
	case *Cell:
		if y, ok := b.(*Cell); ok {
			return x == y
		}
		return false
	case *Map:
		return x == b.(*Map)
	case *Closure:
		y, _ := b.(*Closure)
		return x == nil && y == nil
	case *Chan:
		return x == b
	case Slice:
		y := b.(Slice)
		return x.c == nil && y.c == nil
	case SlicePtr:
		if y, ok := b.(SlicePtr); ok {
			return len(x.s.c) > 0 && len(y.s.c) > 0 && &x.s.c[0] == &y.s.c[0]
		}
		return false
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		if rx, ok := x.v.(RType); ok {
			ry, ok := y.v.(RType)
			return ok && canon(rx.t) == canon(ry.t)
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + typeString(x.t))
		}
		return in.eq(x.t, x.v, y.v)
	case *Struct:
		y := b.(*Struct)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported{"struct eq"})
		}
		cs := []*Term{}
		for i := range x.f {
			if st.Field(i).Name() == "_" {
				continue
			}
			e := in.boolTerm(in.eq(st.Field(i).Type(), x.f[i].v, y.f[i].v))
			if e.isFalse() {
				return false
			}
			cs = append(cs, e)
		}
		return in.fold(in.st.And(cs...))
	case *Array:
		y := b.(*Array)
		et := t.Underlying().(*types.Array).Elem()
		cs := []*Term{}
		for i := range x.e {
			e := in.boolTerm(in.eq(et, x.e[i].v, y.e[i].v))
			if e.isFalse() {
				return false
			}
			cs = append(cs, e)
		}
		return in.fold(in.st.And(cs...))
	case RType:
		y, ok := b.(RType)
		return ok && canon(x.t) == canon(y.t)
	}
	panic(unsupported{fmt.Sprintf("eq of %T", a)})
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "[]byte", "[]uint8")
	return strings.ReplaceAll(s, "[]any", "[]interface {}")
}

// growCap mirrors runtime.growslice (Go 1.27) for amd64 size classes.
func growCap(oldCap, newLen int, elem types.Type) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for uint(newcap) < uint(newLen) {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	es := int(sizes.Sizeof(elem))
	if es == 0 {
		return newLen
	}
	noscan := !hasPointers(elem)
	return roundupsize(newcap*es, noscan) / es
}

var sizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if !noscan && req > 512 { // malloc header (minSizeForMallocHeader)
		req += 8
	}
	if req <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) / 8192 * 8192
}

// --- concrete views used for messages and observations ---

// evalVal turns v into a concrete value under the model.
func (in *Interp) evalStr(v Value, m Model) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		raw := make([]byte, len(x.b))
		for i, t := range x.b {
			raw[i] = byte(in.st.Eval(t, m))
		}
		return string(raw)
	}
	return fmt.Sprintf("<%T>", v)
}

func f64(bits uint64) float64 { return math.Float64frombits(bits) }

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
