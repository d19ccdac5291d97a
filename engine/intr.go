package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

// digitGroup defines the digits of one number. The digits are determined by the number, so the definition takes
// part in a query only when the query, or a constraint connected to it, mentions a digit.
type digitGroup struct {
	abs  *Term
	ds   []*Term
	cons []*Term
	used bool // a constraint of the path mentions a digit
}

type itoaMemo struct {
	s Value // rendered text
}

var intrinsics map[string]intrinsic

func i64(v int) Value { return uint64(int64(v)) }

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }

	// --- numbers to text ---
	reg("strconv.Itoa", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.itoa(a[0], 64, true) })
	reg("strconv.FormatInt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := int(in.concreteInt(a[1]))
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(c), b)
		}
		if b != 10 {
			return in.callBody(fn, a)
		}
		return in.itoa(a[0], 64, true)
	})
	reg("strconv.FormatUint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := int(in.concreteInt(a[1]))
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatUint(c, b)
		}
		if b != 10 {
			return in.callBody(fn, a)
		}
		return in.itoa(a[0], 64, false)
	})
	reg("strconv.AppendInt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if in.concreteInt(a[2]) != 10 {
			return in.callBody(fn, a)
		}
		return in.doAppend(a[0].(Slice), in.itoa(a[1], 64, true), types.Typ[types.Uint8])
	})
	reg("strconv.AppendUint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if in.concreteInt(a[2]) != 10 {
			return in.callBody(fn, a)
		}
		return in.doAppend(a[0].(Slice), in.itoa(a[1], 64, false), types.Typ[types.Uint8])
	})

	// --- string search ---
	index := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.strIndexOf(a[0], a[1]) }
	reg("strings.Index", index)
	reg("internal/stringslite.Index", index)
	reg("internal/bytealg.IndexString", index)
	reg("internal/bytealg.Index", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.strIndexOf(in.bytesToStr(a[0].(Slice)), in.bytesToStr(a[1].(Slice)))
	})
	reg("bytes.Index", intrinsics["internal/bytealg.Index"])
	indexByte := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.strIndexOf(a[0], in.byteStr(a[1])) }
	reg("strings.IndexByte", indexByte)
	reg("internal/stringslite.IndexByte", indexByte)
	reg("internal/bytealg.IndexByteString", indexByte)
	reg("internal/bytealg.IndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.strIndexOf(in.bytesToStr(a[0].(Slice)), in.byteStr(a[1]))
	})
	reg("internal/bytealg.CountString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.countByte(a[0], a[1])
	})
	reg("internal/bytealg.Count", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.countByte(in.bytesToStr(a[0].(Slice)), a[1])
	})
	reg("internal/bytealg.Equal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.strEq(in.bytesToStr(a[0].(Slice)), in.bytesToStr(a[1].(Slice)))
	})
	cmp := func(in *Interp, x, y Value) Value {
		lt := in.boolTerm(in.strLess(x, y, false))
		eq := in.boolTerm(in.strEq(x, y))
		s := in.st
		return in.fold(s.Ite(eq, s.Const(64, 0), s.Ite(lt, s.Const(64, math.MaxUint64), s.Const(64, 1))))
	}
	reg("internal/bytealg.CompareString", func(in *Interp, fn *ssa.Function, a []Value) Value { return cmp(in, a[0], a[1]) })
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	reg("internal/bytealg.Compare", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return cmp(in, in.bytesToStr(a[0].(Slice)), in.bytesToStr(a[1].(Slice)))
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concreteInt(a[0]))
		return in.makeSlice(types.Typ[types.Uint8], n, roundupsize(n, true))
	})
	reg("strings.Join", func(in *Interp, fn *ssa.Function, a []Value) Value {
		var res Value = ""
		for i, c := range a[0].(Slice).c {
			if i > 0 {
				res = in.concat(res, a[1])
			}
			res = in.concat(res, c.v)
		}
		return res
	})
	caseFn := func(lo, hi byte, up bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(string); ok {
				if up {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			}
			b := in.strBytes(a[0])
			ascii := make([]*Term, len(b))
			for i, t := range b {
				ascii[i] = in.st.Cmp(OpUlt, t, in.st.bytes[0x80])
			}
			if !in.truth(in.fold(in.st.And(ascii...))) {
				return in.callBody(fn, a)
			}
			r := make([]*Term, len(b))
			for i, t := range b {
				is := in.st.And(in.st.Cmp(OpUle, in.st.bytes[lo], t), in.st.Cmp(OpUle, t, in.st.bytes[hi]))
				r[i] = in.st.Ite(is, in.st.Bin(OpBXor, t, in.st.bytes[0x20]), t)
			}
			return mkStr(r)
		}
	}
	reg("strings.ToUpper", caseFn('a', 'z', true))
	reg("strings.ToLower", caseFn('A', 'Z', false))
	reg("strings.EqualFold", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := in.strBytes(a[0]), in.strBytes(a[1])
		var ascii []*Term
		for _, t := range append(append([]*Term{}, x...), y...) {
			ascii = append(ascii, in.st.Cmp(OpUlt, t, in.st.bytes[0x80]))
		}
		if !in.truth(in.fold(in.st.And(ascii...))) {
			return in.callBody(fn, a)
		}
		if len(x) != len(y) {
			return false
		}
		up := caseFn('a', 'z', true)
		f := in.P.fn("strings", "ToUpper")
		return in.strEq(up(in, f, []Value{a[0]}), up(in, f, []Value{a[1]}))
	})
	reg("strings.Clone", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", intrinsics["strings.Clone"])

	// --- low level ---
	id := func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+n, func(in *Interp, fn *ssa.Function, a []Value) Value { return in.load(a[0]) })
		reg("sync/atomic.Store"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.quiet++
			in.store(a[0], a[1])
			in.quiet--
			return nil
		})
		reg("sync/atomic.Swap"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			old := in.load(a[0])
			in.quiet++
			in.store(a[0], a[1])
			in.quiet--
			return old
		})
		reg("sync/atomic.Add"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			w, sg := intInfo(fn.Signature.Results().At(0).Type())
			x := &instr{w: w, signed: sg, t: fn.Signature.Results().At(0).Type()}
			v := in.binop(addTok, x, in.load(a[0]), a[1])
			in.quiet++
			in.store(a[0], v)
			in.quiet--
			return v
		})
		reg("sync/atomic.CompareAndSwap"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := fn.Signature.Params().At(1).Type()
			if in.truth(in.eq(t, in.load(a[0]), a[1])) {
				in.quiet++
				in.store(a[0], a[2])
				in.quiet--
				return true
			}
			return false
		})
	}
	reg("math.Float64bits", func(in *Interp, fn *ssa.Function, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(in.concreteInt(a[0]))
	})
	reg("math.Float32bits", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Exp": math.Exp, "Log": math.Log, "Round": math.Round, "Log2": math.Log2, "Log10": math.Log10} {
		reg("math."+n, func(in *Interp, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	reg("os.Getenv", func(in *Interp, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", func(in *Interp, fn *ssa.Function, a []Value) Value { return Tuple{"", false} })
	reg("maps.clone", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m := i.v.(*Map)
		if m == nil {
			return i
		}
		n := &Map{ep: in.epoch}
		for _, e := range m.e {
			n.e = append(n.e, &mapEntry{k: in.copyVal(e.k), c: Cell{in.copyVal(e.c.v), in.epoch}})
		}
		return Iface{i.t, n}
	})

	// --- sort (stable insertion; Go leaves the order of equal elements open for sort.Slice) ---
	reg("sort.Slice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s.c); i++ {
			for j := i; j > 0; j-- {
				if !in.truth(in.call(a[1], []Value{i64(j), i64(j - 1)})) {
					break
				}
				x, y := in.copyVal(s.c[j].v), in.copyVal(s.c[j-1].v)
				in.write(&s.c[j], y)
				in.write(&s.c[j-1], x)
			}
		}
		return nil
	})
	reg("sort.SliceStable", intrinsics["sort.Slice"])

	// --- fmt ---
	reg("fmt.Sprintf", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprintf(a[0], a[1].(Slice)) })
	reg("fmt.Sprint", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(a[0].(Slice), true) })
	reg("fmt.Append", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.doAppend(a[0].(Slice), in.sprint(a[1].(Slice), false), types.Typ[types.Uint8])
	})
	reg("fmt.Appendf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.doAppend(a[0].(Slice), in.sprintf(a[1], a[2].(Slice)), types.Typ[types.Uint8])
	})
	fprint := func(in *Interp, w Iface, s Value) Value {
		if w.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := in.P.lookupMethod(w.t, nil, "Write")
		r := in.callFn(f, []Value{w.v, in.strToBytes(s)}, nil)
		return r
	}
	reg("fmt.Fprintf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return fprint(in, a[0].(Iface), in.sprintf(a[1], a[2].(Slice)))
	})
	reg("fmt.Fprint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return fprint(in, a[0].(Iface), in.sprint(a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return fprint(in, a[0].(Iface), in.sprint(a[1].(Slice), true))
	})
	reg("fmt.Errorf", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.errorf(a[0], a[1].(Slice)) })
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print"} {
		reg(n, func(in *Interp, fn *ssa.Function, a []Value) Value { return in.zero(fn.Signature.Results()) })
	}

	// --- reflection ---
	tOf := func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.rtype(i.t)
	}
	reg("reflect.TypeOf", tOf)
	reg("internal/reflectlite.TypeOf", tOf)
	reg("reflect.TypeFor", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.rtype(fn.TypeArgs()[0]) })
	vOf := func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{i.t, i.v, nil}
	}
	reg("reflect.ValueOf", vOf)
	reg("internal/reflectlite.ValueOf", vOf)
	reg("reflect.Zero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t, in.zero(t), nil}
	})
	reg("reflect.Indirect", func(in *Interp, fn *ssa.Function, a []Value) Value {
		v := a[0].(RVal)
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Pointer); ok {
				return in.rvalMethod("Elem", []Value{v})
			}
		}
		return v
	})
	reg("reflect.New", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{types.NewPointer(t), in.newCell(in.zero(t)), nil}
	})
	reg("reflect.MakeSlice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		n, c := int(in.concreteInt(a[1])), int(in.concreteInt(a[2]))
		return RVal{t, in.makeSlice(t.Underlying().(*types.Slice).Elem(), n, c), nil}
	})
	makeMap := func(in *Interp, fn *ssa.Function, a []Value) Value {
		return RVal{a[0].(Iface).v.(RType).t, &Map{ep: in.epoch}, nil}
	}
	reg("reflect.MakeMap", makeMap)
	reg("reflect.MakeMapWithSize", makeMap)
	reg("reflect.Append", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(RVal)
		add := Slice{}
		for _, c := range a[1].(Slice).c {
			x := c.v.(RVal)
			if et := s.t.Underlying().(*types.Slice).Elem(); types.IsInterface(et) && !types.IsInterface(x.t) {
				x.v = Iface{canon(x.t), x.v}
			}
			add.c = append(add.c, Cell{x.v, in.epoch})
		}
		return RVal{s.t, in.doAppend(s.v.(Slice), add, s.t.Underlying().(*types.Slice).Elem()), nil}
	})
	sliceOf := func(f func(t types.Type) types.Type) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value { return in.rtype(f(a[0].(Iface).v.(RType).t)) }
	}
	reg("reflect.SliceOf", sliceOf(func(t types.Type) types.Type { return types.NewSlice(t) }))
	reg("reflect.PointerTo", sliceOf(func(t types.Type) types.Type { return types.NewPointer(t) }))
	reg("reflect.PtrTo", intrinsics["reflect.PointerTo"])
	reg("reflect.DeepEqual", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.deepEqual(nil, a[0], a[1], 0)
	})
	for _, m := range []string{"Kind", "Type", "Len", "Index", "Interface", "IsNil", "IsValid", "IsZero", "Elem", "String", "Int", "Uint", "Bool", "Float",
		"CanInterface", "NumField", "Field", "MapKeys", "MapIndex", "CanAddr", "Cap", "Slice", "NumMethod", "Bytes", "Pointer", "UnsafePointer", "Comparable", "Set", "SetString", "SetInt", "SetUint", "SetBool", "SetFloat", "SetBytes", "SetZero", "SetMapIndex", "SetLen", "CanSet", "Addr", "CanInt", "CanUint", "CanFloat", "Convert"} {
		m := m
		f := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.rvalMethod(m, a) }
		reg("(reflect.Value)."+m, f)
		reg("(internal/reflectlite.Value)."+m, f)
	}
	reg("(reflect.Kind).String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return kindName(int(in.concreteInt(a[0])))
	})

	registerSync(reg)
	registerV(reg)
}

// callBody runs fn's own body although it has an intrinsic.
func (in *Interp) callBody(fn *ssa.Function, args []Value) Value {
	c := in.code[fn]
	saved := c.intr
	if c.blocks == nil {
		delete(in.code, fn)
		in.P.noIntr(fn, func() { c = in.compile(fn) })
		c.intr = saved
	}
	c2 := *c
	c2.intr = nil
	in.code[fn] = &c2
	defer func() { in.code[fn] = c }()
	return in.callFn(fn, args, nil)
}

func (in *Interp) byteStr(v Value) Value {
	switch x := v.(type) {
	case uint64:
		return string([]byte{byte(x)})
	case *Term:
		return mkStr([]*Term{x})
	}
	panic(unsupported{"byteStr"})
}

// strIndexOf is the position of the first occurrence as a term (-1 if none).
func (in *Interp) strIndexOf(s, sub Value) Value {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return i64(strings.Index(a, b))
		}
	}
	x, y := in.strBytes(s), in.strBytes(sub)
	st := in.st
	res := st.Const(64, math.MaxUint64)
	for i := len(x) - len(y); i >= 0; i-- {
		cs := make([]*Term, 0, len(y))
		for j := range y {
			e := st.Eq(x[i+j], y[j])
			cs = append(cs, e)
			if e.isFalse() {
				break
			}
		}
		res = st.Ite(st.And(cs...), st.Const(64, uint64(i)), res)
	}
	return in.fold(res)
}

func (in *Interp) countByte(s, b Value) Value {
	if a, ok := s.(string); ok {
		if c, ok := b.(uint64); ok {
			return i64(strings.Count(a, string([]byte{byte(c)})))
		}
	}
	x := in.strBytes(s)
	bt := in.intTerm(b, 8)
	st := in.st
	base := 0
	var conds []*Term
	for _, t := range x {
		e := st.Eq(t, bt)
		switch {
		case e.isTrue():
			base++
		case e.isFalse():
		default:
			conds = append(conds, e)
		}
	}
	if len(conds) == 0 {
		return i64(base)
	}
	// counter chain: number of true conds, kept as an ite tree over constants for small counts
	cnt := []*Term{st.tru}
	for _, c := range conds {
		n := make([]*Term, len(cnt)+1)
		for k := range n {
			a, b := st.fls, st.fls
			if k < len(cnt) {
				a = st.And(cnt[k], st.Not(c))
			}
			if k > 0 {
				b = st.And(cnt[k-1], c)
			}
			n[k] = st.Or(a, b)
		}
		cnt = n
	}
	res := st.Const(64, uint64(base+len(conds)))
	for k := len(cnt) - 2; k >= 0; k-- {
		res = st.Ite(cnt[k], st.Const(64, uint64(base+k)), res)
	}
	return in.fold(res)
}

// itoa renders an integer in decimal. For a symbolic integer the number of digits is forked on and the
// digits are fresh 4-bit variables tied to the number; the same term always gets the same text.
func (in *Interp) itoa(v Value, w uint8, signed bool) Value {
	if c, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sext(c, w), 10)
		}
		return strconv.FormatUint(c, 10)
	}
	t := v.(*Term)
	st := in.st
	neg := false
	abs := t
	if signed {
		neg = in.truth(in.fold(st.Cmp(OpSlt, t, st.Const(w, 0))))
		if neg {
			abs = st.Un(OpNeg, t)
		}
	}
	sign := func(s Value) Value {
		if neg {
			return in.concat("-", s)
		}
		return s
	}
	if m, ok := in.digits[abs.id]; ok {
		return sign(m.s)
	}
	n := 1
	p := uint64(10)
	for {
		if p > mask(w) || n == 20 {
			break
		}
		if in.truth(in.fold(st.Cmp(OpUlt, abs, st.Const(w, p)))) {
			break
		}
		n++
		if p > math.MaxUint64/10 {
			break
		}
		p *= 10
	}
	if n > 20 {
		n = 20
	}
	k := len(in.groups)
	g := &digitGroup{abs: abs}
	sum := st.Const(w, 0)
	ds := make([]*Term, n)
	pw := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := st.Var(fmt.Sprintf("itoa!%d!%d", k, i), 4)
		ds[i] = d
		in.digitOf[d] = g
		g.cons = append(g.cons, st.Cmp(OpUle, d, st.Const(4, 9)))
		sum = st.Bin(OpAdd, sum, st.Bin(OpMul, st.Resize(d, w, false), st.Const(w, pw)))
		pw *= 10
	}
	g.ds = ds
	g.cons = append(g.cons, st.Eq(sum, abs))
	in.groups = append(in.groups, g)
	nm := make(Model, len(in.model)+n)
	for a, b := range in.model {
		nm[a] = b
	}
	val := in.evalM(abs)
	for i := n - 1; i >= 0; i-- {
		nm[ds[i].name] = val % 10
		val /= 10
	}
	in.setModel(nm)
	b := make([]*Term, 0, n+1)
	for _, d := range ds {
		b = append(b, st.Bin(OpAdd, st.Resize(d, 8, false), st.bytes['0']))
	}
	s := mkStr(b)
	in.digits[abs.id] = &itoaMemo{s: s}
	return sign(s)
}

var _ = sort.Ints
