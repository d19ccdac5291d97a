package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) rtype(t types.Type) Value {
	return Iface{t: in.P.rtypeType, v: RType{canon(t)}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func kindName(k int) Value { return reflect.Kind(k).String() }

func (in *Interp) rtypeMethod(rt RType, name string, a []Value) Value {
	t := rt.t
	switch name {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in.rtype(u.Elem())
		case *types.Slice:
			return in.rtype(u.Elem())
		case *types.Array:
			return in.rtype(u.Elem())
		case *types.Map:
			return in.rtype(u.Elem())
		}
		in.rtPanic("reflect: Elem of invalid type " + typeString(t))
	case "Key":
		return in.rtype(t.Underlying().(*types.Map).Key())
	case "Implements":
		o := a[0].(Iface).v.(RType).t
		it, ok := o.Underlying().(*types.Interface)
		if !ok {
			in.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return types.Implements(t, it)
	case "AssignableTo":
		return types.AssignableTo(t, a[0].(Iface).v.(RType).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(t, a[0].(Iface).v.(RType).t)
	case "Comparable":
		return types.Comparable(t)
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return typeString(t)
	case "Name":
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Len":
		return i64(int(t.Underlying().(*types.Array).Len()))
	case "NumField":
		return i64(t.Underlying().(*types.Struct).NumFields())
	case "NumMethod":
		return i64(types.NewMethodSet(t).Len())
	case "Size":
		return i64(int(sizes.Sizeof(t)))
	}
	panic(unsupported{"reflect.Type." + name})
}

func (in *Interp) rvalMethod(name string, a []Value) Value {
	v, ok := a[0].(RVal)
	if !ok {
		v = RVal{}
	}
	if v.t == nil {
		switch name {
		case "Kind":
			return uint64(0)
		case "IsValid":
			return false
		case "String":
			return "<invalid Value>"
		}
		in.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
	}
	if v.addr != nil {
		v.v = in.copyVal(v.addr.v)
	}
	set := func(x Value) Value {
		if v.addr == nil {
			in.rtPanic("reflect: reflect.Value." + name + " using unaddressable value")
		}
		in.write(v.addr, in.copyVal(x))
		return nil
	}
	switch name {
	case "Kind":
		return uint64(kindOf(v.t))
	case "Type", "typ":
		return in.rtype(v.t)
	case "IsValid", "CanInterface":
		return true
	case "CanAddr", "CanSet":
		return v.addr != nil
	case "Addr":
		if v.addr == nil {
			in.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{types.NewPointer(v.t), v.addr, nil}
	case "Set":
		x := a[1].(RVal)
		if x.addr != nil {
			x.v = in.copyVal(x.addr.v)
		}
		if types.IsInterface(v.t) && !types.IsInterface(x.t) {
			return set(Iface{canon(x.t), x.v})
		}
		return set(x.v)
	case "SetString", "SetBool", "SetFloat", "SetBytes":
		return set(a[1])
	case "SetInt", "SetUint":
		w, sg := intInfo(v.t)
		switch x := a[1].(type) {
		case uint64:
			return set(x & mask(w))
		case *Term:
			return set(in.fold(in.st.Resize(x, w, sg)))
		}
	case "SetZero":
		return set(in.zero(v.t))
	case "SetMapIndex":
		in.mapUpdate(v.t, v.v, a[1].(RVal).v, a[2].(RVal).v)
		return nil
	case "SetLen":
		return set(Slice{v.v.(Slice).c[:in.concreteInt(a[1])]})
	case "Comparable":
		return types.Comparable(v.t)
	case "Len":
		switch x := v.v.(type) {
		case Slice:
			return i64(len(x.c))
		case *Array:
			return i64(len(x.e))
		case *Map:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.e))
		case string, *SymStr:
			return i64(strLen(x))
		}
		in.rtPanic("reflect: call of reflect.Value.Len on " + typeString(v.t) + " Value")
	case "Cap":
		return i64(cap(v.v.(Slice).c))
	case "Index":
		switch x := v.v.(type) {
		case Slice:
			in.idxInRange(a[1], 64, len(x.c))
			k := in.concreteInt(a[1])
			return RVal{v.t.Underlying().(*types.Slice).Elem(), in.copyVal(x.c[k].v), &x.c[k]}
		case *Array:
			in.idxInRange(a[1], 64, len(x.e))
			k := in.concreteInt(a[1])
			return RVal{v.t.Underlying().(*types.Array).Elem(), in.copyVal(x.e[k].v), nil}
		}
	case "Slice":
		lo, hi := int(in.concreteInt(a[1])), int(in.concreteInt(a[2]))
		x := v.v.(Slice)
		if lo < 0 || hi < lo || hi > cap(x.c) {
			in.rtPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return RVal{v.t, Slice{x.c[lo:hi]}, nil}
	case "Interface":
		if i, ok := v.v.(Iface); ok {
			return i
		}
		return Iface{canon(v.t), in.copyVal(v.v)}
	case "IsNil":
		switch x := v.v.(type) {
		case *Cell:
			return x == nil
		case Slice:
			return x.c == nil
		case *Map:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		case *Chan:
			return x == nil
		}
		in.rtPanic("reflect: call of reflect.Value.IsNil on " + typeString(v.t) + " Value")
	case "IsZero":
		return in.deepEqual(v.t, v.v, in.zero(v.t), 0)
	case "Elem":
		switch x := v.v.(type) {
		case *Cell:
			if x == nil {
				return RVal{}
			}
			return RVal{v.t.Underlying().(*types.Pointer).Elem(), in.copyVal(x.v), x}
		case Iface:
			if x.t == nil {
				return RVal{}
			}
			return RVal{x.t, x.v, nil}
		}
	case "String":
		if isString(v.t) {
			return v.v
		}
		return "<" + typeString(v.t) + " Value>"
	case "Int", "Uint":
		w, s := intInfo(v.t)
		switch x := v.v.(type) {
		case uint64:
			if s {
				return uint64(sext(x, w))
			}
			return x
		case *Term:
			return in.fold(in.st.Resize(x, 64, s))
		}
	case "CanInt":
		_, s := intInfo(v.t)
		return s
	case "CanUint":
		w, s := intInfo(v.t)
		return w > 0 && !s
	case "CanFloat":
		return isFloat(v.t)
	case "Bool", "Float":
		return v.v
	case "Bytes":
		return v.v
	case "NumField":
		return i64(len(v.v.(*Struct).f))
	case "Field":
		k := int(in.concreteInt(a[1]))
		f := RVal{v.t.Underlying().(*types.Struct).Field(k).Type(), in.copyVal(v.v.(*Struct).f[k].v), nil}
		if v.addr != nil {
			f.addr = &v.addr.v.(*Struct).f[k]
		}
		return f
	case "MapKeys":
		m := v.v.(*Map)
		cells := []Cell{}
		if m != nil {
			for _, e := range m.e {
				cells = append(cells, Cell{RVal{v.t.Underlying().(*types.Map).Key(), e.k, nil}, in.epoch})
			}
		}
		return Slice{cells}
	case "MapIndex":
		mt := v.t.Underlying().(*types.Map)
		e := in.mapFind(mt.Key(), v.v.(*Map), a[1].(RVal).v)
		if e == nil {
			return RVal{}
		}
		return RVal{mt.Elem(), in.copyVal(e.c.v), nil}
	}
	panic(unsupported{"reflect.Value." + name})
}

// deepEqual is reflect.DeepEqual as a term, without forking on symbolic scalars. t is nil for interfaces.
func (in *Interp) deepEqual(t types.Type, a, b Value, depth int) Value {
	if depth > 40 {
		panic(unsupported{"deepEqual depth"})
	}
	and := func(n int, f func(i int) Value) Value {
		cs := []*Term{}
		for i := 0; i < n; i++ {
			e := in.boolTerm(f(i))
			if e.isFalse() {
				return false
			}
			cs = append(cs, e)
		}
		return in.fold(in.st.And(cs...))
	}
	if x, ok := a.(Iface); ok {
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.deepEqual(x.t, x.v, y.v, depth+1)
	}
	switch x := a.(type) {
	case Slice:
		y := b.(Slice)
		if len(x.c) != len(y.c) || (x.c == nil) != (y.c == nil) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		return and(len(x.c), func(i int) Value { return in.deepEqual(et, x.c[i].v, y.c[i].v, depth+1) })
	case *Array:
		y := b.(*Array)
		et := t.Underlying().(*types.Array).Elem()
		return and(len(x.e), func(i int) Value { return in.deepEqual(et, x.e[i].v, y.e[i].v, depth+1) })
	case *Struct:
		y := b.(*Struct)
		st := t.Underlying().(*types.Struct)
		return and(len(x.f), func(i int) Value { return in.deepEqual(st.Field(i).Type(), x.f[i].v, y.f[i].v, depth+1) })
	case *Cell:
		y, ok := b.(*Cell)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEqual(t.Underlying().(*types.Pointer).Elem(), x.v, y.v, depth+1)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if len(x.e) != len(y.e) {
			return false
		}
		mt := t.Underlying().(*types.Map)
		return and(len(x.e), func(i int) Value {
			e := in.mapFind(mt.Key(), y, x.e[i].k)
			if e == nil {
				return false
			}
			return in.deepEqual(mt.Elem(), x.e[i].c.v, e.c.v, depth+1)
		})
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	case RVal:
		panic(unsupported{"deepEqual of reflect.Value"})
	}
	return in.eq(t, a, b)
}

var _ = fmt.Sprint
var _ *ssa.Function
