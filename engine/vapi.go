package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const addTok = token.ADD

func (in *Interp) name(label string) string {
	n := in.labels[label]
	in.labels[label] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", label, n)
	}
	return label
}

func (in *Interp) input(label string, w uint8) *Term {
	n := in.name(label)
	in.inputs = append(in.inputs, n)
	return in.st.Var(n, w)
}

// inSet builds the membership condition of a byte in a charset such as "a-z0-9_".
func (in *Interp) inSet(b *Term, set string) *Term {
	var cs []*Term
	st := in.st
	for i := 0; i < len(set); i++ {
		c := set[i]
		if i+2 < len(set) && set[i+1] == '-' {
			lo, hi := c, set[i+2]
			cs = append(cs, st.And(st.Cmp(OpUle, st.bytes[lo], b), st.Cmp(OpUle, b, st.bytes[hi])))
			i += 2
			continue
		}
		cs = append(cs, st.Eq(b, st.bytes[c]))
	}
	return st.Or(cs...)
}

func cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{"v call with a symbolic label"})
	}
	return s
}

func registerV(reg func(string, intrinsic)) {
	const P = "verifharness/v."
	reg(P+"Bool", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.input(cstr(a[0]), 0) })
	rng := func(signed bool, w uint8) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := in.input(cstr(a[0]), w)
			le := OpUle
			if signed {
				le = OpSle
			}
			in.assume(in.st.And(in.st.Cmp(le, in.intTerm(a[1], w), t), in.st.Cmp(le, t, in.intTerm(a[2], w))))
			return t
		}
	}
	reg(P+"Int", rng(true, 64))
	reg(P+"Uint", rng(false, 64))
	reg(P+"AnyInt", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.input(cstr(a[0]), 64) })
	reg(P+"AnyUint", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.input(cstr(a[0]), 64) })
	reg(P+"Choice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concreteInt(a[1]))
		if n <= 1 {
			return uint64(0)
		}
		name := in.name(cstr(a[0]))
		in.inputs = append(in.inputs, name)
		k := in.chooseN(name, n)
		if in.model[name] != uint64(k) {
			nm := make(Model, len(in.model)+1)
			for x, y := range in.model {
				nm[x] = y
			}
			nm[name] = uint64(k)
			in.setModel(nm)
		}
		return uint64(k)
	})
	reg(P+"Str", func(in *Interp, fn *ssa.Function, a []Value) Value { // Str(label, n, charset)
		base := in.name(cstr(a[0]))
		n := int(in.concreteInt(a[1]))
		set := cstr(a[2])
		b := make([]*Term, n)
		var cs []*Term
		for i := range b {
			nm := fmt.Sprintf("%s[%d]", base, i)
			in.inputs = append(in.inputs, nm)
			b[i] = in.st.Var(nm, 8)
			if set != "" {
				s := set
				if set == "ident" {
					s = "a-z_0-9"
					if i == 0 {
						s = "a-z_"
					}
				}
				if set == "word" {
					s = "a-zA-Z_0-9"
					if i == 0 {
						s = "a-zA-Z_"
					}
				}
				cs = append(cs, in.inSet(b[i], s))
			}
		}
		if len(cs) > 0 {
			in.assume(in.st.And(cs...))
		}
		return mkStr(b)
	})
	reg(P+"Assume", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.assume(in.boolTerm(a[0]))
		return nil
	})
	reg(P+"Assert", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.assert(in.boolTerm(a[0]), cstr(a[1]))
		return nil
	})
	reg(P+"Reach", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.reached[cstr(a[0])] = true
		return nil
	})
	reg(P+"Observe", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[1].(Iface)
		in.obs = append(in.obs, obsRec{cstr(a[0]), in.copyVal(i.v), i.t})
		if i.t == nil {
			in.obs[len(in.obs)-1].v = Iface{}
		}
		return nil
	})
	// The connectives keep the formula as written (constants aside), so that equivalences between formulas are
	// decided by the solver and not by the rewriting in the term constructors.
	nary := func(op Op) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			var ts []*Term
			for _, c := range a[0].(Slice).c {
				t := in.boolTerm(c.v)
				switch {
				case t.isConst() && t.isTrue() == (op == OpAnd):
				case t.isConst():
					return op == OpOr
				default:
					ts = append(ts, t)
				}
			}
			switch len(ts) {
			case 0:
				return op == OpAnd
			case 1:
				return ts[0]
			}
			t := ts[0]
			for _, x := range ts[1:] {
				t = in.st.mk(op, 0, 0, "", t, x)
			}
			return t
		}
	}
	reg(P+"And", nary(OpAnd))
	reg(P+"Or", nary(OpOr))
	reg(P+"Not", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.fold(in.st.Not(in.boolTerm(a[0]))) })
	reg(P+"Iff", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := in.boolTerm(a[0]), in.boolTerm(a[1])
		if x.isConst() || y.isConst() {
			return in.fold(in.st.Eq(x, y))
		}
		return in.st.mk(OpEq, 0, 0, "", x, y)
	})
	reg(P+"Ite", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.fold(in.st.Ite(in.boolTerm(a[0]), in.boolTerm(a[1]), in.boolTerm(a[2])))
	})
	reg(P+"Freeze", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.epoch++
		in.frozen = in.epoch
		in.frozenWrites = 0
		in.frozenAt = ""
		clear(in.locked)
		return nil
	})
	reg(P+"SharedWrites", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.frozenWrites
		if n > 0 {
			in.obsNote = in.frozenAt
		}
		in.frozenWrites = 0
		in.frozen = 0
		return i64(n)
	})
	reg(P+"Both", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.call(a[0], nil)
		if len(in.locked) > 0 {
			in.call(a[0], nil) // does it read without the lock what it stored under it?
		}
		return nil
	})
	reg(P+"Thorough", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.tier == "thorough" })
	reg(P+"Symbolic", func(in *Interp, fn *ssa.Function, a []Value) Value { return true })
	reg(P+"Bound", func(in *Interp, fn *ssa.Function, a []Value) Value {
		k := int(in.concreteInt(a[1]))
		if in.tier == "thorough" {
			k = int(in.concreteInt(a[2]))
		}
		in.bounds[in.curHarn+": "+cstr(a[0])] = fmt.Sprint(k)
		return i64(k)
	})
	reg(P+"Note", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.bounds[in.curHarn+": "+cstr(a[0])] = cstr(a[1])
		return nil
	})
	// Eq and Same compare without forking; what they assert goes to the solver even when both sides are one term
	raw := func(f func(in *Interp, a []Value) Value) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			in.st.raw = true
			defer func() { in.st.raw = false }()
			return f(in, a)
		}
	}
	reg(P+"Eq", raw(func(in *Interp, a []Value) Value { return in.strEq(a[0], a[1]) }))
	reg(P+"Same", raw(func(in *Interp, a []Value) Value { return in.deepEqual(nil, a[0], a[1], 0) }))
}

var _ = strings.Contains
