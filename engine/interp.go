package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"slices"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// unsupported aborts a path: the engine cannot encode something. It is never a verdict.
type unsupported struct{ why string }

// pathEnd ends a path for a reason other than return (assumption failed, violation, limits).
type pathEnd struct{ why string }

// targetPanic is a panic of the program under analysis.
type targetPanic struct {
	v       Iface
	runtime bool
	msg     string
	goexit  bool
}

type Interp struct {
	P      *Program
	st     *Store
	sol    *Solver
	global map[*ssa.Global]*Cell
	code   map[*ssa.Function]*fnCode
	imeth  map[methKey]*ssa.Function

	epoch        int32
	frozen       int32
	frozenWrites int
	frozenAt     string
	quiet        int            // locks held
	rlocked      int            // locks held for reading
	locked       map[Value]bool // what was there at Freeze and was stored to under a lock
	pools        map[*Cell][]Value
	held         map[*Cell]int // locks: -1 held, else the number of readers
	journal      []undo
	loadW        uint8

	// per path
	pc       []*Term
	pcSet    map[int32]bool
	model    Model
	trace    []int64
	prefix   []int64
	pending  []item
	labels   map[string]int
	ranges   int // ranges over maps of more than two entries
	steps    int64
	fr       *frame
	depth    int
	obs      []obsRec
	inputs   []string
	digits   map[int32]*itoaMemo
	groups   []*digitGroup
	digitOf  map[*Term]*digitGroup
	reached  map[string]bool
	bounds   map[string]string
	sawPanic bool
	known    []string
	obsNote  string

	stats   Stats
	maxStep int64
	covered map[*ssa.BasicBlock]bool
	curHarn string
	viol    []*Violation
	tier    string
}

type methKey struct {
	t types.Type
	m string
	p *types.Package
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

type fnCode struct {
	fn     *ssa.Function
	nregs  int
	blocks []*blkCode
	regOf  map[ssa.Value]int
	intr   intrinsic
	hasDef bool
	track  bool
}

type blkCode struct {
	b   *ssa.BasicBlock
	ins []instr
	phi int
	cov bool
}

type operand struct {
	reg int32 // -1: constant
	val Value
}

type instr struct {
	in     ssa.Instruction
	dst    int32
	a      []operand
	w      uint8
	signed bool
	w2     uint8
	sg2    bool
	t      types.Type
	t2     types.Type
	aux    interface{}
}

type frame struct {
	code      *fnCode
	regs      []Value
	caller    *frame
	block     *blkCode
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	pan       *targetPanic
	pos       ssa.Instruction
	depth     int
}

type deferred struct {
	fn   Value
	args []Value
}

func (in *Interp) where() string {
	for f := in.fr; f != nil; f = f.caller {
		if f.pos != nil {
			p := in.P.prog.Fset.Position(f.pos.Pos())
			if p.IsValid() && strings.Contains(p.Filename, in.P.repoDir) {
				return fmt.Sprintf("%s (%s:%d)", f.code.fn.String(), p.Filename, p.Line)
			}
		}
	}
	if in.fr != nil {
		return in.fr.code.fn.String()
	}
	return "?"
}

func (in *Interp) stack() string {
	var sb strings.Builder
	n := 0
	for f := in.fr; f != nil && n < 12; f = f.caller {
		if f.pos != nil {
			fmt.Fprintf(&sb, "%s @ %v; ", f.code.fn.String(), in.P.prog.Fset.Position(f.pos.Pos()))
			n++
		}
	}
	return sb.String()
}

func (in *Interp) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{t: in.P.rtErrType, v: msg}, runtime: true, msg: "runtime error: " + msg})
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported{"const of type param " + tp.String()})
		}
		return in.zero(t)
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case u.Info()&types.IsInteger != 0:
		w, signed := intInfo(t)
		if signed {
			return uint64(c.Int64()) & mask(w)
		}
		return c.Uint64() & mask(w)
	case u.Info()&types.IsFloat != 0:
		return c.Float64()
	case u.Info()&types.IsComplex != 0:
		return c.Complex128()
	case u.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	return in.zero(t)
}

func (in *Interp) globalCell(g *ssa.Global) *Cell {
	if c, ok := in.global[g]; ok {
		return c
	}
	sv := in.epoch
	in.epoch = 0
	c := in.newCell(in.zero(g.Type().(*types.Pointer).Elem()))
	in.epoch = sv
	in.global[g] = c
	return c
}

func (in *Interp) compile(fn *ssa.Function) *fnCode {
	if c, ok := in.code[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, regOf: map[ssa.Value]int{}}
	in.code[fn] = c
	c.intr = in.P.intrinsicFor(fn)
	if c.intr != nil {
		return c
	}
	if fn.Blocks == nil {
		return c
	}
	c.track = in.P.isRepoFn(fn)
	reg := func(v ssa.Value) int32 {
		if r, ok := c.regOf[v]; ok {
			return int32(r)
		}
		r := c.nregs
		c.nregs++
		c.regOf[v] = r
		return int32(r)
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	opnd := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{reg: -1}
		case *ssa.Const:
			return operand{reg: -1, val: in.constVal(v)}
		case *ssa.Global:
			return operand{reg: -1, val: in.globalCell(v)}
		case *ssa.Function:
			return operand{reg: -1, val: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{reg: -1, val: v}
		}
		return operand{reg: reg(v)}
	}
	for _, b := range fn.Blocks {
		bc := &blkCode{b: b}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			x := instr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				x.dst = reg(v)
			}
			switch i := i.(type) {
			case *ssa.Phi:
				bc.phi++
				for _, e := range i.Edges {
					x.a = append(x.a, opnd(e))
				}
			case *ssa.BinOp:
				x.a = []operand{opnd(i.X), opnd(i.Y)}
				x.t = i.X.Type()
				x.w, x.signed = intInfo(x.t)
				x.w2, x.sg2 = intInfo(i.Y.Type())
			case *ssa.UnOp:
				x.a = []operand{opnd(i.X)}
				x.t = i.Type()
				x.w, x.signed = intInfo(x.t)
			case *ssa.Convert:
				x.a = []operand{opnd(i.X)}
				x.t, x.t2 = i.X.Type(), i.Type()
				x.w, x.signed = intInfo(x.t)
				x.w2, x.sg2 = intInfo(x.t2)
			case *ssa.MultiConvert:
				x.a = []operand{opnd(i.X)}
				x.t, x.t2 = i.X.Type(), i.Type()
				x.w, x.signed = intInfo(x.t)
				x.w2, x.sg2 = intInfo(x.t2)
			case *ssa.MakeInterface:
				x.a = []operand{opnd(i.X)}
				x.t = canon(i.X.Type())
			case *ssa.TypeAssert:
				x.a = []operand{opnd(i.X)}
				x.t = canon(i.AssertedType)
			case *ssa.Call:
				in.callOps(&x, &i.Call, opnd)
			case *ssa.Defer:
				in.callOps(&x, &i.Call, opnd)
				c.hasDef = true
			case *ssa.Go:
				in.callOps(&x, &i.Call, opnd)
			default:
				for _, o := range i.Operands(nil) {
					if *o == nil {
						x.a = append(x.a, operand{reg: -1})
					} else {
						x.a = append(x.a, opnd(*o))
					}
				}
				switch i := i.(type) {
				case *ssa.Index:
					x.w, _ = intInfo(i.Index.Type())
					x.t = i.X.Type()
				case *ssa.IndexAddr:
					x.w, _ = intInfo(i.Index.Type())
				case *ssa.MakeSlice:
					x.t = i.Type().Underlying().(*types.Slice).Elem()
				case *ssa.Alloc:
					x.t = i.Type().Underlying().(*types.Pointer).Elem()
				case *ssa.Lookup:
					x.t = i.X.Type()
					x.w, _ = intInfo(i.Index.Type())
				case *ssa.MapUpdate:
					x.t = i.Map.Type()
				}
			}
			bc.ins = append(bc.ins, x)
		}
		c.blocks = append(c.blocks, bc)
	}
	if fn.Recover != nil {
		c.hasDef = true
	}
	return c
}

func (in *Interp) callOps(x *instr, c *ssa.CallCommon, opnd func(ssa.Value) operand) {
	x.a = append(x.a, opnd(c.Value))
	for _, a := range c.Args {
		x.a = append(x.a, opnd(a))
	}
	if c.IsInvoke() {
		x.aux = c.Method
	} else {
		x.aux = c
	}
}

func (fr *frame) get(o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.val
}

// call invokes fn (a *Closure or *ssa.Builtin) with args.
func (in *Interp) call(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(f.fn, args, f.env)
	case *ssa.Builtin:
		panic(unsupported{"indirect builtin " + f.Name()})
	case boundIntr:
		return f(in, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

type boundIntr func(in *Interp, args []Value) Value

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	c := in.code[fn]
	if c == nil {
		c = in.compile(fn)
	}
	if c.intr != nil {
		return c.intr(in, fn, args)
	}
	if len(c.blocks) == 0 {
		panic(unsupported{"no body for " + fn.String()})
	}
	if in.depth > 1500 {
		if !in.replaying() {
			in.stats.Obligations++
			in.violation("unexpected panic: stack overflow", in.model)
		}
		panic(pathEnd{"violation"})
	}
	fr := &frame{code: c, regs: make([]Value, c.nregs), caller: in.fr, depth: in.depth}
	for i, a := range args {
		fr.regs[i] = a
	}
	for i, e := range env {
		fr.regs[len(fn.Params)+i] = e
	}
	fr.block = c.blocks[0]
	in.fr = fr
	in.depth++
	if c.hasDef {
		for fr.block != nil {
			in.runDeferring(fr)
		}
	} else {
		in.run(fr)
	}
	in.fr = fr.caller
	in.depth--
	return fr.result
}

func (in *Interp) runDeferring(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		in.fr = fr
		in.depth = fr.depth + 1
		fr.panicking = true
		fr.pan = tp
		in.runDefers(fr)
		// recovered
		if rb := fr.code.fn.Recover; rb != nil {
			fr.block = fr.code.blocks[rb.Index]
			fr.prev = nil
		} else {
			fr.block = nil
			res := fr.code.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = in.zero(res.At(0).Type())
			default:
				fr.result = in.zero(res)
			}
		}
	}()
	in.run(fr)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (in *Interp) runDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			in.fr = fr
			in.depth = fr.depth + 1
			fr.panicking = true
			fr.pan = tp
		}
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		in.builtin(fr, b, nil, d.args, nil)
	} else {
		in.call(d.fn, d.args)
	}
	ok = true
}

func (in *Interp) run(fr *frame) {
	code := fr.code
	for {
		b := fr.block
		if code.track && !b.cov {
			b.cov = true
			in.covered[b.b] = true
		}
		i := 0
		if b.phi > 0 {
			pi := 0
			for k, p := range b.b.Preds {
				if p == fr.prev {
					pi = k
					break
				}
			}
			if b.phi == 1 {
				fr.regs[b.ins[0].dst] = fr.get(&b.ins[0].a[pi])
			} else {
				tmp := make([]Value, b.phi)
				for k := 0; k < b.phi; k++ {
					tmp[k] = fr.get(&b.ins[k].a[pi])
				}
				for k := 0; k < b.phi; k++ {
					fr.regs[b.ins[k].dst] = tmp[k]
				}
			}
			i = b.phi
		}
		in.steps += int64(len(b.ins))
		if in.steps > in.maxStep {
			panic(pathEnd{"step limit"})
		}
		var next *ssa.BasicBlock
		done := false
		for ; i < len(b.ins); i++ {
			x := &b.ins[i]
			fr.pos = x.in
			switch ins := x.in.(type) {
			case *ssa.If:
				if in.truth(fr.get(&x.a[0])) {
					next = b.b.Succs[0]
				} else {
					next = b.b.Succs[1]
				}
			case *ssa.Jump:
				next = b.b.Succs[0]
			case *ssa.Return:
				switch len(x.a) {
				case 0:
				case 1:
					fr.result = fr.get(&x.a[0])
				default:
					t := make(Tuple, len(x.a))
					for k := range x.a {
						t[k] = fr.get(&x.a[k])
					}
					fr.result = t
				}
				fr.block = nil
				done = true
			case *ssa.RunDefers:
				in.runDefers(fr)
			case *ssa.Panic:
				v := fr.get(&x.a[0]).(Iface)
				if v.t == nil {
					in.rtPanic("panic called with nil argument")
				}
				panic(&targetPanic{v: v})
			case *ssa.Store:
				in.store(fr.get(&x.a[0]), fr.get(&x.a[1]))
			case *ssa.Defer:
				fn, args := in.prepCall(fr, x, &ins.Call)
				fr.defers = append(fr.defers, deferred{fn, args})
			case *ssa.MapUpdate:
				in.mapUpdate(x.t, fr.get(&x.a[0]), fr.get(&x.a[1]), fr.get(&x.a[2]))
			case *ssa.Go:
				in.spawn(in.prepCall(fr, x, &ins.Call))
			case *ssa.Send:
				ch, _ := fr.get(&x.a[0]).(*Chan)
				if !in.canSend(ch) {
					panic(unsupported{"blocking channel send"})
				}
				in.send(ch, fr.get(&x.a[1]))
			default:
				fr.regs[x.dst] = in.eval(fr, x)
			}
		}
		if done {
			return
		}
		fr.prev = b.b
		fr.block = code.blocks[next.Index]
	}
}

func (in *Interp) eval(fr *frame, x *instr) Value {
	switch ins := x.in.(type) {
	case *ssa.Call:
		fn, args := in.prepCall(fr, x, &ins.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			return in.builtin(fr, b, &ins.Call, args, ins)
		}
		return in.call(fn, args)
	case *ssa.BinOp:
		return in.binop(ins.Op, x, fr.get(&x.a[0]), fr.get(&x.a[1]))
	case *ssa.UnOp:
		return in.unop(ins, x, fr.get(&x.a[0]))
	case *ssa.Alloc:
		return in.newCell(in.zero(x.t))
	case *ssa.FieldAddr:
		switch p := fr.get(&x.a[0]).(type) {
		case *Cell:
			if p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := p.v.(*Struct)
			if !ok {
				panic(unsupported{fmt.Sprintf("field address of %T in %s", p.v, fr.code.fn)})
			}
			return &s.f[ins.Field]
		case *SymPtr:
			i := in.concretize(p.idx)
			return &p.cells[i].v.(*Struct).f[ins.Field]
		}
		panic(unsupported{"field address"})
	case *ssa.Field:
		return fr.get(&x.a[0]).(*Struct).f[ins.Field].v
	case *ssa.IndexAddr:
		return in.indexAddr(fr.get(&x.a[0]), fr.get(&x.a[1]), x.w)
	case *ssa.Index:
		c := fr.get(&x.a[0])
		idx := fr.get(&x.a[1])
		if arr, ok := c.(*Array); ok {
			p := in.indexCells(arr.e, idx, x.w)
			in.loadW, _ = intInfo(ins.Type())
			return in.load(p)
		}
		return in.strIndex(c, idx, x.w)
	case *ssa.Lookup:
		if m, ok := fr.get(&x.a[0]).(*Map); ok {
			if len(in.locked) > 0 {
				in.didRead(m)
			}
			mt := x.t.Underlying().(*types.Map)
			e := in.mapFind(mt.Key(), m, fr.get(&x.a[1]))
			var v Value
			if e != nil {
				v = in.copyVal(e.c.v)
			} else {
				v = in.zero(mt.Elem())
			}
			if ins.CommaOk {
				return Tuple{v, e != nil}
			}
			return v
		}
		return in.strIndex(fr.get(&x.a[0]), fr.get(&x.a[1]), x.w)
	case *ssa.Extract:
		return fr.get(&x.a[0]).(Tuple)[ins.Index]
	case *ssa.MakeInterface:
		return Iface{t: x.t, v: in.copyVal(fr.get(&x.a[0]))}
	case *ssa.ChangeInterface:
		return fr.get(&x.a[0])
	case *ssa.ChangeType:
		return fr.get(&x.a[0])
	case *ssa.TypeAssert:
		return in.typeAssert(ins, x.t, fr.get(&x.a[0]).(Iface))
	case *ssa.Convert:
		return in.convert(x, fr.get(&x.a[0]))
	case *ssa.MultiConvert:
		return in.convert(x, fr.get(&x.a[0]))
	case *ssa.Slice:
		return in.slice(fr, ins, x)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&x.a[0]).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.c) < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		return &Cell{v: &Array{e: s.c[:n:n]}, ep: in.epoch}
	case *ssa.MakeSlice:
		n := int(int64(in.concreteInt(fr.get(&x.a[0]))))
		c := int(int64(in.concreteInt(fr.get(&x.a[1]))))
		if n < 0 || n > 1<<20 {
			in.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<20 {
			in.rtPanic("makeslice: cap out of range")
		}
		return in.makeSlice(x.t, n, c)
	case *ssa.MakeMap:
		return &Map{ep: in.epoch}
	case *ssa.MakeClosure:
		env := make([]Value, len(x.a)-1)
		for i := range env {
			env[i] = fr.get(&x.a[i+1])
		}
		return &Closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.Range:
		switch c := fr.get(&x.a[0]).(type) {
		case *Map:
			it := &Iter{m: c, vt: ins.X.Type().Underlying().(*types.Map).Elem()}
			if c != nil {
				it.rest = append([]*mapEntry{}, c.e...)
				limit := allOrders
				if in.ranges > 0 {
					limit = 2 // the orders of several ranges multiply
				}
				if len(it.rest) > 2 && in.epoch > 0 {
					in.ranges++
				}
				if n := len(it.rest); n > limit && in.epoch > 0 {
					// too many entries for every order: both directions from the first and from the middle one
					k := in.chooseN("maporder", 4)
					it.rest, it.fixed = append(it.rest[k/2*(n/2):n:n], it.rest[:k/2*(n/2)]...), true
					if k%2 == 1 {
						slices.Reverse(it.rest)
					}
				}
			}
			return it
		default:
			return &Iter{str: c}
		}
	case *ssa.Next:
		return in.next(ins, fr.get(&x.a[0]).(*Iter))
	case *ssa.MakeChan:
		n, ok := fr.get(&x.a[0]).(uint64)
		if !ok {
			panic(unsupported{"channel of symbolic size"})
		}
		return &Chan{max: int(n), ep: in.epoch}
	case *ssa.Select:
		return in.selectCase(fr, ins, x)
	}
	panic(unsupported{fmt.Sprintf("instruction %T", x.in)})
}

func (in *Interp) makeSlice(elem types.Type, n, c int) Slice {
	cells := make([]Cell, c)
	z := in.zero(elem)
	_, agg1 := z.(*Struct)
	_, agg2 := z.(*Array)
	for i := range cells {
		if i > 0 && (agg1 || agg2) {
			cells[i] = Cell{in.copyVal(z), in.epoch}
		} else {
			cells[i] = Cell{z, in.epoch}
		}
	}
	return Slice{cells[:n:c]}
}

func (in *Interp) prepCall(fr *frame, x *instr, c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(&x.a[0])
	if !c.IsInvoke() {
		args := make([]Value, len(x.a)-1)
		for i := range args {
			args[i] = fr.get(&x.a[i+1])
		}
		return v, args
	}
	recv := v.(Iface)
	args := make([]Value, len(x.a))
	for i := 1; i < len(x.a); i++ {
		args[i] = fr.get(&x.a[i])
	}
	if recv.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	args[0] = recv.v
	if rt, ok := recv.v.(RType); ok {
		name := c.Method.Name()
		return boundIntr(func(in *Interp, args []Value) Value { return in.rtypeMethod(rt, name, args[1:]) }), args
	}
	if recv.t == in.P.rtErrType && c.Method.Name() == "Error" {
		return boundIntr(func(in *Interp, args []Value) Value { return in.concat("runtime error: ", args[0]) }), args
	}
	if recv.t == in.P.rtErrType && c.Method.Name() == "RuntimeError" {
		return boundIntr(func(in *Interp, args []Value) Value { return nil }), args
	}
	fn := in.method(recv.t, c.Method)
	if fn == nil {
		panic(unsupported{"method " + c.Method.FullName() + " on " + recv.t.String()})
	}
	return &Closure{fn: fn}, args
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.p = m.Pkg()
	}
	if f, ok := in.imeth[k]; ok {
		return f
	}
	f := in.P.lookupMethod(t, m.Pkg(), m.Name())
	in.imeth[k] = f
	return f
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	if t == in.P.rtErrType {
		for i := 0; i < it.NumMethods(); i++ {
			if n := it.Method(i).Name(); n != "Error" && n != "RuntimeError" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, t types.Type, v Iface) Value {
	ok := false
	var r Value
	if it, isI := t.Underlying().(*types.Interface); isI {
		ok = v.t != nil && in.implements(v.t, it)
		if ok {
			r = v
		}
	} else {
		ok = v.t == t
		if ok {
			r = in.copyVal(v.v)
		}
	}
	if ins.CommaOk {
		if !ok {
			r = in.zero(t)
		}
		return Tuple{r, ok}
	}
	if !ok {
		what := "nil"
		if v.t != nil {
			what = typeString(v.t)
		}
		in.rtPanic("interface conversion: interface is " + what + ", not " + typeString(t))
	}
	return r
}

func (in *Interp) next(ins *ssa.Next, it *Iter) Value {
	if ins.IsString {
		n := strLen(it.str)
		if it.pos >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		r, size := in.decodeRune(it.str, it.pos)
		p := it.pos
		it.pos += size
		return Tuple{true, uint64(p), r}
	}
	var kt, vt types.Type = types.Typ[types.Invalid], types.Typ[types.Invalid]
	if tt, ok := ins.Type().(*types.Tuple); ok {
		kt, vt = tt.At(1).Type(), tt.At(2).Type()
	}
	live := it.rest[:0:0]
	for _, e := range it.rest {
		for _, cur := range it.m.e {
			if cur == e {
				live = append(live, e)
				break
			}
		}
	}
	if len(live) == 0 {
		var z1, z2 Value
		if kt != types.Typ[types.Invalid] {
			z1 = in.zero(kt)
		}
		if vt != types.Typ[types.Invalid] {
			z2 = in.zero(vt)
		}
		return Tuple{false, z1, z2}
	}
	k := 0
	if len(live) > 1 && in.epoch > 0 && !it.fixed {
		k = in.chooseN("maporder", len(live)) // Go leaves the order open: every order is explored
	}
	e := live[k]
	it.rest = append(append([]*mapEntry{}, live[:k]...), live[k+1:]...)
	return Tuple{true, in.copyVal(e.k), in.copyVal(e.c.v)}
}

// decodeRune decodes the rune at position p (as range over string does).
func (in *Interp) decodeRune(s Value, p int) (Value, int) {
	if x, ok := s.(string); ok {
		for i, r := range x[p:] {
			_ = i
			n := 1
			if r == 0xFFFD {
				// may be an invalid byte or a real U+FFFD
				if strings.HasPrefix(x[p:], "\uFFFD") {
					n = 3
				}
			} else {
				n = len(string(r))
			}
			return uint64(uint32(r)), n
		}
	}
	b := in.strBytes(s)
	c := b[p]
	if in.truth(in.fold(in.st.Cmp(OpUlt, c, in.st.Const(8, 0x80)))) {
		return in.fold(in.st.Resize(c, 32, false)), 1
	}
	fn := in.P.fn("unicode/utf8", "DecodeRuneInString")
	if fn == nil {
		panic(unsupported{"utf8 decoding of symbolic string"})
	}
	r := in.callFn(fn, []Value{in.substr(s, p, len(b))}, nil).(Tuple)
	return r[0], int(in.concreteInt(r[1]))
}

func (in *Interp) mapFind(kt types.Type, m *Map, k Value) *mapEntry {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.rtPanic("hash of unhashable type " + typeString(i.t))
	}
	if m == nil {
		return nil
	}
	for _, e := range m.e {
		if in.truth(in.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) touchMap(m *Map) {
	in.wrote(m.ep, m)
	if m.ep == 0 && in.epoch > 0 {
		in.journal = append(in.journal, undo{m: m, e: m.e})
	}
}

func (in *Interp) mapUpdate(t types.Type, mv, k, v Value) {
	m := mv.(*Map)
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	mt := t.Underlying().(*types.Map)
	e := in.mapFind(mt.Key(), m, k)
	in.touchMap(m)
	if e != nil {
		if e.c.ep == 0 && in.epoch > 0 {
			in.journal = append(in.journal, undo{c: &e.c, v: e.c.v})
		}
		e.c.v = in.copyVal(v)
		return
	}
	m.e = append(m.e[:len(m.e):len(m.e)], &mapEntry{k: in.copyVal(k), c: Cell{in.copyVal(v), in.epoch}})
}

// idxInRange forks on 0 <= idx < n and panics in the target otherwise.
func (in *Interp) idxInRange(idx Value, w uint8, n int) {
	if c, ok := idx.(uint64); ok {
		if c >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(c), n))
		}
		return
	}
	t := idx.(*Term)
	var ok *Term
	if w < 64 && uint64(n) > mask(w) {
		ok = in.st.tru
	} else {
		ok = in.st.Cmp(OpUlt, t, in.st.Const(w, uint64(n)))
	}
	if !in.truth(in.fold(ok)) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (in *Interp) indexCells(c []Cell, idx Value, w uint8) Value {
	in.idxInRange(idx, w, len(c))
	if k, ok := idx.(uint64); ok {
		return &c[k]
	}
	if len(c) == 1 {
		return &c[0]
	}
	return &SymPtr{c, idx.(*Term)}
}

func (in *Interp) indexAddr(base, idx Value, w uint8) Value {
	switch b := base.(type) {
	case Slice:
		return in.indexCells(b.c, idx, w)
	case *Cell:
		if b == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.indexCells(b.v.(*Array).e, idx, w)
	case *SymPtr:
		i := in.concretize(b.idx)
		return in.indexCells(b.cells[i].v.(*Array).e, idx, w)
	}
	panic(unsupported{fmt.Sprintf("index address of %T", base)})
}

func (in *Interp) strIndex(s, idx Value, w uint8) Value {
	n := strLen(s)
	in.idxInRange(idx, w, n)
	if k, ok := idx.(uint64); ok {
		if str, ok := s.(string); ok {
			return uint64(str[k])
		}
		return in.fold(s.(*SymStr).b[k])
	}
	b := in.strBytes(s)
	cells := make([]Cell, n)
	for i := range b {
		cells[i].v = in.fold(b[i])
	}
	in.loadW = 8
	return in.load(&SymPtr{cells, idx.(*Term)})
}

func (in *Interp) slice(fr *frame, ins *ssa.Slice, x *instr) Value {
	base := fr.get(&x.a[0])
	k := 1
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		r := int(int64(in.concreteInt(fr.get(&x.a[k]))))
		return r
	}
	// Operands(nil) lists X, Low, High, Max in order, including nil ones
	lo := bound(ins.Low, 0)
	k = 2
	switch b := base.(type) {
	case string, *SymStr:
		n := strLen(b)
		hi := bound(ins.High, n)
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return in.substr(b, lo, hi)
	}
	var c []Cell
	isArr := false
	switch b := base.(type) {
	case Slice:
		c = b.c
	case *Cell:
		if b == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		c = b.v.(*Array).e
		isArr = true
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", base)})
	}
	hi := bound(ins.High, len(c))
	k = 3
	max := bound(ins.Max, cap(c))
	if max < 0 || max > cap(c) || hi < 0 || hi > max || lo < 0 || lo > hi {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, cap(c)))
	}
	if c == nil {
		if isArr {
			return Slice{[]Cell{}}
		}
		return Slice{}
	}
	return Slice{c[lo:hi:max]}
}

func (in *Interp) unop(ins *ssa.UnOp, x *instr, v Value) Value {
	switch ins.Op {
	case token.ARROW:
		ch, _ := v.(*Chan)
		got, ok, done := in.recv(ch, ins.X.Type())
		if !done {
			panic(unsupported{"blocking channel receive"})
		}
		if ins.CommaOk {
			return Tuple{got, ok}
		}
		return got
	case token.MUL:
		in.loadW = x.w
		if len(in.locked) > 0 {
			in.didRead(v)
		}
		return in.load(v)
	case token.NOT:
		if b, ok := v.(bool); ok {
			return !b
		}
		return in.fold(in.st.Not(v.(*Term)))
	case token.SUB:
		switch y := v.(type) {
		case uint64:
			return (-y) & mask(x.w)
		case *Term:
			return in.fold(in.st.Un(OpNeg, y))
		case float64:
			return -y
		case complex128:
			return -y
		}
	case token.XOR:
		switch y := v.(type) {
		case uint64:
			return (^y) & mask(x.w)
		case *Term:
			return in.fold(in.st.Un(OpBNot, y))
		}
	}
	panic(unsupported{"unop " + ins.Op.String()})
}

func (in *Interp) binop(op token.Token, x *instr, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.eqMixed(x, a, b)
	case token.NEQ:
		r := in.eqMixed(x, a, b)
		if c, ok := r.(bool); ok {
			return !c
		}
		return in.fold(in.st.Not(r.(*Term)))
	}
	switch p := a.(type) {
	case float64:
		q := b.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = p + q
		case token.SUB:
			r = p - q
		case token.MUL:
			r = p * q
		case token.QUO:
			r = p / q
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		default:
			panic(unsupported{"float op"})
		}
		if bt, ok := x.t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case string, *SymStr:
		switch op {
		case token.ADD:
			return in.concat(a, b)
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	case bool:
		panic(unsupported{"bool binop"})
	}
	w := x.w
	if w == 0 {
		panic(unsupported{fmt.Sprintf("binop %s on %T", op, a)})
	}
	switch op {
	case token.SHL, token.SHR:
		return in.shift(op, x, a, b)
	case token.QUO, token.REM:
		zero := false
		if c, ok := b.(uint64); ok {
			zero = c == 0
		} else {
			zero = in.truth(in.fold(in.st.Eq(b.(*Term), in.st.Const(w, 0))))
		}
		if zero {
			in.rtPanic("integer divide by zero")
		}
	}
	var o Op
	swap, neg := false, false
	sel := func(s, u Op) Op {
		if x.signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		o = OpAdd
	case token.SUB:
		o = OpSub
	case token.MUL:
		o = OpMul
	case token.QUO:
		o = sel(OpSDiv, OpUDiv)
	case token.REM:
		o = sel(OpSRem, OpURem)
	case token.AND:
		o = OpBAnd
	case token.OR:
		o = OpBOr
	case token.XOR:
		o = OpBXor
	case token.AND_NOT:
		o = OpBAnd
		if c, ok := b.(uint64); ok {
			b = (^c) & mask(w)
		} else {
			b = in.st.Un(OpBNot, b.(*Term))
		}
	case token.LSS:
		o = sel(OpSlt, OpUlt)
	case token.LEQ:
		o = sel(OpSle, OpUle)
	case token.GTR:
		o, swap = sel(OpSlt, OpUlt), true
	case token.GEQ:
		o, swap = sel(OpSle, OpUle), true
	default:
		panic(unsupported{"binop " + op.String()})
	}
	_ = neg
	if swap {
		a, b = b, a
	}
	cmp := o == OpSlt || o == OpSle || o == OpUlt || o == OpUle
	if p, ok := a.(uint64); ok {
		if q, ok := b.(uint64); ok {
			r := evalOp(o, w, []uint64{p, q}, w)
			if cmp {
				return r == 1
			}
			return r
		}
	}
	ta, tb := in.intTerm(a, w), in.intTerm(b, w)
	if cmp {
		return in.fold(in.st.Cmp(o, ta, tb))
	}
	return in.fold(in.st.Bin(o, ta, tb))
}

// eqMixed handles comparisons of an interface with a concrete operand type as well.
func (in *Interp) eqMixed(x *instr, a, b Value) Value {
	return in.eq(x.t, a, b)
}

func (in *Interp) shift(op token.Token, x *instr, a, b Value) Value {
	w := x.w
	if q, ok := b.(uint64); ok {
		if x.sg2 && sext(q, x.w2) < 0 {
			in.rtPanic("negative shift amount")
		}
		if p, ok := a.(uint64); ok {
			if op == token.SHL {
				if q >= 64 {
					return uint64(0)
				}
				return (p << q) & mask(w)
			}
			if x.signed {
				if q > 63 {
					q = 63
				}
				return uint64(sext(p, w)>>q) & mask(w)
			}
			if q >= 64 {
				return uint64(0)
			}
			return p >> q
		}
	}
	ta := in.intTerm(a, w)
	tb := in.intTerm(b, x.w2)
	if x.sg2 && !tb.isConst() {
		if in.truth(in.fold(in.st.Cmp(OpSlt, tb, in.st.Const(x.w2, 0)))) {
			in.rtPanic("negative shift amount")
		}
	}
	// clamp the amount to the width
	if x.w2 > w {
		big := in.st.Cmp(OpUle, in.st.Const(x.w2, uint64(w)), tb)
		tb = in.st.Ite(big, in.st.Const(w, uint64(w)), in.st.Resize(tb, w, false))
	} else {
		tb = in.st.Resize(tb, w, false)
	}
	switch {
	case op == token.SHL:
		return in.fold(in.st.Bin(OpShl, ta, tb))
	case x.signed:
		return in.fold(in.st.Bin(OpAShr, ta, tb))
	}
	return in.fold(in.st.Bin(OpLShr, ta, tb))
}

func (in *Interp) convert(x *instr, v Value) Value {
	from, to := x.t.Underlying(), x.t2.Underlying()
	if x.w > 0 && x.w2 > 0 {
		switch y := v.(type) {
		case uint64:
			if x.signed {
				return uint64(sext(y, x.w)) & mask(x.w2)
			}
			return y & mask(x.w2)
		case *Term:
			return in.fold(in.st.Resize(y, x.w2, x.signed))
		case SlicePtr, StrPtr, *Cell:
			return v
		}
	}
	if x.w > 0 && isFloat(to) {
		c := in.concreteInt(v)
		if x.signed {
			return float64(sext(c, x.w))
		}
		return float64(c)
	}
	if isFloat(from) {
		f := v.(float64)
		if x.w2 > 0 {
			if x.sg2 {
				return uint64(int64(f)) & mask(x.w2)
			}
			return uint64(f) & mask(x.w2)
		}
		if b := to.(*types.Basic); b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	if x.w > 0 && isString(to) { // rune to string
		if c, ok := v.(uint64); ok {
			if x.signed {
				return string(rune(sext(c, x.w)))
			}
			return string(rune(c))
		}
		t := in.st.Resize(v.(*Term), 32, x.signed)
		if in.truth(in.fold(in.st.Cmp(OpUlt, t, in.st.Const(32, 0x80)))) {
			return mkStr([]*Term{in.st.Resize(t, 8, false)})
		}
		fn := in.P.fn("unicode/utf8", "AppendRune")
		s := in.callFn(fn, []Value{Slice{}, in.fold(t)}, nil).(Slice)
		return in.bytesToStr(s)
	}
	if isString(from) {
		if sl, ok := to.(*types.Slice); ok {
			if w, _ := intInfo(sl.Elem()); w == 8 {
				return in.strToBytes(v)
			}
			var cells []Cell
			for p, n := 0, strLen(v); p < n; {
				r, sz := in.decodeRune(v, p)
				cells = append(cells, Cell{r, in.epoch})
				p += sz
			}
			if cells == nil {
				cells = []Cell{}
			}
			return Slice{cells}
		}
		if isString(to) {
			return v
		}
	}
	if sl, ok := from.(*types.Slice); ok && isString(to) {
		if w, _ := intInfo(sl.Elem()); w == 8 {
			return in.bytesToStr(v.(Slice))
		}
		var res Value = ""
		y := instr{t: types.Typ[types.Int32], t2: types.Typ[types.String], w: 32, signed: true}
		for _, c := range v.(Slice).c {
			res = in.concat(res, in.convert(&y, c.v))
		}
		return res
	}
	switch to.(type) {
	case *types.Pointer:
		return v
	case *types.Basic: // unsafe.Pointer, uintptr
		return v
	}
	if types.Identical(from, to) {
		return v
	}
	if c, ok := v.(complex128); ok {
		return c
	}
	panic(unsupported{fmt.Sprintf("convert %v to %v", x.t, x.t2)})
}

func (in *Interp) strToBytes(v Value) Slice {
	n := strLen(v)
	cells := make([]Cell, n)
	if s, ok := v.(string); ok {
		for i := range cells {
			cells[i] = Cell{uint64(s[i]), in.epoch}
		}
	} else {
		for i, t := range v.(*SymStr).b {
			cells[i] = Cell{in.fold(t), in.epoch}
		}
	}
	return Slice{cells}
}

func (in *Interp) bytesToStr(s Slice) Value {
	b := make([]*Term, len(s.c))
	for i := range s.c {
		b[i] = in.intTerm(s.c[i].v, 8)
	}
	return mkStr(b)
}

// builtin runs a Go builtin.
func (in *Interp) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, ins ssa.Instruction) Value {
	switch b.Name() {
	case "close":
		ch, _ := args[0].(*Chan)
		if ch == nil {
			in.rtPanic("close of nil channel")
		}
		if ch.closed {
			in.rtPanic("close of closed channel")
		}
		in.touchChan(ch)
		ch.closed = true
		return nil
	case "len":
		switch x := args[0].(type) {
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.q))
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x.c))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.e))
		case *Array:
			return uint64(len(x.e))
		case *Cell:
			return uint64(len(x.v.(*Array).e))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.max)
		case Slice:
			return uint64(cap(x.c))
		case *Array:
			return uint64(len(x.e))
		case *Cell:
			return uint64(len(x.v.(*Array).e))
		}
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return in.doAppend(args[0].(Slice), args[1], et)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			n := min(len(dst.c), len(s.c))
			src = make([]Value, n)
			for i := 0; i < n; i++ {
				src[i] = in.copyVal(s.c[i].v)
			}
		default:
			bs := in.strBytes(s)
			n := min(len(dst.c), len(bs))
			src = make([]Value, n)
			for i := 0; i < n; i++ {
				src[i] = in.fold(bs[i])
			}
		}
		for i, v := range src {
			in.write(&dst.c[i], v)
		}
		return uint64(len(src))
	case "delete":
		m := args[0].(*Map)
		if m == nil {
			return nil
		}
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		e := in.mapFind(kt, m, args[1])
		if e != nil {
			in.touchMap(m)
			var r []*mapEntry
			for _, o := range m.e {
				if o != e {
					r = append(r, o)
				}
			}
			m.e = r
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				in.touchMap(x)
				x.e = nil
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.c {
				in.write(&x.c[i], in.zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		w, sg := intInfo(t)
		x := &instr{t: t, w: w, signed: sg}
		for _, a := range args[1:] {
			less := in.binop(token.LSS, x, a, r)
			if b.Name() == "max" {
				less = in.binop(token.LSS, x, r, a)
			}
			if lt, ok := less.(*Term); ok && w > 0 {
				r = in.fold(in.st.Ite(lt, in.intTerm(a, w), in.intTerm(r, w)))
			} else if in.truth(less) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{v: args[0].(Iface)})
	case "recover":
		// must be called directly by a deferred function
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.pan
			fr.caller.pan = nil
			return p.v
		}
		return Iface{}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Cell); ok && p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(in.concreteInt(args[1]))
		switch p := args[0].(type) {
		case SlicePtr:
			return in.bytesToStr(Slice{p.s.c[:n]})
		case StrPtr:
			return in.substr(p.s, 0, n)
		case *Cell:
			if n == 0 {
				return ""
			}
			if p != nil {
				return in.bytesToStr(Slice{unsafe.Slice(p, n)})
			}
		}
	case "Sizeof":
		return uint64(sizes.Sizeof(c.Args[0].Type()))
	case "StringData":
		return StrPtr{args[0]}
	case "SliceData":
		return SlicePtr{args[0].(Slice)}
	case "Slice":
		n := int(in.concreteInt(args[1]))
		switch p := args[0].(type) {
		case SlicePtr:
			return Slice{p.s.c[:n:n]}
		case StrPtr:
			s := in.strToBytes(p.s)
			return Slice{s.c[:n:n]}
		case *Cell:
			if n == 0 {
				return Slice{}
			}
			if p != nil {
				return Slice{unsafe.Slice(p, n)}
			}
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (in *Interp) doAppend(s Slice, more Value, et types.Type) Value {
	var add []Value
	switch m := more.(type) {
	case Slice:
		add = make([]Value, len(m.c))
		for i := range m.c {
			add[i] = in.copyVal(m.c[i].v)
		}
	default:
		bs := in.strBytes(m)
		add = make([]Value, len(bs))
		for i := range bs {
			add[i] = in.fold(bs[i])
		}
	}
	n := len(s.c) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.c) {
		r := s.c[:n]
		for i, v := range add {
			in.write(&r[len(s.c)+i], v)
		}
		return Slice{r}
	}
	nc := growCap(cap(s.c), n, et)
	cells := make([]Cell, nc)
	for i := range s.c {
		cells[i] = Cell{in.copyVal(s.c[i].v), in.epoch}
	}
	for i, v := range add {
		cells[len(s.c)+i] = Cell{v, in.epoch}
	}
	z := in.zero(et)
	for i := n; i < nc; i++ {
		cells[i] = Cell{in.copyVal(z), in.epoch}
	}
	return Slice{cells[:n]}
}

var _ = math.Inf
var _ = sort.Ints
