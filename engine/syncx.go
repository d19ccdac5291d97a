package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Synchronisation and goroutines. There is one schedule: a goroutine runs to its end where it is started.
// What is stored under a lock or atomically is no suspected race; a plain read of it afterwards is.

func (in *Interp) spawn(fn Value, args []Value) {
	if b, ok := fn.(*ssa.Builtin); ok {
		panic(unsupported{"go " + b.Name()})
	}
	in.call(fn, args)
}

func (in *Interp) touchChan(ch *Chan) {
	if ch.ep == 0 && in.epoch > 0 {
		q, closed := ch.q, ch.closed
		in.journal = append(in.journal, undo{f: func() { ch.q, ch.closed = q, closed }})
	}
}

func (in *Interp) canSend(ch *Chan) bool {
	if ch != nil && ch.closed {
		in.rtPanic("send on closed channel")
	}
	return ch != nil && (ch.max == 0 || len(ch.q) < ch.max)
}

func (in *Interp) send(ch *Chan, v Value) {
	in.touchChan(ch)
	ch.q = append(ch.q[:len(ch.q):len(ch.q)], v)
}

// recv takes the next element; done is false if the operation would block.
func (in *Interp) recv(ch *Chan, t types.Type) (v Value, ok, done bool) {
	switch {
	case ch != nil && len(ch.q) > 0:
		in.touchChan(ch)
		v, ch.q = ch.q[0], ch.q[1:]
		return v, true, true
	case ch != nil && ch.closed:
		return in.zero(t.Underlying().(*types.Chan).Elem()), false, true
	}
	return nil, false, false
}

// selectCase takes the first case that is ready.
func (in *Interp) selectCase(fr *frame, ins *ssa.Select, x *instr) Value {
	res := Tuple{uint64(0), false}
	n := 0
	for _, s := range ins.States {
		if s.Dir == types.RecvOnly {
			res = append(res, in.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	for k, s := range ins.States {
		ch, _ := fr.get(&x.a[2*k]).(*Chan)
		if s.Dir == types.SendOnly {
			if in.canSend(ch) {
				in.send(ch, fr.get(&x.a[2*k+1]))
				res[0] = i64(k)
				return res
			}
			continue
		}
		if v, ok, done := in.recv(ch, s.Chan.Type()); done {
			res[0], res[1], res[2+n] = i64(k), ok, v
			return res
		}
		n++
	}
	if ins.Blocking {
		panic(unsupported{"blocking select"})
	}
	res[0] = i64(-1)
	return res
}

// quietly runs f; what it stores is no suspected race.
func (in *Interp) quietly(f func()) {
	in.quiet++
	f()
	in.quiet--
}

// own sets the epoch of everything reachable from v, but for package-level memory.
func own(v Value, ep int32, seen map[interface{}]bool) {
	cell := func(c *Cell) {
		if c.ep != 0 {
			c.ep = ep
		}
		own(c.v, ep, seen)
	}
	switch x := v.(type) {
	case *Cell:
		if x != nil && !seen[x] {
			seen[x] = true
			cell(x)
		}
	case *Struct:
		for i := range x.f {
			cell(&x.f[i])
		}
	case *Array:
		for i := range x.e {
			cell(&x.e[i])
		}
	case Slice:
		all := x.c[:cap(x.c)]
		if len(all) == 0 || seen[&all[0]] {
			return
		}
		seen[&all[0]] = true
		for i := range all {
			cell(&all[i])
		}
	case *Map:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.ep != 0 {
			x.ep = ep
		}
		for _, e := range x.e {
			own(e.k, ep, seen)
			cell(&e.c)
		}
	case Iface:
		own(x.v, ep, seen)
	case *Closure:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, e := range x.env {
			own(e, ep, seen)
		}
	}
}

func (in *Interp) fieldOf(p Value, recv types.Type, name string) *Cell {
	st := recv.(*types.Pointer).Elem().Underlying().(*types.Struct)
	s := p.(*Cell).v.(*Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s.f[i]
		}
	}
	panic(unsupported{"no field " + name})
}

func registerSync(reg func(string, intrinsic)) {
	nop := func(in *Interp, fn *ssa.Function, a []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		reg(n, nop)
	}
	reg("(*sync.WaitGroup).Go", func(in *Interp, fn *ssa.Function, a []Value) Value { in.spawn(a[1], nil); return nil })
	lock := func(try bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			m := a[0].(*Cell)
			if in.held[m] != 0 {
				if try {
					return false
				}
				in.rtPanic("all goroutines are asleep - deadlock!")
			}
			in.held[m] = -1
			in.quiet++
			return true
		}
	}
	rlock := func(try bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			m := a[0].(*Cell)
			if in.held[m] < 0 {
				if try {
					return false
				}
				in.rtPanic("all goroutines are asleep - deadlock!")
			}
			in.held[m]++
			in.rlocked++
			return true
		}
	}
	for _, n := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		reg("(*"+n+").Lock", lock(false))
		reg("(*"+n+").TryLock", lock(true))
		reg("(*"+n+").Unlock", func(in *Interp, fn *ssa.Function, a []Value) Value {
			m := a[0].(*Cell)
			if in.held[m] >= 0 {
				in.rtPanic("sync: unlock of unlocked mutex")
			}
			in.held[m] = 0
			in.quiet--
			return nil
		})
	}
	reg("(*sync.RWMutex).RLock", rlock(false))
	reg("(*sync.RWMutex).TryRLock", rlock(true))
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := a[0].(*Cell)
		if in.held[m] <= 0 {
			in.rtPanic("sync: RUnlock of unlocked RWMutex")
		}
		in.held[m]--
		in.rlocked--
		return nil
	})

	// a pool gives back what was put last; what is in the pool is shared, what is taken from it is not
	reg("(*sync.Pool).Put", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if x := a[1].(Iface); x.t != nil {
			own(x, -1, map[interface{}]bool{})
			p := a[0].(*Cell)
			in.pools[p] = append(in.pools[p], x)
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Cell)
		if q := in.pools[p]; len(q) > 0 {
			x := q[len(q)-1]
			in.pools[p] = q[:len(q)-1]
			own(x, in.epoch, map[interface{}]bool{})
			return x
		}
		if f, ok := in.fieldOf(p, fn.Signature.Recv().Type(), "New").v.(*Closure); ok && f != nil {
			return in.call(f, nil)
		}
		return Iface{}
	})

	// sync.Map as a map in its field m
	anyT := types.NewInterfaceType(nil, nil)
	mapT := types.NewMap(anyT, anyT)
	syncMap := func(name string, f func(in *Interp, m *Map, a []Value) Value) {
		reg("(*sync.Map)."+name, func(in *Interp, fn *ssa.Function, a []Value) (r Value) {
			c := in.fieldOf(a[0], fn.Signature.Recv().Type(), "m")
			in.quietly(func() {
				if _, ok := c.v.(*Map); !ok {
					in.write(c, &Map{ep: in.epoch})
				}
				r = f(in, c.v.(*Map), a)
			})
			return r
		})
	}
	get := func(in *Interp, m *Map, k Value) (Value, bool) {
		if e := in.mapFind(anyT, m, k); e != nil {
			return in.copyVal(e.c.v), true
		}
		return Iface{}, false
	}
	drop := func(in *Interp, m *Map, k Value) {
		if e := in.mapFind(anyT, m, k); e != nil {
			in.touchMap(m)
			var r []*mapEntry
			for _, o := range m.e {
				if o != e {
					r = append(r, o)
				}
			}
			m.e = r
		}
	}
	syncMap("Load", func(in *Interp, m *Map, a []Value) Value {
		x, ok := get(in, m, a[1])
		return Tuple{x, ok}
	})
	syncMap("Store", func(in *Interp, m *Map, a []Value) Value { in.mapUpdate(mapT, m, a[1], a[2]); return nil })
	syncMap("LoadOrStore", func(in *Interp, m *Map, a []Value) Value {
		if x, ok := get(in, m, a[1]); ok {
			return Tuple{x, true}
		}
		in.mapUpdate(mapT, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	syncMap("LoadAndDelete", func(in *Interp, m *Map, a []Value) Value {
		x, ok := get(in, m, a[1])
		drop(in, m, a[1])
		return Tuple{x, ok}
	})
	syncMap("Delete", func(in *Interp, m *Map, a []Value) Value { drop(in, m, a[1]); return nil })
	syncMap("Clear", func(in *Interp, m *Map, a []Value) Value { in.touchMap(m); m.e = nil; return nil })
	syncMap("Swap", func(in *Interp, m *Map, a []Value) Value {
		x, ok := get(in, m, a[1])
		in.mapUpdate(mapT, m, a[1], a[2])
		return Tuple{x, ok}
	})
	syncMap("CompareAndSwap", func(in *Interp, m *Map, a []Value) Value {
		x, ok := get(in, m, a[1])
		if !ok || !in.truth(in.eq(anyT, x, a[2])) {
			return false
		}
		in.mapUpdate(mapT, m, a[1], a[3])
		return true
	})
	syncMap("CompareAndDelete", func(in *Interp, m *Map, a []Value) Value {
		x, ok := get(in, m, a[1])
		if !ok || !in.truth(in.eq(anyT, x, a[2])) {
			return false
		}
		drop(in, m, a[1])
		return true
	})
	reg("(*sync.Map).Range", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := in.fieldOf(a[0], fn.Signature.Recv().Type(), "m")
		if m, ok := c.v.(*Map); ok {
			for _, e := range append([]*mapEntry{}, m.e...) {
				if !in.truth(in.call(a[1], []Value{in.copyVal(e.k), in.copyVal(e.c.v)})) {
					break
				}
			}
		}
		return nil
	})

	// atomic.Value
	val := func(in *Interp, fn *ssa.Function, a []Value) *Cell {
		return in.fieldOf(a[0], fn.Signature.Recv().Type(), "v")
	}
	store := func(in *Interp, c *Cell, x Value) {
		i := x.(Iface)
		if i.t == nil {
			in.rtPanic("sync/atomic: store of nil value into Value")
		}
		if o := c.v.(Iface); o.t != nil && o.t != i.t {
			in.rtPanic("sync/atomic: store of inconsistently typed value into Value")
		}
		in.quietly(func() { in.write(c, i) })
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fn *ssa.Function, a []Value) Value { return val(in, fn, a).v })
	reg("(*sync/atomic.Value).Store", func(in *Interp, fn *ssa.Function, a []Value) Value {
		store(in, val(in, fn, a), a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := val(in, fn, a)
		old := c.v
		store(in, c, a[1])
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := val(in, fn, a)
		if !in.truth(in.eq(anyT, c.v, a[1])) {
			return false
		}
		store(in, c, a[2])
		return true
	})

	// addresses: slices compare them to find overlaps
	overlaps := func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice).c, a[1].(Slice).c
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return true
				}
			}
		}
		return false
	}
	reg("slices.overlaps", overlaps)
	reg("slices.startIdx", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice).c, a[1].(Slice).c
		for i := range x {
			if len(y) > 0 && &x[i] == &y[0] {
				return i64(i)
			}
		}
		in.rtPanic("needle not found")
		return nil
	})
}
