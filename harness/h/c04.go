package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// tree builds a condition with exactly k combinators; every shape is explored.
func (w *world) tree(k int) node {
	if k == 0 {
		if w.empties {
			switch v.Choice("empty", 4) {
			case 1:
				return empty(query.LogicalAND)
			case 2:
				return empty(query.LogicalOR)
			case 3:
				return node{query.Group{}, false, false}
			}
		}
		return w.leaf()
	}
	op := v.Choice("op", 10)
	switch op {
	case 0: // Not
		return negated(w.tree(k-1), true)
	case 1, 2: // And(x), Or(x) with one argument only set the join type
		x := w.tree(k - 1)
		if op == 1 {
			return node{query.And(x.c), x.d, x.some}
		}
		return node{query.Or(x.c), x.d, x.some}
	case 3: // pointers to groups and explicit brackets mean the same
		x := w.tree(k - 1)
		if g, ok := x.c.(query.Group); ok {
			b := g.WithBrackets()
			x.c = &b
		} else {
			x = negated(x, false)
		}
		return x
	case 4, 5, 6, 7:
		l := v.Choice("left", k)
		x := w.tree(l)
		y := w.tree(k - 1 - l)
		return w.combine(op-4, x, y)
	}
	if op == 9 { // a group of one member, with brackets or without
		x := w.tree(k - 1)
		form := v.Choice("one", 4)
		j := query.LogicalAND
		if form%2 == 1 {
			j = query.LogicalOR
		}
		g := query.NewGroup(j, x.c)
		if form > 1 {
			g = g.WithBrackets()
		}
		return node{g, x.d, x.some}
	}
	op3 := v.Choice("op3", 4)
	l := v.Choice("left", k)
	m := v.Choice("mid", k-l)
	x := w.tree(l)
	y := w.tree(m)
	z := w.tree(k - 1 - l - m)
	return w.combine(op3, x, y, z)
}

// combine applies x.And(rest), x.Or(rest), NewGroup(AND, all), NewGroup(OR, all).
func (w *world) combine(op int, list ...node) node {
	x, rest := list[0], list[1:]
	switch op {
	case 0:
		d, s := with(query.LogicalAND, x, rest)
		return node{x.c.And(conds(rest)...), d, s}
	case 1:
		d, s := with(query.LogicalOR, x, rest)
		return node{x.c.Or(conds(rest)...), d, s}
	case 2:
		d, s := joined(query.LogicalAND, list)
		return node{query.NewGroup(query.LogicalAND, conds(list)...), d, s}
	case 3:
		d, s := joined(query.LogicalOR, list)
		return node{query.NewGroup(query.LogicalOR, conds(list)...), d, s}
	case 4:
		d, s := with(query.LogicalAND, x, rest)
		return node{query.And(x.c, conds(rest)...), d, s}
	case 5:
		d, s := with(query.LogicalOR, x, rest)
		return node{query.Or(x.c, conds(rest)...), d, s}
	case 6:
		d, s := joined(query.LogicalAND, list)
		return node{query.LogicalAND.Join(conds(list)...), d, s}
	default:
		d, s := joined(query.LogicalOR, list)
		return node{query.LogicalOR.Join(conds(list)...), d, s}
	}
}

// judge asserts that the rendered text means d.
func (w *world) judge(x node) {
	sql := x.c.Render(0)
	v.Observe("sql", sql)
	raw := x.c.RenderSQL()
	if !x.some {
		v.Assert(v.Eq(sql, "") && v.Eq(raw, ""), "condition without members renders nothing")
		return
	}
	got, p := w.mean(sql, x.c.Values())
	v.Assert(!p.bad, "rendered condition is well formed")
	v.Assert(v.Iff(got, x.d), "rendered condition means what was composed")
	got, p = w.mean(raw, x.c.Values())
	v.Assert(!p.bad, "raw rendered condition is well formed")
	v.Assert(v.Iff(got, x.d), "raw rendered condition means what was composed")
}

func rotate(i int) int { return i % 5 }

// list draws a list of arguments from a menu of shapes.
func (w *world) list(shape int) []node {
	switch shape {
	case 0:
		return []node{w.leaf()}
	case 1:
		return []node{w.leaf(), w.leaf()}
	case 2: // a, OR b
		x, y := w.leaf(), w.leaf()
		y.c = query.Or(y.c)
		return []node{x, y}
	case 3: // (a OR b)
		return []node{w.combine(3, w.leaf(), w.leaf())}
	case 4: // (a AND b)
		return []node{w.combine(2, w.leaf(), w.leaf())}
	case 5: // NOT (a AND b)
		return []node{negated(w.combine(2, w.leaf(), w.leaf()), true)}
	case 6: // nothing
		return nil
	case 7: // an empty group
		return []node{empty(query.LogicalOR)}
	case 8: // NOT (a OR b), OR (c AND d)
		x, y := negated(w.combine(3, w.leaf(), w.leaf()), true), w.combine(2, w.leaf(), w.leaf())
		y.c = query.Or(y.c)
		return []node{x, y}
	case 9: // a, OR b, c
		x, y, z := w.leaf(), w.leaf(), w.leaf()
		y.c = query.Or(y.c)
		return []node{x, y, z}
	case 10: // a.Or(b), c
		return []node{w.combine(1, w.leaf(), w.leaf()), w.leaf()}
	case 11: // ((a OR b)) as the only member of a group
		x := w.combine(3, w.leaf(), w.leaf())
		x.c = query.NewGroup(query.LogicalAND, x.c)
		return []node{x}
	case 12: // the same with brackets asked for, and another member
		x := w.combine(3, w.leaf(), w.leaf())
		x.c = query.NewGroup(query.LogicalAND, x.c).WithBrackets()
		return []node{x, w.leaf()}
	default: // NOT a
		return []node{negated(w.leaf(), true)}
	}
}

const nShapes = 14

// H_C04_tree: every composition of up to k combinators.
func H_C04_tree() {
	w := newWorld(rotate)
	k := 1 + v.Choice("size", v.Bound("combinators", 3, 4))
	x := w.tree(k)
	v.Reach("built")
	w.judge(x)
}

// H_C04_empty: the same with empty groups anywhere.
func H_C04_empty() {
	w := newWorld(rotate)
	w.empties = true
	k := v.Choice("size", v.Bound("combinators with empty groups", 2, 3)+1)
	x := w.tree(k)
	v.Reach("built")
	w.judge(x)
}

// H_C04_kinds: every pair of condition kinds under every two-argument combinator.
func H_C04_kinds() {
	a, b := v.Choice("first", nKinds), v.Choice("second", nKinds)
	w := newWorld(func(i int) int {
		if i == 0 {
			return a
		}
		return b
	})
	x, y := w.leaf(), w.leaf()
	if v.Choice("not", 2) == 1 {
		x = negated(x, true)
	}
	if v.Choice("or", 2) == 1 {
		y.c = query.Or(y.c)
	}
	z := w.combine(v.Choice("op", 8), x, y)
	if v.Choice("outer", 2) == 1 {
		z = negated(z, true)
	}
	v.Reach("built")
	w.judge(z)
}

// H_C04_chain: a condition extended step by step with lists of every shape.
func H_C04_chain() {
	w := newWorld(rotate)
	x := w.leaf()
	n := v.Bound("chain steps", 3, 4)
	for i := 0; i < n; i++ {
		op := v.Choice("op", 3)
		if op == 2 {
			x = negated(x, true)
			continue
		}
		x = w.combine(op, append([]node{x}, w.list(v.Choice("shape", nShapes))...)...)
	}
	v.Reach("built")
	w.judge(x)
}

// H_C04_long: long chains of single conditions.
func H_C04_long() {
	w := newWorld(rotate)
	x := w.leaf()
	n := v.Bound("long chain steps", 7, 9)
	for i := 0; i < n; i++ {
		op := v.Choice("op", 3)
		if op == 2 {
			x = negated(x, true)
			continue
		}
		x = w.combine(op, x, w.leaf())
	}
	v.Reach("built")
	w.judge(x)
}

// H_C04_same: all conditions are over one column, some even repeat one another.
func H_C04_same() {
	w := newWorld(rotate)
	w.shared = 1 + v.Choice("operands and operators", 3)
	x := w.tree(1 + v.Choice("size", v.Bound("combinators over one column", 2, 3)))
	v.Reach("built")
	w.judge(x)
}

// H_C04_large: long lists and deep nesting.
func H_C04_large() {
	w := newWorld(rotate)
	w.shared = v.Choice("columns", 2)
	n := large("conditions", 40)
	form := v.Choice("form", 5)
	op := v.Choice("op", 8)
	var list []node
	x := w.leaf()
	for i := 1; i < n; i++ {
		y := w.leaf()
		if i%4 == 3 {
			y.c = query.Or(y.c)
		}
		switch form {
		case 0: // one list
			list = append(list, y)
		case 1: // a chain
			x = w.combine(op, x, y)
		case 2: // a chain of both operators
			x = w.combine((op+i)%8, x, y)
		case 3: // with negation on every level
			x = negated(w.combine((op+i/2)%8, y, x), true)
		default: // lists of lists
			list = append(list, w.combine((op+i)%8, y, w.leaf()))
		}
	}
	if list != nil {
		x = w.combine(op, append([]node{x}, list...)...)
	}
	v.Reach("built")
	w.judge(x)
}

// holder is a condition group or a where clause.
type holder struct {
	node
	clause *query.WhereClause
}

// add extends the holder with a list.
func (h holder) add(w *world, or bool, list []node) holder {
	j := query.LogicalAND
	if or {
		j = query.LogicalOR
	}
	d, some := with(j, h.node, list)
	if h.clause == nil {
		if or {
			h.c = h.c.Or(conds(list)...)
		} else {
			h.c = h.c.And(conds(list)...)
		}
	} else {
		c := h.clause.GroupAND(conds(list)...)
		if or {
			c = h.clause.GroupOR(conds(list)...)
		}
		h.clause = &c
	}
	h.d, h.some = d, some
	return h
}

// begin draws what to add to: a condition, an empty group or a where clause.
func (w *world) begin() holder {
	switch v.Choice("start", 5) {
	case 0:
		return holder{node: w.leaf()}
	case 1:
		return holder{node: node{query.Group{}, false, false}}
	case 2:
		return holder{node: empty(query.LogicalAND)}
	case 3:
		return holder{node: empty(query.LogicalOR)}
	default:
		c := query.NewWhere()
		return holder{clause: &c}
	}
}

func (h holder) judge(w *world) {
	if h.clause == nil {
		w.judge(h.node)
		return
	}
	sql := h.clause.Render(0)
	v.Observe("sql", sql)
	got, p := w.mean(sql, h.clause.Values())
	v.Assert(!p.bad, "rendered clause is well formed")
	v.Assert(v.Iff(got, h.d), "rendered clause means what was composed")
}

// H_C04_lists: lists with every mixture of joins are added to a condition, a group or a clause.
func H_C04_lists() {
	w := newWorld(rotate)
	h := w.begin()
	n := v.Bound("lists added", 2, 3)
	max := v.Bound("members of an added list", 4, 4)
	for i := 0; i < n; i++ {
		h = h.add(w, v.Choice("op", 2) == 1, w.mixed(max))
	}
	if h.clause == nil && v.Choice("not", 2) == 1 {
		h.node = negated(h.node, true)
	}
	v.Reach("built")
	h.judge(w)
}

// H_C04_patterns: long lists are added one after the other.
func H_C04_patterns() {
	w := newWorld(rotate)
	h := w.begin()
	n := large("members of long lists", 33)
	size := v.Choice("sizes", 3)
	for i := 0; i < 2; i++ {
		m := n
		if size == 1+i {
			m = 1
		}
		h = h.add(w, v.Choice("op", 2) == 1, w.pattern(m, v.Choice("pattern", nPatterns)))
	}
	v.Reach("built")
	h.judge(w)
}

// wrapped puts x alone into something that means the same, or negates it.
func (w *world) wrapped(x node) node {
	switch v.Choice("wrap", 6) {
	case 0:
		return negated(x, true)
	case 1:
		return node{query.NewGroup(query.LogicalAND, x.c), x.d, x.some}
	case 2:
		return node{query.NewGroup(query.LogicalOR, x.c), x.d, x.some}
	case 3:
		g := query.NewGroup(query.LogicalAND, x.c).WithBrackets()
		return node{&g, x.d, x.some}
	case 4:
		return node{query.Group{}.Or(x.c), x.d, x.some}
	default:
		g := query.NewWhere().GroupAND(x.c).Conditions()
		return node{g[0], x.d, x.some}
	}
}

// core draws what is wrapped.
func (w *world) core() node {
	switch v.Choice("core", 4) {
	case 0:
		return w.combine(2, w.leaf(), w.leaf())
	case 1:
		return w.combine(3, w.leaf(), w.leaf())
	case 2:
		return w.combine(0, w.combine(1, w.leaf(), w.leaf()), w.leaf())
	default:
		return w.leaf()
	}
}

// H_C04_nest: groups of one member inside of each other, in any mixture with negation.
func H_C04_nest() {
	w := newWorld(rotate)
	x := w.core()
	n := v.Bound("levels", 4, 5)
	for i := 0; i < n; i++ {
		x = w.wrapped(x)
	}
	v.Reach("built")
	w.judge(x)
}

// H_C04_nested: such groups as operands.
func H_C04_nested() {
	w := newWorld(rotate)
	x := w.core()
	n := v.Bound("levels of an operand", 2, 3)
	for i := 0; i < n; i++ {
		x = w.wrapped(x)
	}
	y := w.leaf()
	op := v.Choice("op", 8)
	if v.Choice("side", 2) == 0 {
		x = w.combine(op, x, y)
	} else {
		x = w.combine(op, y, x)
	}
	x = w.wrapped(x)
	v.Reach("built")
	w.judge(x)
}
