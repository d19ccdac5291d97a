package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// narrow runs calls of Where over every kind of builder and compares with the conjunction.
func narrow(w *world, lists [][]node) {
	kind := v.Choice("kind", 6)
	var s stmt
	if kind == kCount {
		s = start(v.Choice("counted", 3), "t")
	} else {
		s = start(kind, "t")
	}
	d, some := true, false
	for _, l := range lists {
		s = where(s, conds(l)...)
		if ld, ls := den(l); ls {
			d, some = v.And(d, ld), true
		}
	}
	switch b := s.(type) {
	case query.BaseSelectBuilder:
		if kind == kCount {
			s = b.Count()
		}
	case query.SelectManyBuilder:
		if kind == kCount {
			s = b.OrderBy(query.ASC("o")).Offset(1).Limit(2).Count()
		} else {
			s = b.OrderBy(query.ASC("o")).Offset(1).Limit(2)
		}
	case query.SelectSingleBuilder:
		if kind == kCount {
			s = query.Count(b.BaseSelectBuilder)
		}
	case query.UpdateBuilder, query.DeleteBuilder:
		if !some {
			_, _, err := s.BuildQueryAndParams()
			v.Assert(err != nil, "an unconditional change is refused")
			return
		}
	}
	sql, params := build(s)
	v.Observe("sql", sql)
	v.Reach("built")
	w.judgeWhere(sql, d, some, "Where", params...)
}

// H_C05_shapes: successive Where calls with lists of every shape.
func H_C05_shapes() {
	w := newWorld(rotate)
	n := v.Bound("Where calls", 3, 4)
	var lists [][]node
	for i := 0; i < n; i++ {
		lists = append(lists, w.list(v.Choice("shape", nShapes)))
	}
	narrow(w, lists)
}

// H_C05_simple: more calls, each of a simple shape.
func H_C05_simple() {
	w := newWorld(rotate)
	n := v.Bound("simple Where calls", 5, 6)
	var lists [][]node
	for i := 0; i < n; i++ {
		lists = append(lists, w.list(v.Choice("shape", 4)))
	}
	if v.Choice("tail", 2) == 1 {
		lists = append(lists, w.list(5))
	}
	kind := v.Choice("kind", 3)
	s := start([]int{kMany, kDelete, kUpdate}[kind], "t")
	d := true
	for _, l := range lists {
		s = where(s, conds(l)...)
		ld, _ := den(l)
		d = v.And(d, ld)
	}
	sql, _ := build(s)
	v.Reach("built")
	w.judgeWhere(sql, d, true, "Where")
}

// H_C05_tree: two Where calls with arbitrary compositions.
func H_C05_tree() {
	w := newWorld(rotate)
	w.empties = v.Choice("with empties", 2) == 1
	k := v.Bound("combinators in one Where", 2, 3)
	if w.empties {
		k = v.Bound("combinators in one Where with empty groups", 1, 2)
	}
	x := w.tree(k)
	w.empties = false
	y := w.list(v.Choice("second", 2) * 5)[0]
	if v.Choice("or", 2) == 1 {
		y.c = query.Or(y.c)
	}
	lists := [][]node{{x}, {y}}
	if v.Choice("one call", 2) == 1 {
		lists = [][]node{{y, x}}
	}
	narrow(w, lists)
}

// H_C05_kinds: every pair of condition kinds.
func H_C05_kinds() {
	a, b := v.Choice("first", nKinds), v.Choice("second", nKinds)
	w := newWorld(func(i int) int {
		if i == 0 {
			return a
		}
		return b
	})
	x, y := w.leaf(), w.leaf()
	if v.Choice("not", 2) == 1 {
		y = negated(y, true)
	}
	if v.Choice("or", 2) == 1 {
		y.c = query.Or(y.c)
	}
	narrow(w, [][]node{{x}, {y}})
}

// H_C05_clause: the WHERE clause object combines with AND and OR.
func H_C05_clause() {
	w := newWorld(rotate)
	c := query.NewWhere()
	d, some := false, false
	n := v.Bound("clause steps", 3, 4)
	for i := 0; i < n; i++ {
		l := w.list(v.Choice("shape", nShapes))
		ld, ls := den(l)
		op := v.Choice("op", 2)
		if op == 0 {
			c = c.GroupAND(conds(l)...)
		} else {
			c = c.GroupOR(conds(l)...)
		}
		switch {
		case !ls:
		case !some:
			d, some = ld, true
		case op == 0:
			d = v.And(d, ld)
		default:
			d = v.Or(d, ld)
		}
	}
	sql := c.Render(0)
	v.Observe("sql", sql)
	if !some {
		v.Assert(v.Eq(sql, "") && len(c.Conditions()) == 0, "empty clause renders nothing")
		return
	}
	v.Reach("built")
	got, p := w.mean(sql, c.Values())
	v.Assert(!p.bad, "clause is well formed")
	v.Assert(v.Iff(got, d), "clause means what was composed")
}

// H_C05_same: all conditions are over one column, some even repeat one another.
func H_C05_same() {
	w := newWorld(rotate)
	w.shared = 1 + v.Choice("operands and operators", 3)
	n := v.Bound("Where calls over one column", 3, 4)
	var lists [][]node
	for i := 0; i < n; i++ {
		lists = append(lists, w.list([]int{0, 1, 2, 3, 5}[v.Choice("shape", 5)]))
	}
	narrow(w, lists)
}

// H_C05_large: many Where calls, long lists and deep nesting.
func H_C05_large() {
	w := newWorld(rotate)
	w.shared = v.Choice("columns", 2)
	n := large("conditions", 40)
	var lists [][]node
	form := v.Choice("form", 4)
	var x node
	for i := 0; i < n; i++ {
		y := w.leaf()
		switch {
		case i == 0:
			x = y
			lists = append(lists, []node{y})
			continue
		case i%5 == 4:
			y.c = query.Or(y.c)
		}
		switch form {
		case 0: // one condition in each call
			lists = append(lists, []node{y})
		case 1: // all in one call
			lists[0] = append(lists[0], y)
		case 2: // nested
			x = w.combine(i%2, x, y)
			if i%7 == 6 {
				x = negated(x, true)
			}
			lists[0][0] = x
		default: // several calls of several
			if i%4 == 0 {
				lists = append(lists, nil)
			}
			lists[len(lists)-1] = append(lists[len(lists)-1], y)
		}
	}
	narrow(w, lists)
}

// H_C05_lists: Where calls with lists mixing joins in every way.
func H_C05_lists() {
	w := newWorld(rotate)
	n := v.Bound("Where calls with mixed lists", 2, 3)
	max := v.Bound("members of a mixed list", 4, 4)
	var lists [][]node
	for i := 0; i < n; i++ {
		lists = append(lists, w.mixed(max))
	}
	narrow(w, lists)
}

// H_C05_patterns: Where calls with long lists.
func H_C05_patterns() {
	w := newWorld(rotate)
	n := large("members of long lists", 33)
	size := v.Choice("sizes", 3)
	var lists [][]node
	for i := 0; i < 2; i++ {
		m := n
		if size == 1+i {
			m = 1
		}
		lists = append(lists, w.pattern(m, v.Choice("pattern", nPatterns)))
	}
	narrow(w, lists)
}
