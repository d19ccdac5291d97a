package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// agree asserts C02 for a clause and any starting number n.
func agree(c clause, n int, what string) {
	raw := c.RenderSQL()
	want, k := numbered(raw, n)
	got := c.Render(n)
	v.Observe(what, got)
	v.Reach("rendered")
	v.Assert(v.Eq(got, want), what+": both renderings agree and numbers start after n")
	v.Assert(len(c.Values()) == k, what+": as many placeholders as values")
}

// startNumber is any number of params a statement can have (PostgreSQL and most drivers stop at 65535).
func startNumber() int { return v.Int("n", 0, 99999) }

// bigStart goes far beyond.
func bigStart() int { return v.Int("n", 0, 1<<45) }

// H_C02_tree: any composition of conditions from any starting number.
func H_C02_tree() {
	w := newWorld(func(i int) int { return []int{1, 0, 2, 11, 3}[i%5] })
	x := w.tree(v.Choice("size", v.Bound("combinators", 2, 3)+1))
	agree(x.c, startNumber(), "condition")
}

// H_C02_treeAt: deeper compositions around the numbers where the count of digits changes.
func H_C02_treeAt() {
	w := newWorld(func(i int) int { return []int{1, 4, 9, 2, 5, 10}[i%6] })
	x := w.tree(v.Bound("combinators (fixed starts)", 3, 4))
	agree(x.c, []int{0, 8, 97}[v.Choice("start", 3)], "condition")
}

// H_C02_kinds: every kind of condition, negated or not, every operand kind.
func H_C02_kinds() {
	l := mk(v.Choice("kind", nKinds), "a")
	c := l.c
	if v.Choice("not", 2) == 1 {
		c = query.Not(c)
	}
	switch v.Choice("spec", 3) {
	case 1:
		c = c.ApplyFieldTable("tt")
	case 2:
		c = c.ApplyFieldSpec(query.Field("tt.a as z"))
	}
	agree(c, bigStart(), "condition")
}

// H_C02_values: operands of every kind in every comparison and IN.
func H_C02_values() {
	x, _ := scalar(v.Choice("value", nScalars), "x")
	var c query.Condition
	switch v.Choice("operator", 6) {
	case 0:
		c = query.EqualTo("a", x)
	case 1:
		c = query.GreaterThan("a", x)
	case 2:
		c = query.GreaterOrEqual("a", x)
	case 3:
		c = query.Less("a", x)
	case 4:
		c = query.LessOrEqual("a", x)
	default:
		c = query.In("a", x)
	}
	if v.Choice("not", 2) == 1 {
		c = query.Not(c)
	}
	n := startNumber()
	agree(c, n, "condition")
	agree(query.NewGroup(query.LogicalOR, query.EqualTo("b", 1), c, query.Less("d", 2)), n, "group")
}

// H_C02_in: IN lists of every length.
func H_C02_in() {
	n := v.Choice("length", v.Bound("IN list length", 13, 40))
	xs := make([]string, n)
	for i := range xs {
		xs[i] = v.Str("x", 1, "")
	}
	c := query.In("a", xs).And(query.EqualTo("b", 1))
	if v.Choice("fixed", 2) == 1 {
		agree(c, 95, "condition")
		return
	}
	agree(c, startNumber(), "condition")
}

// H_C02_long: long clauses from every start.
func H_C02_long() {
	shift := v.Choice("kinds", nKinds)
	w := newWorld(func(i int) int { return (i + shift) % nKinds })
	c := query.NewWhere()
	n := v.Bound("conditions", 14, 40)
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			c = c.GroupOR(w.leaf().c)
		} else {
			c = c.GroupAND(w.leaf().c)
		}
	}
	if v.Choice("fixed", 2) == 1 {
		agree(c, 90, "clause")
		return
	}
	agree(c, startNumber(), "clause")
}

// H_C02_clause: WHERE clauses of every shape, also as nested groups.
func H_C02_clause() {
	w := newWorld(func(i int) int { return []int{1, 0, 11, 2}[i%4] })
	c := query.NewWhere()
	g := query.NewGroup(query.LogicalOR)
	for i := 0; i < v.Bound("steps", 2, 3); i++ {
		l := conds(w.list(v.Choice("shape", nShapes)))
		if v.Choice("op", 2) == 0 {
			c, g = c.GroupAND(l...), g.GroupAND(l...)
		} else {
			c, g = c.GroupOR(l...), g.GroupOR(l...)
		}
	}
	n := startNumber()
	agree(c, n, "clause")
	agree(g, n, "group")
	agree(query.NewGroup(query.LogicalAND, w.leaf().c, g.WithBrackets(), w.leaf().c), n, "outer group")
}

// H_C02_limiter: paging with any numbers.
func H_C02_limiter() {
	l := query.Limiter{}
	if v.Choice("limit first", 2) == 1 {
		l = l.Limit(v.AnyUint("limit")).Offset(v.AnyUint("offset"))
	} else {
		l = l.Offset(v.AnyUint("offset")).Limit(v.AnyUint("limit"))
	}
	agree(l, bigStart(), "limiter")
}

// H_C02_select: SELECT builders of every kind agree with BuildQueryAndParams too.
func H_C02_select() {
	w := newWorld(func(i int) int { return []int{1, 0, 11, 2}[i%4] })
	b := query.SelectFrom("t x")
	if v.Choice("fields", 2) == 1 {
		b = b.Fields(query.Field("x.a as b"), query.Field("c"))
	}
	if v.Choice("join", 2) == 1 {
		b = b.LeftJoin(query.Table("u as y")).On(query.Field("x.i"), query.Field("y.i"))
	}
	switch v.Choice("wheres", 3) {
	case 1:
		b = b.Where(conds(w.list(v.Choice("shape", nShapes)))...)
	case 2:
		b = b.Where(conds(w.list(v.Choice("shape", 4)))...).Where(conds(w.list(5))...)
	}
	n := startNumber()
	var c clause
	var s stmt
	switch v.Choice("kind", 3) {
	case kBase:
		c, s = b, b
	case kSingle:
		c, s = b.Single(), b.Single()
	default:
		m := b.Offset(v.AnyUint("offset")).Limit(v.AnyInt("limit"))
		if v.Choice("order", 2) == 1 {
			m = m.OrderBy(query.DESC("o")).OrderBy(query.ASC("p"))
		}
		c, s = m, m
	}
	agree(c, n, "select")
	sql, params := build(s)
	v.Assert(v.Eq(sql, c.Render(0)), "built text is the rendering from zero")
	v.Assert(sameList(params, c.Values()), "built params are Values")
}

// H_C02_large: clauses with many placeholders from every start.
func H_C02_large() {
	n := large("parts", 130)
	shift := v.Choice("kinds", 3)
	var c clause
	kind := func(i int) int { return []int{0, 1, 3, 11}[(i+shift)%4] }
	switch v.Choice("clause", 5) {
	case 0:
		xs := make([]string, n)
		for i := range xs {
			xs[i] = v.Str("x", shift, "")
		}
		c = query.Not(query.In("a", xs)).And(mk(kind(0), "b").c)
	case 1:
		var cs []query.Condition
		for i := 0; i < n; i++ {
			cs = append(cs, mk(kind(i), "c").c)
		}
		c = query.NewGroup([]query.JoinType{query.LogicalAND, query.LogicalOR}[shift%2], cs...)
	case 2:
		x := query.NewWhere()
		for i := 0; i < n; i++ {
			x = x.GroupAND(mk(kind(i), "c").c)
		}
		c = x
	case 3:
		x := mk(kind(0), "c").c
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				x = query.Not(x)
			}
			if i%2 == 0 {
				x = x.Or(mk(kind(i), "c").c)
			} else {
				x = x.And(mk(kind(i), "c").c)
			}
		}
		c = x
	default:
		b := query.SelectManyFrom("t").Offset(3).Limit(4)
		for i := 0; i < n; i++ {
			b = b.Where(mk(kind(i), "c").c)
		}
		c = b
	}
	agree(c, []int{0, 1, 7, 90, 32700, 65530, 999990}[v.Choice("start", 7)], "clause")
}
