package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

const nComparisons = 9

// comparison is a condition with its operator.
func comparison(kind int, f query.FieldName, x int, s string, xs []string) (c query.Condition, op string, infix bool, vals []any) {
	var list []any
	for _, y := range xs {
		list = append(list, y)
	}
	switch kind {
	case 0:
		return query.EqualTo(f, x), "=", false, []any{x}
	case 1:
		return query.GreaterThan(f, x), ">", false, []any{x}
	case 2:
		return query.GreaterOrEqual(f, x), ">=", false, []any{x}
	case 3:
		return query.Less(f, x), "<", false, []any{x}
	case 4:
		return query.LessOrEqual(f, x), "<=", false, []any{x}
	case 5:
		return query.Contains(f, s), "LIKE", true, []any{"%" + s + "%"}
	case 6:
		return query.IContains(f, s), "ILIKE", true, []any{"%" + s + "%"}
	case 7:
		return query.In(f, xs), "IN", true, list
	}
	return query.IsNull(f), "NULL", true, nil
}

// textOf is the documented text of a comparison.
func textOf(field, op string, infix, neg bool, marks []string) string {
	not, res := "", ""
	if neg {
		not = "NOT "
	}
	switch {
	case op == "NULL":
		return field + " IS " + not + "NULL"
	case op == "IN":
		for i, m := range marks {
			if i > 0 {
				res += ","
			}
			res += m
		}
		return field + " " + not + "IN (" + res + ")"
	case infix:
		return field + " " + not + op + " " + marks[0]
	}
	return not + field + op + marks[0]
}

func question(k int) (res []string) {
	for i := 0; i < k; i++ {
		res = append(res, "?")
	}
	return res
}

func dollars(n, k int) (res []string) {
	for i := 0; i < k; i++ {
		res = append(res, "$"+itoa(n+i+1))
	}
	return res
}

func judgeComparison(c query.Condition, field, op string, infix, neg bool, j query.JoinType, vals []any, n int) {
	v.Assert(v.Eq(c.RenderSQL(), textOf(field, op, infix, neg, question(len(vals)))), "the plain text")
	v.Assert(v.Eq(c.Render(n), textOf(field, op, infix, neg, dollars(n, len(vals)))), "the numbered text")
	v.Assert(sameList(c.Values(), vals), "the values")
	v.Assert(c.IsNegate() == neg, "the negation flag")
	v.Assert(v.Eq(string(c.JoinType()), string(j)), "the join type")
	v.Assert(v.Eq(c.RenderJoin(false), string(j)) && c.RenderJoin(true) == "", "the join is rendered unless first")
	not := ""
	if neg {
		not = "NOT"
	}
	v.Assert(c.RenderNegate() == not, "the negation is rendered")
	v.Observe("sql", c.RenderSQL())
}

// H_C25_text: every comparison over every field reference, with any flags set in any order.
func H_C25_text() {
	table, name := v.Str("table", v.Choice("table length", 2), "ident"), name2("name")
	field := fieldText(table, name)
	x, s := v.AnyInt("x"), v.Str("s", 2, "")
	kind := v.Choice("comparison", nComparisons)
	var xs []string
	if kind == 7 {
		xs = make([]string, v.Choice("list length", 1+v.Bound("list length", 4, 11)))
		for i := range xs {
			xs[i] = v.Str("e", 1, "")
		}
	}
	c, op, infix, vals := comparison(kind, query.FieldName(field), x, s, xs)
	n := v.Int("params before", 0, 999)
	judgeComparison(c, field, op, infix, false, query.LogicalAND, vals, n)
	v.Assert(v.Eq(string(c.FieldName()), name), "the field is told")
	neg, j := false, query.LogicalAND
	steps := v.Bound("flag changes", 2, 3)
	for i := 0; i < steps; i++ {
		switch v.Choice("change", 9) {
		case 0:
			c, neg = query.Not(c), true
		case 1:
			c, neg = c.Negate(true), true
		case 2:
			c, neg = c.Negate(false), false
		case 3:
			c, j = c.Join(query.LogicalOR), query.LogicalOR
		case 4:
			c, j = c.Join(query.LogicalAND), query.LogicalAND
		case 5:
			c, j = query.Or(c), query.LogicalOR
		case 6:
			c, j = query.And(c), query.LogicalAND
		case 7:
			c, j = query.LogicalOR.Join(c), query.LogicalOR
		default:
			c, j = query.LogicalAND.SetToAll(c)[0], query.LogicalAND
		}
	}
	judgeComparison(c, field, op, infix, neg, j, vals, n)
	v.Reach("judged")
}

// H_C25_not: Not negates whatever the flag was, for conditions and groups of any kind.
func H_C25_not() {
	kind := v.Choice("condition", nKinds+3)
	var c query.Condition
	switch {
	case kind < nKinds:
		c = mk(kind, "c").c
	case kind == nKinds:
		c = query.NewGroup(query.LogicalAND, mk(0, "c").c, mk(2, "d").c)
	case kind == nKinds+1:
		c = query.Or(mk(1, "c").c, mk(2, "d").c)
	default:
		g := query.NewGroup(query.LogicalOR, mk(3, "c").c)
		c = &g
	}
	flag := v.Bool("negated before")
	j := query.LogicalAND
	if v.Choice("or", 2) == 1 {
		j = query.LogicalOR
	}
	c = c.Negate(flag).Join(j)
	v.Assert(c.IsNegate() == flag && c.JoinType() == j, "the flags are set")
	d := query.Not(c)
	v.Assert(d.IsNegate() && d.JoinType() == j && d.RenderNegate() == "NOT", "Not negates whatever the flag was")
	v.Assert(c.IsNegate() == flag, "Not leaves the original")
	e := d.Negate(flag)
	v.Assert(e.IsNegate() == flag && v.Eq(e.Render(1), c.Render(1)) && v.Eq(e.RenderSQL(), c.RenderSQL()), "Negate sets the flag back")
	v.Assert(sameList(d.Values(), c.Values()), "Not keeps the values")
	k := d.Join(query.LogicalOR)
	v.Assert(k.IsNegate() && k.JoinType() == query.LogicalOR && v.Eq(k.Render(1), d.Render(1)), "Join changes only the join type")
	v.Reach("judged")
}

// H_C25_values: comparisons with values of every type keep one placeholder.
func H_C25_values() {
	x, _ := single(v.Choice("type", nSingles), "x")
	if v.Choice("list", 2) == 1 {
		x, _ = list(v.Choice("list type", nLists), v.Choice("list length", 3), "x")
	}
	neg := v.Choice("negated", 2) == 1
	i := v.Choice("comparison", 5)
	c := []func(query.FieldName, any) query.Condition{query.EqualTo, query.GreaterThan, query.GreaterOrEqual, query.Less, query.LessOrEqual}[i]("f", x).Negate(neg)
	op := []string{"=", ">", ">=", "<", "<="}[i]
	v.Assert(v.Eq(c.Render(8), textOf("f", op, false, neg, []string{"$9"})), "the numbered text")
	v.Assert(v.Eq(c.RenderSQL(), textOf("f", op, false, neg, []string{"?"})), "the plain text")
	v.Assert(len(c.Values()) == 1, "one value")
	v.Reach("judged")
}

// H_C25_large: long IN lists and long names.
func H_C25_large() {
	n := large("size", 300)
	field := lengthy("name", n, "ident")
	if v.Choice("qualified", 2) == 1 {
		field = lengthy("table", n, "ident") + "." + field
	}
	kind := v.Choice("comparison", nComparisons)
	var xs []string
	if kind == 7 {
		xs = make([]string, n)
		for i := range xs {
			xs[i] = v.Str("e", 1, "")
		}
	}
	c, op, infix, vals := comparison(kind, query.FieldName(field), v.AnyInt("x"), lengthy("s", n, ""), xs)
	neg := v.Choice("negated", 2) == 1
	judgeComparison(c.Negate(neg).Join(query.LogicalOR), field, op, infix, neg, query.LogicalOR, vals, []int{0, 8, 99, 65000}[v.Choice("start", 4)])
	v.Reach("judged")
}

// H_C25_spec: conditions whose field was given a definition, in any way.
func H_C25_spec() {
	name, table, alias := name2("name"), "", ""
	if v.Choice("qualified", 2) == 1 {
		table = name2("table")
	}
	if v.Choice("aliased", 2) == 1 {
		alias = name2("alias")
		v.Assume(v.Not(v.Eq(alias, name)))
	}
	field := refText(table, name, alias)
	kind := v.Choice("comparison", nComparisons)
	var xs []string
	if kind == 7 {
		xs = make([]string, v.Choice("list length", 1+v.Bound("list length", 4, 11)))
		for i := range xs {
			xs[i] = v.Str("e", 1, "")
		}
	}
	f := query.Field(name).Of(query.TableName(table)).As(query.FieldName(alias))
	given := name
	how := v.Choice("given as", 3)
	if how == 1 {
		given = specText(table, name, alias)
	}
	c, op, infix, vals := comparison(kind, query.FieldName(given), v.AnyInt("x"), v.Str("s", 1, ""), xs)
	neg := v.Choice("negated", 2) == 1
	switch how {
	case 0:
		c = c.ApplyFieldSpec(f).Negate(neg)
	case 2:
		c = c.Negate(neg).Join(query.LogicalAND).ApplyFieldSpec(f)
	default:
		c = c.Negate(neg)
	}
	judgeComparison(c, field, op, infix, neg, query.LogicalAND, vals, []int{0, 9}[v.Choice("start", 2)])
	v.Reach("judged")
}

// H_C25_odd: names of any printable characters.
func H_C25_odd() {
	table, name := "", part("name", 2)
	if v.Choice("qualified", 2) == 1 {
		table = part("table", 1)
	}
	field := fieldText(table, name)
	kind := v.Choice("comparison", nComparisons)
	c, op, infix, vals := comparison(kind, query.FieldName(field), v.AnyInt("x"), v.Str("s", 1, ""), []string{"a", "b"})
	neg := v.Choice("negated", 2) == 1
	judgeComparison(c.Negate(neg), field, op, infix, neg, query.LogicalAND, vals, 9)
	v.Reach("judged")
}
