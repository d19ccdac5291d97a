package h

import (
	"database/sql/driver"

	"github.com/amarin/query"
	"verifharness/v"
)

// bind is a placeholder and the column, OFFSET or LIMIT it stands for.
type bind struct {
	name string
	num  int
}

// bindsOf finds the placeholders of concrete SQL in order of appearance.
func bindsOf(sql string) (res []bind) {
	toks := lex(sql)
	if len(toks) > 0 && toks[0].text == "INSERT" { // the i-th placeholder belongs to the i-th column
		var cols []string
		depth, list := 0, 0
		for _, t := range toks {
			switch {
			case t.kind == '(':
				depth++
				list++
			case t.kind == ')':
				depth--
			case t.kind == 'w' && depth == 1 && list == 1:
				cols = append(cols, t.text)
			case t.kind == '$':
				name := "?"
				if len(res) < len(cols) {
					name = cols[len(res)]
				}
				res = append(res, bind{name, t.num})
			}
		}
		return res
	}
	last := ""
	for _, t := range toks {
		switch {
		case t.kind == 'w' && (!keyword(t.text) || t.text == "OFFSET" || t.text == "LIMIT"):
			last = t.text
		case t.kind == '$':
			res = append(res, bind{last, t.num})
		}
	}
	return res
}

// supplied remembers which values were given for which name, in order.
type supplied struct {
	names []string
	vals  [][]any
}

func (s *supplied) at(name string) int {
	for i, x := range s.names {
		if x == name {
			return i
		}
	}
	s.names, s.vals = append(s.names, name), append(s.vals, nil)
	return len(s.names) - 1
}

func (s *supplied) add(name string, vals ...any) {
	i := s.at(name)
	s.vals[i] = append(s.vals[i], vals...)
}

// judge asserts C01 for a built statement.
func (s *supplied) judge(sql string, params []any) {
	v.Observe("sql", sql)
	binds := bindsOf(sql)
	v.Assert(len(binds) == len(params), "as many placeholders as params")
	total := 0
	for _, vals := range s.vals {
		total += len(vals)
	}
	v.Assert(total == len(params), "as many params as supplied values")
	used := make([]int, len(s.names))
	for i, b := range binds {
		v.Assert(b.num == i+1, "placeholders are numbered in order of appearance")
		at := s.at(b.name)
		if at >= len(used) || used[at] >= len(s.vals[at]) || i >= len(params) {
			v.Assert(false, "placeholder stands for a supplied value")
			return
		}
		used[at]++
		v.Assert(v.Same(params[i], s.vals[at][used[at]-1]), "param is the value supplied for its placeholder")
	}
	for i, p := range params {
		v.Observe("param"+itoa(i), p)
	}
	v.Reach("judged")
}

// Valuer and ValueProvider stand-ins.
type valuer struct{ x string }

func (x valuer) Value() (driver.Value, error) { return "db:" + x.x, nil }

type provider struct{ x int }

func (x provider) DatabaseValue() any { return x.x + 1 }

// scalar draws a value of some kind and the param it has to become outside of IN.
func scalar(kind int, label string) (given, bound any) {
	switch kind {
	case 0:
		x := v.AnyInt(label)
		return x, x
	case 1:
		x := v.Str(label, 2, "")
		return x, x
	case 2:
		x := v.Str(label, 2, "")
		return valuer{x}, "db:" + x
	case 3:
		x := v.AnyInt(label)
		return provider{x}, x + 1
	case 4:
		return nil, nil
	case 5:
		x := []string{v.Str(label, 1, ""), v.Str(label, 1, "")}
		return x, x
	case 6:
		x := v.Bool(label)
		return x, x
	case 7:
		x := []driver.Valuer{valuer{v.Str(label, 1, "")}, valuer{v.Str(label, 1, "")}}
		return x, x
	case 8:
		x := []query.ValueProvider{}
		return x, x
	case 9:
		x := []byte(v.Str(label, 2, ""))
		return x, x
	default:
		x := uint64(v.AnyUint(label))
		return x, x
	}
}

const nScalars = 11

// paging sets offset and limit to arbitrary numbers.
func paging(s stmt, sup *supplied) stmt {
	b, ok := s.(query.SelectManyBuilder)
	if !ok {
		return s
	}
	off, lim := v.AnyUint("offset"), v.AnyInt("limit")
	if v.Choice("order", 2) == 1 {
		b = b.OrderBy(query.ASC("o1"), query.DESC("o2"))
	}
	b = b.Offset(off).Limit(lim)
	if off > 0 {
		sup.add("OFFSET", off)
	}
	if lim > 0 {
		sup.add("LIMIT", uint(lim))
	}
	return b
}

// H_C01_kinds: any two conditions of any kind in any statement with a WHERE.
func H_C01_kinds() {
	a, b := v.Choice("first", nKinds), v.Choice("second", nKinds)
	w := newWorld(func(i int) int {
		if i == 0 {
			return a
		}
		return b
	})
	sup := &supplied{}
	x, y, z := w.leaf(), w.leaf(), w.leaf()
	var s stmt
	switch kind := v.Choice("kind", 6); kind {
	case kCount:
		s = query.SelectFrom("t").Where(x.c, y.c).Where(z.c).Count()
	case kUpdate:
		s = query.Update("t").Set(query.FieldName("u0").Value(7)).Where(x.c, y.c).Where(z.c).Set(query.FieldName("u1").Value(8))
		sup.add("u0", 7)
		sup.add("u1", 8)
	default:
		s = where(where(start(kind, "t"), x.c, y.c), z.c)
	}
	for _, l := range w.leaves {
		sup.add(l.name, l.vals...)
	}
	s = paging(s, sup)
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_tree: any composition of conditions.
func H_C01_tree() {
	w := newWorld(func(i int) int { return []int{1, 0, 11, 2, 3}[i%5] })
	x := w.tree(v.Bound("combinators", 3, 3))
	sup := &supplied{}
	s := query.Update("t").Set(query.FieldName("u0").Value(7)).Where(x.c)
	sup.add("u0", 7)
	for _, l := range w.leaves {
		sup.add(l.name, l.vals...)
	}
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_values: values of every kind as comparison operands, in UPDATE and in INSERT.
func H_C01_values() {
	sup := &supplied{}
	g0, b0 := scalar(v.Choice("first", nScalars), "x")
	g1, b1 := scalar(v.Choice("second", nScalars), "y")
	var s stmt
	fa, fb := query.FieldName("a"), query.FieldName("b")
	switch v.Choice("stmt", 7) {
	case 0:
		s = query.InsertInto("t").Values(fa.Value(g0), query.FieldName("c").Value(5)).Values(fb.Value(g1))
		sup.add("c", 5)
	case 1:
		s = query.Update("t").Set(fa.Value(g0), query.FieldName("c").Value(5)).Set(fb.Value(g1)).Where(query.EqualTo("d", 6))
		sup.add("c", 5)
		sup.add("d", 6)
	case 2:
		s = query.Update("t").Set(fa.Value(g0)).Where(query.Less("b", g1), query.EqualTo("d", 6))
		sup.add("d", 6)
	case 3:
		s = query.SelectFrom("t").Where(query.EqualTo("a", g0), query.GreaterThan("b", g1))
	case 4:
		s = query.Delete("t").Where(query.GreaterOrEqual("a", g0), query.Less("b", g1))
	case 5:
		s = query.SelectFrom("t").Where(query.LessOrEqual("a", g0).Or(query.EqualTo("b", g1))).Limit(9)
		sup.add("LIMIT", uint(9))
	default:
		s = query.InsertInto("t").Values(query.Field("q.a").Value(g0), *query.NewFieldValue("b", g1))
	}
	sup.add("a", b0)
	sup.add("b", b1)
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_many: statements with many params, so that numbers have several digits.
func H_C01_many() {
	sup := &supplied{}
	n := v.Bound("columns", 13, 110)
	m := v.Bound("conditions", 12, 30)
	var sets []query.FieldValue
	for i := 0; i < n; i++ {
		x := v.AnyInt("s" + itoa(i))
		name := "s" + itoa(i)
		sets = append(sets, query.FieldName(name).Value(x))
		sup.add(name, x)
	}
	kind := v.Choice("kind", 4)
	if kind == 0 {
		sql, params := build(query.InsertInto("t").Values(sets...))
		sup.judge(sql, params)
		return
	}
	shift := v.Choice("kinds", nKinds)
	w := newWorld(func(i int) int { return (i + shift) % nKinds })
	split := v.Choice("split", 3)
	var s stmt
	switch kind {
	case 1:
		s = query.Update("t").Set(sets...)
	case 2:
		s, sup = query.SelectManyFrom("t").Offset(3).Limit(4), &supplied{[]string{"OFFSET", "LIMIT"}, [][]any{{uint(3)}, {uint(4)}}}
	default:
		s, sup = query.Delete("t"), &supplied{}
	}
	var list []query.Condition
	for i := 0; i < m; i++ {
		l := w.leaf()
		switch {
		case split == 0:
			list = append(list, l.c)
		case split == 1:
			s = where(s, l.c)
		case i%2 == 0:
			list = append(list, l.c)
		default:
			list[len(list)-1] = list[len(list)-1].Or(l.c)
		}
	}
	s = where(s, list...)
	for _, l := range w.leaves {
		sup.add(l.name, l.vals...)
	}
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_in: IN lists of every length, between other conditions.
func H_C01_in() {
	n := v.Choice("length", v.Bound("IN list length", 14, 120))
	xs := make([]string, n)
	vals := make([]any, n)
	for i := range xs {
		xs[i] = v.Str("x"+itoa(i), 1, "")
		vals[i] = xs[i]
	}
	p, q := v.AnyInt("p"), v.AnyInt("q")
	sup := &supplied{}
	sup.add("a", p)
	sup.add("b", vals...)
	sup.add("c", q)
	in := query.In("b", xs)
	if v.Choice("not", 2) == 1 {
		in = query.Not(in)
	}
	var s stmt
	switch v.Choice("stmt", 3) {
	case 0:
		s = query.SelectFrom("t").Where(query.EqualTo("a", p), in, query.EqualTo("c", q))
	case 1:
		s = query.Update("t").Set(query.FieldName("a").Value(p)).Where(in.Or(query.EqualTo("c", q)))
	default:
		s = query.Delete("t").Where(query.EqualTo("a", p)).Where(in).Where(query.EqualTo("c", q))
	}
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_insertSelectUpdate: columns given twice, in several calls, through every entry point.
func H_C01_entry() {
	sup := &supplied{}
	n := v.Bound("values", 4, 5)
	var vals []query.FieldValue
	for i := 0; i < n; i++ {
		name := []string{"a", "b"}[v.Choice("name", 2)]
		x := v.AnyInt("x" + itoa(i))
		vals = append(vals, query.FieldName(name).Value(x))
		sup.add(name, x)
	}
	cut := v.Choice("cut", n+1)
	head, tail := vals[:cut:cut], vals[cut:]
	c := query.EqualTo("w", v.AnyInt("w"))
	var s stmt
	update := func(u query.UpdateBuilder) stmt {
		sup.add("w", c.Values()...)
		return u.Set(tail...)
	}
	switch v.Choice("entry", 10) {
	case 0:
		s = query.TableName("t").InsertInto(head...).Values(tail...)
	case 1:
		s = query.Table("t").InsertInto(head...).Values(tail...)
	case 2:
		s = query.SelectFrom("t").Where(c).InsertInto(head...).Values(tail...)
	case 3:
		s = query.InsertInto("t").Values(head...).Values().Values(tail...)
	case 4:
		s = update(query.TableName("t").Update(head...).Where(c))
	case 5:
		s = update(query.Table("t").Update(head...).Where(c))
	case 6:
		s = update(query.SelectFrom("t").Where(c).Update(head...))
	case 7:
		s = update(query.SelectManyFrom("t").Where(c).Limit(3).Update(head...))
	case 8:
		s = update(query.SelectSingleFrom("t").Where(c).Update(head...))
	default:
		s = update(query.Update("t").Set(head...).Where(c).Set())
	}
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_large: statements of many parts of one sort, with numbers and lists around usual thresholds.
func H_C01_large() {
	sup := &supplied{}
	n := large("parts", 130)
	shift := v.Choice("kinds", 4)
	value := func(name string) query.FieldValue {
		x := v.AnyInt("x")
		sup.add(name, x)
		return query.FieldName(name).Value(x)
	}
	condition := func(i int, name string) query.Condition {
		l := mk([]int{0, 2, 1, 11, 5, 9}[(i+shift)%6], name)
		sup.add(name, l.vals...)
		return l.c
	}
	var vals []query.FieldValue
	var cs []query.Condition
	var s stmt
	name := func(i int) string { return "c" + itoa(i%(n-2)) } // a few names are repeated
	switch v.Choice("statement", 6) {
	case 0:
		for i := 0; i < n; i++ {
			vals = append(vals, value(name(i)))
		}
		s = query.InsertInto("t").Values(vals...)
	case 1:
		b := query.InsertInto("t")
		for i := 0; i < n; i++ {
			b = b.Values(value(name(i)))
		}
		s = b
	case 2:
		for i := 0; i < n; i++ {
			vals = append(vals, value(name(i)))
		}
		s = query.Update("t").Set(vals...).Where(condition(0, "w"), condition(1, "w"), condition(2, "w"))
	case 3:
		for i := 0; i < n; i++ {
			cs = append(cs, condition(i, name(i)))
		}
		s = paging(query.SelectFrom("t").Where(cs...).Many(), sup)
	case 4:
		b := query.Update("t").Set(value("s"), value("s"))
		for i := 0; i < n; i++ {
			b = b.Where(condition(i, name(i)))
		}
		s = b
	default:
		var xs []string
		for i := 0; i < n; i++ {
			xs = append(xs, v.Str("x", 1, ""))
			sup.add("in", xs[i])
		}
		c := query.In("in", xs)
		if shift%2 == 1 {
			c = query.Not(c)
		}
		s = query.Delete("t").Where(condition(0, "a"), c, condition(2, "b"), condition(3, "b"))
	}
	sql, params := build(s)
	sup.judge(sql, params)
}

// H_C01_same: all conditions and values are over one column, with different or equal operands.
func H_C01_same() {
	sup := &supplied{}
	var cs []query.Condition
	x := v.AnyInt("x")
	same := v.Choice("operands", 2) == 1
	n := v.Bound("conditions over one column", 4, 5)
	for i := 0; i < n; i++ {
		y := x
		if !same {
			y = v.AnyInt("y")
		}
		c := []func(query.FieldName, any) query.Condition{query.EqualTo, query.Less}[v.Choice("operator", 2)]("c", y)
		switch v.Choice("form", 3) {
		case 1:
			c = query.Or(c)
		case 2:
			c = query.Not(c)
		}
		cs = append(cs, c)
		sup.add("c", y)
	}
	var s stmt
	switch v.Choice("statement", 4) {
	case 0:
		s = query.SelectFrom("t").Where(cs...)
	case 1:
		s = query.SelectFrom("t").Where(cs[:2]...).Where(cs[2:]...).Count()
	case 2:
		s = query.Delete("t").Where(cs[0]).Where(query.NewGroup(query.LogicalOR, cs[1:]...))
	default:
		sup.vals[0] = append([]any{x, x}, sup.vals[0]...)
		s = query.Update("t").Set(query.FieldName("c").Value(x), query.FieldName("c").Value(x)).Where(cs...)
	}
	sql, params := build(s)
	sup.judge(sql, params)
}
