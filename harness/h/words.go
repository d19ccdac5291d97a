package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// Names and texts of ordinary length whose every character is symbolic: no name and no text has a meaning of its own.

// word is such a name.
func word(label string) string {
	n := 3 + v.Choice(label+" length", v.Bound("word length", 8, 14))
	return v.Str(label, n, "word")
}

// words draws k names the one chosen of which is a word, the others are fixed.
func words(k int) []string {
	res := []string{"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"}[:k]
	res[v.Choice("which", k)] = word("word")
	return res
}

// H_C10_words: every name of a SELECT.
func H_C10_words() {
	w := words(8)
	table, alias, f, of, as, c, o, j := w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]
	kind := v.Choice("kind", 3)
	id := query.Table(table).As(query.TableName(alias))
	m := &model{kind: kind, from: table + " AS " + alias}
	v.Assume(v.And(v.Not(v.Eq(table, alias)), v.Not(v.Eq(f, as))))
	switch kind {
	case kBase:
		m.s = query.SelectFrom(id)
	case kMany:
		m.s = query.SelectManyFrom(id).OrderBy(query.DESC(query.FieldName(o)), query.ASC(query.FieldName(f)))
		m.order = []string{o + " DESC", f + " ASC"}
	default:
		m.s = query.SelectSingleFrom(id)
	}
	m.setFields(query.Field(f).Of(query.TableName(of)).As(query.FieldName(as)), query.Field(query.FieldName(o)))
	m.fields = []string{of + "." + f + " AS " + as, o}
	x := v.AnyInt("x")
	m.where(query.EqualTo(query.FieldName(c), x))
	m.conds, m.vals = []string{c + "=?"}, []any{x}
	if v.Choice("join", 2) == 1 {
		m.join(2, 0, query.Table(j), query.TableName(j), j, query.Field(alias+"."+f), query.Field(j+"."+o), alias+"."+f+"="+j+"."+o)
	}
	m.judge()
}

// H_C11_words: every name of INSERT, UPDATE and DELETE.
func H_C11_words() {
	w := words(4)
	table, name, other, of := w[0], w[1], w[2], w[3]
	x, y := v.AnyInt("x"), v.AnyInt("y")
	m := &model{}
	f := query.Field(of + "." + name).Value(x)
	switch v.Choice("statement", 3) {
	case 0:
		m.compare(query.InsertInto(table).Values(f, query.Field(other).Value(y)), "INSERT INTO "+table+"("+name+", "+other+") VALUES ($1, $2)", []any{x, y}, "INSERT")
	case 1:
		m.compare(query.Update(table).Set(f, query.FieldName("b").Value(y)).Where(query.Less(query.FieldName(other), 5)), "UPDATE "+table+" SET "+name+"=$1, b=$2 WHERE "+other+"<$3", []any{x, y, 5}, "UPDATE")
	default:
		m.compare(query.Delete(table).Where(query.Less(query.FieldName(of+"."+other), 5), query.EqualTo(query.FieldName(name), x)), "DELETE FROM "+table+" WHERE "+of+"."+other+"<$1 AND "+name+"=$2", []any{5, x}, "DELETE")
	}
}

// H_C12_words: every name of a join.
func H_C12_words() {
	w := words(6)
	a, f, b, g, r, al := w[0], w[1], w[2], w[3], w[4], w[5]
	v.Assume(v.Not(v.Eq(r, al)))
	on := a + "." + f + "=" + b + "." + g
	m := begin(v.Choice("kind", 3), 1)
	m.join(v.Choice("method", 5), 2, query.Table(r).As(query.TableName(al)), query.TableName(r+" "+al), r+" AS "+al, query.Field(a+"."+f), query.Field(b+"."+g), on)
	m.judge()
}

// H_C13_words: every part of a field reference.
func H_C13_words() {
	w := words(3)
	table, name, alias := w[0], w[1], w[2]
	s := name
	switch v.Choice("form", 4) {
	case 0:
		table, alias = "", ""
	case 1:
		s, alias = table+"."+name, ""
	case 2:
		s, table = name+" As "+alias, ""
	default:
		s = table + "." + name + " AS " + alias
	}
	f, err := fieldForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		v.Assert(isField(f, table, name, alias), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// H_C13_middle: a word in place of AS is refused.
func H_C13_middle() {
	w := word("word")
	for _, s := range []string{"a " + w + " b", "t.a " + w + " b", "a as b " + w, w + " a as b", "a " + w} {
		_, err := query.FieldOrError(s)
		v.Assert(err != nil, "anything else is refused")
	}
	v.Reach("refused")
}

// H_C14_words: every part of a table reference.
func H_C14_words() {
	w := words(2)
	name, alias := w[0], w[1]
	s := name
	switch v.Choice("form", 4) {
	case 0:
		alias = ""
	case 1:
		s += " " + alias
	case 2:
		s += "\tas " + alias
	default:
		_, err := query.TableOrError("a " + name + " b")
		v.Assert(err != nil || name == "n1", "anything else is refused")
		v.Reach("accepted")
		return
	}
	t, err := tableForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		judgeTable(t, name, alias)
		v.Reach("accepted")
	}
}

// H_C15_words: names and directions.
func H_C15_words() {
	w := words(2)
	if v.Choice("qualified", 2) == 1 {
		judgeName(w[0]+"."+w[1], true)
	} else {
		judgeName(w[0], true)
	}
	d := word("direction")
	known := v.Or(v.Eq(d, "ASC"), v.Eq(d, "DESC"))
	panicked, _ := catch(func() { query.OrderBy("a", query.SortDirection(d)) })
	v.Assert(v.Iff(known, v.Not(panicked)), "OrderBy panics exactly for unknown directions")
}

// H_C16_words: every part of a definition in every form.
func H_C16_words() {
	w := words(3)
	table, name, alias := w[0], w[1], w[2]
	switch v.Choice("parts", 4) {
	case 0:
		table = ""
	case 1:
		alias = ""
	case 2:
		table, alias = "", ""
	}
	f := query.Field(name).Of(query.TableName(table)).As(query.FieldName(alias))
	judgeField(f, table, name, alias)
	v.Assert(v.Eq(query.NewFields(f, f, "x").FieldList(), specText(table, name, alias)+", "+specText(table, name, alias)+", x"), "in a field list")
	v.Assert(v.Eq(query.IsNull(query.FieldName(name)).ApplyFieldSpec(f).RenderSQL(), refText(table, name, alias)+" IS NULL"), "in a condition")
	v.Assert(v.Eq(query.DESC(query.FieldName(name)).ApplyFieldSpec(f).Render(), refText(table, name, alias)+" DESC"), "in an ordering")
	v.Assert(v.Eq(query.JoinFields(f, f).Render(), table+"."+name+"="+table+"."+name), "in ON")
	v.Reach("judged")
}

// H_C17_words: texts of ordinary length anywhere.
func H_C17_words() {
	x := v.Str("text", 1+v.Choice("length", v.Bound("text length everywhere", 12, 24)), "")
	if v.Choice("like", 2) == 1 {
		for _, c := range []query.Condition{query.Contains("f", x), query.IContains("f", x)} {
			v.Assert(sameList(c.Values(), []any{"%" + x + "%"}), "the text is bound between percent signs")
		}
		for _, c := range []query.Condition{query.In("f", x), query.In("f", []string{x, "y"})} {
			v.Assert(v.Same(c.Values()[0], any(x)), "the text is bound unchanged")
		}
		v.Reach("bound")
		return
	}
	var given any = x
	switch v.Choice("as", 3) {
	case 1:
		given = named(x)
	case 2:
		given = []byte(x)
	}
	s, before, after := context(v.Choice("context", nContexts), given)
	_, params := build(s)
	v.Assert(sameList(params, join3(before, []any{given}, after)), "the text is bound unchanged")
	v.Reach("bound")
}

// H_C18_words: the named field, and others, by names that may differ in any character.
func H_C18_words() {
	n := 3 + v.Choice("length", v.Bound("word length", 8, 14))
	own, name := v.Str("own", n, "word"), v.Str("name", n, "word")
	if v.Choice("shorter", 2) == 1 {
		name = name[:n-1]
	}
	f := query.Field(name).Of("t").As("al")
	c := mkAs([]int{0, 1, 2, 3, 5, 6, 7, 8, 9, 10}[v.Choice("kind", 10)], own, "c").c
	d := query.NewGroup(query.LogicalAND, c, query.IsNull("k")).ApplyFieldSpec(f)
	e := c.ApplyFieldSpec(f)
	v.Assert(v.Iff(own == name, v.Not(v.Eq(e.RenderSQL(), c.RenderSQL()))), "exactly the named field changes")
	v.Assert(v.Eq(d.RenderSQL(), e.RenderSQL()+" AND k IS NULL"), "in a group too")
	a := query.FieldName(own).Value(1).ApplyFieldSpec(f)
	o := query.ASC(query.FieldName(own)).ApplyFieldSpec(f)
	if own == name {
		v.Assert(isField(a.FieldDefinition, "t", name, "al") && isField(o.FieldDefinition, "t", name, "al"), "the named field changes")
		v.Reach("replaced")
	} else {
		v.Assert(isField(a.FieldDefinition, "", own, "") && isField(o.FieldDefinition, "", own, ""), "other fields stay")
		v.Reach("kept")
	}
}

// H_C19_words: names that may differ in any character.
func H_C19_words() {
	n := 3 + v.Choice("length", v.Bound("word length", 8, 14))
	in := []query.FieldName{query.FieldName(v.Str("a", n, "")), "x", query.FieldName(v.Str("b", n, "")), "x"}
	switch v.Choice("third", 3) {
	case 1:
		in = append(in, in[0][:n-1])
	case 2:
		in = append(in, in[2]+"z", in[0])
	}
	judgeUniq(in)
}

// H_C20_words: keys of ordinary length.
func H_C20_words() {
	w := words(2)
	k := w[0]
	if v.Choice("qualified", 2) == 1 {
		k = w[1] + "." + k
	}
	x := v.AnyInt("x")
	m := query.ValuesMap{k: x, "b": 2}
	v.Assume(k != "b")
	judgeMap(m, []string{k, "b"}, []any{x, 2}, true)
}

// H_C23_words: texts of user conditions of ordinary length.
func H_C23_words() {
	text := v.Str("text", 5+v.Choice("length", v.Bound("word length", 8, 20)), "")
	v.Assume(v.And(v.Not(blank(text[0])), v.Not(blank(text[len(text)-1]))))
	x := v.AnyInt("x")
	t := textCond{userCond{name: "u", join: query.LogicalAND, vals: []any{x}}, text}
	a, z := query.EqualTo("a", 1), query.Less("z", 2)
	v.Reach("judged")
	is := func(s stmt, want string) {
		sql, _ := build(s)
		v.Assert(v.Eq(sql, want), "the text is kept")
	}
	switch v.Choice("place", 7) {
	case 0:
		is(query.SelectFrom("t").Where(a, t), "SELECT * FROM t WHERE a=$1 AND "+text)
	case 1:
		is(query.SelectSingleFrom("t").Where(a, t), "SELECT * FROM t WHERE a=$1 AND "+text+" LIMIT 1")
	case 2:
		is(query.SelectManyFrom("t").Where(t).OrderBy(query.ASC("o")).Offset(3), "SELECT * FROM t WHERE "+text+" ORDER BY o ASC OFFSET $2")
	case 3:
		is(query.Delete("t").Where(t), "DELETE FROM t WHERE "+text)
	case 4:
		is(query.Update("t").Set(query.FieldName("s").Value(1)).Where(t, z), "UPDATE t SET s=$1 WHERE "+text+" AND z<$3")
	case 5:
		is(query.SelectFrom("t").Where(query.Not(query.NewGroup(query.LogicalOR, t, z))), "SELECT * FROM t WHERE NOT ("+text+" OR z<$2)")
	default:
		is(query.SelectManyFrom("t").Where(t).Limit(4), "SELECT * FROM t WHERE "+text+" LIMIT $2")
	}
}

// H_C25_words: names and texts of ordinary length.
func H_C25_words() {
	w := words(2)
	table, name := w[0], w[1]
	if v.Choice("plain", 2) == 1 {
		table = ""
	}
	field := fieldText(table, name)
	kind := v.Choice("comparison", nComparisons)
	s := v.Str("s", 1+v.Choice("text length", v.Bound("text length", 6, 12)), "")
	c, op, infix, vals := comparison(kind, query.FieldName(field), v.AnyInt("x"), s, []string{s, "b"})
	neg := v.Choice("negated", 2) == 1
	judgeComparison(c.Negate(neg), field, op, infix, neg, query.LogicalAND, vals, 9)
	v.Reach("judged")
}

// H_C08_words: no name makes a complete statement refused or an incomplete one accepted.
func H_C08_words() {
	w := words(3)
	c := query.EqualTo(query.FieldName(w[2]), word("value"))
	f := query.FieldName(w[1]).Value(1)
	table := query.TableName(w[0])
	refused(query.Update(table).Set(f), false, "UPDATE")
	refused(query.Update(table).Where(c), false, "UPDATE")
	refused(query.Delete(table), false, "DELETE")
	refused(query.InsertInto(table), false, "INSERT")
	for _, s := range []stmt{query.Update(table).Set(f).Where(c), query.Delete(table).Where(c), query.InsertInto(table).Values(f), query.Delete(table).Where(query.IsNull(query.FieldName(w[2])))} {
		_, _, err := s.BuildQueryAndParams()
		v.Assert(err == nil, "a complete statement is built")
	}
	v.Reach("judged")
}

// H_C09_words: the table of a conversion.
func H_C09_words() {
	w := words(3)
	table, alias, c := w[0], w[1], w[2]
	v.Assume(v.Not(v.Eq(table, alias)))
	x := v.AnyInt("x")
	id, cond := query.Table(table).As(query.TableName(alias)), query.EqualTo(query.FieldName(c), x)
	var del query.DeleteBuilder
	var upd query.UpdateBuilder
	var cnt query.CountBuilder
	f := query.FieldName("s").Value(1)
	switch v.Choice("source", 3) {
	case 0:
		s := query.SelectFrom(id).Where(cond)
		del, upd, cnt = s.Delete(), s.Update(f), s.Count()
	case 1:
		s := query.SelectManyFrom(id).Where(cond)
		del, upd, cnt = s.Delete(), s.Update(f), s.Count()
	default:
		s := query.SelectSingleFrom(id).Where(cond)
		del, upd, cnt = s.Delete(), s.Update(f), query.Count(s.BaseSelectBuilder)
	}
	m := &model{}
	m.compare(del, "DELETE FROM "+table+" WHERE "+c+"=$1", []any{x}, "DELETE")
	m.compare(upd, "UPDATE "+table+" SET s=$1 WHERE "+c+"=$2", []any{1, x}, "UPDATE")
	m.compare(cnt, "SELECT COUNT(*) FROM "+table+" AS "+alias+" WHERE "+c+"=$1", []any{x}, "COUNT")
}

// H_C02_words: names of clauses rendered both ways.
func H_C02_words() {
	w := words(2)
	a, b := query.FieldName(w[0]), query.FieldName(w[1])
	kind := v.Choice("kind", 8)
	c := query.NewGroup(query.LogicalOR, mkAs([]int{0, 1, 2, 3, 5, 6, 7, 8}[kind], w[0], "c").c, query.Not(query.In(b, []string{"p", "q"})), query.Less(a, 4))
	agree(c, []int{0, 9}[v.Choice("start", 2)], "a group")
	agree(query.SelectManyFrom(query.TableName(w[1])).Fields(query.Field(a).As(b)).Where(c).OrderBy(query.ASC(b)).Offset(1).Limit(2), 0, "SELECT")
}

// H_C09_odd: tables of any printable characters keep their name in every conversion.
func H_C09_odd() {
	w := newWorld(rotate)
	alias := []string{"", "al"}[v.Choice("alias", 2)]
	src := sourceOf(v.Choice("kind", 3), v.Choice("joins", 2), v.Choice("fields", 2), printable("table", 3), alias)
	x := w.leaf()
	src.where(x.c)
	if v.Choice("turned", 2) == 1 {
		src.turn(v.Choice("turn", nTurns))
	}
	w.converted(src, x.d, true, v.Choice("target", 7))
}

// H_C11_roads: names of any printable characters, with every way to start INSERT, UPDATE and DELETE.
func H_C11_roads() {
	w := []string{"n1", "n2", "n3"}
	switch i := v.Choice("which", 3); i {
	case 0:
		w[0] = printable("name", 3)
	default:
		w[i] = part("name", 3)
	}
	table, name, other := w[0], w[1], w[2]
	x, y := v.AnyInt("x"), v.AnyInt("y")
	m := &model{}
	f := query.Field("t." + name).Value(x)
	s := stmt(nil)
	start := v.Choice("start", 4)
	switch v.Choice("statement", 3) {
	case 0:
		switch start {
		case 0:
			s = query.InsertInto(table).Values(f, query.Field(other).Value(y))
		case 1:
			s = query.TableName(table).InsertInto(f, query.Field(other).Value(y))
		case 2:
			s = query.Table(table).As("al").InsertInto(f).Values(query.FieldName(other).Value(y))
		default:
			s = query.SelectFrom(table).Single().InsertInto(f, query.FieldName("o."+other).Value(y))
		}
		m.compare(s, "INSERT INTO "+table+"("+name+", "+other+") VALUES ($1, $2)", []any{x, y}, "INSERT")
	case 1:
		c := query.Less(query.FieldName(other), 5)
		switch start {
		case 0:
			s = query.Update(table).Set(f, query.FieldName("b").Value(y)).Where(c)
		case 1:
			s = query.TableName(table).Update(f).Where(c).Set(query.FieldName("b").Value(y))
		case 2:
			s = query.Table(table).As("al").Update(f, query.FieldName("b").Value(y)).Where(c)
		default:
			s = query.SelectManyFrom(table).Where(c).OrderBy(query.ASC("o")).Update(f, query.FieldName("b").Value(y))
		}
		m.compare(s, "UPDATE "+table+" SET "+name+"=$1, b=$2 WHERE "+other+"<$3", []any{x, y, 5}, "UPDATE")
	default:
		c := query.EqualTo(query.FieldName(name), x)
		switch start {
		case 0:
			s = query.Delete(table).Where(c)
		case 1:
			s = query.TableName(table).Delete(c)
		case 2:
			s = query.Table(table).As("al").Delete(c)
		default:
			s = query.SelectManyFrom(table).Where(c).OrderBy(query.ASC("o")).Delete()
		}
		m.compare(s, "DELETE FROM "+table+" WHERE "+name+"=$1", []any{x}, "DELETE")
	}
}
