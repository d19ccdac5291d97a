package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

var joinTypes = []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin}
var joinWords = []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"}

// short is a symbolic identifier of 2 characters, in the thorough tier of 1 or 2.
func short(label string) string {
	if v.Thorough() {
		return ident(label)
	}
	return name2(label)
}

// operand is a field for ON with its expected text.
func operand(label string) (query.FieldDefinition, string) {
	table, name := short(label+" table"), short(label+" field")
	f := query.TableName(table).Field(query.FieldName(name))
	switch v.Choice(label+" form", 4) {
	case 1:
		f = f.As(query.FieldName(short(label + " alias")))
	case 2:
		f = query.Field(table + "." + name)
	case 3:
		f = query.Field(query.FieldName(table + "." + name + " as long"))
	}
	return f, table + "." + name
}

// right is a table to join with its expected text.
func right() (id query.TableIdent, name query.TableName, text string) {
	table := ident("right")
	if v.Choice("right aliased", 2) == 0 {
		return query.Table(table), query.TableName(table), table
	}
	alias := ident("right alias")
	v.Assume(v.Not(v.Eq(alias, table)))
	return query.TableName(table).Ident().As(query.TableName(alias)), query.TableName(table + " " + alias), table + " AS " + alias
}

// plainRight is a fresh table to join.
func (m *model) plainRight() (id query.TableIdent, name query.TableName, text string) {
	table := m.next("r")
	if m.n%2 == 0 {
		return query.Table(table), query.TableName(table), table
	}
	return query.Table(table + " AS al"), query.TableName(table + " AS al"), table + " AS al"
}

func (m *model) plainOperands() (l, r query.FieldDefinition, on string) {
	a, b := m.next("a"), m.next("b")
	return query.Field("l." + a).As("x"), query.TableName("r").Field(query.FieldName(b)), "l." + a + "=r." + b
}

// join adds a join by method 0..4 (Join, InnerJoin, LeftJoin, RightJoin, FullJoin) of type kind for method 0.
func (m *model) join(method, kind int, id query.TableIdent, name query.TableName, text string, l, r query.FieldDefinition, on string) {
	if method > 0 {
		kind = method - 1
	}
	switch b := m.s.(type) {
	case query.BaseSelectBuilder:
		var j query.IncompleteSelectJoin
		switch method {
		case 0:
			j = b.Join(id, joinTypes[kind])
		case 1:
			j = b.InnerJoin(id)
		case 2:
			j = b.LeftJoin(id)
		case 3:
			j = b.RightJoin(id)
		default:
			j = b.FullJoin(id)
		}
		m.s = j.On(l, r)
	case query.SelectManyBuilder:
		var j query.IncompleteSelectManyJoiner
		switch method {
		case 0:
			j = b.Join(name, joinTypes[kind])
		case 1:
			j = b.InnerJoin(name)
		case 2:
			j = b.LeftJoin(name)
		case 3:
			j = b.RightJoin(name)
		default:
			j = b.FullJoin(name)
		}
		m.s = j.On(l, r)
	case query.SelectSingleBuilder:
		var j query.IncompleteSelectSingleJoiner
		switch method {
		case 0:
			j = b.Join(name, joinTypes[kind])
		case 1:
			j = b.InnerJoin(name)
		case 2:
			j = b.LeftJoin(name)
		case 3:
			j = b.RightJoin(name)
		default:
			j = b.FullJoin(name)
		}
		m.s = j.On(l, r)
	}
	m.from += " " + joinWords[kind] + " " + text + " ON " + on
}

// H_C12_one: one join with symbolic operands through every method of every builder.
func H_C12_one() {
	m := begin(v.Choice("kind", 3), 0)
	id, name, text := right()
	l, lt := operand("left")
	r, rt := operand("right")
	method := v.Choice("method", 5)
	kind := 0
	if method == 0 {
		kind = v.Choice("type", 4)
	}
	m.join(method, kind, id, name, text, l, r, lt+"="+rt)
	m.judge()
}

// H_C12_start: joins that start a statement, from names, idents and join types.
func H_C12_start() {
	m := &model{kind: kBase}
	table := ident("table")
	m.from = table
	left := query.TableName(table).Ident()
	id, _, text := right()
	l, r, on := m.plainOperands()
	kind := v.Choice("type", 4)
	var j query.IncompleteSelectJoin
	from := v.Choice("from", 5)
	if from >= 3 || from == 2 && v.Choice("aliased", 2) == 1 {
		left = left.As("al")
		m.from += " AS al"
		v.Assume(v.Not(v.Eq(table, "al")))
	}
	switch from {
	case 0: // table name
		j = query.TableName(table).Join(id, joinTypes[kind])
	case 1:
		switch kind {
		case 0:
			j = query.TableName(table).InnerJoin(id)
		case 1:
			j = query.TableName(table).LeftJoin(id)
		case 2:
			j = query.TableName(table).RightJoin(id)
		default:
			j = query.TableName(table).FullJoin(id)
		}
	case 2: // join type
		j = joinTypes[kind].Tables(left, id)
	case 3: // table ident
		j = left.Join(id, joinTypes[kind])
	default:
		switch kind {
		case 0:
			j = left.InnerJoin(id)
		case 1:
			j = left.LeftJoin(id)
		case 2:
			j = left.RightJoin(id)
		default:
			j = left.FullJoin(id)
		}
	}
	m.s = j.On(l, r)
	m.from += " " + joinWords[kind] + " " + text + " ON " + on
	m.judge()
}

// H_C12_many: sequences of joins among other calls and conversions; all are kept in order.
func H_C12_many() {
	m := begin(v.Choice("kind", 3), 2)
	n := v.Bound("calls", 4, 5)
	for i := 0; i < n; i++ {
		switch op := v.Choice("call", 8); op {
		case 0, 1, 2, 3, 4:
			id, name, text := m.plainRight()
			l, r, on := m.plainOperands()
			m.join(op, (m.n/4)%4, id, name, text, l, r, on)
		case 5:
			m.where(m.leaf())
		case 6:
			m.common(3)
		default:
			switch b := m.s.(type) {
			case query.BaseSelectBuilder:
				if m.n%2 == 0 {
					m.s, m.kind = b.Many(), kMany
				} else {
					m.s, m.kind = b.Single(), kSingle
				}
			case query.SelectManyBuilder:
				m.s, m.kind = b.Single(), kSingle
			case query.SelectSingleBuilder:
				m.s, m.kind = b.BaseSelectBuilder, kBase
			}
		}
	}
	m.judge()
}

// H_C12_branch: one builder and one pending join used for several statements.
func H_C12_branch() {
	m := begin(v.Choice("kind", 3), 0)
	for i, n := 0, v.Choice("joins before", 6); i < n; i++ {
		id, name, text := m.plainRight()
		l, r, on := m.plainOperands()
		m.join(1+i%4, 0, id, name, text, l, r, on)
	}
	one, two := *m, *m
	id, name, text := m.plainRight()
	l1, r1, on1 := m.plainOperands()
	l2, r2, on2 := m.plainOperands()
	if v.Choice("share the pending join", 2) == 0 {
		one.join(2, 0, id, name, text, l1, r1, on1)
		two.join(3, 0, id, name, text, l2, r2, on2)
	} else {
		switch b := m.s.(type) {
		case query.BaseSelectBuilder:
			j := b.LeftJoin(id)
			one.s, two.s = j.On(l1, r1), j.On(l2, r2)
		case query.SelectManyBuilder:
			j := b.LeftJoin(name)
			one.s, two.s = j.On(l1, r1), j.On(l2, r2)
		case query.SelectSingleBuilder:
			j := b.LeftJoin(name)
			one.s, two.s = j.On(l1, r1), j.On(l2, r2)
		}
		one.from += " LEFT JOIN " + text + " ON " + on1
		two.from += " LEFT JOIN " + text + " ON " + on2
	}
	m.judge()
	one.judge()
	two.judge()
}

// H_C12_joiner: the parts of a join on their own.
func H_C12_joiner() {
	id, _, text := right()
	l, lt := operand("left")
	r, rt := operand("right")
	kind := v.Choice("type", 4)
	on := query.JoinFields(l, r)
	v.Assert(v.Eq(on.Render(), lt+"="+rt), "JoinCondition renders its fields")
	own := rt[:len(rt)-len(string(r.FieldName()))-1]
	var j query.TableJoiner
	switch v.Choice("made by", 5) {
	case 0:
		j = query.NewTableJoiner(id, joinTypes[kind], on)
	case 1:
		j = query.NewTableJoiner(id, joinTypes[kind], query.JoinFields(query.Field("p.q"), query.Field("s.t"))).By(l, r)
	case 2:
		j, text = on.Using(joinTypes[kind]), own
	case 3:
		j, text = joinTypes[kind].By(l, r), own
	default:
		text = own
		switch kind {
		case 0:
			j = on.InnerJoin()
		case 1:
			j = on.LeftJoin()
		case 2:
			j = on.RightJoin()
		default:
			j = on.FullJoin()
		}
	}
	v.Reach("made")
	v.Assert(j.JoinType() == joinTypes[kind], "TableJoiner keeps its type")
	v.Assert(v.Eq(j.JoinCondition().Render(), lt+"="+rt), "TableJoiner keeps its fields")
	v.Assert(v.Eq(j.RenderFrom(), joinWords[kind]+" "+text+" ON "+lt+"="+rt), "TableJoiner renders type, table and fields")
}

// H_C12_same: several joins whose tables, aliases and fields may all be equal.
func H_C12_same() {
	one := func(label string) string { return v.Str(label, 1, "ident") }
	base := one("table")
	kind := v.Choice("kind", 3)
	m := &model{kind: kind, from: base}
	switch kind {
	case kBase:
		m.s = query.SelectFrom(base)
	case kMany:
		m.s = query.SelectManyFrom(base)
	default:
		m.s = query.SelectSingleFrom(base)
	}
	a, b, f, g := one("a"), one("b"), one("f"), one("g")
	n := v.Bound("joins that may be equal", 3, 4)
	for i := 0; i < n; i++ {
		l, r := query.Field(a+"."+f), query.Field(b+"."+g)
		on := a + "." + f + "=" + b + "." + g
		if i == 1 && v.Choice("crossed", 2) == 1 {
			l, r, on = r, l, b+"."+g+"="+a+"."+f
		}
		switch v.Choice("right", 3) {
		case 0:
			m.join(1+i%4, 0, query.Table(a), query.TableName(a), a, l, r, on)
		case 1:
			m.join(0, v.Choice("type", 2), query.Table(base), query.TableName(base), base, l, r, on)
		default:
			text := a
			if b != a {
				text += " AS " + b
			}
			m.join(2, 0, query.Table(a).As(query.TableName(b)), query.TableName(a+" "+b), text, l, r, on)
		}
	}
	m.judge()
}

// H_C12_large: many joins.
func H_C12_large() {
	m := begin(v.Choice("kind", 3), 0)
	n := large("joins", 65)
	method := v.Choice("method", 6)
	for i := 0; i < n; i++ {
		id, name, text := m.plainRight()
		l, r, on := m.plainOperands()
		at := method
		if at == 5 {
			at = i % 5
		}
		m.join(at, i%4, id, name, text, l, r, on)
	}
	m.judge()
}

// H_C12_long: long names in every part of a join.
func H_C12_long() {
	n := large("length", 300)
	m := begin(v.Choice("kind", 3), 0)
	name := func(label string) string { return lengthy(label, n, "word") }
	a, b, f, g, al := name("a"), name("b"), name("f"), name("g"), name("alias")
	v.Assume(v.Not(v.Eq(b, al)))
	on := a + "." + f + "=" + al + "." + g
	m.join(v.Choice("method", 5), 3, query.Table(b).As(query.TableName(al)), query.TableName(b+" AS "+al), b+" AS "+al, query.TableName(a).Field(query.FieldName(f)), query.Field(al+"."+g+" as "+f), on)
	m.judge()
	v.Assert(v.Eq(query.JoinFields(query.Field(a+"."+f), query.Field(al+"."+g)).Render(), on), "JoinCondition renders its fields")
}

// H_C12_dotted: names of tables with a schema, which share parts with aliases, fields and each other.
func H_C12_dotted() {
	a, b := v.Str("a", 1, "ident"), v.Str("b", 1, "ident")
	names := []string{a + "." + b, b + "." + a, a, a + "." + a}
	name := names[v.Choice("name", len(names))]
	aliases := []string{"", a, b, a + b, b + "." + a, a + "." + b + "." + a}
	alias := aliases[v.Choice("alias", len(aliases))]
	text := name
	id, tn := query.TableName(name).Ident(), query.TableName(name)
	if alias != "" {
		id, tn = id.As(query.TableName(alias)), query.TableName(name+" AS "+alias)
		if alias != name {
			text += " AS " + alias
		}
	}
	on := a + "." + b + "=" + b + "." + a
	kind := v.Choice("kind", 3)
	m := &model{kind: kind, from: "t"}
	switch v.Choice("side", 2) {
	case 0:
		m.s = map[int]stmt{kBase: query.SelectFrom("t"), kMany: query.SelectManyFrom("t"), kSingle: query.SelectSingleFrom("t")}[kind]
		m.join(v.Choice("method", 5), 0, id, tn, text, query.Field(a+"."+b), query.Field(b+"."+a), on)
	default:
		m.s, m.from = map[int]stmt{kBase: query.SelectFrom(id), kMany: query.SelectManyFrom(id), kSingle: query.SelectSingleFrom(id)}[kind], text
		m.join(2, 0, query.Table("r"), "r", "r", query.Field(a+"."+b), query.Field(b+"."+a), on)
	}
	m.judge()
	j := query.NewTableJoiner(id, query.LeftJoin, query.JoinFields(query.Field(a+"."+b), query.Field(b+"."+a)))
	v.Assert(v.Eq(j.RenderFrom(), "LEFT JOIN "+text+" ON "+on), "TableJoiner renders type, table and fields")
}

// H_C12_odd: names of any printable characters.
func H_C12_odd() {
	a, f, b, g, r := part("a", 1), part("f", 1), part("b", 1), part("g", 1), printable("right", 3)
	on := a + "." + f + "=" + b + "." + g
	m := begin(v.Choice("kind", 3), 0)
	m.join(v.Choice("method", 5), 2, query.Table(r), query.TableName(r), r, query.Field(a+"."+f), query.Field(b+"."+g), on)
	m.judge()
	v.Assert(v.Eq(query.JoinFields(query.Field(a+"."+f), query.Field(b+"."+g)).Render(), on), "JoinCondition renders its fields")
}
