package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// model is what a SELECT is expected to be.
type model struct {
	s      stmt
	kind   int
	from   string
	fields []string
	conds  []string // without numbers
	vals   []any
	order  []string
	offset uint
	limit  int
	n      int
}

func commas(list []string) (res string) {
	for i, x := range list {
		if i > 0 {
			res += ", "
		}
		res += x
	}
	return res
}

// begin starts a SELECT over a symbolic table in one of the documented ways.
func begin(kind, form int) *model {
	table := ident("table")
	m := &model{kind: kind, from: table}
	id := query.TableName(table).Ident()
	if form == 2 {
		alias := ident("alias")
		v.Assume(v.Not(v.Eq(alias, table)))
		id = id.As(query.TableName(alias))
		m.from += " AS " + alias
	}
	switch kind {
	case kBase:
		switch form {
		case 0:
			m.s = query.SelectFrom(table)
		case 1:
			m.s = query.TableName(table).Select()
		default:
			m.s = query.SelectFrom(id)
		}
	case kMany:
		switch form {
		case 0:
			m.s = query.SelectManyFrom(table)
		case 1:
			m.s = query.TableName(table).SelectMany()
		default:
			m.s = query.SelectManyFrom(id)
		}
	default:
		switch form {
		case 0:
			m.s = query.SelectSingleFrom(table)
		case 1:
			m.s = query.TableName(table).SelectOne()
		default:
			m.s = query.SelectSingleFrom(id)
		}
	}
	return m
}

// next is a fresh name with one symbolic character.
func (m *model) next(prefix string) string {
	m.n++
	return prefix + itoa(m.n) + v.Str("name", 1, "ident")
}

func (m *model) leaf() query.Condition {
	name := m.next("c")
	x := v.AnyInt("x")
	if m.n%2 == 0 {
		m.conds = append(m.conds, name+">?")
		m.vals = append(m.vals, x)
		return query.GreaterThan(query.FieldName(name), x)
	}
	m.conds = append(m.conds, name+"=?")
	m.vals = append(m.vals, x)
	return query.EqualTo(query.FieldName(name), x)
}

func (m *model) where(cs ...query.Condition) { m.s = where(m.s, cs...) }

func (m *model) setFields(fs ...query.FieldDefinition) {
	switch b := m.s.(type) {
	case query.BaseSelectBuilder:
		m.s = b.Fields(fs...)
	case query.SelectManyBuilder:
		m.s = b.Fields(fs...)
	case query.SelectSingleBuilder:
		m.s = b.Fields(fs...)
	}
}

// common operations: 0..6
const nCommon = 7

func (m *model) common(op int) {
	switch op {
	case 0:
		m.where(m.leaf())
	case 1:
		m.where(m.leaf(), m.leaf())
	case 2:
		m.where()
	case 3:
		name := m.next("f")
		m.setFields(query.Field(query.FieldName(name)))
		m.fields = []string{name}
	case 4:
		name, table, alias := m.next("f"), m.next("t"), m.next("a")
		m.setFields(query.Field(query.FieldName(name)).Of(query.TableName(table)).As(query.FieldName(alias)), query.Field(query.FieldName(table)))
		m.fields = []string{table + "." + name + " AS " + alias, table}
	case 5:
		m.setFields()
		m.fields = nil
	case 6:
		right := m.next("r")
		l, r := query.Field("l.a"), query.Field(query.FieldName(right+".b"))
		switch b := m.s.(type) {
		case query.BaseSelectBuilder:
			m.s = b.RightJoin(query.Table(right)).On(l, r)
		case query.SelectManyBuilder:
			m.s = b.RightJoin(query.TableName(right)).On(l, r)
		case query.SelectSingleBuilder:
			m.s = b.RightJoin(query.TableName(right)).On(l, r)
		}
		m.from += " RIGHT JOIN " + right + " ON l.a=" + right + ".b"
	}
}

// only for many, and for base, which they turn into many: 0..4
func (m *model) paged(op int) {
	b, many := m.s.(query.SelectManyBuilder)
	base, _ := m.s.(query.BaseSelectBuilder)
	m.kind = kMany
	switch op {
	case 0:
		m.offset = v.AnyUint("offset")
		if many {
			m.s = b.Offset(m.offset)
		} else {
			m.s = base.Offset(m.offset)
		}
	case 1:
		m.limit = v.AnyInt("limit")
		if many {
			m.s = b.Limit(m.limit)
		} else {
			m.s = base.Limit(m.limit)
		}
	case 2, 3, 4:
		var os []query.FieldSorting
		if op < 4 {
			name := m.next("o")
			os = append(os, query.DESC(query.FieldName(name)))
			m.order = append(m.order, name+" DESC")
		}
		if op == 3 {
			name := m.next("o")
			os = append(os, query.OrderBy(query.FieldName(name)))
			m.order = append(m.order, name+" ASC")
		}
		if many {
			m.s = b.OrderBy(os...)
		} else {
			m.s = base.OrderBy(os...)
		}
	}
}

// text is the whole expected statement and its params.
func (m *model) text() (sql string, params []any) {
	fields := "*"
	if len(m.fields) > 0 {
		fields = commas(m.fields)
	}
	return m.tail("SELECT " + fields)
}

func (m *model) tail(head string) (sql string, params []any) {
	sql = head + " FROM " + m.from
	for i, c := range m.conds {
		if i == 0 {
			sql += " WHERE "
		} else {
			sql += " AND "
		}
		sql += c[:len(c)-1] + "$" + itoa(i+1)
	}
	return sql, append(params, m.vals...)
}

// judge compares the statement with the model.
func (m *model) judge() {
	sql, params := m.text()
	switch m.kind {
	case kMany:
		if len(m.order) > 0 {
			sql += " ORDER BY " + commas(m.order)
		}
		if m.offset > 0 {
			params = append(params, m.offset)
			sql += " OFFSET $" + itoa(len(params))
		}
		if m.limit > 0 {
			params = append(params, uint(m.limit))
			sql += " LIMIT $" + itoa(len(params))
		}
	case kSingle:
		sql += " LIMIT 1"
	}
	m.compare(m.s, sql, params, "SELECT")
	switch b := m.s.(type) {
	case query.BaseSelectBuilder:
		v.Assert(v.Eq(b.RenderFrom(), m.from), "RenderFrom is the table with its joins")
		v.Assert(v.Eq(b.Render(0), sql), "Render is the statement")
		sql, params = m.tail("SELECT COUNT(*)")
		m.compare(b.Count(), sql, params, "COUNT")
	case query.SelectManyBuilder:
		v.Assert(v.Eq(b.RenderFrom(), m.from), "RenderFrom is the table with its joins")
		v.Assert(v.Eq(b.Render(0), sql), "Render is the statement")
		sql, params = m.tail("SELECT COUNT(*)")
		m.compare(b.Count(), sql, params, "COUNT")
	case query.SelectSingleBuilder:
		v.Assert(v.Eq(b.RenderFrom(), m.from), "RenderFrom is the table with its joins")
		v.Assert(v.Eq(b.Render(0), sql), "Render is the statement")
		name := m.next("n")
		sql, params = m.tail("SELECT COUNT(" + name + ")")
		m.compare(query.Count(b.BaseSelectBuilder, query.FieldName(name)), sql, params, "COUNT of a field")
	}
}

func (m *model) compare(s stmt, sql string, params []any, what string) {
	got, ps, err := s.BuildQueryAndParams()
	v.Assert(err == nil, what+" is built")
	v.Assert(v.Eq(got, sql), what+" has exactly the configured clauses")
	v.Assert(sameList(ps, params), what+" has exactly the configured values")
	v.Reach(what)
}

// H_C10_base: call sequences on base and single builders.
func H_C10_base() {
	m := begin([]int{kBase, kSingle}[v.Choice("kind", 2)], v.Choice("form", 3))
	n := v.Bound("calls", 4, 5)
	for i := 0; i < n; i++ {
		m.common(v.Choice("call", nCommon))
	}
	m.judge()
}

// H_C10_many: call sequences on builders with paging and ordering, started as such or from a base.
func H_C10_many() {
	m := begin([]int{kMany, kBase}[v.Choice("kind", 2)], v.Choice("form", 2)*2)
	n := v.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		op := v.Choice("call", nCommon+5)
		if op < nCommon {
			m.common(op)
		} else {
			m.paged(op - nCommon)
		}
	}
	m.judge()
}

// H_C10_paging: longer sequences of paging and ordering calls only.
func H_C10_paging() {
	m := begin(kMany, 0)
	n := v.Bound("paging calls", 4, 5)
	for i := 0; i < n; i++ {
		m.paged(v.Choice("call", 5))
	}
	if v.Choice("where", 2) == 1 {
		m.where(m.leaf())
	}
	m.judge()
}

// H_C10_fields: field lists keep order, duplicates and forms.
func H_C10_fields() {
	kind := v.Choice("kind", 3)
	m := begin(kind, 0)
	var defs []query.FieldDefinition
	n := v.Choice("fields", 1+v.Bound("fields", 3, 4))
	for i := 0; i < n; i++ {
		name := ident("field")
		switch v.Choice("form", 4) {
		case 0:
			defs = append(defs, query.Field(query.FieldName(name)))
			m.fields = append(m.fields, name)
		case 1:
			defs = append(defs, query.Field("x."+name))
			m.fields = append(m.fields, "x."+name)
		case 2:
			defs = append(defs, query.Field(name+" as long"))
			m.fields = append(m.fields, name+" AS long")
		default:
			defs = append(defs, query.TableName("x").Field(query.FieldName(name)).As("long"))
			m.fields = append(m.fields, "x."+name+" AS long")
		}
	}
	m.setFields(defs...)
	m.judge()
}

// H_C10_same: names that may all be equal.
func H_C10_same() {
	one := func(label string) query.FieldName { return query.FieldName(v.Str(label, 1, "ident")) }
	m := &model{kind: kMany, from: "t"}
	b := query.SelectManyFrom("t")
	f, g := one("field"), one("field")
	b = b.Fields(query.Field(f), query.Field(g), query.Field(f).As(g), query.Field(g).Of("t"))
	m.fields = []string{string(f), string(g), specText("", string(f), string(g)), "t." + string(g)}
	o, p := one("order"), one("order")
	up, down := func(n query.FieldName) query.FieldSorting { return query.ASC(n) }, func(n query.FieldName) query.FieldSorting { return query.DESC(n) }
	for i, n := range []query.FieldName{o, p, o} {
		if v.Choice("direction", 2) == 0 {
			b = b.OrderBy(up(n))
			m.order = append(m.order, string(n)+" ASC")
		} else {
			b = b.OrderBy(down(n))
			m.order = append(m.order, string(n)+" DESC")
		}
		if i == 1 && v.Choice("more", 2) == 1 {
			b = b.OrderBy(up(p), down(p))
			m.order = append(m.order, string(p)+" ASC", string(p)+" DESC")
		}
	}
	c := one("column")
	x := v.AnyInt("x")
	for _, n := range []query.FieldName{c, o, c} {
		y := x
		if v.Choice("operand", 2) == 1 {
			y = v.AnyInt("y")
		}
		b = b.Where(query.EqualTo(n, y))
		m.conds, m.vals = append(m.conds, string(n)+"=?"), append(m.vals, y)
	}
	m.s = b
	m.judge()
}

// H_C10_large: many fields, orderings, joins and conditions.
func H_C10_large() {
	n := large("parts", 130)
	m := begin(v.Choice("kind", 3), 0)
	what := v.Choice("parts", 5)
	var defs []query.FieldDefinition
	for i := 0; i < n; i++ {
		switch what {
		case 0:
			name := m.next("f")
			defs = append(defs, query.Field(name))
			m.fields = append(m.fields, name)
		case 1:
			m.common(6)
		case 2:
			m.where(m.leaf())
		case 3:
			if m.kind != kSingle {
				m.paged(2 + i%3)
			}
		default:
			m.common(i % nCommon)
		}
	}
	if what == 0 {
		m.setFields(defs...)
	}
	m.judge()
}

// H_C10_long: long names everywhere.
func H_C10_long() {
	n := large("length", 300)
	kind := v.Choice("kind", 3)
	name := func(label string) string { return lengthy(label, n, "ident") }
	table, f, c, o, r := name("table"), name("field"), name("column"), name("order"), name("right")
	m := &model{kind: kind, from: table}
	switch kind {
	case kBase:
		m.s = query.SelectFrom(table)
	case kMany:
		m.s = query.SelectManyFrom(table).OrderBy(query.DESC(query.FieldName(o)))
		m.order = []string{o + " DESC"}
	default:
		m.s = query.SelectSingleFrom(table)
	}
	m.setFields(query.Field(f).Of(query.TableName(r)).As(query.FieldName(c)))
	m.fields = []string{r + "." + f + " AS " + c}
	v.Assume(v.Not(v.Eq(f, c)))
	x := v.AnyInt("x")
	m.where(query.EqualTo(query.FieldName(c), x))
	m.conds, m.vals = []string{c + "=?"}, []any{x}
	m.join(0, 1, query.Table(r), query.TableName(r), r, query.Field(table+"."+f), query.Field(r+"."+o), table+"."+f+"="+r+"."+o)
	m.judge()
}

// H_C10_count: COUNT of a field in any form, over any statement.
func H_C10_count() {
	m := begin(kBase, v.Choice("table form", 3))
	if v.Choice("where", 2) == 1 {
		m.common(1)
	}
	if v.Choice("join", 2) == 1 {
		m.common(6)
	}
	table, name, alias := ident("of"), ident("name"), name2("alias")
	v.Assume(v.Not(v.Eq(alias, name)))
	text := name
	var f query.FieldName
	switch v.Choice("form", 5) {
	case 0:
		f = query.FieldName(name)
	case 1:
		f, text = query.FieldName(table+"."+name), table+"."+name
	case 2:
		f, text = query.FieldName(name+" AS "+alias), alias
	case 3:
		f, text = query.FieldName(table+"."+name+" as "+alias), alias
	default:
		f, text = "*", "*"
	}
	b := m.s.(query.BaseSelectBuilder)
	sql, params := m.tail("SELECT COUNT(" + text + ")")
	m.compare(query.Count(b, f), sql, params, "COUNT")
	m.compare(query.Count(b, f, "other"), sql, params, "COUNT of the first")
	sql, params = m.tail("SELECT COUNT(*)")
	m.compare(query.Count(b), sql, params, "COUNT of all")
}

// H_C10_odd: names of any printable characters.
func H_C10_odd() {
	kind := v.Choice("kind", 3)
	table, f, c, o := printable("table", 4), part("field", 3), part("column", 3), part("order", 3)
	for i := 0; i < len(o); i++ { // refused in orderings
		v.Assume(v.And(o[i] != '"', o[i] != '\''))
	}
	m := &model{kind: kind, from: table}
	switch kind {
	case kBase:
		m.s = query.SelectFrom(table)
	case kMany:
		m.s = query.SelectManyFrom(table).OrderBy(query.DESC(query.FieldName(o)))
		m.order = []string{o + " DESC"}
	default:
		m.s = query.SelectSingleFrom(table)
	}
	m.setFields(query.Field(f).Of("q"))
	m.fields = []string{"q." + f}
	x := v.AnyInt("x")
	m.where(query.EqualTo(query.FieldName(c), x))
	m.conds, m.vals = []string{c + "=?"}, []any{x}
	if v.Choice("join", 2) == 1 {
		m.common(6)
	}
	m.judge()
}

// H_C10_stars: stars and names that look like keywords among the fields.
func H_C10_stars() {
	specs := []string{"*", "t.*", "a", "t.b", "c AS d", "t.e AS f", "count(*)", "DISTINCT", "null", "1", "$1", "?"}
	n := v.Bound("fields with stars", 3, 4)
	var defs []query.FieldDefinition
	list := ""
	for i := 0; i < n; i++ {
		k := len(specs)
		if i > 1 {
			k = 4
		}
		s := specs[v.Choice("field", k)]
		defs = append(defs, query.Field(s))
		if i > 0 {
			list += ", "
		}
		list += s
	}
	x := v.AnyInt("x")
	b := query.SelectFrom("t").Fields(defs...).Where(query.EqualTo("k", x))
	text := "SELECT " + list + " FROM t WHERE k=$1"
	var s stmt = b
	switch v.Choice("builder", 3) {
	case 1:
		s, text = b.Single(), text+" LIMIT 1"
	case 2:
		s, text = query.SelectManyFrom("t").Fields(defs...).Where(query.EqualTo("k", x)).OrderBy(query.DESC("o")), text+" ORDER BY o DESC"
	}
	sql, params := build(s)
	v.Assert(v.Eq(sql, text), "the fields are listed as given")
	v.Assert(sameList(params, []any{x}), "the condition keeps its value")
	v.Reach("built")
}
