package h

import (
	"strings"

	"github.com/amarin/query"
	"verifharness/v"
)

// selector is what all SELECT builders have in common.
type selector interface {
	stmt
	Values() []any
	RenderFrom() string
	FieldDefinitions() []query.FieldDefinition
	TableName() query.TableName
	Operation() query.Operation
	Single() query.SelectSingleBuilder
	Many() query.SelectManyBuilder
	Delete() query.DeleteBuilder
	Update(values ...query.FieldValue) query.UpdateBuilder
	InsertInto(values ...query.FieldValue) query.InsertBuilder
	Count() query.CountBuilder
}

func baseOf(s selector) query.BaseSelectBuilder {
	switch b := s.(type) {
	case query.SelectManyBuilder:
		return b.BaseSelectBuilder
	case query.SelectSingleBuilder:
		return b.BaseSelectBuilder
	}
	return s.(query.BaseSelectBuilder)
}

// source is a SELECT builder with its expected parts.
type source struct {
	s      selector
	from   string
	fields string
	table  string
}

// sourceOf draws a SELECT builder without conditions: kind, alias, number of joins and fields.
func sourceOf(kind, joins, fields int, table, alias string) source {
	src := source{from: table, fields: "*", table: table}
	id := query.TableName(table).Ident()
	if len(alias) > 0 {
		id = id.As(query.TableName(alias))
		src.from = table + " AS " + alias
	}
	var defs []query.FieldDefinition
	for i := 0; i < fields; i++ {
		if i == 0 {
			src.fields = ""
		} else {
			src.fields += ", "
		}
		defs = append(defs, query.Field(query.FieldName("f"+itoa(i))))
		src.fields += "f" + itoa(i)
	}
	for i := 0; i < joins; i++ {
		src.from += " LEFT JOIN j" + itoa(i) + " AS k ON x.a=k.b"
	}
	left, right := query.Field("x.a"), query.Field("k.b")
	switch kind {
	case kBase:
		b := query.SelectFrom(id)
		for i := 0; i < joins; i++ {
			b = b.LeftJoin(query.Table("j"+itoa(i)+" AS k")).On(left, right)
		}
		src.s = b.Fields(defs...)
	case kMany:
		b := query.SelectManyFrom(id).Fields(defs...).OrderBy(query.ASC("o")).Offset(3).Limit(5)
		for i := 0; i < joins; i++ {
			b = b.LeftJoin(query.TableName("j"+itoa(i)+" AS k")).On(left, right)
		}
		src.s = b
	default:
		b := query.SelectSingleFrom(id).Fields(defs...)
		for i := 0; i < joins; i++ {
			b = b.LeftJoin(query.TableName("j"+itoa(i)+" AS k")).On(left, right)
		}
		src.s = b
	}
	return src
}

func (src *source) where(cs ...query.Condition) {
	src.s = where(src.s, cs...).(selector)
}

// turn converts a SELECT builder into another one.
func (src *source) turn(op int) {
	switch op {
	case 0:
		src.s = src.s.Single()
	case 1:
		src.s = src.s.Many()
	case 2:
		src.s = query.SelectSingleFromBase(baseOf(src.s))
	case 3:
		src.s = query.SelectManyFromBase(baseOf(src.s))
	case 4:
		src.s = baseOf(src.s)
	case 5:
		src.s = baseOf(src.s).Limit(4)
	case 6:
		src.s = baseOf(src.s).Offset(4)
	case 7:
		src.s = baseOf(src.s).OrderBy(query.DESC("o"))
	}
}

const nTurns = 8

// converted judges every statement derived from the source, whose rows are those of d.
func (w *world) converted(src source, d, some bool, target int) {
	var vals []query.FieldValue
	if target == 4 || target == 6 {
		vals = setValues(v.Choice("values", 3))
	}
	conds := baseOf(src.s).Values()
	var s stmt
	op := query.DoSelect
	table := query.TableName(src.table)
	head, set := "", 0
	switch target {
	case 0:
		b := src.s.Single()
		v.Assert(b.Operation() == op && b.TableName() == table && b.RenderFrom() == src.from, "Single keeps table and joins")
		head, s = "SELECT "+src.fields+" FROM "+src.from, b
	case 1:
		b := src.s.Many()
		v.Assert(b.Operation() == op && b.TableName() == table && b.RenderFrom() == src.from, "Many keeps table and joins")
		head, s = "SELECT "+src.fields+" FROM "+src.from, b
	case 2:
		b := src.s.Count()
		v.Assert(b.RenderFrom() == src.from, "Count keeps table and joins")
		head, s = "SELECT COUNT(*) FROM "+src.from, b
	case 3:
		b := query.Count(baseOf(src.s), "n")
		v.Assert(b.RenderFrom() == src.from, "Count keeps table and joins")
		head, s = "SELECT COUNT(n) FROM "+src.from, b
	case 4:
		b := src.s.Update(vals...)
		v.Assert(b.Operation() == query.DoUpdate && b.TableName() == table, "Update keeps the table")
		set = len(vals)
		head = "UPDATE " + src.table + " SET "
		for i := range vals {
			if i > 0 {
				head += ", "
			}
			head += "s" + itoa(i) + "=$" + itoa(i+1)
		}
		s = b
		w.setValues(b.SetValues(), vals, "Update")
		if !some || set == 0 {
			_, _, err := s.BuildQueryAndParams()
			v.Assert(err != nil, "incomplete UPDATE is refused")
			return
		}
	case 5:
		b := src.s.Delete()
		v.Assert(b.Operation() == query.DoDelete && b.TableName() == table, "Delete keeps the table")
		head, s = "DELETE FROM "+src.table, b
		if !some {
			_, _, err := s.BuildQueryAndParams()
			v.Assert(err != nil, "incomplete DELETE is refused")
			return
		}
	case 6:
		b := src.s.InsertInto(vals...)
		v.Assert(b.Operation() == query.DoInsert && b.TableName() == table, "InsertInto keeps the table")
		w.setValues(b.SetValues(), vals, "InsertInto")
		sql, params, err := b.BuildQueryAndParams()
		v.Assert((err == nil) == (len(vals) > 0), "INSERT is built iff it has values")
		if err == nil {
			v.Assert(strings.HasPrefix(sql, "INSERT INTO "+src.table+"(s0"), "InsertInto keeps the table")
			v.Assert(len(params) == len(vals), "InsertInto carries exactly the given values")
		}
		v.Reach("insert")
		return
	}
	sql, params := build(s)
	v.Observe("sql", sql)
	rest := strings.TrimPrefix(sql, head)
	v.Assert(len(rest) < len(sql) && (rest == "" || rest[0] == ' '), "fields, table and joins are kept")
	w.judgeWhere(sql, d, some, "conversion", params...)
	got := params[min(set, len(params)):]
	for i := range vals[:set] {
		v.Assert(v.Same(params[i], vals[i].Values()[0]), "Update carries exactly the given values")
	}
	v.Assert(len(got) >= len(conds), "condition values are kept")
	if len(got) >= len(conds) {
		v.Assert(sameList(got[:len(conds)], conds), "condition values keep their order")
	}
	v.Reach("converted")
}

func (w *world) setValues(got, vals []query.FieldValue, what string) {
	v.Assert(len(got) == len(vals), what+" carries exactly the given values")
	for i := range vals {
		if i < len(got) {
			v.Assert(got[i].FieldName() == vals[i].FieldName() && sameList(got[i].Values(), vals[i].Values()), what+" carries exactly the given values")
		}
	}
}

// H_C09_shapes: every source, conditions of every shape, every target.
func H_C09_shapes() {
	w := newWorld(rotate)
	alias := []string{"", "u"}[v.Choice("alias", 2)]
	src := sourceOf(v.Choice("source", 3), v.Choice("joins", 3), v.Choice("fields", 3), "t", alias)
	l := w.list(v.Choice("shape", nShapes))
	src.where(conds(l)...)
	d, some := den(l)
	w.converted(src, d, some, v.Choice("target", 7))
}

// H_C09_turns: conversions in a row with conditions added before, between and after.
func H_C09_turns() {
	w := newWorld(rotate)
	src := sourceOf(v.Choice("source", 3), 1, 1, "t", "u")
	d, some := true, false
	for i := 0; i < v.Bound("conversions", 2, 3); i++ {
		l := w.list([]int{2, 3, 5, 6}[v.Choice("shape", 4)])
		src.where(conds(l)...)
		if ld, ls := den(l); ls {
			d, some = v.And(d, ld), true
		}
		src.turn(v.Choice("conversion", nTurns))
	}
	l := w.list([]int{1, 6}[v.Choice("last shape", 2)])
	src.where(conds(l)...)
	if ld, ls := den(l); ls {
		d, some = v.And(d, ld), true
	}
	w.converted(src, d, some, v.Choice("target", 7))
}

// H_C09_tree: compositions of any shape.
func H_C09_tree() {
	w := newWorld(rotate)
	w.empties = v.Choice("with empties", 2) == 1
	src := sourceOf(v.Choice("source", 3), 0, 0, "t", "")
	k := v.Bound("combinators", 2, 3)
	if w.empties {
		k = v.Bound("combinators with empty groups", 1, 2)
	}
	x := w.tree(v.Choice("size", 1+k))
	src.where(x.c)
	w.converted(src, x.d, x.some, v.Choice("target", 7))
}

// H_C09_kinds: conditions of every kind.
func H_C09_kinds() {
	a, b := v.Choice("first", nKinds), v.Choice("second", nKinds)
	w := newWorld(func(i int) int {
		if i == 0 {
			return a
		}
		return b
	})
	src := sourceOf(v.Choice("source", 3), 1, 0, "t", "")
	x, y := w.leaf(), w.leaf()
	if v.Choice("or", 2) == 1 {
		y.c = query.Or(y.c)
	}
	l := []node{x, y}
	src.where(conds(l)...)
	d, some := den(l)
	w.converted(src, d, some, v.Choice("target", 7))
}

// H_C09_names: symbolic table names and aliases.
func H_C09_names() {
	table := ident("table")
	alias := ""
	if v.Choice("aliased", 2) == 1 {
		alias = ident("alias")
		v.Assume(v.Not(v.Eq(alias, table)))
	}
	src := sourceOf(v.Choice("source", 3), v.Choice("joins", 2), v.Choice("fields", 2), table, alias)
	x := v.AnyInt("x")
	src.where(query.EqualTo("c", x))
	src.turn(v.Choice("conversion", nTurns))
	vals := setValues(1)
	same := func(s stmt, text string, params ...any) {
		sql, got, err := s.BuildQueryAndParams()
		v.Assert(err == nil, "conversion builds")
		v.Assert(v.Eq(sql, text), "conversion names the table")
		v.Assert(sameList(got, params), "conversion carries the values")
		v.Reach("built")
	}
	switch v.Choice("target", 5) {
	case 0:
		same(src.s.Single(), "SELECT "+src.fields+" FROM "+src.from+" WHERE c=$1 LIMIT 1", x)
	case 1:
		same(src.s.Count(), "SELECT COUNT(*) FROM "+src.from+" WHERE c=$1", x)
	case 2:
		same(src.s.Update(vals...), "UPDATE "+table+" SET s0=$1 WHERE c=$2", vals[0].Values()[0], x)
	case 3:
		same(src.s.Delete(), "DELETE FROM "+table+" WHERE c=$1", x)
	default:
		same(src.s.InsertInto(vals...), "INSERT INTO "+table+"(s0) VALUES ($1)", vals[0].Values()[0])
	}
}

// H_C09_same: all conditions are over one column, some even repeat one another.
func H_C09_same() {
	w := newWorld(rotate)
	w.shared = 1 + v.Choice("operands and operators", 3)
	src := sourceOf(v.Choice("source", 3), 1, 0, "t", "")
	d, some := true, false
	for i := 0; i < 2; i++ {
		l := w.list([]int{0, 1, 2, 3, 5}[v.Choice("shape", 5)])
		src.where(conds(l)...)
		ld, ls := den(l)
		d, some = v.And(d, ld), some || ls
	}
	w.converted(src, d, some, v.Choice("target", 7))
}

// H_C09_large: many conditions, joins and fields.
func H_C09_large() {
	w := newWorld(rotate)
	n := large("conditions, joins and fields", 40)
	src := sourceOf(v.Choice("source", 3), n/2, v.Choice("fields", 2)*n, "t", "u")
	d := true
	for i := 0; i < n; i++ {
		x := w.leaf()
		src.where(x.c)
		d = v.And(d, x.d)
		if i == n/2 {
			src.turn(v.Choice("conversion", nTurns))
		}
	}
	w.converted(src, d, true, v.Choice("target", 7))
}
