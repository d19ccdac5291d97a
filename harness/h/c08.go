package h

import (
	"database/sql/driver"
	"errors"

	"github.com/amarin/query"
	"verifharness/v"
)

// tableOf draws a table name that is missing or present, and a function that puts it in one of the accepted forms.
func tableOf() (present bool, form int, name string) {
	if present = v.Choice("table present", 2) == 1; present {
		name = ident("table")
	}
	return present, v.Choice("table form", 4), name
}

// write starts a writing statement without conditions and values, or one derived from a table or a base builder.
func write(kind, form int, name string, vals []query.FieldValue, cs []query.Condition) stmt {
	id := query.TableIdent{}
	if len(name) > 0 {
		id = query.TableName(name).Ident().As("al")
	}
	switch kind {
	case kUpdate:
		switch form {
		case 0:
			return query.Update(name).Set(vals...).Where(cs...)
		case 1:
			return query.TableName(name).Update(vals...).Where(cs...)
		case 2:
			return id.Update(vals...).Where(cs...)
		}
		return query.Update(id).Where(cs...).Set(vals...)
	case kDelete:
		switch form {
		case 0:
			return query.Delete(name).Where(cs...)
		case 1:
			return query.TableName(name).Delete(cs...)
		case 2:
			return id.Delete(cs...)
		}
		return query.Delete(query.TableName(name)).Where(cs...)
	}
	switch form {
	case 0:
		return query.InsertInto(name).Values(vals...)
	case 1:
		return query.TableName(name).InsertInto(vals...)
	case 2:
		return id.InsertInto(vals...)
	}
	return query.InsertInto(id).Values(vals...)
}

// refused asserts that a statement is refused exactly when it is incomplete.
func refused(s stmt, complete bool, what string) {
	sql, params, err := s.BuildQueryAndParams()
	if !complete {
		v.Assert(err != nil, what+" is refused when incomplete")
		if err != nil {
			v.Assert(errors.Is(err, query.Error), what+": the error is query.Error")
		}
		v.Assert(v.Eq(sql, "") && len(params) == 0, what+": no SQL and no params when refused")
		v.Reach("refused")
		return
	}
	v.Assert(err == nil, what+" is built when complete")
	switch s.(type) {
	case query.UpdateBuilder, query.DeleteBuilder:
		i := len(sql)
		for j := 0; j+7 <= len(sql); j++ {
			if v.Eq(sql[j:j+7], " WHERE ") {
				i = j + 7
				break
			}
		}
		v.Assert(i < len(sql), what+" has conditions")
	}
	v.Reach("built")
}

func setValues(n int) (vals []query.FieldValue) {
	for i := 0; i < n; i++ {
		vals = append(vals, query.FieldName("s"+itoa(i)).Value(v.AnyInt("value")))
	}
	return vals
}

// H_C08_write: every combination of missing parts, with condition lists of all shapes.
func H_C08_write() {
	kind := []int{kUpdate, kDelete, kInsert}[v.Choice("kind", 3)]
	present, form, name := tableOf()
	n := v.Choice("values", 3)
	var cs []query.Condition
	some := false
	if kind != kInsert {
		w := newWorld(rotate)
		l := w.list(v.Choice("shape", nShapes))
		_, some = den(l)
		cs = conds(l)
	}
	s := write(kind, form, name, setValues(n), cs)
	switch kind {
	case kUpdate:
		refused(s, present && some && n > 0, "UPDATE")
	case kDelete:
		refused(s, present && some, "DELETE")
	default:
		refused(s, present && n > 0, "INSERT")
	}
}

// H_C08_kinds: conditions of every kind count, those without values too.
func H_C08_kinds() {
	kinds := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, probe, probe + 1}
	w := newWorld(func(int) int { return kinds[v.Choice("kind", len(kinds))] })
	x := w.leaf()
	switch v.Choice("wrapped", 6) {
	case 1:
		x = negated(x, true)
	case 2:
		x.c = query.NewGroup(query.LogicalOR, x.c)
	case 3:
		x.c = query.Not(query.NewGroup(query.LogicalAND, x.c).WithBrackets())
	case 4:
		x.c = query.Or(x.c, w.leaf().c)
	case 5:
		x.c = query.And(query.NewGroup(query.LogicalOR), x.c)
	}
	s := start(kUpdate+v.Choice("kind of statement", 2), "t")
	switch v.Choice("calls", 5) {
	case 0:
		s = where(s, x.c)
	case 1:
		s = where(where(s), x.c)
	case 2:
		s = where(s, x.c, w.leaf().c)
	case 3:
		s = where(where(s, x.c), w.leaf().c)
	default:
		s = where(where(s, x.c, x.c), query.NewGroup(query.LogicalAND), x.c)
	}
	refused(s, true, "statement")
	v.Reach("judged")
}

// H_C08_empties: compositions of conditions and empty groups, in up to three Where calls.
func H_C08_empties() {
	w := newWorld(rotate)
	w.empties = true
	s := start(kUpdate+v.Choice("kind", 2), "t")
	some := false
	for i, calls := 0, 1+v.Choice("calls", v.Bound("Where calls", 2, 3)); i < calls; i++ {
		x := w.tree(v.Choice("size", 1+v.Bound("combinators with empty groups", 2, 2)/calls))
		some = some || x.some
		s = where(s, x.c)
	}
	refused(s, some, "statement")
}

// H_C08_tree: one Where call with a deeper composition of conditions and empty groups.
func H_C08_tree() {
	w := newWorld(rotate)
	w.empties = true
	x := w.tree(v.Choice("size", 1+v.Bound("combinators with empty groups in one call", 2, 3)))
	if v.Choice("negated", 2) == 1 {
		x = negated(x, true)
	}
	if g, ok := x.c.(query.Group); ok && v.Choice("pointer", 2) == 1 {
		x.c = &g
	}
	refused(where(start(kUpdate+v.Choice("kind", 2), "t"), x.c), x.some, "statement")
}

// H_C08_derived: statements derived from SELECT builders, zero builders included.
func H_C08_derived() {
	w := newWorld(rotate)
	l := w.list(v.Choice("shape", nShapes))
	_, some := den(l)
	n := v.Choice("values", 2)
	vals := setValues(n)
	table := v.Choice("table", 2) == 1
	base := query.BaseSelectBuilder{}
	if table {
		base = query.SelectFrom("t as u").InnerJoin(query.Table("r")).On(query.Field("a.b"), query.Field("c.d"))
	}
	base = base.Where(conds(l)...)
	switch v.Choice("derived", 8) {
	case 0:
		refused(base.Update(vals...), table && some && n > 0, "UPDATE of base")
	case 1:
		refused(base.Delete(), table && some, "DELETE of base")
	case 2:
		refused(base.InsertInto(vals...), table && n > 0, "INSERT of base")
	case 3:
		refused(base.Many().Update(vals...), table && some && n > 0, "UPDATE of many")
	case 4:
		refused(base.Many().Delete(), table && some, "DELETE of many")
	case 5:
		refused(base.Single().Update(vals...), table && some && n > 0, "UPDATE of single")
	case 6:
		refused(base.Single().Delete(), table && some, "DELETE of single")
	default:
		refused(base.Single().InsertInto(vals...), table && n > 0, "INSERT of single")
	}
}

// H_C08_zero: zero builders are refused.
func H_C08_zero() {
	switch v.Choice("zero", 6) {
	case 0:
		refused(query.UpdateBuilder{}, false, "zero UPDATE")
	case 1:
		refused(query.DeleteBuilder{}, false, "zero DELETE")
	case 2:
		refused(query.InsertBuilder{}, false, "zero INSERT")
	case 3:
		refused(query.UpdateBuilder{}.Set(setValues(1)...).Where(query.IsNull("c")), false, "UPDATE of nothing")
	case 4:
		refused(query.DeleteBuilder{}.Where(query.IsNull("c")), false, "DELETE of nothing")
	default:
		refused(query.InsertBuilder{}.Values(setValues(1)...), false, "INSERT into nothing")
	}
}

// marked asserts that an error is query.Error.
func marked(err error, what string) {
	if err != nil {
		v.Assert(errors.Is(err, query.Error), what+": the error is query.Error")
		v.Reach("error")
	}
}

// H_C08_errors: all errors of parsing and validation, for all byte strings up to a length.
func H_C08_errors() {
	n := v.Choice("length", 1+v.Bound("bytes", 3, 4))
	s := v.Str("spec", n, "")
	switch v.Choice("function", 6) {
	case 0:
		_, err := query.FieldOrError(s)
		marked(err, "FieldOrError")
	case 1:
		_, err := query.FieldOrError(query.FieldName(s))
		marked(err, "FieldOrError of a field name")
	case 2:
		_, err := query.TableOrError(s)
		marked(err, "TableOrError")
	case 3:
		_, err := query.TableOrError(query.TableName(s))
		marked(err, "TableOrError of a table name")
	case 4:
		marked(query.FieldName(s).Validate(), "Validate")
	default:
		_, err := query.ValuesMap{s: 1, "good": 2}.FieldValues()
		marked(err, "FieldValues")
	}
}

// failure is a value that fails with an error of its own.
type failure struct{ x int }

var errFailure = errors.New("failure")

func (x failure) Value() (driver.Value, error) { return nil, errFailure }

// H_C08_valuer: a value that cannot be converted is reported by an error or panic marked as query.Error.
func H_C08_valuer() {
	x := failure{v.AnyInt("value")}
	where := v.Choice("where", 7)
	var err error
	panicked, with := catch(func() {
		var s stmt
		switch where {
		case 0:
			s = query.InsertInto("t").Values(query.FieldName("a").Value(x))
		case 1:
			s = query.Update("t").Set(query.FieldName("a").Value(x)).Where(query.IsNull("b"))
		case 2:
			s = query.Update("t").Set(query.FieldName("a").Value(1)).Where(query.EqualTo("b", x))
		case 3:
			s = query.Delete("t").Where(query.In("b", []driver.Valuer{x}))
		case 4:
			s = query.SelectFrom("t").Where(query.GreaterThan("b", x))
		case 5:
			s = query.SelectFrom("t").Where(query.In("b", []failure{x})).Many()
		default:
			s = query.SelectFrom("t").Where(query.Not(query.EqualTo("b", x))).Count()
		}
		_, _, err = s.BuildQueryAndParams()
	})
	if panicked {
		err, _ = with.(error)
	}
	v.Assert(err != nil, "a value that cannot be converted is reported")
	marked(err, "value")
}

// H_C08_large: many conditions, values and empty groups, wide and deep.
func H_C08_large() {
	w := newWorld(rotate)
	n := large("conditions", 65)
	some := v.Choice("some", 2) == 1
	at := v.Choice("at", 3) * (n - 1) / 2
	part := func(i int) node {
		if some && i == at {
			return w.leaf()
		}
		return empty([]query.JoinType{query.LogicalAND, query.LogicalOR}[i%2])
	}
	s := start(kUpdate+v.Choice("kind", 2), "t")
	var list []node
	x := part(0)
	switch v.Choice("form", 4) {
	case 0:
		for i := 0; i < n; i++ {
			list = append(list, part(i))
		}
		s = where(s, conds(list)...)
	case 1:
		for i := 0; i < n; i++ {
			s = where(s, part(i).c)
		}
	case 2:
		for i := 1; i < n; i++ {
			x = w.combine(i%8, part(i), x)
		}
		s = where(s, x.c)
	default:
		for i := 1; i < n; i++ {
			x = w.combine(i%8, x, part(i))
			x.c = query.NewGroup(query.LogicalAND, x.c)
		}
		s = where(s, x.c)
	}
	refused(s, some, "statement")
}
