package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// columns is what a writing statement is expected to set.
type columns struct {
	names []string
	vals  []any
	n     int
}

// value is a fresh value of a column given in any accepted form.
func (c *columns) value() query.FieldValue {
	c.n++
	name := ident("column")
	x := v.AnyInt("value")
	c.names = append(c.names, name)
	c.vals = append(c.vals, x)
	switch v.Choice("form", 6) {
	case 0:
		return query.FieldName(name).Value(x)
	case 1:
		return query.FieldName("t." + name).Value(x)
	case 2:
		return query.Field(name + " as long").Value(x)
	case 3:
		return query.TableName("x").Field(query.FieldName(name)).As("long").Value(x)
	case 4:
		return *query.NewFieldValue(query.FieldName("t."+name+" AS long"), x)
	}
	return query.FieldName(name).Value(x).ApplyFieldTable("y")
}

func (c *columns) some(k int) (vals []query.FieldValue) {
	for i := 0; i < k; i++ {
		vals = append(vals, c.value())
	}
	return vals
}

// plain is a value without forms.
func (c *columns) plain(k int) (vals []query.FieldValue) {
	for i := 0; i < k; i++ {
		c.n++
		name := "s" + itoa(c.n) + v.Str("column", 1, "ident")
		x := v.AnyInt("value")
		c.names = append(c.names, name)
		c.vals = append(c.vals, x)
		vals = append(vals, query.FieldName(name).Value(x))
	}
	return vals
}

func (c *columns) insert(table string) (sql string, params []any) {
	marks := ""
	for i := range c.names {
		if i > 0 {
			marks += ", "
		}
		marks += "$" + itoa(i+1)
	}
	return "INSERT INTO " + table + "(" + commas(c.names) + ") VALUES (" + marks + ")", c.vals
}

func (c *columns) update(table string, m *model) (sql string, params []any) {
	sql = "UPDATE " + table + " SET "
	for i, name := range c.names {
		if i > 0 {
			sql += ", "
		}
		sql += name + "=$" + itoa(i+1)
	}
	return sql + m.narrowed(len(c.names)), append(append(params, c.vals...), m.vals...)
}

// narrowed is the WHERE part when n params come before it.
func (m *model) narrowed(n int) (sql string) {
	for i, c := range m.conds {
		if i == 0 {
			sql += " WHERE "
		} else {
			sql += " AND "
		}
		sql += c[:len(c)-1] + "$" + itoa(n+i+1)
	}
	return sql
}

// H_C11_insert: values in all forms through constructor arguments and calls of Values.
func H_C11_insert() {
	c := &columns{}
	table := ident("table")
	first := v.Choice("constructor values", 3)
	var b query.InsertBuilder
	switch v.Choice("constructor", 4) {
	case 0:
		b = query.TableName(table).InsertInto(c.some(first)...)
	case 1:
		b = query.TableName(table).Ident().As("al").InsertInto(c.some(first)...)
	case 2:
		b = query.SelectFrom(query.TableName(table).Ident().As("al")).InsertInto(c.some(first)...)
	default:
		b = query.InsertInto(table).Values(c.some(first)...)
	}
	b = b.Values(c.some(1)...)
	sql, params := c.insert(table)
	new(model).compare(b, sql, params, "INSERT")
}

// H_C11_insert_calls: longer sequences of calls of Values.
func H_C11_insert_calls() {
	c := &columns{}
	b := query.InsertInto("tb")
	n := v.Bound("Values calls", 4, 6)
	for i := 0; i < n; i++ {
		b = b.Values(c.plain(v.Choice("values", 4))...)
	}
	if len(c.names) == 0 {
		return
	}
	sql, params := c.insert("tb")
	new(model).compare(b, sql, params, "INSERT")
	got := b.SetValues()
	v.Assert(len(got) == len(c.names), "SetValues reports all values")
	for i := range got {
		v.Assert(v.Eq(string(got[i].FieldName()), c.names[i]), "SetValues reports all columns in order")
		v.Assert(sameList(got[i].Values(), c.vals[i:i+1]), "SetValues reports all values in order")
	}
}

// H_C11_update: values in all forms through constructor arguments and calls of Set.
func H_C11_update() {
	c := &columns{}
	m := &model{}
	table := ident("table")
	first := v.Choice("constructor values", 3)
	var b query.UpdateBuilder
	switch v.Choice("constructor", 4) {
	case 0:
		b = query.TableName(table).Update(c.some(first)...).Where(m.leaf())
	case 1:
		b = query.TableName(table).Ident().As("al").Update(c.some(first)...).Where(m.leaf())
	case 2:
		b = query.SelectFrom(query.TableName(table).Ident().As("al")).Where(m.leaf()).Update(c.some(first)...)
	default:
		b = query.Update(table).Where(m.leaf()).Set(c.some(first)...)
	}
	b = b.Set(c.some(1)...)
	sql, params := c.update(table, m)
	m.compare(b, sql, params, "UPDATE")
}

// H_C11_update_calls: longer sequences of calls of Set and Where.
func H_C11_update_calls() {
	c := &columns{}
	m := &model{}
	b := query.Update(query.Table("tb as al"))
	n := v.Bound("Set and Where calls", 4, 6)
	for i := 0; i < n; i++ {
		switch op := v.Choice("call", 6); op {
		case 0, 1, 2:
			b = b.Set(c.plain(op)...)
		case 3:
			b = b.Where()
		case 4:
			b = b.Where(m.leaf())
		case 5:
			b = b.Where(m.leaf(), m.leaf())
		}
	}
	if len(c.names) == 0 || len(m.conds) == 0 {
		refused(b, false, "UPDATE")
		return
	}
	sql, params := c.update("tb", m)
	m.compare(b, sql, params, "UPDATE")
	got := b.SetValues()
	v.Assert(len(got) == len(c.names), "SetValues reports all values")
	for i := range got {
		v.Assert(v.Eq(string(got[i].FieldName()), c.names[i]), "SetValues reports all columns in order")
		v.Assert(sameList(got[i].Values(), c.vals[i:i+1]), "SetValues reports all values in order")
	}
}

// H_C11_delete: the table and the conditions of DELETE.
func H_C11_delete() {
	m := &model{}
	table := ident("table")
	var b query.DeleteBuilder
	switch v.Choice("constructor", 5) {
	case 0:
		b = query.TableName(table).Delete(m.leaf())
	case 1:
		b = query.TableName(table).Ident().As("al").Delete(m.leaf(), m.leaf())
	case 2:
		b = query.SelectFrom(query.TableName(table).Ident().As("al")).Where(m.leaf()).Delete()
	case 3:
		b = query.SelectManyFrom(query.TableName(table)).Where(m.leaf()).Where(m.leaf()).Delete()
	default:
		b = query.Delete(query.TableName(table).Ident())
	}
	n := v.Bound("Where calls", 3, 5)
	for i := 0; i < n; i++ {
		switch v.Choice("call", 3) {
		case 1:
			b = b.Where(m.leaf())
		case 2:
			b = b.Where(m.leaf(), m.leaf())
		}
	}
	if len(m.conds) == 0 {
		refused(b, false, "DELETE")
		return
	}
	m.compare(b, "DELETE FROM "+table+m.narrowed(0), m.vals, "DELETE")
}

// H_C11_same: a column set twice is kept twice, each time with its own value.
func H_C11_same() {
	name := ident("column")
	x, y := v.AnyInt("x"), v.AnyInt("y")
	f := query.FieldName(name)
	if v.Choice("kind", 2) == 0 {
		b := query.InsertInto("tb").Values(f.Value(x)).Values(f.Value(y))
		new(model).compare(b, "INSERT INTO tb("+name+", "+name+") VALUES ($1, $2)", []any{x, y}, "INSERT")
		return
	}
	m := &model{}
	b := query.Update("tb").Set(f.Value(x), f.Value(y)).Where(m.leaf())
	new(model).compare(b, "UPDATE tb SET "+name+"=$1, "+name+"=$2"+m.narrowed(2), []any{x, y, m.vals[0]}, "UPDATE")
}

// H_C11_large: many columns, values and conditions.
func H_C11_large() {
	n := large("parts", 130)
	c, m := &columns{}, &model{}
	calls := v.Choice("calls", 3)
	vals := c.plain(n)
	if twins := v.Choice("twins", 4); twins > 0 { // a column given again right away, later or always
		for i := range vals {
			j := i
			switch {
			case twins == 1 && i == n-1:
				j = n - 2
			case twins == 2 && i > n/2:
				j = i - n/2
			case twins == 3:
				j = 0
			}
			c.names[i] = c.names[j]
			vals[i] = query.FieldName(c.names[j]).Value(c.vals[i])
		}
	}
	switch v.Choice("statement", 3) {
	case 0:
		b := query.InsertInto("tb")
		switch calls {
		case 0:
			b = b.Values(vals...)
		case 1:
			for _, x := range vals {
				b = b.Values(x)
			}
		default:
			b = query.TableName("tb").InsertInto(vals[:n/2]...).Values(vals[n/2:]...)
		}
		sql, params := c.insert("tb")
		m.compare(b, sql, params, "INSERT")
		v.Assert(len(b.SetValues()) == n, "SetValues reports all values")
	case 1:
		b := query.Update("tb").Where(m.leaf())
		switch calls {
		case 0:
			b = b.Set(vals...)
		case 1:
			for _, x := range vals {
				b = b.Set(x)
			}
		default:
			b = query.TableName("tb").Update(vals[:n/2]...).Set(vals[n/2:]...).Where(query.EqualTo(query.FieldName(m.conds[0][:len(m.conds[0])-2]), m.vals[0]))
		}
		b = b.Where(m.leaf(), m.leaf())
		sql, params := c.update("tb", m)
		m.compare(b, sql, params, "UPDATE")
		v.Assert(len(b.SetValues()) == n, "SetValues reports all values")
	default:
		b := query.Delete("tb")
		switch calls {
		case 0:
			for i := 0; i < n; i++ {
				b = b.Where(m.leaf())
			}
		case 1:
			var cs []query.Condition
			for i := 0; i < n; i++ {
				cs = append(cs, m.leaf())
			}
			b = b.Where(cs...)
		default:
			for i := 0; i < n; i++ {
				b = b.Where(m.leaf(), m.leaf())
			}
		}
		m.compare(b, "DELETE FROM tb"+m.narrowed(0), m.vals, "DELETE")
	}
}

// H_C11_long: long names.
func H_C11_long() {
	n := large("length", 300)
	table, a, b := lengthy("table", n, "word"), lengthy("a", n, "word"), lengthy("b", n, "word")
	x, y := v.AnyInt("x"), v.AnyInt("y")
	m := &model{}
	fa, fb := query.FieldName(a).Value(x), query.Field(query.FieldName(table+"."+b+" AS "+a)).Value(y)
	m.compare(query.InsertInto(table).Values(fa, fb), "INSERT INTO "+table+"("+a+", "+b+") VALUES ($1, $2)", []any{x, y}, "INSERT")
	c := query.Less(query.FieldName(b), 5)
	m.compare(query.TableName(table).Update(fa, fb).Where(c), "UPDATE "+table+" SET "+a+"=$1, "+b+"=$2 WHERE "+b+"<$3", []any{x, y, 5}, "UPDATE")
	m.compare(query.Table(table+" AS "+a).Delete(c), "DELETE FROM "+table+" WHERE "+b+"<$1", []any{5}, "DELETE")
}

// H_C11_values: values of any type, nil too, are all set.
func H_C11_values() {
	var vals []query.FieldValue
	c, m := &columns{}, &model{}
	n := v.Bound("values of any type", 2, 3)
	at := v.Choice("position", n)
	for i := 0; i < n; i++ {
		name, kind := "s"+itoa(i), 3
		if i == at {
			kind = v.Choice("kind", nSingles)
		}
		given, bound := single(kind, "value")
		c.names, c.vals = append(c.names, name), append(c.vals, bound)
		vals = append(vals, query.FieldName(name).Value(given))
	}
	if v.Choice("statement", 2) == 0 {
		sql, params := c.insert("tb")
		m.compare(query.InsertInto("tb").Values(vals...), sql, params, "INSERT")
		return
	}
	b := query.Update("tb").Set(vals...).Where(m.leaf())
	sql, params := c.update("tb", m)
	m.compare(b, sql, params, "UPDATE")
}

// H_C11_odd: names of any printable characters.
func H_C11_odd() {
	table, name, other := printable("table", 4), part("column", 3), part("where", 3)
	x, y := v.AnyInt("x"), v.AnyInt("y")
	m := &model{}
	f := query.FieldName(name).Value(x)
	switch v.Choice("statement", 3) {
	case 0:
		m.compare(query.InsertInto(table).Values(f, query.Field("b").Value(y)), "INSERT INTO "+table+"("+name+", b) VALUES ($1, $2)", []any{x, y}, "INSERT")
	case 1:
		m.compare(query.Update(table).Set(f, query.FieldName("b").Value(y)).Where(query.Less(query.FieldName(other), 5)), "UPDATE "+table+" SET "+name+"=$1, b=$2 WHERE "+other+"<$3", []any{x, y, 5}, "UPDATE")
	default:
		m.compare(query.Delete(table).Where(query.Less(query.FieldName(other), 5), query.EqualTo(query.FieldName(name), x)), "DELETE FROM "+table+" WHERE "+other+"<$1 AND "+name+"=$2", []any{5, x}, "DELETE")
	}
}
