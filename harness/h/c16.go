package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// parts draws a definition with an arbitrary table, name and alias, possibly equal to one another.
func parts() (f query.FieldDefinition, table, name, alias string) {
	table = v.Str("table", v.Choice("table length", 3), "word")
	name = ident("name")
	alias = v.Str("alias", v.Choice("alias length", 3), "word")
	how := v.Choice("made by", 4)
	switch {
	case how == 0:
		f = query.Field(name).Of(query.TableName(table)).As(query.FieldName(alias))
	case how == 1:
		f = query.FieldName(name).Field().As(query.FieldName(alias)).Of(query.TableName(table))
	case how == 2 && table != "":
		f = query.TableName(table).Field(query.FieldName(name)).As(query.FieldName(alias))
	default:
		s := name
		if table != "" {
			s = table + "." + s
		}
		if alias != "" {
			s += " AS " + alias
		}
		f = query.Field(s)
	}
	return f, table, name, alias
}

func fieldText(table, name string) string {
	if table == "" {
		return name
	}
	return table + "." + name
}

// specText is what a SELECT list shows.
func specText(table, name, alias string) string {
	s := fieldText(table, name)
	if alias != "" && (table != "" || alias != name) {
		s += " AS " + alias
	}
	return s
}

// refText is what conditions and orderings show.
func refText(table, name, alias string) string {
	if alias != "" && alias != name {
		return alias
	}
	return fieldText(table, name)
}

func judgeField(f query.FieldDefinition, table, name, alias string) {
	v.Assert(isField(f, table, name, alias), "the parts are told")
	v.Assert(v.Eq(f.RenderSpec(), specText(table, name, alias)), "the SELECT list form")
	v.Assert(v.Eq(f.RenderField(), refText(table, name, alias)), "the condition form")
	v.Assert(v.Eq(f.RenderTableSpec(), table+"."+name), "the ON form")
	v.Assert(v.Eq(string(f.TableFieldName()), table+"."+name), "the ON form as a name")
	v.Observe("spec", f.RenderSpec())
	v.Observe("field", f.RenderField())
	v.Observe("on", f.RenderTableSpec())
}

// H_C16_parts: definitions themselves.
func H_C16_parts() {
	f, table, name, alias := parts()
	judgeField(f, table, name, alias)
	v.Reach("judged")
	table2 := v.Str("table2", v.Choice("table2 length", 2), "word")
	alias2 := v.Str("alias2", v.Choice("alias2 length", 2), "word")
	g, h := f.Of(query.TableName(table2)), f.As(query.FieldName(alias2))
	judgeField(g, table2, name, alias)
	judgeField(h, table, name, alias2)
	judgeField(f, table, name, alias)
}

// H_C16_clauses: definitions inside of clauses.
func H_C16_clauses() {
	f, table, name, alias := parts()
	spec, ref, on := specText(table, name, alias), refText(table, name, alias), table+"."+name
	raw := query.FieldName(name)
	list, on2 := "x, "+spec+", "+spec, "p.b"
	v.Reach("judged")
	switch v.Choice("clause", 8) {
	case 0:
		v.Assert(v.Eq(query.NewFields("x", f, f).FieldList(), list), "in a field list")
		v.Assert(v.Eq(query.Fields{}.Fields(query.Field("x"), f, f).FieldList(), list), "in a field list")
	case 1:
		sql, _ := build(query.SelectFrom("t").Fields(query.Field("x"), f, f))
		v.Assert(v.Eq(sql, "SELECT "+list+" FROM t"), "in a SELECT")
		sql, _ = build(query.SelectManyFrom("t").Fields(query.Field("x"), f, f))
		v.Assert(v.Eq(sql, "SELECT "+list+" FROM t"), "in a SELECT of many")
		sql, _ = build(query.SelectSingleFrom("t").Fields(query.Field("x"), f, f))
		v.Assert(v.Eq(sql, "SELECT "+list+" FROM t LIMIT 1"), "in a SELECT of one")
		v.Observe("sql", sql)
	case 2:
		c := mkAs([]int{0, 5, 6, 7, 8}[v.Choice("comparison", 5)], name, "c").c.ApplyFieldSpec(f)
		text := c.RenderSQL()
		op := text[len(text)-2:]
		if len(text) > len(ref)+2 {
			op = text[len(text)-3:]
		}
		v.Assert(v.And(v.Eq(text, ref+op), v.Not(has(op, " "))), "in a comparison")
		v.Assert(v.Eq(query.Not(c).RenderSQL(), "NOT "+ref+op), "in a negated comparison")
		v.Assert(v.Eq(c.Render(2), ref+op[:len(op)-1]+"$3"), "in a numbered comparison")
	case 3:
		c := mkAs([]int{1, 2, 3, 9, 10}[v.Choice("operator", 5)], name, "c").c.ApplyFieldSpec(f)
		sql, neg := c.RenderSQL(), query.Not(c).RenderSQL()
		v.Assert(len(sql) > len(ref) && len(neg) > len(ref), "long enough")
		v.Assert(v.And(v.Eq(sql[:len(ref)+1], ref+" "), v.Eq(neg[:len(ref)+1], ref+" ")), "before an operator")
		v.Assert(!has(sql[len(ref):], "AS ") && !has(neg[len(ref):], "AS "), "without AS")
		num := c.Render(2)
		v.Assert(v.Eq(num[:len(ref)+1], ref+" "), "before a numbered operator")
	case 4:
		o := query.ASC(raw).ApplyFieldSpec(f)
		v.Assert(v.Eq(o.Render(), ref+" ASC"), "in an ordering")
		sql, _ := build(query.SelectFrom("t").OrderBy(query.DESC("x"), o))
		v.Assert(v.Eq(sql, "SELECT * FROM t ORDER BY x DESC, "+ref+" ASC"), "in ORDER BY")
		v.Observe("sql", sql)
	case 5:
		g := query.Field("p.b as z")
		v.Assert(v.Eq(query.JoinFields(f, g).Render(), on+"="+on2), "left in ON")
		v.Assert(v.Eq(query.JoinFields(g, f).Render(), on2+"="+on), "right in ON")
		sql, _ := build(query.SelectFrom("t").LeftJoin(query.Table("p")).On(f, g))
		v.Assert(v.Eq(sql, "SELECT * FROM t LEFT JOIN p ON "+on+"="+on2), "in a join")
	case 6: // definitions given as text to conditions
		s := fieldText(table, name)
		if alias != "" {
			s += " as " + alias
		}
		n := query.FieldName(s)
		v.Assert(v.Eq(query.EqualTo(n, 1).Render(0), ref+"=$1"), "text in a comparison")
		v.Assert(v.Eq(query.IsNull(n).Render(0), ref+" IS NULL"), "text in IS NULL")
		v.Assert(v.Eq(query.In(n, []string{"x"}).Render(0), ref+" IN ($1)"), "text in IN")
		v.Assert(v.Eq(query.Contains(n, "x").Render(0), ref+" LIKE $1"), "text in LIKE")
		v.Assert(v.Eq(query.IContains(n, "x").Render(0), ref+" ILIKE $1"), "text in ILIKE")
	default:
		sql, _ := build(query.Delete("t").Where(query.EqualTo("k", 1).And(query.IsNull(raw).ApplyFieldSpec(f))))
		v.Assert(v.Eq(sql, "DELETE FROM t WHERE k=$1 AND "+ref+" IS NULL"), "in a statement")
		sql, _ = build(query.Count(query.SelectFrom("t"), query.FieldName(fieldText(table, name))))
		v.Assert(v.Eq(sql, "SELECT COUNT("+fieldText(table, name)+") FROM t"), "in COUNT")
	}
}

// H_C16_long: long parts.
func H_C16_long() {
	n := large("length", 300)
	table, name, alias := "", lengthy("name", n, "word"), ""
	if v.Choice("qualified", 2) == 1 {
		table = lengthy("table", n, "word")
	}
	if v.Choice("aliased", 2) == 1 {
		alias = lengthy("alias", n, "word")
	}
	f := query.Field(name).Of(query.TableName(table)).As(query.FieldName(alias))
	judgeField(f, table, name, alias)
	v.Assert(v.Eq(query.NewFields(f, f, "x").FieldList(), specText(table, name, alias)+", "+specText(table, name, alias)+", x"), "in a field list")
	v.Assert(v.Eq(query.ASC("o").ApplyFieldSpec(query.Field("p")).Render(), "o ASC"), "others stay")
	v.Assert(v.Eq(query.IsNull(query.FieldName(name)).ApplyFieldSpec(f).RenderSQL(), refText(table, name, alias)+" IS NULL"), "in a condition")
	v.Assert(v.Eq(query.DESC(query.FieldName(name)).ApplyFieldSpec(f).Render(), refText(table, name, alias)+" DESC"), "in an ordering")
	v.Assert(v.Eq(query.JoinFields(f, f).Render(), table+"."+name+"="+table+"."+name), "in ON")
	v.Reach("judged")
}

// H_C16_list: field lists of many fields.
func H_C16_list() {
	n := large("fields", 130)
	var defs []query.FieldDefinition
	var args []any
	list := ""
	for i := 0; i < n; i++ {
		table, name, alias := "", "f"+itoa(i)+v.Str("field", 1, "ident"), ""
		if i%3 == 1 {
			table = "t" + itoa(i%2)
		}
		if i%4 >= 2 {
			alias = "a" + v.Str("alias", 1, "ident")
		}
		f := query.Field(name).Of(query.TableName(table)).As(query.FieldName(alias))
		defs, args = append(defs, f), append(args, f)
		if i > 0 {
			list += ", "
		}
		list += specText(table, name, alias)
	}
	v.Reach("judged")
	v.Assert(v.Eq(query.NewFields(args...).FieldList(), list), "in a field list")
	v.Assert(v.Eq(query.Fields{}.Fields(defs...).FieldList(), list), "in a field list")
	sql, _ := build(query.SelectFrom("t").Fields(defs...))
	v.Assert(v.Eq(sql, "SELECT "+list+" FROM t"), "in a SELECT")
	sql, _ = build(query.SelectSingleFrom("t").Fields(defs...))
	v.Assert(v.Eq(sql, "SELECT "+list+" FROM t LIMIT 1"), "in a SELECT of one")
	v.Assert(v.Eq(query.SelectManyFrom("t").Fields(defs...).FieldList(), list), "in a SELECT of many")
}
