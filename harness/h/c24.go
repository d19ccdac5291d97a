package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// alike asserts that two ways of making an object give the same object, or the same panic.
func alike(what string, short, long func() any) {
	var a, b any
	p, x := catch(func() { a = short() })
	q, y := catch(func() { b = long() })
	v.Assert(p == q, what+" fails as its long form")
	if p || q {
		if e, ok := x.(error); ok && p && q {
			f, ok := y.(error)
			v.Assert(ok && e.Error() == f.Error(), what+" fails with the error of its long form")
		}
		v.Reach("failed")
		return
	}
	v.Assert(look(a).same(look(b)), what+" is the same as its long form")
	v.Reach("agree")
}

// fieldSpec is a field name in every form, invalid ones included.
func fieldSpec() query.FieldName {
	n := v.Str("field", 1, "")
	switch v.Choice("field form", 6) {
	case 0:
		return query.FieldName(n)
	case 1:
		return query.FieldName("t." + n)
	case 2:
		return query.FieldName("f as " + n)
	case 3:
		return query.FieldName("t." + n + " AS al")
	case 4:
		return query.FieldName("f " + n)
	}
	return ""
}

// tableSpec is a table name in every form, invalid ones included.
func tableSpec() query.TableName {
	n := v.Str("table", 1, "")
	switch v.Choice("table form", 5) {
	case 0:
		return query.TableName(n)
	case 1:
		return query.TableName("t " + n)
	case 2:
		return query.TableName("t as " + n)
	case 3:
		return query.TableName("t " + n + " u")
	}
	return ""
}

// H_C24_fields: methods of field names.
func H_C24_fields() {
	f := fieldSpec()
	x, text := v.AnyInt("x"), v.Str("text", 2, "")
	switch v.Choice("method", 17) {
	case 0:
		alike("FieldName.Contains", func() any { return f.Contains(text) }, func() any { return query.Contains(f, text) })
	case 1:
		alike("FieldName.IContains", func() any { return f.IContains(text) }, func() any { return query.IContains(f, text) })
	case 2:
		alike("FieldName.EqualTo", func() any { return f.EqualTo(x) }, func() any { return query.EqualTo(f, x) })
	case 3:
		l := []string{"p", text}
		alike("FieldName.In", func() any { return f.In(l) }, func() any { return query.In(f, l) })
	case 4:
		alike("FieldName.IsNull", func() any { return f.IsNull() }, func() any { return query.IsNull(f) })
	case 5:
		alike("FieldName.Value", func() any { return f.Value(x) }, func() any { return *query.NewFieldValue(f, x) })
	case 6:
		alike("FieldName.Value of a list", func() any { return f.Value([]string{"p", text}) }, func() any { return *query.NewFieldValue(f, []string{"p", text}) })
	case 7:
		alike("FieldName.Field", func() any { return f.Field() }, func() any { return query.Field(f) })
	case 8:
		alike("Field of a string", func() any { return query.Field(string(f)) }, func() any { return query.Field(f) })
	case 9:
		alike("TableName.Field", func() any { return query.TableName("tb").Field(f) }, func() any { return query.Field(f).Of("tb") })
	case 10:
		alike("TableIdent.Field", func() any { return query.Table("tb").Field(f) }, func() any { return query.Field(f).Of("tb") })
	case 11:
		alike("TableIdent.Field with alias", func() any { return query.Table("tb as al").Field(f) }, func() any { return query.Field(f).Of("al") })
	case 12:
		alike("FieldName.Value of a provider", func() any { return f.Value(provider{x}) }, func() any { return *query.NewFieldValue(f, provider{x}) })
	case 13:
		y, _ := single(v.Choice("type", nSingles), "y")
		alike("FieldName.Value of anything", func() any { return f.Value(y) }, func() any { return *query.NewFieldValue(f, y) })
	case 14:
		y, _ := single(v.Choice("type", nSingles), "y")
		alike("FieldName.EqualTo of anything", func() any { return f.EqualTo(y) }, func() any { return query.EqualTo(f, y) })
	case 15:
		y, _ := list(v.Choice("list type", nLists), v.Choice("length", 3), "y")
		alike("FieldName.In of anything", func() any { return f.In(y) }, func() any { return query.In(f, y) })
	default:
		y := nullable{v.Bool("null"), v.Str("s", v.Choice("length", 3), "")}
		alike("FieldName.Value of a text provider", func() any { return f.Value(y) }, func() any { return *query.NewFieldValue(f, y) })
	}
}

// H_C24_values: values of field definitions, and lists of fields.
func H_C24_values() {
	f := fieldSpec()
	x := v.AnyInt("x")
	switch v.Choice("method", 6) {
	case 5:
		y, _ := single(v.Choice("type", nSingles), "y")
		alike("FieldDefinition.Value of anything", func() any { return query.InsertInto("t").Values(query.Field(f).Value(y)) }, func() any {
			d := query.Field(f)
			return query.InsertInto("t").Values(query.NewFieldValue(d.FieldName(), y).ApplyFieldTable(d.TableName()))
		})
	case 0: // the value is set for the column of the definition
		alike("FieldDefinition.Value", func() any { return query.InsertInto("t").Values(query.Field(f).Value(x)) },
			func() any {
				d := query.Field(f)
				return query.InsertInto("t").Values(query.NewFieldValue(d.FieldName(), x).ApplyFieldTable(d.TableName()))
			})
	case 1:
		alike("NewFields of names", func() any { return query.NewFields(f, "g") }, func() any { return query.NewFields().Fields(query.Field(f), query.Field("g")) })
	case 2:
		alike("NewFields of strings", func() any { return query.NewFields("g", string(f)) }, func() any { return query.NewFields().Fields(query.Field("g"), query.Field(f)) })
	case 3:
		alike("NewFields of definitions", func() any { return query.NewFields(query.Field(f)) }, func() any { return query.NewFields().Fields(query.Field(f)) })
	default:
		alike("Field of a definition", func() any { return query.Field(query.Field(f)) }, func() any { return query.Field(f) })
	}
}

// H_C24_order: orderings.
func H_C24_order() {
	f := fieldSpec()
	switch v.Choice("method", 3) {
	case 0:
		alike("OrderBy", func() any { return query.OrderBy(f) }, func() any { return query.ASC(f) })
	case 1:
		alike("OrderBy ascending", func() any { return query.OrderBy(f, query.Ascending) }, func() any { return query.ASC(f) })
	default:
		alike("OrderBy descending", func() any { return query.OrderBy(f, query.Descending) }, func() any { return query.DESC(f) })
	}
}

// args are the arguments of a shorthand.
type args struct {
	cs []query.Condition
	vs []query.FieldValue
}

func newArgs() args {
	w := newWorld(rotate)
	return args{conds(w.list(v.Choice("conditions", nShapes))), setValues(v.Choice("values", 3))}
}

// H_C24_tables: methods of table names.
func H_C24_tables() {
	t := tableSpec()
	if method := v.Choice("method", 12); method < 5 {
		a := args{}
		if method == 0 || method == 1 {
			a.vs = setValues(v.Choice("values", 3))
		} else {
			a.cs = conds(newWorld(rotate).list(v.Choice("conditions", 4)))
		}
		tableStatement("TableName", method, a, func() any {
			switch method {
			case 0:
				return t.InsertInto(a.vs...)
			case 1:
				return t.Update(a.vs...).Where(query.IsNull("c"))
			case 2:
				return t.Select(a.cs...)
			case 3:
				return t.SelectOne(a.cs...)
			}
			return t.SelectMany(a.cs...)
		}, func() any {
			switch method {
			case 0:
				return query.InsertInto(t).Values(a.vs...)
			case 1:
				return query.Update(t).Set(a.vs...).Where(query.IsNull("c"))
			case 2:
				return query.SelectFrom(t).Where(a.cs...)
			case 3:
				return query.SelectSingleFrom(t).Where(a.cs...)
			}
			return query.SelectManyFrom(t).Where(a.cs...)
		})
		return
	} else {
		switch method {
		case 5:
			cs := conds(newWorld(rotate).list(v.Choice("conditions", 4)))
			alike("TableName.Delete", func() any { return t.Delete(cs...) }, func() any { return query.Delete(t).Where(cs...) })
		case 6:
			alike("TableName.Ident", func() any { return t.Ident() }, func() any { return query.Table(string(t)) })
		case 7:
			alike("InsertInto of a string", func() any { return query.InsertInto(string(t)).Values(query.FieldName("a").Value(1)) }, func() any { return query.InsertInto(t).Values(query.FieldName("a").Value(1)) })
		case 8:
			alike("Update of a string", func() any { return query.Update(string(t)).Where(query.IsNull("c")).Set(query.FieldName("a").Value(1)) }, func() any { return query.Update(t).Where(query.IsNull("c")).Set(query.FieldName("a").Value(1)) })
		case 9:
			alike("Delete of a string", func() any { return query.Delete(string(t)).Where(query.IsNull("c")) }, func() any { return query.Delete(t).Where(query.IsNull("c")) })
		case 10: // a name, a string and an ident select from the same table
			switch v.Choice("kind", 3) {
			case 0:
				alike("SelectFrom", func() any { return query.SelectFrom(string(t)) }, func() any { return query.SelectFrom(t) })
				alike("SelectFrom", func() any { return query.SelectFrom(query.Table(t)) }, func() any { return query.SelectFrom(t) })
			case 1:
				alike("SelectManyFrom", func() any { return query.SelectManyFrom(string(t)) }, func() any { return query.SelectManyFromBase(query.SelectFrom(t)) })
				alike("SelectManyFrom", func() any { return query.SelectManyFrom(query.Table(t)) }, func() any { return query.SelectFrom(t).Many() })
			default:
				alike("SelectSingleFrom", func() any { return query.SelectSingleFrom(string(t)) }, func() any { return query.SelectSingleFromBase(query.SelectFrom(t)) })
				alike("SelectSingleFrom", func() any { return query.SelectSingleFrom(query.Table(t)) }, func() any { return query.SelectFrom(t).Single() })
			}
		default:
			joins("TableName", t, func(r query.TableIdent, kind int) query.IncompleteSelectJoin {
				return []func() query.IncompleteSelectJoin{
					func() query.IncompleteSelectJoin { return t.InnerJoin(r) },
					func() query.IncompleteSelectJoin { return t.LeftJoin(r) },
					func() query.IncompleteSelectJoin { return t.RightJoin(r) },
					func() query.IncompleteSelectJoin { return t.FullJoin(r) },
				}[kind]()
			}, func(r query.TableIdent, kind int) query.IncompleteSelectJoin { return t.Join(r, joinTypes[kind]) },
				func() query.BaseSelectBuilder { return query.SelectFrom(t) })
		}
	}
}

func tableStatement(what string, method int, a args, short, long func() any) {
	alike(what+"."+[]string{"InsertInto", "Update", "Select", "SelectOne", "SelectMany"}[method], short, long)
}

func joins(what string, t any, short func(r query.TableIdent, kind int) query.IncompleteSelectJoin, middle func(r query.TableIdent, kind int) query.IncompleteSelectJoin, base func() query.BaseSelectBuilder) {
	r := query.Table([]string{"r", "r as s"}[v.Choice("right", 2)])
	kind := v.Choice("type", 4)
	l, o := query.Field("a.b"), query.Field("c.d")
	long := func() any { return base().Join(r, joinTypes[kind]).On(l, o) }
	alike(what+".Join", func() any { return middle(r, kind).On(l, o) }, long)
	alike(what+" join shorthand", func() any { return short(r, kind).On(l, o) }, long)
}

// H_C24_idents: methods of table idents.
func H_C24_idents() {
	id := query.TableName(name2("table")).Ident()
	if v.Choice("aliased", 2) == 1 {
		id = id.As(query.TableName(name2("alias")))
	}
	switch v.Choice("method", 9) {
	case 0:
		vs := setValues(v.Choice("values", 3))
		alike("TableIdent.InsertInto", func() any { return id.InsertInto(vs...) }, func() any { return query.InsertInto(id.TableName()).Values(vs...) })
	case 1:
		vs := setValues(v.Choice("values", 3))
		c := mk(v.Choice("condition kind", nKinds), "c").c
		alike("TableIdent.Update", func() any { return id.Update(vs...).Where(c) }, func() any { return query.Update(id.TableName()).Set(vs...).Where(c) })
	case 2:
		a := newArgs()
		alike("TableIdent.Delete", func() any { return id.Delete(a.cs...) }, func() any { return query.Delete(string(id.TableName())).Where(a.cs...) })
	case 3:
		a := newArgs()
		alike("TableIdent.Select", func() any { return id.Select(a.cs...) }, func() any { return query.SelectFrom(id).Where(a.cs...) })
	case 4:
		a := newArgs()
		alike("TableIdent.SelectOne", func() any { return id.SelectOne(a.cs...) }, func() any { return query.SelectSingleFrom(id).Where(a.cs...) })
	case 5:
		a := newArgs()
		alike("TableIdent.SelectMany", func() any { return id.SelectMany(a.cs...) }, func() any { return query.SelectManyFrom(id).Where(a.cs...) })
	case 6:
		a := newArgs()
		alike("TableIdent.Count", func() any { return id.Count(a.cs...) }, func() any { return query.Count(query.SelectFrom(id).Where(a.cs...)) })
	case 7:
		joins("TableIdent", id, func(r query.TableIdent, kind int) query.IncompleteSelectJoin {
			return []func() query.IncompleteSelectJoin{
				func() query.IncompleteSelectJoin { return id.InnerJoin(r) },
				func() query.IncompleteSelectJoin { return id.LeftJoin(r) },
				func() query.IncompleteSelectJoin { return id.RightJoin(r) },
				func() query.IncompleteSelectJoin { return id.FullJoin(r) },
			}[kind]()
		}, func(r query.TableIdent, kind int) query.IncompleteSelectJoin { return id.Join(r, joinTypes[kind]) },
			func() query.BaseSelectBuilder { return query.SelectFrom(id) })
	default:
		joins("TableJoinType", id, func(r query.TableIdent, kind int) query.IncompleteSelectJoin {
			return joinTypes[kind].Tables(id, r)
		}, func(r query.TableIdent, kind int) query.IncompleteSelectJoin { return joinTypes[kind].Tables(id, r) },
			func() query.BaseSelectBuilder { return query.SelectFrom(id) })
	}
}

// H_C24_builders: shortcuts of builders.
func H_C24_builders() {
	a := newArgs()
	src := sourceOf(v.Choice("source", 3), v.Choice("joins", 2), v.Choice("fields", 2), "t", []string{"", "u"}[v.Choice("alias", 2)])
	src.where(a.cs...)
	base := baseOf(src.s)
	switch v.Choice("shortcut", 9) {
	case 0:
		n := v.AnyInt("n")
		alike("Limit", func() any { return base.Limit(n) }, func() any { return base.Many().Limit(n) })
	case 1:
		n := v.AnyUint("n")
		alike("Offset", func() any { return base.Offset(n) }, func() any { return base.Many().Offset(n) })
	case 2:
		o := []query.FieldSorting{query.ASC("p"), query.DESC("q")}[:v.Choice("orders", 3)]
		alike("OrderBy", func() any { return base.OrderBy(o...) }, func() any { return base.Many().OrderBy(o...) })
	case 3:
		alike("Count", func() any { return src.s.Count() }, func() any { return query.Count(base) })
	case 4:
		alike("Single", func() any { return base.Single() }, func() any { return query.SelectSingleFromBase(base) })
	case 5:
		alike("Many", func() any { return base.Many() }, func() any { return query.SelectManyFromBase(base) })
	case 6:
		alike("Update", func() any { return src.s.Update(a.vs...) }, func() any { return query.Update("t").Where(a.cs...).Set(a.vs...) })
	case 7:
		alike("Delete", func() any { return src.s.Delete() }, func() any { return query.Delete("t").Where(a.cs...) })
	default:
		alike("InsertInto", func() any { return src.s.InsertInto(a.vs...) }, func() any { return query.InsertInto("t").Values(a.vs...) })
	}
}

// H_C24_joins: join shortcuts of builders.
func H_C24_joins() {
	src := sourceOf(v.Choice("source", 3), v.Choice("joins", 3), 1, "t", "u")
	spec := tableSpec()
	l, o := query.Field("a.b as c"), query.Field("c.d")
	kind := v.Choice("type", 4)
	switch b := src.s.(type) {
	case query.BaseSelectBuilder:
		alike("join shorthand", func() any {
			r := query.Table(spec)
			switch kind {
			case 0:
				return b.InnerJoin(r).On(l, o)
			case 1:
				return b.LeftJoin(r).On(l, o)
			case 2:
				return b.RightJoin(r).On(l, o)
			}
			return b.FullJoin(r).On(l, o)
		}, func() any { return b.Join(query.Table(spec), joinTypes[kind]).On(l, o) })
	case query.SelectManyBuilder:
		alike("join shorthand", func() any {
			switch kind {
			case 0:
				return b.InnerJoin(spec).On(l, o)
			case 1:
				return b.LeftJoin(spec).On(l, o)
			case 2:
				return b.RightJoin(spec).On(l, o)
			}
			return b.FullJoin(spec).On(l, o)
		}, func() any { return b.Join(spec, joinTypes[kind]).On(l, o) })
	case query.SelectSingleBuilder:
		alike("join shorthand", func() any {
			switch kind {
			case 0:
				return b.InnerJoin(spec).On(l, o)
			case 1:
				return b.LeftJoin(spec).On(l, o)
			case 2:
				return b.RightJoin(spec).On(l, o)
			}
			return b.FullJoin(spec).On(l, o)
		}, func() any { return b.Join(spec, joinTypes[kind]).On(l, o) })
	}
}

// H_C24_joiners: helpers of join types and join conditions.
func H_C24_joiners() {
	l, r := query.Field(query.FieldName("a."+name2("left"))), query.Field(query.FieldName("b."+name2("right")+" as c"))
	on := query.JoinFields(l, r)
	kind := v.Choice("type", 4)
	long := func() any { return query.NewTableJoiner(query.Table("b"), joinTypes[kind], on) }
	switch v.Choice("helper", 3) {
	case 0:
		alike("JoinCondition.Using", func() any { return on.Using(joinTypes[kind]) }, long)
	case 1:
		alike("TableJoinType.By", func() any { return joinTypes[kind].By(l, r) }, long)
	default:
		alike("JoinCondition shorthand", func() any {
			switch kind {
			case 0:
				return on.InnerJoin()
			case 1:
				return on.LeftJoin()
			case 2:
				return on.RightJoin()
			}
			return on.FullJoin()
		}, long)
	}
}

// H_C24_logic: shorthands of conditions.
func H_C24_logic() {
	w := newWorld(rotate)
	x := w.tree(v.Choice("size", 1+v.Bound("combinators", 1, 2))).c
	cs := conds(w.list(v.Choice("conditions", nShapes)))
	j := []query.JoinType{query.LogicalAND, query.LogicalOR}[v.Choice("join", 2)]
	switch v.Choice("shorthand", 8) {
	case 0:
		alike("Not", func() any { return query.Not(x) }, func() any { return x.Negate(true) })
	case 1:
		alike("And of one", func() any { return query.And(x) }, func() any { return x.Join(query.LogicalAND) })
	case 2:
		alike("Or of one", func() any { return query.Or(x) }, func() any { return x.Join(query.LogicalOR) })
	case 3:
		alike("JoinType.Join of one", func() any { return j.Join(x) }, func() any { return x.Join(j) })
	case 4:
		all := append([]query.Condition{x}, cs...)
		if len(all) > 1 {
			alike("JoinType.Join of many", func() any { return j.Join(all...) }, func() any { return query.NewGroup(j, all...) })
		}
	case 5:
		g, ok := x.(query.Group)
		if !ok {
			g = query.NewGroup(j, x)
		}
		alike("Group.And", func() any { return g.And(cs...) }, func() any { return g.GroupAND(cs...) })
		alike("Group.Or", func() any { return g.Or(cs...) }, func() any { return g.GroupOR(cs...) })
	case 6:
		all := append([]query.Condition{x}, cs...)
		got := j.SetToAll(all...)
		v.Assert(len(got) == len(all), "SetToAll keeps all conditions")
		for i := range all {
			if i < len(got) {
				v.Assert(look(got[i]).same(look(all[i].Join(j))), "SetToAll joins each condition")
			}
		}
	default:
		c := query.NewWhere().GroupAND(x).GroupOR(cs...)
		g := query.NewGroup(query.LogicalAND).GroupAND(x).GroupOR(cs...)
		v.Assert(v.Eq(c.Render(2), g.Render(2)) && v.Eq(c.RenderSQL(), g.RenderSQL()), "WhereClause renders its group")
		v.Assert(sameList(c.Values(), g.Values()), "WhereClause has the values of its group")
	}
}
