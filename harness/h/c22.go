package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// H_C22_operation: every integer as an operation.
func H_C22_operation() {
	n := v.AnyInt("n")
	if v.Choice("small", 2) == 1 {
		v.Assume(n > -20 && n < 20)
	}
	op := query.Operation(n)
	want := ""
	switch n {
	case 0:
		want = "SELECT"
	case 1:
		want = "INSERT"
	case 2:
		want = "UPDATE"
	case 3:
		want = "DELETE"
	default:
		want = "unknown(" + itoa(n) + ")"
	}
	v.Assert(v.Eq(op.String(), want), "the keyword of the operation")
	v.Assert(op.New().Operation() == op, "a builder tells its operation")
	v.Observe("op", op.String())
	v.Reach("printed")
	v.Assert(query.DoSelect == 0 && query.DoInsert == 1 && query.DoUpdate == 2 && query.DoDelete == 3, "constants")
}

// H_C22_join: every integer as a join type.
func H_C22_join() {
	n := v.AnyInt("n")
	j := query.TableJoinType(n)
	want := ""
	switch j {
	case query.InnerJoin:
		want = "INNER JOIN"
	case query.LeftJoin:
		want = "LEFT JOIN"
	case query.RightJoin:
		want = "RIGHT JOIN"
	case query.FullJoin:
		want = "FULL JOIN"
	default:
		want = "unknown JOIN(" + itoa(n) + ")"
	}
	v.Assert(v.Eq(j.String(), want), "the keyword of the join")
	v.Observe("join", j.String())
	v.Reach("printed")
	t := j.By(query.Field("a.b"), query.Field("c.d"))
	v.Assert(t.JoinType() == j && v.Eq(t.RenderFrom(), want+" c ON a.b=c.d"), "a joiner uses its type")
}

// H_C22_builders: every builder tells the operation of its statement.
func H_C22_builders() {
	f := query.FieldName("f").Value(v.AnyInt("x"))
	c := query.EqualTo("c", v.AnyInt("y"))
	b := query.SelectFrom("t").Where(c)
	many := b.Limit(2)
	single := b.Single()
	t, n := query.Table("t"), query.TableName("t")
	sel := []query.Operation{b.Operation(), many.Operation(), single.Operation(), query.SelectManyFrom("t").Operation(), query.SelectSingleFrom("t").Operation(),
		t.Select().Operation(), t.SelectOne().Operation(), t.SelectMany().Operation(), n.Select().Operation(), n.SelectOne().Operation(), n.SelectMany().Operation(),
		b.LeftJoin(t).On(query.Field("a.b"), query.Field("c.d")).Operation(), many.LeftJoin("t").On(query.Field("a.b"), query.Field("c.d")).Operation(), many.Fields(query.Field("f")).Operation(), single.Fields(query.Field("f")).Operation()}
	for _, op := range sel {
		v.Assert(op == query.DoSelect, "SELECT builders")
	}
	ins := []query.Operation{query.InsertInto("t").Operation(), query.InsertInto("t").Values(f).Operation(), b.InsertInto(f).Operation(), t.InsertInto(f).Operation(), n.InsertInto().Operation(), many.InsertInto().Operation(), single.InsertInto().Operation()}
	for _, op := range ins {
		v.Assert(op == query.DoInsert, "INSERT builders")
	}
	upd := []query.Operation{query.Update("t").Operation(), query.Update("t").Set(f).Where(c).Operation(), b.Update(f).Operation(), t.Update(f).Operation(), n.Update().Operation(), many.Update().Operation(), single.Update().Operation()}
	for _, op := range upd {
		v.Assert(op == query.DoUpdate, "UPDATE builders")
	}
	del := []query.Operation{query.Delete("t").Operation(), query.Delete("t").Where(c).Operation(), b.Delete().Operation(), t.Delete(c).Operation(), n.Delete().Operation(), many.Delete().Operation(), single.Delete().Operation()}
	for _, op := range del {
		v.Assert(op == query.DoDelete, "DELETE builders")
	}
	v.Reach("told")
}
