package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// print is everything an object tells about itself.
type print struct {
	texts []string
	vals  []any
	kept  []func() bool // whether a list that was handed out is still as it was
}

// intact tells whether all lists handed out while looking are still as they were.
func (p print) intact() bool {
	res := true
	for _, f := range p.kept {
		res = v.And(res, f())
	}
	return res
}

func (p *print) add(texts ...string) { p.texts = append(p.texts, texts...) }

func (p *print) list(vals []any) {
	p.add("[" + itoa(len(vals)) + "]")
	p.vals = append(p.vals, vals...)
	if len(vals) > 0 {
		were := append([]any{}, vals...)
		p.kept = append(p.kept, func() bool { return sameList(vals, were) })
	}
}

func (p print) same(q print) bool {
	if len(p.texts) != len(q.texts) {
		return false
	}
	res := true
	for i := range p.texts {
		res = v.And(res, v.Eq(p.texts[i], q.texts[i]))
	}
	return v.And(res, sameList(p.vals, q.vals))
}

func (p *print) fields(fs []query.FieldDefinition) {
	for _, f := range fs {
		p.add(f.RenderSpec(), f.RenderField(), f.RenderTableSpec(), string(f.Alias()), string(f.TableName()))
	}
	if len(fs) > 1 {
		last, was := len(fs)-1, fs[len(fs)-1].RenderSpec()
		p.kept = append(p.kept, func() bool { return v.Eq(fs[last].RenderSpec(), was) })
	}
}

func (p *print) values(fs []query.FieldValue) {
	for _, f := range fs {
		p.fields([]query.FieldDefinition{f.FieldDefinition})
		p.list(f.Values())
	}
	if len(fs) > 1 {
		last, was := len(fs)-1, fs[len(fs)-1].RenderSpec()
		p.kept = append(p.kept, func() bool { return v.Eq(fs[last].RenderSpec(), was) })
	}
}

func (p *print) built(s stmt) {
	o := outcomeOf(s)
	p.add(o.sql, o.err)
	p.list(o.params)
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// look takes the print of an object.
func look(x any) (p print) {
	switch x := x.(type) {
	case query.Condition:
		p.add(x.Render(0), x.RenderSQL(), string(x.JoinType()), x.RenderJoin(false), x.RenderJoin(true), x.RenderNegate(), yes(x.IsNegate()), string(x.FieldName()))
		p.list(x.Values())
	case query.WhereClause:
		p.add(x.Render(3), x.RenderSQL(), x.String(), itoa(len(x.Conditions())))
		p.list(x.Values())
	case query.BaseSelectBuilder:
		p.built(x)
		p.add(x.String(), x.Render(2), x.RenderSQL(), x.RenderFrom(), string(x.TableName()), x.Operation().String())
		p.list(x.Values())
		p.fields(x.FieldDefinitions())
	case query.SelectSingleBuilder:
		p.built(x)
		p.add(x.Render(2), x.RenderSQL(), x.RenderFrom(), x.FieldList(), string(x.TableName()), x.Operation().String())
		p.list(x.Values())
		p.fields(x.FieldDefinitions())
	case query.SelectManyBuilder:
		p.built(x)
		p.add(x.Render(2), x.RenderSQL(), x.RenderFrom(), x.FieldList(), string(x.TableName()), x.Operation().String())
		p.list(x.Values())
		p.fields(x.FieldDefinitions())
	case query.CountBuilder:
		p.built(x)
		p.add(x.RenderFrom())
	case query.UpdateBuilder:
		p.built(x)
		p.add(x.RenderFrom(), string(x.TableName()), x.Operation().String())
		p.values(x.SetValues())
	case query.InsertBuilder:
		p.built(x)
		p.add(x.RenderFrom(), string(x.TableName()), x.Operation().String())
		p.values(x.SetValues())
	case query.DeleteBuilder:
		p.built(x)
		p.add(x.RenderFrom(), string(x.TableName()), x.Operation().String())
	case query.IncompleteSelectJoin:
		return look(x.On(query.Field("p.a"), query.Field("q.b")))
	case query.IncompleteSelectManyJoiner:
		return look(x.On(query.Field("p.a"), query.Field("q.b")))
	case query.IncompleteSelectSingleJoiner:
		return look(x.On(query.Field("p.a"), query.Field("q.b")))
	case query.Fields:
		p.add(x.FieldList(), x.String(), itoa(x.Len()))
		p.fields(x.FieldDefinitions())
	case query.FieldDefinition:
		p.fields([]query.FieldDefinition{x})
	case query.FieldValue:
		p.values([]query.FieldValue{x})
	case query.FieldSorting:
		p.add(x.Render(), string(x.Direction()))
		p.fields([]query.FieldDefinition{x.FieldDefinition})
	case query.TableIdent:
		p.add(x.RenderFrom(), string(x.TableName()), string(x.Alias()))
	case query.TableJoiner:
		p.add(x.RenderFrom(), x.JoinType().String(), x.JoinCondition().Render())
	case query.JoinCondition:
		p.add(x.Render())
	case query.Limiter:
		p.add(x.Render(1), x.RenderSQL())
		p.list(x.Values())
	default:
		panic("cannot look at it")
	}
	return p
}

// maker hands out parts: fresh ones, or, once stocked, only such that were made before.
type maker struct {
	n     int
	roomy bool // argument slices have spare capacity and are kept
	cs    [][]query.Condition
	fs    [][]query.FieldDefinition
	vs    [][]query.FieldValue
	os    [][]query.FieldSorting

	stocked bool
	number  int               // what any number is
	pick    int               // what any choice is
	ones    []query.Condition // single conditions to hand out
	used    [5]int            // how many of each were handed out
}

// stock makes all parts in advance, enough for the given number of operations.
func (m *maker) stock(ops, picks int) {
	m.number = v.AnyInt("number")
	m.pick = v.Choice("pick", picks)
	for i := 0; i < 4*ops; i++ {
		m.ones = append(m.ones, m.cond())
	}
	for k := 0; k < 4; k++ {
		for i := 0; i < ops; i++ {
			m.conds(k)
			m.defs(k)
			m.vals(k)
			m.sorts(k)
		}
	}
	m.stocked = true
}

// at is where the next list of k parts of a kind is in stock.
func (m *maker) at(kind, k, stocked int) int {
	m.used[kind]++
	return k*(stocked/4) + (m.used[kind]-1)%(stocked/4)
}

func (m *maker) anyInt(label string) int {
	if m.stocked {
		return m.number
	}
	return v.AnyInt(label)
}

func (m *maker) anyUint(label string) uint {
	if m.stocked {
		return uint(m.number)
	}
	return v.AnyUint(label)
}

func (m *maker) choice(label string, n int) int {
	if m.stocked {
		return m.pick % n
	}
	return v.Choice(label, n)
}

func (m *maker) num() string {
	m.n++
	return itoa(m.n)
}

// cond is a condition over column c; conditions over one column are told apart by their values.
func (m *maker) cond() query.Condition {
	if m.stocked {
		m.used[4]++
		return m.ones[(m.used[4]-1)%len(m.ones)]
	}
	x := v.AnyInt("x")
	switch m.n++; m.n % 5 {
	case 4: // implemented outside of the package, its values have spare capacity
		return userCond{name: "u", join: query.LogicalAND, vals: append(make([]any, 0, 3), x), keeps: true}
	case 0:
		return query.Less("c", x)
	case 1:
		return query.EqualTo("d", x)
	case 2:
		return query.IsNull("c")
	}
	return query.In("c", []string{"p", "q"})
}

func (m *maker) conds(k int) []query.Condition {
	if m.stocked {
		if k > 3 { // only while making a thing
			return []query.Condition{m.cond(), m.cond(), m.cond(), m.cond(), m.cond()}
		}
		return m.cs[m.at(0, k, len(m.cs))]
	}
	res := make([]query.Condition, 0, k)
	if m.roomy {
		res = make([]query.Condition, 0, k+3)
	}
	for i := 0; i < k; i++ {
		res = append(res, m.cond())
	}
	m.cs = append(m.cs, res)
	return res
}

func (m *maker) defs(k int) []query.FieldDefinition {
	if m.stocked && k <= 3 {
		return m.fs[m.at(1, k, len(m.fs))]
	}
	res := make([]query.FieldDefinition, 0, k)
	if m.roomy {
		res = make([]query.FieldDefinition, 0, k+3)
	}
	for i := 0; i < k; i++ {
		res = append(res, query.Field("f"+m.num()))
	}
	if !m.stocked {
		m.fs = append(m.fs, res)
	}
	return res
}

func (m *maker) vals(k int) []query.FieldValue {
	if m.stocked && k <= 3 {
		return m.vs[m.at(2, k, len(m.vs))]
	}
	res := make([]query.FieldValue, 0, k)
	if m.roomy {
		res = make([]query.FieldValue, 0, k+3)
	}
	for i := 0; i < k; i++ {
		res = append(res, query.FieldName("s"+m.num()).Value(m.anyInt("y")))
	}
	if !m.stocked {
		m.vs = append(m.vs, res)
	}
	return res
}

func (m *maker) sorts(k int) []query.FieldSorting {
	if m.stocked && k <= 3 {
		return m.os[m.at(3, k, len(m.os))]
	}
	res := make([]query.FieldSorting, 0, k)
	if m.roomy {
		res = make([]query.FieldSorting, 0, k+3)
	}
	for i := 0; i < k; i++ {
		res = append(res, query.DESC(query.FieldName("o"+m.num())))
	}
	if !m.stocked {
		m.os = append(m.os, res)
	}
	return res
}

// scribble overwrites everything in the argument slices handed in, spare capacity included.
func (m *maker) scribble() {
	for _, l := range m.cs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.IsNull("scribble")
		}
	}
	for _, l := range m.fs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.Field("scribble")
		}
	}
	for _, l := range m.vs {
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.FieldName("scribble").Value(0)
		}
	}
	for _, l := range m.os {
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.ASC("scribble")
		}
	}
}

func scribbleAny(l []any) {
	l = l[:cap(l)]
	for i := range l {
		l[i] = "scribble"
	}
}

// handedOut overwrites every slice the object hands out.
func handedOut(x any) {
	fields := func(l []query.FieldDefinition) {
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.Field("scribble")
		}
	}
	values := func(l []query.FieldValue) {
		for i := range l {
			scribbleAny(l[i].Values())
		}
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.FieldName("scribble").Value(0)
		}
	}
	if s, ok := x.(stmt); ok {
		_, params, _ := s.BuildQueryAndParams()
		scribbleAny(params)
	}
	switch x := x.(type) {
	case userCond: // tells its own slice
	case query.Condition:
		scribbleAny(x.Values())
	case query.WhereClause:
		scribbleAny(x.Values())
		l := x.Conditions()
		l = l[:cap(l)]
		for i := range l {
			l[i] = query.IsNull("scribble")
		}
	case query.BaseSelectBuilder:
		scribbleAny(x.Values())
		fields(x.FieldDefinitions())
	case query.SelectSingleBuilder:
		scribbleAny(x.Values())
		fields(x.FieldDefinitions())
	case query.SelectManyBuilder:
		scribbleAny(x.Values())
		fields(x.FieldDefinitions())
	case query.UpdateBuilder:
		values(x.SetValues())
	case query.InsertBuilder:
		values(x.SetValues())
	case query.Fields:
		fields(x.FieldDefinitions())
	case query.FieldValue:
		scribbleAny(x.Values())
	case query.Limiter:
		scribbleAny(x.Values())
	}
}

const nConditionOps = 19

// conditionOp derives a condition.
func (m *maker) conditionOp(x query.Condition, op int) any {
	switch op {
	case 0:
		return x.And(m.conds(1)...)
	case 1:
		return x.Or(m.conds(1)...)
	case 2:
		return x.And(m.conds(2)...)
	case 3:
		return x.Or(m.conds(2)...)
	case 4:
		return query.And(x, m.conds(1)...)
	case 5:
		return query.Or(x, m.conds(1)...)
	case 6:
		return x.Or(query.NewGroup(query.LogicalAND, m.conds(2)...))
	case 7:
		return x.And(query.NewGroup(query.LogicalOR, m.conds(2)...))
	case 8:
		return x.Negate(true)
	case 9:
		return x.Negate(false)
	case 10:
		return x.Join(query.LogicalOR)
	case 11:
		return x.Join(query.LogicalAND)
	case 12:
		return x.ApplyFieldSpec(query.Field("z.c as q"))
	case 13:
		return x.ApplyFieldTable(query.TableName("t" + m.num()))
	case 14:
		return query.Not(x)
	case 15:
		return query.Or(x)
	case 16:
		return query.NewGroup(query.LogicalOR, x, m.cond())
	case 17:
		if g, ok := x.(query.Group); ok {
			return g.WithBrackets()
		}
		return query.NewGroup(query.LogicalAND, x)
	}
	if g, ok := x.(query.Group); ok {
		return &g
	}
	return query.And(x)
}

func (m *maker) baseOp(x query.BaseSelectBuilder, op int) any {
	switch op {
	case 0:
		return x.Where(m.conds(1)...)
	case 1:
		return x.Where(m.conds(2)...)
	case 2:
		return x.Where(query.Or(m.cond(), m.conds(1)...))
	case 3:
		return x.Fields(m.defs(2)...)
	case 4:
		return x.InnerJoin(query.Table("j" + m.num()))
	case 5:
		return x.LeftJoin(query.Table("j"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
	case 6:
		return x.Count()
	case 7:
		return x.Update(m.vals(1)...)
	case 8:
		return x.Delete()
	case 9:
		return x.InsertInto(m.vals(1)...)
	case 10:
		return x.Single()
	case 11:
		return x.Many()
	case 12:
		return x.OrderBy(m.sorts(1)...)
	case 13:
		return x.Offset(3)
	}
	return x.Limit(4)
}

func (m *maker) singleOp(x query.SelectSingleBuilder, op int) any {
	switch op {
	case 0:
		return x.Where(m.conds(1)...)
	case 1:
		return x.Where(m.conds(2)...)
	case 2:
		return x.Where(query.Or(m.cond(), m.conds(1)...))
	case 3:
		return x.Fields(m.defs(2)...)
	case 4:
		return x.RightJoin(query.TableName("j" + m.num()))
	case 5:
		return x.FullJoin(query.TableName("j"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
	case 6:
		return x.Update(m.vals(2)...)
	}
	return x.Many()
}

func (m *maker) manyOp(x query.SelectManyBuilder, op int) any {
	switch op {
	case 0:
		return x.Where(m.conds(1)...)
	case 1:
		return x.Where(m.conds(2)...)
	case 2:
		return x.Where(query.Or(m.cond(), m.conds(1)...))
	case 3:
		return x.Fields(m.defs(2)...)
	case 4:
		return x.InnerJoin(query.TableName("j" + m.num()))
	case 5:
		return x.LeftJoin(query.TableName("j"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
	case 6:
		return x.OrderBy(m.sorts(1)...)
	case 7:
		return x.OrderBy(m.sorts(2)...)
	case 8:
		return x.Offset(uint(m.anyInt("offset")))
	case 9:
		return x.Limit(m.anyInt("limit"))
	case 10:
		return x.Count()
	case 11:
		return x.Update(m.vals(1)...)
	case 12:
		return x.Delete()
	}
	return x.Single()
}

// opsOf is the number of derivations of x.
func opsOf(x any) int {
	switch x.(type) {
	case query.Condition:
		return nConditionOps
	case query.WhereClause:
		return 6
	case query.BaseSelectBuilder:
		return 15
	case query.SelectSingleBuilder:
		return 8
	case query.SelectManyBuilder:
		return 14
	case query.UpdateBuilder, query.InsertBuilder:
		return 4
	case query.DeleteBuilder:
		return 3
	case query.IncompleteSelectJoin, query.IncompleteSelectManyJoiner, query.IncompleteSelectSingleJoiner:
		return 2
	case query.Fields:
		return 2
	case query.FieldDefinition:
		return 3
	case query.FieldValue, query.FieldSorting, query.TableIdent, query.Limiter:
		return 2
	case query.TableJoiner:
		return 1
	case query.JoinCondition:
		return 2
	}
	return 0
}

// derive applies one derivation.
func (m *maker) derive(x any, op int) any {
	switch x := x.(type) {
	case query.Condition:
		return m.conditionOp(x, op)
	case query.WhereClause:
		switch op {
		case 0:
			return x.GroupAND(m.conds(1)...)
		case 1:
			return x.GroupOR(m.conds(1)...)
		case 2:
			return x.GroupAND(m.conds(2)...)
		case 3:
			return x.GroupOR(m.conds(2)...)
		case 4:
			return x.ApplyFieldSpec(query.Field("z.c as q"))
		}
		return query.NewGroup(query.LogicalAND, x.Conditions()...)
	case query.BaseSelectBuilder:
		return m.baseOp(x, op)
	case query.SelectSingleBuilder:
		return m.singleOp(x, op)
	case query.SelectManyBuilder:
		return m.manyOp(x, op)
	case query.UpdateBuilder:
		switch op {
		case 0:
			return x.Set(m.vals(1)...)
		case 1:
			return x.Set(m.vals(2)...)
		case 2:
			return x.Where(m.conds(1)...)
		}
		return x.Where(m.conds(2)...)
	case query.InsertBuilder:
		return x.Values(m.vals(op)...)
	case query.DeleteBuilder:
		return x.Where(m.conds(op)...)
	case query.IncompleteSelectJoin:
		return x.On(query.Field(query.FieldName("a.b"+m.num())), query.Field("c.d"))
	case query.IncompleteSelectManyJoiner:
		return x.On(query.Field(query.FieldName("a.b"+m.num())), query.Field("c.d"))
	case query.IncompleteSelectSingleJoiner:
		return x.On(query.Field(query.FieldName("a.b"+m.num())), query.Field("c.d"))
	case query.Fields:
		return x.Fields(m.defs(1 + op)...)
	case query.FieldDefinition:
		switch op {
		case 0:
			return x.As("al")
		case 1:
			return x.Of("tb")
		}
		return x.Value(5)
	case query.FieldValue:
		if op == 0 {
			return x.ApplyFieldTable("tb")
		}
		return x.ApplyFieldSpec(query.Field("z.c as q"))
	case query.FieldSorting:
		return x.ApplyFieldSpec(query.Field([]string{"z.c as q", "other"}[op]))
	case query.TableIdent:
		if op == 0 {
			return x.As("al")
		}
		return x.As("")
	case query.Limiter:
		if op == 0 {
			return x.Offset(m.anyUint("offset"))
		}
		return x.Limit(m.anyUint("limit"))
	case query.TableJoiner:
		return x.By(query.Field("y.a"), query.Field("y.b"))
	case query.JoinCondition:
		if op == 0 {
			return x.LeftJoin()
		}
		return x.Using(query.FullJoin)
	}
	panic("nothing to derive")
}

// kinds of things to begin with
const nThings = 22

var grown = []int{0, 1, 3, 5}

// thing makes an object of some kind, grown by a number of calls.
func (m *maker) thing(kind, calls int) any {
	base := func() query.BaseSelectBuilder {
		b := query.SelectFrom("t")
		for i := 0; i < calls; i++ {
			b = b.Where(m.conds(1)...).InnerJoin(query.Table("k"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
		}
		return b
	}
	switch kind {
	case 0:
		return base()
	case 1:
		return base().Where(m.conds(3)...).Fields(m.defs(2)...)
	case 2:
		return base().Single()
	case 3:
		b := query.SelectSingleFrom("t").Fields(m.defs(3)...)
		for i := 0; i < calls; i++ {
			b = b.Where(m.conds(1)...).InnerJoin(query.TableName("k"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
		}
		return b
	case 4:
		return base().Many()
	case 5:
		b := query.SelectManyFrom("t").Where(m.conds(2)...)
		for i := 0; i < calls; i++ {
			b = b.OrderBy(m.sorts(1)...).Where(m.conds(1)...).InnerJoin(query.TableName("k"+m.num())).On(query.Field("a.b"), query.Field("c.d"))
		}
		return b
	case 6:
		return query.SelectManyFrom("t").OrderBy(m.sorts(1 + calls)...).Fields(m.defs(2)...).Offset(2).Limit(3)
	case 7:
		b := query.Update("t")
		for i := 0; i < calls; i++ {
			b = b.Set(m.vals(1)...).Where(m.conds(1)...)
		}
		return b
	case 8:
		return query.Update("t").Set(m.vals(calls)...).Where(m.conds(calls)...)
	case 9:
		b := query.InsertInto("t")
		for i := 0; i < calls; i++ {
			b = b.Values(m.vals(1)...)
		}
		return b
	case 10:
		return query.InsertInto("t").Values(m.vals(calls)...)
	case 11:
		b := query.Delete("t")
		for i := 0; i < calls; i++ {
			b = b.Where(m.conds(1)...)
		}
		return b
	case 12:
		g := query.NewGroup(query.LogicalAND, m.conds(1)...)
		for i := 0; i < calls; i++ {
			g = g.GroupAND(m.conds(1)...)
		}
		return g
	case 13:
		g := query.NewGroup(query.LogicalOR, m.conds(1+calls)...)
		return g.GroupOR(m.conds(1)...).WithBrackets()
	case 14:
		c := query.NewWhere()
		for i := 0; i < calls; i++ {
			c = c.GroupOR(m.conds(1)...)
		}
		return c
	case 15:
		return query.NewWhere().GroupAND(m.conds(calls)...)
	case 16:
		return query.Not(query.NewGroup(query.LogicalAND, m.conds(1+calls)...))
	case 17:
		return mk([]int{0, 1, 2, 4}[m.choice("condition", 4)], "c").c
	case 18:
		return mk([]int{3, 5, 6, 7, 8, 9, 10, 11}[m.choice("condition", 8)], "c").c
	case 19:
		return base().InnerJoin(query.Table("pending"))
	case 20:
		if calls%2 == 0 {
			return base().Many().LeftJoin("pending")
		}
		return base().Single().LeftJoin("pending")
	}
	switch calls {
	case 0:
		switch m.choice("small", 4) {
		case 0:
			return query.NewFields("a", query.FieldName("b"), query.Field("c"))
		case 1:
			return query.Field("t.c as d")
		case 2:
			return query.Field("c").Value(m.anyInt("value"))
		}
		return query.OrderBy("c")
	case 1:
		if m.choice("small", 2) == 0 {
			return query.Limiter{}.Offset(m.anyUint("offset"))
		}
		return query.Table("t as u")
	case 3:
		return query.NewTableJoiner(query.Table("r"), query.LeftJoin, query.JoinFields(query.Field("a.b"), query.Field("c.d")))
	}
	return query.JoinFields(query.Field("a.b"), query.Field("c.d"))
}
