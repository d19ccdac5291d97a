package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// Sizes far beyond what is usual, around numbers that limit databases and drivers. Few values are symbolic here.

// huge is such a size, up to about limit.
func huge(label string, limit int) int {
	all := []int{500, 512, 513, 999, 1000, 1001, 1024, 1025, 2100, 4097, 10001}
	for len(all) > 1 && all[len(all)-1] > limit {
		all = all[:len(all)-1]
	}
	return all[v.Choice(label, len(all))]
}

// values are n numbers some of which are symbolic.
func values(n int) (xs []any) {
	for i := 0; i < n; i++ {
		if i == 0 || i == n/2 || i == n-1 {
			xs = append(xs, v.AnyInt("x"))
		} else {
			xs = append(xs, i)
		}
	}
	return xs
}

// marks lists placeholders.
func marks(from, n int, sep string, numbered bool) string {
	b := make([]byte, 0, n*6)
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, sep...)
		}
		if numbered {
			b = append(b, '$')
			b = append(b, itoa(from+i)...)
		} else {
			b = append(b, '?')
		}
	}
	return string(b)
}

// H_C25_huge: IN lists of many elements.
func H_C25_huge() {
	n := huge("elements", 10001)
	xs := make([]string, n)
	var want []any
	for i := range xs {
		xs[i] = "e"
		if i == 0 || i == n/2 || i == n-1 {
			xs[i] = v.Str("e", 1, "")
		}
		want = append(want, xs[i])
	}
	neg := v.Choice("negated", 2) == 1
	c := query.In("f", xs).Negate(neg)
	op := "f IN ("
	if neg {
		op = "f NOT IN ("
	}
	start := []int{0, 60000}[v.Choice("start", 2)]
	v.Assert(v.Eq(c.Render(start), op+marks(start+1, n, ",", true)+")"), "one placeholder per value")
	v.Assert(v.Eq(c.RenderSQL(), op+marks(0, n, ",", false)+")"), "one ? per value")
	v.Assert(sameList(c.Values(), want), "every value in order")
	v.Reach("judged")
}

// H_C11_huge: statements of many columns.
func H_C11_huge() {
	n := huge("columns", 2100)
	xs := values(n)
	vals := make([]query.FieldValue, n)
	var columns, sets []byte
	for i := range vals {
		name := "c" + itoa(i)
		vals[i] = query.FieldName(name).Value(xs[i])
		if i > 0 {
			columns, sets = append(columns, ", "...), append(sets, ", "...)
		}
		columns = append(columns, name...)
		sets = append(append(sets, name...), "=$"+itoa(i+1)...)
	}
	m := &model{}
	switch v.Choice("statement", 3) {
	case 0:
		m.compare(query.InsertInto("t").Values(vals...), "INSERT INTO t("+string(columns)+") VALUES ("+marks(1, n, ", ", true)+")", xs, "INSERT")
	case 1:
		b := query.InsertInto("t").Values(vals[:n/2]...).Values(vals[n/2:]...)
		m.compare(b, "INSERT INTO t("+string(columns)+") VALUES ("+marks(1, n, ", ", true)+")", xs, "INSERT")
	default:
		m.compare(query.Update("t").Where(query.EqualTo("w", 5)).Set(vals...), "UPDATE t SET "+string(sets)+" WHERE w=$"+itoa(n+1), append(xs, 5), "UPDATE")
	}
}

// H_C01_huge: statements of many conditions, each with its own param.
func H_C01_huge() {
	n := huge("conditions", 4097)
	xs := values(n)
	cs := make([]query.Condition, n)
	var want []byte
	for i := range cs {
		name := "c" + itoa(i)
		cs[i] = query.EqualTo(query.FieldName(name), xs[i])
		if i > 0 {
			want = append(want, " AND "...)
		}
		want = append(append(want, name...), "=$"+itoa(i+1)...)
	}
	var s stmt
	head, tail := "DELETE FROM t WHERE ", ""
	switch v.Choice("statement", 3) {
	case 0:
		s = query.Delete("t").Where(cs...)
	case 1:
		s = query.SelectFrom("t").Where(cs...).Many().Offset(7).Limit(8)
		head, tail = "SELECT * FROM t WHERE ", " OFFSET $"+itoa(n+1)+" LIMIT $"+itoa(n+2)
		xs = append(xs, uint(7), uint(8))
	default:
		s = query.SelectFrom("t").Where(cs...).Count()
		head = "SELECT COUNT(*) FROM t WHERE "
	}
	sql, params := build(s)
	v.Assert(v.Eq(sql, head+string(want)+tail), "every condition has its placeholder")
	v.Assert(sameList(params, xs), "every condition has its value")
	v.Reach("judged")
}

// H_C10_huge: selections of many fields, joins and orderings.
func H_C10_huge() {
	n := huge("parts", 2100)
	defs, joins, order := make([]query.FieldDefinition, n), n/8, make([]query.FieldSorting, n)
	var fields, from, by []byte
	b := query.SelectManyFrom("t")
	for i := range defs {
		name := "f" + itoa(i)
		defs[i], order[i] = query.Field(name), query.DESC(query.FieldName(name))
		if i > 0 {
			fields, by = append(fields, ", "...), append(by, ", "...)
		}
		fields, by = append(fields, name...), append(append(by, name...), " DESC"...)
	}
	for i := 0; i < joins; i++ {
		r := "r" + itoa(i)
		b = b.LeftJoin(query.TableName(r)).On(query.Field("t.a"), query.Field(r+".b"))
		from = append(from, " LEFT JOIN "+r+" ON t.a="+r+".b"...)
	}
	sql, params := build(b.Fields(defs...).OrderBy(order[:n/3]...).OrderBy(order[n/3:]...))
	v.Assert(v.Eq(sql, "SELECT "+string(fields)+" FROM t"+string(from)+" ORDER BY "+string(by)) && len(params) == 0, "every part in order")
	v.Reach("judged")
}

// H_C19_huge: long lists of names.
func H_C19_huge() {
	n := huge("names", 1025)
	a, b := query.FieldName(v.Str("a", 2, "word")), query.FieldName(v.Str("b", 2, "word"))
	var in, want []query.FieldName
	for i := 0; i < n; i++ {
		name := query.FieldName("name" + itoa(i/2))
		if i%2 == 0 {
			want = append(want, name)
		}
		in = append(in, name)
	}
	in = append(in, a, b, a)
	want = append(want, a)
	if a != b {
		want = append(want, b)
	}
	got := query.UniqFieldNames(in)
	v.Assert(len(got) == len(want), "each name once")
	for i := range want {
		if i < len(got) && (i%100 == 0 || i > n/2-3) {
			v.Assert(v.Eq(string(got[i]), string(want[i])), "in order of first occurrence")
		}
	}
	v.Reach("judged")
}

// H_C20_huge: large maps.
func H_C20_huge() {
	n := huge("entries", 1025)
	xs := values(n)
	m := query.ValuesMap{}
	bad := v.Choice("invalid", 2) == 1
	for i := range xs {
		name := "k" + itoa(i)
		if bad && i == n/3 {
			name += "'"
		}
		m[name] = xs[i]
	}
	got, err := m.FieldValues()
	v.Assert((err != nil) == bad, "an error exactly when a key is invalid")
	if bad {
		v.Assert(len(got) == 0, "no values with an error")
		v.Reach("refused")
		return
	}
	v.Assert(len(got) == n, "one value per entry")
	seen, once := make([]bool, n), true
	for _, f := range got {
		k, ok := atNumber("at" + string(f.FieldName())[1:])
		once = once && ok && k < n && !seen[k]
		if ok && k < n {
			seen[k] = true
			if k == 0 || k == n/2 || k == n-1 || k%50 == 7 {
				v.Assert(v.Same(f.Values()[0], xs[k]), "each name carries its own value")
			}
		}
	}
	v.Assert(once, "each entry once")
	v.Reach("converted")
}

// H_C02_huge: clauses of many params.
func H_C02_huge() {
	n := huge("conditions", 1025)
	xs := values(n)
	cs := make([]query.Condition, 0, n)
	for i := range xs {
		switch i % 4 {
		case 0:
			cs = append(cs, query.EqualTo("a", xs[i]))
		case 1:
			cs = append(cs, query.IsNull("b"), query.In("c", []string{"p", "q"}))
		case 2:
			cs = append(cs, query.Not(query.GreaterThan("d", xs[i])))
		default:
			cs = append(cs, query.NewGroup(query.LogicalOR, query.Less("e", xs[i]), query.Contains("f", "g")))
		}
	}
	agree(query.NewGroup(query.LogicalAND, cs...), []int{0, 9, 60000}[v.Choice("start", 3)], "a group")
	agree(query.SelectFrom("t").Where(cs...).Offset(3).Limit(4), 0, "SELECT")
}

// H_C09_huge: conversions of selections with many conditions.
func H_C09_huge() {
	n := huge("conditions", 4097)
	xs := values(n)
	cs := make([]query.Condition, n)
	var want []byte
	shift := v.Choice("set values", 2)
	for i := range cs {
		cs[i] = query.EqualTo("c", xs[i])
		if i > 0 {
			want = append(want, " AND "...)
		}
		want = append(append(want, "c=$"...), itoa(i+1+shift)...)
	}
	b := query.SelectFrom("t").Where(cs...)
	m := &model{}
	if shift == 1 {
		x := v.AnyInt("x")
		f := query.FieldName("s").Value(x)
		s := []stmt{b.Update(f), b.Many().Update(f), b.Single().Update(f)}[v.Choice("kind", 3)]
		m.compare(s, "UPDATE t SET s=$1 WHERE "+string(want), append([]any{x}, xs...), "UPDATE")
		return
	}
	switch v.Choice("kind", 3) {
	case 0:
		m.compare(b.Delete(), "DELETE FROM t WHERE "+string(want), xs, "DELETE")
	case 1:
		m.compare(b.Single(), "SELECT * FROM t WHERE "+string(want)+" LIMIT 1", xs, "SELECT")
	default:
		m.compare(b.Limit(3).Count(), "SELECT COUNT(*) FROM t WHERE "+string(want), xs, "COUNT")
	}
}
