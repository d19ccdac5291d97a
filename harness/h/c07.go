package h

import (
	"database/sql/driver"

	"github.com/amarin/query"
	"verifharness/v"
)

// unshared runs f and asserts that it stored nothing to memory that is there already.
func unshared(what string, f func()) {
	v.Freeze()
	v.Both(f)
	v.Assert(v.SharedWrites() == 0, "race: "+what+" writes to shared memory")
	v.Reach("done")
}

// H_C07_derive: derivations, rendering and building of anything, with argument slices that have spare capacity.
func H_C07_derive() {
	things := &maker{roomy: true}
	x := things.thing(v.Choice("thing", nThings), grown[v.Choice("grown", len(grown))])
	if opsOf(x) == 0 {
		return
	}
	shop := &maker{roomy: true}
	shop.stock(2, 1)
	first := v.Choice("operation", opsOf(x))
	deep := v.Bound("derivations in a row", 1, 2)
	second := 0
	if deep > 1 {
		second = v.Choice("second operation", 19)
	}
	unshared("deriving from or building a shared object", func() {
		m := *shop
		y := m.derive(x, first)
		look(y)
		if n := opsOf(y); n > 0 && deep > 1 {
			look(m.derive(y, second%n))
		}
		look(x)
	})
}

// H_C07_twice: a derived object is derived from again; both are shared by then.
func H_C07_twice() {
	things := &maker{roomy: true}
	x := things.thing(v.Choice("thing", nThings), grown[v.Choice("grown", len(grown))])
	if opsOf(x) == 0 {
		return
	}
	y := things.derive(x, v.Choice("operation", opsOf(x)))
	if opsOf(y) == 0 {
		return
	}
	shop := &maker{roomy: true}
	shop.stock(2, 1)
	op := v.Choice("second operation", opsOf(y))
	unshared("deriving from or building a derived object", func() {
		m := *shop
		look(m.derive(y, op))
		look(y)
		look(x)
	})
}

// H_C07_make: making objects from scratch writes no package-level state.
func H_C07_make() {
	shop := &maker{roomy: true}
	shop.stock(8, 8)
	kind, calls := v.Choice("thing", nThings), grown[v.Choice("grown", len(grown))]
	if kind == 17 || kind == 18 { // H_C07_conditions
		return
	}
	unshared("making an object", func() {
		m := *shop
		look(m.thing(kind, calls))
	})
}

// H_C07_conditions: the same for all ways to make a condition or a field value.
func H_C07_conditions() {
	n := v.AnyInt("number")
	word := v.Str("word", 2, "")
	list := append(make([]string, 0, 4), "p", word)
	vals := append(make([]driver.Valuer, 0, 4), valuer{word}, valuer{word})
	provs := append(make([]query.ValueProvider, 0, 4), provider{n})
	kind := v.Choice("condition", 21)
	unshared("making a condition", func() {
		f := query.FieldName("c")
		e := query.FieldName("t.c as e")
		d := query.Field(e)
		switch kind {
		case 0:
			look(query.EqualTo(f, n))
		case 1:
			look(query.GreaterThan(e, n))
		case 2:
			look(query.GreaterOrEqual("c", n))
		case 3:
			look(query.Less(e, word))
		case 4:
			look(query.LessOrEqual(f, word))
		case 5:
			look(query.Contains(f, word))
		case 6:
			look(query.IContains(e, word))
		case 7:
			look(query.IsNull(f))
		case 8:
			look(query.In(f, list))
		case 9:
			look(query.In(e, vals))
		case 10:
			look(query.In(e, provs))
		case 11:
			look(f.Contains(word))
		case 12:
			look(f.IContains(word))
		case 13:
			look(f.EqualTo(valuer{word}))
		case 14:
			look(f.In(list))
		case 15:
			look(f.IsNull())
		case 16:
			look(f.Value(provider{n}))
		case 17:
			look(d.Value(list))
		case 18:
			look(query.InsertInto("t").Values(f.Value(vals), d.Value(list), f.Value(provs)))
		case 19:
			look(query.Update("t").Set(f.Value(vals), d.Value(list), f.Value(provs)).Where(f.In(list), query.EqualTo(e, list)))
		case 20:
			look(*query.NewFieldValue(f, list))
		}
	})
}

// H_C07_parse: parsing and validation write no package-level state.
func H_C07_parse() {
	spec := []string{"a", "t.a", "a as b", "t.a AS b", "a b", "", ".a", "a.", "t.a.b", "\"a\"", "a b c d"}[v.Choice("spec", 11)]
	names := []query.FieldName{"b", "a", "b", "c"}
	values := query.ValuesMap{"a": 1, query.FieldName(spec).String(): 2}
	unshared("parsing", func() {
		if f, err := query.FieldOrError(spec); err == nil {
			look(*f)
		}
		if t, err := query.TableOrError(spec); err == nil {
			look(*t)
		}
		_ = query.FieldName(spec).Validate()
		catch(func() { look(query.Field(spec)) })
		catch(func() { look(query.Table(spec)) })
		catch(func() { look(query.OrderBy(query.FieldName(spec))) })
		catch(func() { look(query.OrderBy(query.FieldName(spec), "sideways")) })
		query.UniqFieldNames(names)
		_, _ = values.FieldValues()
		_ = query.Operation(7).String()
		_ = query.TableJoinType(7).String()
	})
}

// H_C07_starts: neither do the shorthands which start something.
func H_C07_starts() {
	n := v.AnyInt("number")
	ident := query.Table([]string{"t", "t AS u", "t u"}[v.Choice("table", 3)])
	other := query.TableName("s").Ident().As("r")
	c, val := query.EqualTo("c", n), query.FieldName("a").Value(n)
	l, r := query.Field("t.a AS e"), query.Field("s.b")
	on := query.JoinFields(l, r)
	kind := v.Choice("what", 14)
	unshared("starting something", func() {
		name := ident.TableName()
		_, _, _ = l.TableFieldName(), query.FieldName("t.c AS d").Field(), query.LogicalAND.String()
		switch kind {
		case 0:
			for _, j := range []query.TableJoiner{on.InnerJoin(), on.LeftJoin(), on.RightJoin(), on.FullJoin()} {
				look(j)
			}
		case 1:
			for _, j := range []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin} {
				look(j.By(l, r))
				look(j.Tables(ident, other))
			}
		case 2:
			for _, op := range []query.Operation{query.DoSelect, query.DoInsert, query.DoUpdate, query.DoDelete, 9} {
				_, _ = op.New().Operation(), op.String()
			}
		case 3:
			b := ident.Select(c)
			look(b.RightJoin(other))
			look(b.FullJoin(other))
			look(b.InnerJoin(other))
			look(b.LeftJoin(other))
		case 4:
			b := name.SelectMany(c)
			look(b.RightJoin("s AS r"))
			look(b.FullJoin("s"))
			look(b.InnerJoin("s"))
			look(b.LeftJoin("s"))
		case 5:
			b := name.SelectOne(c)
			look(b.RightJoin("s AS r"))
			look(b.FullJoin("s"))
			look(b.InnerJoin("s"))
			look(b.LeftJoin("s"))
		case 6:
			look(ident.InsertInto(val))
			look(ident.Update(val, val).Where(c))
			look(ident.Delete(c, c))
		case 7:
			look(name.InsertInto(val))
			look(name.Update(val, val).Where(c))
			look(name.Delete(c, c))
		case 8:
			look(ident.Field("f"))
			look(name.Field("f as g"))
			look(name.Ident())
		case 9:
			look(ident.SelectOne(c, c))
			look(ident.SelectMany(c, c))
			look(ident.Count(c, c))
		case 10:
			look(ident.Join(other, query.LeftJoin))
			look(ident.InnerJoin(other))
			look(ident.LeftJoin(other))
			look(ident.RightJoin(other))
			look(ident.FullJoin(other))
		case 11:
			look(name.Join(other, query.LeftJoin))
			look(name.InnerJoin(other))
			look(name.LeftJoin(other))
			look(name.RightJoin(other))
			look(name.FullJoin(other))
		case 12:
			look(query.Count(name.Select(c), "n"))
			look(query.SelectSingleFromBase(name.Select(c)).Count())
			look(query.SelectManyFromBase(name.Select(c)).Count())
			look(query.NewTableJoiner(ident, query.FullJoin, on))
		default:
			look(query.LogicalOR.Join(c, c, query.Not(c)))
			for _, x := range query.LogicalOR.SetToAll(c, query.LogicalAND.Join(c)) {
				look(x)
			}
		}
	})
}
