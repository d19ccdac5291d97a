package h

import (
	"errors"

	"github.com/amarin/query"
	"verifharness/v"
)

// H_C20_map: maps of arbitrary keys.
func H_C20_map() {
	n := v.Choice("entries", 1+v.Bound("entries", 2, 3))
	m := query.ValuesMap{}
	var keys []string
	var vals []any
	valid := true
	for i := 0; i < n; i++ {
		k := ascii("key", v.Choice("length", 1+v.Bound("key length", 3, 3)))
		for _, x := range keys {
			v.Assume(x != k)
		}
		var x any = v.AnyInt("value")
		m[k] = x
		keys, vals = append(keys, k), append(vals, x)
		valid = valid && validName(k)
	}
	judgeMap(m, keys, vals, valid)
}

// H_C20_many: more entries, one of which may be invalid, with every kind of value.
func H_C20_many() {
	n := 1 + v.Choice("entries", v.Bound("many entries", 4, 5))
	m := query.ValuesMap{}
	var keys []string
	var vals []any
	bad := v.Choice("bad", n+1)
	kinds := []string{"a b", "", ".x", "x.", "a.b.c", "it's", "a\tb", "\""}
	for i := 0; i < n; i++ {
		k := string(rune('a'+i)) + v.Str("key", 1, "ident")
		if i%2 == 1 {
			k = "t." + k
		}
		if i == bad {
			k = kinds[v.Choice("bad key", len(kinds))]
		}
		x, _ := scalar((i*3+n)%nScalars, "value")
		m[k] = x
		keys, vals = append(keys, k), append(vals, x)
	}
	judgeMap(m, keys, vals, bad == n)
}

func judgeMap(m query.ValuesMap, keys []string, vals []any, valid bool) {
	var got []query.FieldValue
	var err error
	panicked, _ := catch(func() { got, err = m.FieldValues() })
	v.Assert(!panicked, "never panics")
	v.Assert(len(m) == len(keys), "the map is left unchanged")
	for i, k := range keys {
		x, ok := m[k]
		v.Assert(ok && v.Same(x, vals[i]), "the map is left unchanged")
	}
	v.Assert((err == nil) == valid, "an error exactly when a key is invalid")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
		v.Assert(len(got) == 0, "no values with an error")
		v.Reach("refused")
		return
	}
	v.Assert(len(got) == len(keys), "one value per entry")
	v.Reach("converted")
	for i, k := range keys {
		table, name, _ := qualified(k)
		found := 0
		for _, f := range got {
			if v.And(v.Eq(string(f.TableName()), table), v.Eq(string(f.FieldName()), name)) {
				found++
				v.Assert(f.Alias() == "", "no alias")
				_, want := boundOf(vals[i])
				v.Assert(sameList(f.Values(), want), "each name carries its own value")
			}
		}
		v.Assert(found == 1, "each entry once")
	}
}

// boundOf is what a value becomes when bound: as one value, and as the list shown by Values.
func boundOf(x any) (one any, list []any) {
	list = query.NewFieldValue("any", x).Values()
	if len(list) == 1 {
		return list[0], list
	}
	return x, list
}

// H_C20_large: many entries, one of which may be invalid.
func H_C20_large() {
	n := large("large maps", 130)
	m := query.ValuesMap{}
	var keys []string
	var vals []any
	bad := []int{n, 0, n / 2, n - 1}[v.Choice("bad", 4)]
	for i := 0; i < n; i++ {
		k := "k" + itoa(i)
		if i%3 == 1 {
			k = "t" + itoa(i%2) + "." + k
		}
		if i == bad {
			k = []string{"a b", ".x", "x.", "a.b.c"}[i%4]
		}
		var x any = v.AnyInt("value")
		m[k] = x
		keys, vals = append(keys, k), append(vals, x)
	}
	judgeMap(m, keys, vals, bad == n)
}

// H_C20_long: long keys.
func H_C20_long() {
	n := large("length", 300)
	k, l := lengthy("key", n, "ident"), lengthy("key", n, "ident")
	v.Assume(k != l)
	if v.Choice("qualified", 2) == 1 {
		k = k[:n/2] + "." + k[n/2:]
	}
	x, y := v.AnyInt("value"), v.AnyInt("value")
	judgeMap(query.ValuesMap{k: x, l: y}, []string{k, l}, []any{x, y}, true)
}

// H_C20_kinds: values of every kind, those that look like parts of a query included.
func H_C20_kinds() {
	x, _ := single(v.Choice("type", nSingles), "x")
	y, _ := single(v.Choice("other type", 2)*49, "y")
	judgeMap(query.ValuesMap{"a": x, "t.b": y}, []string{"a", "t.b"}, []any{x, y}, true)
}
