package h

import (
	"errors"

	"github.com/amarin/query"
	"verifharness/v"
)

// validName is the documented rule, over ASCII text.
func validName(s string) bool {
	dots := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\'' || s[i] == '"' || blank(s[i]):
			return false
		case s[i] == '.':
			dots++
		}
	}
	return len(s) > 0 && dots <= 1 && s[0] != '.' && s[len(s)-1] != '.'
}

// judgeName asserts everything said about one field name.
func judgeName(s string, ok bool) {
	n := query.FieldName(s)
	err := n.Validate()
	v.Assert((err == nil) == ok, "Validate accepts exactly the valid names")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
	}
	type sorter struct {
		f   func() query.FieldSorting
		dir query.SortDirection
	}
	for _, x := range []sorter{
		{func() query.FieldSorting { return query.ASC(n) }, query.Ascending},
		{func() query.FieldSorting { return query.DESC(n) }, query.Descending},
		{func() query.FieldSorting { return query.OrderBy(n) }, query.Ascending},
		{func() query.FieldSorting { return query.OrderBy(n, query.Ascending) }, query.Ascending},
		{func() query.FieldSorting { return query.OrderBy(n, query.Descending) }, query.Descending},
	} {
		var f query.FieldSorting
		panicked, _ := catch(func() { f = x.f() })
		v.Assert(panicked == !ok, "sorting panics exactly for invalid names")
		if ok && !panicked {
			v.Assert(v.Eq(f.Render(), s+" "+string(x.dir)), "the name is sorted verbatim in the requested direction")
			v.Assert(f.Direction() == x.dir, "the direction is told")
			v.Observe("order", f.Render())
		}
	}
	if !ok {
		v.Reach("invalid")
		return
	}
	v.Reach("valid")
	table, name, _ := qualified(s)
	panicked, _ := catch(func() {
		f := query.Field(n)
		v.Assert(isField(f, table, name, ""), "the name is never reinterpreted")
		v.Assert(v.Eq(f.RenderField(), s), "the name is rendered verbatim")
		v.Assert(v.Eq(f.RenderSpec(), s), "the name is selected verbatim")
		v.Assert(v.Eq(query.EqualTo(n, 1).Render(0), s+"=$1"), "the name is compared verbatim")
		v.Assert(v.Eq(query.IsNull(n).RenderSQL(), s+" IS NULL"), "the name is compared verbatim")
		vals, err := query.ValuesMap{s: 1}.FieldValues()
		v.Assert(err == nil && len(vals) == 1, "ValuesMap accepts the name")
		if len(vals) == 1 {
			v.Assert(isField(vals[0].FieldDefinition, table, name, ""), "ValuesMap keeps the name")
		}
		val := n.Value(1)
		v.Assert(isField(val.FieldDefinition, table, name, ""), "Value keeps the name")
	})
	v.Assert(!panicked, "valid names never panic")
}

// H_C15_any: any ASCII text.
func H_C15_any() {
	s := ascii("name", v.Choice("length", 1+v.Bound("name length", 4, 6)))
	judgeName(s, validName(s))
}

// H_C15_long: valid names with one odd character anywhere.
func H_C15_long() {
	n := v.Bound("long name length", 9, 16)
	s := v.Str("name", n, "ident")
	at := v.Choice("at", n+1)
	c := ascii("odd", 1)
	s = s[:at] + c + s[at:]
	if v.Choice("second dot", 2) == 1 {
		s = s[:3] + "." + s[3:]
	}
	judgeName(s, validName(s))
}

// H_C15_unicode: blanks and letters outside of ASCII.
func H_C15_unicode() {
	r := []string{"\u00a0", "\u0085", "\u2003", "\u3000", "\u2028", "\u1680"}
	l := []string{"\u00e9", "\u65e5", "\u017f", "\U0001f600"}
	a, b := v.Str("a", v.Choice("left length", 3), "ident"), v.Str("b", v.Choice("right length", 3), "ident")
	if i := v.Choice("rune", len(r)+len(l)); i < len(r) {
		judgeName(a+r[i]+b, false)
	} else {
		judgeName(a+l[i-len(r)]+b, true)
	}
}

// H_C15_direction: any direction text.
func H_C15_direction() {
	d := query.SortDirection(v.Str("direction", v.Choice("length", 1+v.Bound("direction length", 6, 8)), ""))
	n := query.FieldName(name2("name"))
	var f query.FieldSorting
	panicked, with := catch(func() { f = query.OrderBy(n, d) })
	known := v.Or(v.Eq(string(d), "ASC"), v.Eq(string(d), "DESC"))
	v.Assert(v.Iff(known, !panicked), "OrderBy panics exactly for unknown directions")
	if panicked {
		if err, ok := with.(error); ok {
			v.Assert(errors.Is(err, query.Error), "the error is marked")
		}
		v.Reach("unknown")
		return
	}
	v.Reach("known")
	v.Assert(v.And(v.Eq(string(f.Direction()), string(d)), v.Eq(f.Render(), string(n)+" "+string(d))), "the direction is used")
	v.Assert(v.Eq(d.String(), string(d)), "the direction prints itself")
}

// H_C15_lengthy: long names with an odd character anywhere.
func H_C15_lengthy() {
	n := large("length", 300)
	at := []int{0, 1, n / 2, n - 1, n}[v.Choice("at", 5)]
	c := ascii("odd", 1)
	s := lengthy("name", n, "ident")
	s = s[:at] + c + s[at:]
	if v.Choice("dot", 2) == 1 {
		s = s[:n/3] + "." + s[n/3:]
	}
	judgeName(s, validName(s))
}

// H_C15_directions: only the first of several directions counts.
func H_C15_directions() {
	all := []query.SortDirection{"ASC", "DESC", "asc", "desc", "", "ASC DESC", "RANDOM()", "DESC NULLS LAST"}
	d := []query.SortDirection{all[v.Choice("first", len(all))], all[v.Choice("second", len(all))]}
	if v.Choice("third", 2) == 1 {
		d = append(d, "DESC")
	}
	s := name2("name")
	var f query.FieldSorting
	panicked, _ := catch(func() { f = query.OrderBy(query.FieldName(s), d...) })
	known := d[0] == query.Ascending || d[0] == query.Descending
	v.Assert(panicked == !known, "OrderBy panics for an unknown direction")
	if !panicked {
		v.Assert(v.Eq(f.Render(), s+" "+string(d[0])), "the requested direction is used")
		v.Reach("sorted")
	} else {
		v.Reach("unknown")
	}
}

// letter is any letter of two or three bytes outside of ASCII, none of which is a blank.
func letter(label string) string {
	if v.Choice(label+" bytes", 2) == 0 {
		s := v.Str(label, 2, "")
		v.Assume(s[0] >= 0xc3)
		v.Assume(s[0] <= 0xdf)
		v.Assume(s[1] >= 0x80)
		v.Assume(s[1] <= 0xbf)
		return s
	}
	s := v.Str(label, 3, "")
	v.Assume(s[0] >= 0xe4)
	v.Assume(s[0] <= 0xe9)
	v.Assume(s[1] >= 0x80)
	v.Assume(s[1] <= 0xbf)
	v.Assume(s[2] >= 0x80)
	v.Assume(s[2] <= 0xbf)
	return s
}

// H_C15_letters: any letter outside of ASCII anywhere.
func H_C15_letters() {
	a, b := v.Str("a", v.Choice("left length", 4), "ident"), v.Str("b", v.Choice("right length", 4), "ident")
	s := a + letter("letter") + b
	switch v.Choice("form", 3) {
	case 1:
		s += letter("last")
	case 2:
		s = "t." + s
	}
	judgeName(s, true)
}

// H_C13_letters: specifications with any letters outside of ASCII.
func H_C13_letters() {
	name := v.Str("name", v.Choice("name length", 2), "ident") + letter("letter") + v.Str("rest", v.Choice("rest length", 2), "ident")
	s, table, alias := name, "", ""
	if v.Choice("qualified", 2) == 1 {
		table = "t" + letter("table")
		s = table + "." + name
	}
	if v.Choice("aliased", 2) == 1 {
		alias = letter("alias") + v.Str("alias end", 1, "ident")
		s += []string{" AS ", " as ", "  aS\t"}[v.Choice("as", 3)] + alias
	}
	f, err := fieldForms(s)
	v.Assert(err == nil, "letters of any script are accepted")
	v.Assert(isField(f, table, name, alias), "parts are split as documented")
	v.Reach("accepted")
	roundTrip(f)
}

// H_C14_letters: table specifications with any letters outside of ASCII.
func H_C14_letters() {
	name := v.Str("name", v.Choice("name length", 2), "ident") + letter("letter") + v.Str("rest", v.Choice("rest length", 2), "ident")
	s, alias := name, ""
	if f := v.Choice("form", 4); f > 0 {
		alias = letter("alias") + v.Str("alias end", v.Choice("alias end", 2), "ident")
		s += []string{" AS ", " as\u2003", " "}[f-1] + alias
	}
	t, err := tableForms(s)
	v.Assert(err == nil, "letters of any script are accepted")
	judgeTable(t, name, alias)
	v.Reach("accepted")
}
