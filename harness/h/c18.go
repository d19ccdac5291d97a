package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// swap replaces whole words of concrete text.
func swap(text string, to func(word string) string) (res string) {
	for i := 0; i < len(text); {
		j := i
		for j < len(text) && isWord(text[j]) && text[j] != '*' {
			j++
		}
		if j == i {
			res += text[i : i+1]
			i++
			continue
		}
		w := text[i:j]
		switch {
		case keyword(w) || i > 0 && text[i-1] == '$': // not a name
			res += w
		default:
			res += to(w)
		}
		i = j
	}
	return res
}

// applied checks that after differs from before only in names.
func applied(before, after query.Condition, seen print, to func(string) string) {
	v.Observe("before", before.Render(3))
	v.Observe("after", after.Render(3))
	v.Assert(v.Eq(after.Render(3), swap(before.Render(3), to)), "only the named fields change")
	v.Assert(v.Eq(after.RenderSQL(), swap(before.RenderSQL(), to)), "only the named fields change in the plain text")
	v.Assert(sameList(after.Values(), before.Values()), "values stay")
	v.Assert(after.IsNegate() == before.IsNegate() && after.JoinType() == before.JoinType(), "flags stay")
	v.Assert(after.RenderJoin(false) == before.RenderJoin(false) && after.RenderNegate() == before.RenderNegate(), "flags stay")
	v.Assert(look(before).same(seen), "the receiver is unchanged")
	x := query.IsNull("other")
	v.Assert(v.Eq(after.Or(x).RenderSQL(), swap(before.Or(x).RenderSQL(), func(w string) string {
		if w == "other" {
			return w
		}
		return to(w)
	})), "the result composes as the receiver does")
	v.Reach("applied")
}

// spec menu: definitions that may replace a field
func specs(name string) []query.FieldDefinition {
	return []query.FieldDefinition{
		query.Field(name).Of("t"),
		query.Field(name).As("q"),
		query.Field(name).Of("t").As("q"),
		query.Field(name).Of("t").As(query.FieldName(name)),
		query.Field(name),
	}
}

func bare(w string) string {
	for i := 0; i < len(w); i++ {
		if w[i] == '.' {
			return w[i+1:]
		}
	}
	return w
}

// H_C18_tree: spec and table on every composition; the fields all differ.
func H_C18_tree() {
	w := newWorld(func(i int) int { return []int{1, 4, 0, 2, 3, 9, 11}[i%7] })
	x := w.tree(1 + v.Choice("size", v.Bound("combinators", 2, 3)))
	seen := look(x.c)
	if v.Choice("apply", 2) == 0 {
		applied(x.c, x.c.ApplyFieldTable("t"), seen, func(s string) string { return "t." + s })
		return
	}
	name := "c" + itoa(v.Choice("name", len(w.leaves)+1))
	f := specs(name)[v.Choice("spec", 3)]
	applied(x.c, x.c.ApplyFieldSpec(f), seen, func(s string) string {
		if s == name {
			return f.RenderField()
		}
		return s
	})
}

// H_C18_same: lists whose members may share one name, plain or qualified, of every kind.
func H_C18_same() {
	n := v.Bound("members", 3, 3)
	var cs []query.Condition
	names := []string{"a", "b", "s.a"}
	for i := 0; i < n; i++ {
		kinds := []int{2, 10, 4}
		if i == 0 {
			kinds = []int{0, 1, 2, 3, 11}
		}
		kind := kinds[v.Choice("kind", len(kinds))]
		name := names[v.Choice("name", 3)]
		if kind == 4 || kind == 11 {
			name = names[i%2]
		}
		c := mk(kind, name).c
		if i == 1 && v.Choice("negated", 2) == 1 {
			c = query.Not(c)
		}
		if i == 2 {
			c = query.Or(c)
		}
		cs = append(cs, c)
	}
	f := specs("a")[v.Choice("spec", 5)]
	to := func(s string) string {
		if bare(s) == "a" {
			return f.RenderField()
		}
		return s
	}
	table := func(s string) string { return "t." + bare(s) }
	switch v.Choice("place", 5) {
	case 0:
		x := query.NewWhere().GroupAND(cs...)
		before := look(x)
		y := x.ApplyFieldSpec(f)
		v.Assert(v.Eq(y.Render(3), swap(x.Render(3), to)) && v.Eq(y.RenderSQL(), swap(x.RenderSQL(), to)), "only the named fields change")
		v.Assert(sameList(x.Values(), y.Values()), "values stay")
		v.Assert(look(x).same(before), "the receiver is unchanged")
		v.Reach("applied")
	case 1:
		x := query.NewGroup(query.LogicalOR, cs...)
		applied(&x, (&x).ApplyFieldSpec(f), look(x), to)
	case 2:
		x := query.Not(query.NewGroup(query.LogicalAND, cs[0]).And(cs[1], cs[2])).Join(query.LogicalOR)
		applied(x, x.ApplyFieldSpec(f), look(x), to)
	case 3:
		x := query.NewGroup(query.LogicalOR, cs[1], query.NewGroup(query.LogicalAND, cs[0], cs[2]).WithBrackets())
		applied(x, x.ApplyFieldTable("t"), look(x), table)
	default:
		x := cs[0].And(cs[1].Or(cs[2]))
		y := x.ApplyFieldTable("t")
		applied(x, y, look(x), table)
		f2 := f.Of("t")
		to2 := func(s string) string {
			if bare(s) == "a" {
				return f2.RenderField()
			}
			return s
		}
		applied(y, y.ApplyFieldSpec(f2), look(y), to2)
	}
}

// H_C18_leaf: one condition with an arbitrary name and an arbitrary definition.
func H_C18_leaf() {
	f, _, name, _ := parts()
	own := ident("own")
	kind := v.Choice("kind", 10)
	if kind == 4 {
		kind = 10
	}
	c := mkAs(kind, own, "c").c
	if v.Choice("flags", 2) == 1 {
		c = query.Or(query.Not(c))
	}
	before := c.Render(5)
	d := c.ApplyFieldSpec(f)
	v.Assert(v.Eq(c.Render(5), before), "the receiver is unchanged")
	v.Assert(sameList(c.Values(), d.Values()), "values stay")
	v.Assert(c.IsNegate() == d.IsNegate() && c.JoinType() == d.JoinType(), "flags stay")
	if own != name {
		v.Assert(v.Eq(d.Render(5), before) && v.Eq(d.RenderSQL(), c.RenderSQL()), "other fields stay")
		v.Assert(v.Eq(string(d.FieldName()), own), "other fields stay")
		v.Reach("kept")
		return
	}
	at := 0
	if c.IsNegate() && (kind == 0 || kind >= 5 && kind <= 8) {
		at = 4
	}
	v.Assert(v.Eq(d.Render(5), before[:at]+f.RenderField()+before[at+len(own):]), "the named field changes")
	v.Assert(v.Eq(string(d.FieldName()), name), "the field name stays")
	e := d.ApplyFieldTable("zz")
	v.Assert(v.Eq(e.Render(5), before[:at]+f.Of("zz").RenderField()+before[at+len(own):]), "the table changes")
	v.Reach("replaced")
}

// H_C18_parts: field values and orderings.
func H_C18_parts() {
	f, table, name, alias := parts()
	own := ident("own")
	x, bound := scalar(v.Choice("type", nScalars), "x")
	a := query.FieldName(own).Value(x)
	b := a.ApplyFieldSpec(f)
	o := query.OrderBy(query.FieldName(own), []query.SortDirection{query.Ascending, query.Descending}[v.Choice("direction", 2)])
	p := o.ApplyFieldSpec(f)
	v.Assert(isField(a.FieldDefinition, "", own, "") && isField(o.FieldDefinition, "", own, ""), "the receiver is unchanged")
	v.Assert(p.Direction() == o.Direction(), "the direction stays")
	v.Assert(sameList(a.Values(), b.Values()), "the value stays")
	if own == name {
		v.Assert(isField(b.FieldDefinition, table, name, alias) && isField(p.FieldDefinition, table, name, alias), "the named field changes")
		v.Reach("replaced")
	} else {
		v.Assert(isField(b.FieldDefinition, "", own, "") && isField(p.FieldDefinition, "", own, ""), "other fields stay")
		v.Reach("kept")
	}
	c := b.ApplyFieldTable("zz")
	v.Assert(isField(c.FieldDefinition, "zz", string(b.FieldName()), string(b.Alias())), "the table changes")
	v.Assert(sameList(c.Values(), a.Values()), "the value stays")
	_, params := build(query.InsertInto("t").Values(c))
	v.Assert(sameList(params, []any{bound}), "the value is bound as before")
}

// H_C18_large: groups of many members and of many levels.
func H_C18_large() {
	n := large("members", 65)
	names := []string{"a", "b", "s.a"}
	every := 1 + v.Choice("every", 3)
	c := func(i int) query.Condition {
		name := names[2]
		if i%every != 0 {
			name = names[i%2]
		}
		x := mk([]int{0, 1, 2, 3}[i%4], name).c
		if i%5 == 4 {
			x = query.Not(x)
		}
		if i%3 == 2 {
			x = query.Or(x)
		}
		return x
	}
	var x query.Condition
	var cs []query.Condition
	for i := 0; i < n; i++ {
		cs = append(cs, c(i))
	}
	switch v.Choice("form", 4) {
	case 0:
		x = query.NewGroup(query.LogicalOR, cs...)
	case 1:
		x = cs[0].And(cs[1:]...)
	case 2:
		x = cs[0]
		for i, y := range cs[1:] {
			if i%2 == 0 {
				x = x.And(y)
			} else {
				x = query.Not(x.Or(y))
			}
		}
	default:
		x = cs[0]
		for i, y := range cs[1:] {
			g := query.NewGroup([]query.JoinType{query.LogicalAND, query.LogicalOR}[i%2], y, x)
			if i%4 == 3 {
				g = g.WithBrackets()
			}
			if x = g; i%5 == 4 {
				x = &g
			}
		}
	}
	if v.Choice("apply", 2) == 0 {
		applied(x, x.ApplyFieldTable("t"), look(x), func(s string) string { return "t." + bare(s) })
		return
	}
	f := specs("a")[v.Choice("spec", 5)]
	applied(x, x.ApplyFieldSpec(f), look(x), func(s string) string {
		if bare(s) == "a" {
			return f.RenderField()
		}
		return s
	})
}

// H_C18_long: long names that differ or not in one character.
func H_C18_long() {
	n := large("length", 300)
	own, name := lengthy("own", n, "ident"), lengthy("name", n, "ident")
	c := mkAs([]int{0, 1, 2, 3}[v.Choice("kind", 4)], own, "c").c
	f := query.Field(name).Of("t")
	d := c.ApplyFieldSpec(f)
	if own != name {
		v.Assert(v.Eq(d.Render(5), c.Render(5)), "other fields stay")
	} else {
		v.Assert(v.Eq(d.Render(5), "t."+c.Render(5)), "the named field changes")
	}
	v.Assert(sameList(c.Values(), d.Values()), "values stay")
	v.Reach("applied")
}

// H_C18_dressed: receivers that have a table, an alias or both already, and what replaces them.
func H_C18_dressed() {
	forms := []string{"%", "t.%", "% as al", "t.% as al", "t.% as %"}
	own := "c" + v.Str("own", 1, "ident")
	put := func(form string) (s string) {
		for i := 0; i < len(form); i++ {
			if form[i] == '%' {
				s += own
			} else {
				s += form[i : i+1]
			}
		}
		return s
	}
	was := query.Field(put(forms[v.Choice("was", len(forms))]))
	var f query.FieldDefinition
	if v.Choice("apply", 3) == 0 {
		f = was.Of("zz")
	} else {
		f = query.Field(put(forms[v.Choice("spec", len(forms))]))
		if v.Choice("other", 2) == 1 {
			f = f.Of("u").As("bl")
		}
	}
	table := f.TableName() == "zz"
	switch v.Choice("member", 4) {
	case 0:
		x := query.FieldName(own).Value(v.AnyInt("x")).ApplyFieldSpec(was)
		y := x.ApplyFieldSpec(f)
		if table {
			y = x.ApplyFieldTable("zz")
		}
		v.Assert(isField(y.FieldDefinition, string(f.TableName()), own, string(f.Alias())), "the definition is replaced")
		v.Assert(isField(x.FieldDefinition, string(was.TableName()), own, string(was.Alias())), "the receiver is unchanged")
		v.Assert(sameList(x.Values(), y.Values()), "the value stays")
	case 1:
		x := query.DESC(query.FieldName(own)).ApplyFieldSpec(was)
		v.Assert(isField(x.FieldDefinition, string(was.TableName()), own, string(was.Alias())), "the definition is replaced")
		if table {
			return
		}
		y := x.ApplyFieldSpec(f)
		v.Assert(isField(y.FieldDefinition, string(f.TableName()), own, string(f.Alias())), "the definition is replaced")
		v.Assert(y.Direction() == query.Descending, "the direction stays")
	case 2:
		x := mk([]int{0, 1, 2, 3, 5, 6, 7, 8, 9}[v.Choice("kind", 9)], own).c.ApplyFieldSpec(was)
		y := x.ApplyFieldSpec(f)
		if table {
			y = x.ApplyFieldTable("zz")
		}
		a, b := x.Render(2), y.Render(2)
		v.Assert(v.Eq(a[:len(was.RenderField())], was.RenderField()), "the definition is replaced")
		v.Assert(v.Eq(b, f.RenderField()+a[len(was.RenderField()):]), "the definition is replaced")
		v.Assert(v.Eq(string(y.FieldName()), own), "the field name stays")
		v.Assert(sameList(x.Values(), y.Values()), "values stay")
	default:
		x := mk(0, own).c.ApplyFieldSpec(was)
		o := query.Less("other", 1)
		g := query.Not(query.NewGroup(query.LogicalOR, o, x, query.NewGroup(query.LogicalAND, x, query.Or(o))))
		h := g.ApplyFieldSpec(f)
		other := "other"
		if table {
			h = g.ApplyFieldTable("zz")
			other = "zz.other"
		}
		n := f.RenderField()
		want := ""
		text := g.Render(0)
		for i := 0; i < len(text); {
			switch {
			case i+5 <= len(text) && v.Eq(text[i:i+5], "other"):
				want += other
				i += 5
			case i+len(was.RenderField())+2 <= len(text) && v.Eq(text[i:i+len(was.RenderField())+2], was.RenderField()+"=$"):
				want += n
				i += len(was.RenderField())
			default:
				want += text[i : i+1]
				i++
			}
		}
		v.Assert(v.Eq(h.Render(0), want), "the definition is replaced in every member")
	}
	v.Reach("replaced")
}
