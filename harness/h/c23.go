package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// judgeContract checks the text of conditions against the contract of every member. base params stand before.
func (w *world) judgeContract(sql string, params []any, base int) {
	toks := lex(sql)
	seen := 0
	at := base
	var order []leaf
	cur := -1
	marks := 0
	finish := func() {
		if cur >= 0 {
			v.Assert(marks == len(w.leaves[cur].vals), "a condition keeps its own placeholders")
		}
	}
	for _, t := range toks {
		switch {
		case t.kind == 'w' && !keyword(t.text):
			n, isNumber := atNumber(t.text)
			if isNumber {
				v.Assert(n == at, "a condition receives the number of values before it")
				seen++
				continue
			}
			finish()
			cur, marks = w.find(t.text), 0
			v.Assert(cur >= 0, "nothing but the conditions is rendered")
			if cur >= 0 {
				order = append(order, w.leaves[cur])
			}
		case t.kind == '$':
			at++
			marks++
			v.Assert(t.num == at, "placeholders are numbered on")
		}
	}
	finish()
	v.Assert(len(order) == len(w.leaves), "every condition appears")
	var want []any
	used := make([]bool, len(w.leaves))
	for _, l := range order {
		i := w.find(l.name)
		v.Assert(!used[i], "every condition appears once")
		used[i] = true
		want = append(want, l.vals...)
		if l.kind >= probe {
			seen--
		}
	}
	v.Assert(seen == 0, "every user condition is rendered with a number")
	v.Assert(sameList(params, want), "all values appear once in order")
}

func (w *world) find(name string) int {
	for i, l := range w.leaves {
		if l.name == name {
			return i
		}
	}
	return -1
}

func atNumber(s string) (n int, ok bool) {
	if len(s) < 3 || s[:2] != "at" {
		return 0, false
	}
	for i := 2; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, true
}

// quiet drops the shown numbers.
func quiet(sql string) string {
	res := ""
	for _, t := range lex(sql) {
		if _, ok := atNumber(t.text); !ok {
			res += t.text + " "
		}
	}
	return res
}

func (w *world) judgeUser(sql string, params []any, base int, d bool) {
	v.Observe("sql", sql)
	v.Reach("judged")
	w.judgeContract(sql, params, base)
	got, p := meaning(quiet(sql), w.truth)
	v.Assert(!p.bad, "the condition is well formed")
	v.Assert(v.Iff(got, d), "conditions are joined by their own joins")
}

// H_C23_counts: user conditions with any number of values among built-in ones.
func H_C23_counts() {
	kinds := []int{probe, probe + 1, probe + 2, probe + 11, 0, 1, 2, 3}
	w := newWorld(func(i int) int { return kinds[v.Choice("kind", len(kinds))] })
	n := v.Bound("members", 3, 4)
	var list []node
	for i := 0; i < n; i++ {
		x := w.leaf()
		if i > 0 && v.Choice("join", 2) == 1 {
			x.c = x.c.Join(query.LogicalOR)
		}
		list = append(list, x)
	}
	d, _ := den(list)
	switch v.Choice("place", 4) {
	case 0:
		sql, params := build(query.SelectFrom("t").Where(conds(list)...))
		w.judgeUser(whereOf(sql), params, 0, d)
	case 1:
		sql, params := build(query.Update("t").Set(query.FieldName("s").Value(1), query.FieldName("s2").Value(2)).Where(conds(list)...))
		w.judgeUser(whereOf(sql), params[2:], 2, d)
	case 2:
		g := query.NewGroup(query.LogicalOR, list[0].c).And(conds(list[1:])...)
		d, _ := with(query.LogicalAND, list[0], list[1:])
		w.judgeUser(g.Render(97), g.Values(), 97, d)
	default:
		b := query.Delete("t")
		for _, x := range list {
			b = b.Where(x.c)
		}
		d := true
		for _, x := range list {
			d = v.And(d, x.d)
		}
		sql, params := build(b)
		w.judgeUser(whereOf(sql), params, 0, d)
	}
}

// H_C23_tree: user conditions inside of any composition.
func H_C23_tree() {
	shift := v.Choice("shift", 3)
	w := newWorld(func(i int) int { return []int{probe + 2, 0, probe + 1, probe, 1, probe + 3}[(i+2*shift)%6] })
	x := w.tree(v.Bound("combinators", 2, 3))
	y := w.leaf()
	d, _ := den([]node{x, y})
	switch v.Choice("place", 4) {
	case 0:
		c := query.NewWhere().GroupAND(x.c, y.c)
		w.judgeUser(c.Render(8), c.Values(), 8, d)
	case 1:
		sql, params := build(query.SelectFrom("t").Where(x.c, y.c).Count())
		w.judgeUser(whereOf(sql), params, 0, d)
	case 2:
		sql, params := build(query.SelectManyFrom("t").Where(x.c).Offset(3).Where(y.c).Limit(5))
		w.judgeUser(whereOf(sql), params[:len(params)-2], 0, v.And(x.d, y.d))
		v.Assert(sameNumbers(params[len(params)-2:], []any{3, 5}), "paging comes last")
		v.Assert(has(sql, " OFFSET $"+itoa(len(params)-1)+" LIMIT $"+itoa(len(params))), "paging is numbered on")
	default:
		sql, params := build(query.SelectSingleFrom("t").Where(y.c).Where(x.c))
		w.judgeUser(whereOf(sql), params, 0, v.And(x.d, y.d))
	}
}

// textCond has an arbitrary text.
type textCond struct {
	userCond
	text string
}

func (t textCond) Render(int) string                         { return t.text }
func (t textCond) RenderSQL() string                         { return t.text }
func (t textCond) Join(j query.JoinType) query.Condition     { t.join = j; return t }
func (t textCond) Negate(n bool) query.Condition             { t.neg = n; return t }
func (t textCond) And(cs ...query.Condition) query.Condition { return query.And(t, cs...) }
func (t textCond) Or(cs ...query.Condition) query.Condition  { return query.Or(t, cs...) }

// H_C23_text: the text of a user condition is never touched.
func H_C23_text() {
	text := v.Str("text", 1+v.Choice("length", v.Bound("text length", 4, 6)), "")
	v.Assume(v.And(v.Not(blank(text[0])), v.Not(blank(text[len(text)-1])))) // blanks around a text mean nothing
	x := v.AnyInt("x")
	t := textCond{userCond{name: "u", join: query.LogicalAND, vals: []any{x}}, text}
	a, z := query.EqualTo("a", 1), query.Less("z", 2)
	v.Reach("judged")
	switch v.Choice("place", 7) {
	case 0:
		sql, params := build(query.SelectFrom("t").Where(a, t, z))
		v.Assert(v.Eq(sql, "SELECT * FROM t WHERE a=$1 AND "+text+" AND z<$3"), "the text is kept")
		v.Assert(sameList(params, []any{1, x, 2}), "the values are kept")
	case 1:
		sql, _ := build(query.Delete("t").Where(t).Where(z))
		v.Assert(v.Eq(sql, "DELETE FROM t WHERE "+text+" AND z<$2"), "the text is kept")
	case 2:
		sql, _ := build(query.Update("t").Set(query.FieldName("s").Value(1)).Where(t.Or(z)))
		v.Assert(v.Eq(sql, "UPDATE t SET s=$1 WHERE "+text+" OR z<$3"), "the text is kept")
	case 3:
		g := query.NewGroup(query.LogicalOR, a, t)
		v.Assert(v.Eq(g.RenderSQL(), "a=? OR "+text), "the text is kept")
	case 4:
		w := query.NewWhere().GroupAND(t)
		v.Assert(v.Eq(w.Render(0), text) && v.Eq(w.RenderSQL(), text), "the text is kept")
	case 5:
		sql, _ := build(query.SelectFrom("t").Where(a, query.Or(t)).Count())
		v.Assert(v.Eq(sql, "SELECT COUNT(*) FROM t WHERE a=$1 OR "+text), "the text is kept")
	default: // Negate is the condition's own business
		g := query.NewGroup(query.LogicalAND, query.Not(t), z)
		v.Assert(v.Eq(g.Render(3), text+" AND z<$5"), "the text is kept")
	}
}

// H_C23_large: many members, some of which have many values.
func H_C23_large() {
	shift := v.Choice("shift", 4)
	kinds := []int{probe, probe + 2, 0, probe + 13, 2, probe + 1, 1}
	w := newWorld(func(i int) int { return kinds[(i+shift)%len(kinds)] })
	n := large("members", 65)
	var list []node
	d := true
	for i := 0; i < n; i++ {
		x := w.leaf()
		d = v.And(d, x.d)
		if i > 0 && i%4 == shift {
			x.c = query.Or(x.c)
		}
		list = append(list, x)
	}
	switch v.Choice("place", 4) {
	case 0:
		d, _ := den(list)
		sql, params := build(query.SelectFrom("t").Where(conds(list)...))
		w.judgeUser(whereOf(sql), params, 0, d)
	case 1:
		b := query.Update("t").Set(query.FieldName("s").Value(1))
		for _, x := range list {
			b = b.Where(x.c)
		}
		sql, params := build(b)
		w.judgeUser(whereOf(sql), params[1:], 1, d)
	case 2:
		x := list[0]
		for i, y := range list[1:] {
			x = w.combine(i%8, x, y)
		}
		w.judgeUser(x.c.Render(3), x.c.Values(), 3, x.d)
	default:
		x := list[0]
		for i, y := range list[1:] {
			x = w.combine(i%8, y, x)
			if i%3 == 0 {
				x = negated(x, true)
			}
		}
		sql, params := build(query.SelectFrom("t").Where(x.c).Count())
		w.judgeUser(whereOf(sql), params, 0, x.d)
	}
}

// ownJoin tells an operation and renders its own token for it.
type ownJoin struct {
	userCond
	token string
}

func (t ownJoin) Render(int) string { return t.name + "~$9" }
func (t ownJoin) RenderSQL() string { return t.name + "~?" }
func (t ownJoin) RenderJoin(isFirst bool) string {
	if isFirst {
		return ""
	}
	return string(t.join) + t.token
}
func (t ownJoin) Join(j query.JoinType) query.Condition     { t.join = j; return t }
func (t ownJoin) Negate(n bool) query.Condition             { t.neg = n; return t }
func (t ownJoin) And(cs ...query.Condition) query.Condition { return query.And(t, cs...) }
func (t ownJoin) Or(cs ...query.Condition) query.Condition  { return query.Or(t, cs...) }

// H_C23_join: what a user condition renders as its join stands before it.
func H_C23_join() {
	token := v.Str("token", v.Choice("length", 3), "")
	x := v.AnyInt("x")
	t := ownJoin{userCond{name: "u", join: query.LogicalAND, vals: []any{x}}, token}
	word, u := " AND", query.Condition(t)
	if v.Choice("or", 2) == 1 {
		word, u = " OR", query.Or(t)
	}
	a, z := query.EqualTo("a", 1), query.Less("z", 2)
	v.Reach("judged")
	want := "a=$1" + word + token + " u~$9 AND z<$3"
	switch v.Choice("place", 4) {
	case 0:
		sql, params := build(query.SelectFrom("t").Where(a, u, z))
		v.Assert(v.Eq(sql, "SELECT * FROM t WHERE "+want), "the join is kept")
		v.Assert(sameList(params, []any{1, x, 2}), "the values are kept")
	case 1:
		sql, params := build(query.Delete("t").Where(a, u, z))
		v.Assert(v.Eq(sql, "DELETE FROM t WHERE "+want), "the join is kept")
		v.Assert(sameList(params, []any{1, x, 2}), "the values are kept")
	case 2:
		g := query.NewGroup(query.LogicalOR, a, u)
		v.Assert(v.Eq(g.RenderSQL(), "a=? OR"+token+" u~?"), "the join is kept")
		v.Assert(v.Eq(query.Not(g).Render(4), "NOT (a=$5 OR"+token+" u~$9)"), "the join is kept")
	default:
		g := query.NewGroup(query.LogicalAND, u, z)
		v.Assert(v.Eq(g.Render(0), "u~$9 AND z<$2"), "the first has no join")
	}
}

// owner embeds a group but is a condition of its own.
type owner struct {
	query.Group
	userCond
}

func (o owner) Values() []any                                        { return o.userCond.Values() }
func (o owner) Render(n int) string                                  { return o.userCond.Render(n) }
func (o owner) RenderSQL() string                                    { return o.userCond.RenderSQL() }
func (o owner) JoinType() query.JoinType                             { return o.userCond.join }
func (o owner) RenderJoin(isFirst bool) string                       { return o.userCond.RenderJoin(isFirst) }
func (o owner) IsNegate() bool                                       { return o.userCond.neg }
func (o owner) Join(j query.JoinType) query.Condition                { o.userCond.join = j; return o }
func (o owner) Negate(n bool) query.Condition                        { o.userCond.neg = n; return o }
func (o owner) And(cs ...query.Condition) query.Condition            { return query.And(o, cs...) }
func (o owner) Or(cs ...query.Condition) query.Condition             { return query.Or(o, cs...) }
func (o owner) FieldName() query.FieldName                           { return "" }
func (o owner) ApplyFieldSpec(query.FieldDefinition) query.Condition { return o }
func (o owner) ApplyFieldTable(query.TableName) query.Condition      { return o }
func (o owner) RenderNegate() string                                 { return o.userCond.RenderNegate() }

// builtin embeds a built-in condition but is a condition of its own.
type builtin struct {
	query.Condition
	u userCond
}

func (o builtin) Values() []any                                        { return o.u.Values() }
func (o builtin) Render(n int) string                                  { return o.u.Render(n) }
func (o builtin) RenderSQL() string                                    { return o.u.RenderSQL() }
func (o builtin) JoinType() query.JoinType                             { return o.u.join }
func (o builtin) RenderJoin(isFirst bool) string                       { return o.u.RenderJoin(isFirst) }
func (o builtin) IsNegate() bool                                       { return o.u.neg }
func (o builtin) Join(j query.JoinType) query.Condition                { o.u.join = j; return o }
func (o builtin) Negate(n bool) query.Condition                        { o.u.neg = n; return o }
func (o builtin) And(cs ...query.Condition) query.Condition            { return query.And(o, cs...) }
func (o builtin) Or(cs ...query.Condition) query.Condition             { return query.Or(o, cs...) }
func (o builtin) ApplyFieldSpec(query.FieldDefinition) query.Condition { return o }
func (o builtin) ApplyFieldTable(query.TableName) query.Condition      { return o }
func (o builtin) RenderNegate() string                                 { return o.u.RenderNegate() }

// H_C23_embedded: user conditions that embed something of the package.
func H_C23_embedded() {
	n := v.Bound("members with embedded ones", 3, 4)
	at := v.Choice("position", n)
	w := newWorld(func(i int) int {
		if i == at {
			return probe + 2
		}
		return []int{probe + 1, 0, probe, 1}[i%4]
	})
	inner := query.Group{}
	if v.Choice("inner", 2) == 1 {
		inner = query.NewGroup(query.LogicalOR, query.EqualTo("lost", 1), query.EqualTo("lost", 2))
	}
	var list []node
	form := v.Choice("form", 4)
	for i := 0; i < n; i++ {
		x := w.leaf()
		if i == at {
			u := x.c.(userCond)
			switch form {
			case 0:
				x.c = owner{inner, u}
			case 1:
				x.c = &owner{inner, u}
			case 2:
				x.c = builtin{query.EqualTo("lost", 3), u}
			default:
				x.c = builtin{inner, u}
			}
		}
		if v.Choice("join", 2) == 1 {
			x.c = query.Or(x.c)
		}
		if i == at && v.Choice("negated", 2) == 1 {
			x = negated(x, true)
		}
		list = append(list, x)
	}
	d, _ := den(list)
	switch v.Choice("place", 3) {
	case 0:
		sql, params := build(query.SelectFrom("t").Where(conds(list)...))
		w.judgeUser(whereOf(sql), params, 0, d)
	case 1:
		b := query.Update("t").Set(query.FieldName("s").Value(1))
		d := true
		for _, x := range list {
			b = b.Where(x.c)
			d = v.And(d, x.d)
		}
		sql, params := build(b)
		w.judgeUser(whereOf(sql), params[1:], 1, d)
	default:
		g := query.NewGroup(query.LogicalAND, list[0].c).Or(conds(list[1:])...)
		d, _ := with(query.LogicalOR, list[0], list[1:])
		w.judgeUser(g.Render(9), g.Values(), 9, d)
	}
}

// H_C23_lists: conditions tell their own lists of values, which are parts of one bigger list.
func H_C23_lists() {
	n := v.Bound("conditions with own lists", 3, 4)
	all := make([]any, 0, 3*n)
	for i := 0; i < 3*n; i++ {
		all = append(all, v.AnyInt("x"))
	}
	kept := append([]any{}, all...)
	w := newWorld(func(i int) int { return 0 })
	var list []node
	for i := 0; i < n; i++ {
		x := w.leaf()
		if k := v.Choice("values", 4); k < 3 {
			l := &w.leaves[i]
			l.kind, l.vals = probe+k, kept[3*i:3*i+k]
			x.c = userCond{name: l.name, vals: all[3*i : 3*i+k], join: query.LogicalAND, shows: true, keeps: true}
		}
		if v.Choice("join", 2) == 1 {
			x.c = query.Or(x.c)
		}
		list = append(list, x)
	}
	d, _ := den(list)
	place := v.Choice("place", 3)
	for again := 0; again < 2; again++ {
		switch place {
		case 0:
			sql, params := build(query.SelectFrom("t").Where(conds(list)...).Offset(7))
			w.judgeUser(whereOf(sql), params[:len(params)-1], 0, d)
		case 1:
			g := query.NewGroup(query.LogicalAND).GroupAND(conds(list)...)
			w.judgeUser(g.Render(5), g.Values(), 5, d)
		default:
			b := query.Update("t").Set(query.FieldName("s").Value(1)).Where(conds(list)...)
			sql, params := build(b)
			w.judgeUser(whereOf(sql), params[1:], 1, d)
		}
	}
	v.Assert(sameList(all, kept), "the lists are left alone")
}

// H_C23_same: user conditions that render the same text, or one the text of the other, all appear.
func H_C23_same() {
	texts := []string{v.Str("text", 2, "ident"), v.Str("text", 2, "ident"), "a IS NULL"}
	join := []query.JoinType{query.LogicalAND, query.LogicalOR}[v.Choice("join", 2)]
	var list []query.Condition
	want, vals := "", []any{}
	for i, n := 0, 2+v.Choice("members", v.Bound("members alike", 3, 4)); i < n; i++ {
		k := v.Choice("condition", 4)
		if i > 0 {
			want += " " + string(join) + " "
		}
		switch k {
		case 0, 1:
			t := textCond{userCond{name: "u", join: query.LogicalAND}, texts[k]}
			list, want = append(list, t), want+texts[k]
		case 2:
			t := textCond{userCond{name: "u", join: query.LogicalAND, vals: []any{7}}, texts[1]}
			list, want, vals = append(list, t), want+texts[1], append(vals, 7)
		default:
			list, want = append(list, query.IsNull("a")), want+texts[2]
		}
	}
	g := query.NewGroup(join, list...)
	v.Assert(v.Eq(g.Render(4), want), "every condition appears")
	v.Assert(v.Eq(g.RenderSQL(), want), "every condition appears with ?")
	v.Assert(sameList(g.Values(), vals), "every value appears")
	w := query.NewWhere().GroupAND(g)
	v.Assert(v.Eq(w.Render(4), want) && v.Eq(w.RenderSQL(), want), "every condition appears in a where clause")
	sql, params := build(query.SelectFrom("t").Where(g))
	v.Assert(v.Eq(sql, "SELECT * FROM t WHERE "+want) && sameList(params, vals), "every condition appears in a statement")
	v.Reach("judged")
}
