package h

import (
	"strings"

	"errors"

	"github.com/amarin/query"
	"verifharness/v"
)

func sameTable(a, b query.TableIdent) bool {
	return isTable(a, string(b.TableName()), string(b.Alias()))
}

func isTable(t query.TableIdent, name, alias string) bool {
	return v.And(v.Eq(string(t.TableName()), name), v.Eq(string(t.Alias()), alias))
}

func tableForms(s string) (t query.TableIdent, err error) {
	p, err := query.TableOrError(s)
	q, err2 := query.TableOrError(query.TableName(s))
	v.Assert((err == nil) == (err2 == nil), "string and TableName are parsed alike")
	v.Assert((err == nil) == (p != nil) && (err2 == nil) == (q != nil), "either a table or an error")
	panicked, _ := catch(func() { t = query.Table(s) })
	panicked2, _ := catch(func() { query.Table(query.TableName(s)) })
	panicked3, _ := catch(func() { query.TableName(s).Ident() })
	v.Assert(panicked == (err != nil) && panicked2 == panicked && panicked3 == panicked, "Table panics exactly when TableOrError fails")
	if p == nil || q == nil || err != nil {
		return t, err
	}
	v.Assert(sameTable(*p, *q), "string and TableName are parsed alike")
	if !panicked {
		v.Assert(sameTable(*p, t), "Table gives what TableOrError gives")
	}
	return *p, nil
}

// judgeTable asserts what an ident of that name and alias tells.
func judgeTable(t query.TableIdent, name, alias string) {
	if alias == name {
		alias = ""
	}
	v.Assert(isTable(t, name, alias), "name and alias are told")
	from, owner := name, name
	if alias != "" {
		from, owner = name+" AS "+alias, alias
	}
	v.Observe("from", t.RenderFrom())
	v.Assert(v.Eq(t.RenderFrom(), from), "FROM renders the name and a different alias")
	v.Assert(isField(t.Field("f"), owner, "f", ""), "fields belong to the alias or the name")
	v.Assert(isField(t.Field("f as g"), owner, "f", "g"), "field aliases are kept")
}

func judgeAs(t query.TableIdent, name string) {
	alias := v.Str("new alias", v.Choice("new alias length", 3), "word")
	old := t.Alias()
	u := t.As(query.TableName(alias))
	judgeTable(u, name, alias)
	v.Assert(v.Eq(string(t.Alias()), string(old)), "As leaves the original")
	p, err := query.TableOrError(u)
	v.Assert(err == nil && p != nil && sameTable(*p, u) && sameTable(query.Table(u), u), "an ident passes through")
	judgeTable(u.As(query.TableName(name)), name, "")
	again, err := query.TableOrError(u.RenderFrom())
	v.Assert(err == nil && again != nil && sameTable(*again, u), "parsing what an ident renders gives it back")
}

// H_C14_any: any text of ASCII characters.
func H_C14_any() {
	s := ascii("text", v.Choice("length", 1+v.Bound("text length", 5, 7)))
	t, err := tableForms(s)
	ps := pieces(s)
	ok, name, alias := false, "", ""
	switch {
	case len(ps) == 1:
		ok, name = true, ps[0]
	case len(ps) == 2:
		ok, name, alias = true, ps[0], ps[1]
	case len(ps) == 3 && isAS(ps[1]):
		ok, name, alias = true, ps[0], ps[2]
	}
	v.Assert(ok == (err == nil), "exactly the documented forms are accepted")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
		v.Reach("refused")
		return
	}
	if ok {
		judgeTable(t, name, alias)
		v.Reach("accepted")
	}
}

// H_C14_forms: all documented forms with longer parts and blanks.
func H_C14_forms() {
	max := v.Bound("part length", 4, 6)
	size := []int{1, 2, max}
	name := part("name", size[v.Choice("name length", 3)])
	alias := ""
	s := name
	form := v.Choice("form", 3)
	if form > 0 {
		alias = part("alias", size[v.Choice("alias length", 3)])
		s += blanks("before", 1+v.Choice("blanks before", 2))
		if form == 2 {
			s += asWord() + blanks("after", 1+v.Choice("blanks after", 2))
		}
		s += alias
	}
	s = blanks("lead", v.Choice("leading blanks", 2)) + s + blanks("trail", v.Choice("trailing blanks", 2))
	t, err := tableForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		judgeTable(t, name, alias)
		v.Reach("accepted")
	}
}

// H_C14_as: changing aliases.
func H_C14_as() {
	name := v.Str("name", 2, "word")
	s := name
	switch v.Choice("form", 3) {
	case 1:
		s += " " + name2("alias")
	case 2:
		s += " as " + name2("alias")
	}
	t, err := tableForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		judgeAs(t, name)
		v.Reach("renamed")
	}
}

// H_C14_wrong: texts near the documented forms.
func H_C14_wrong() {
	a, b, c, d := part("a", 2), part("b", 1), part("c", 2), part("d", 1)
	w := v.Str("word", 1+v.Choice("word length", 3), "")
	for i := 0; i < len(w); i++ {
		v.Assume(v.And(w[i] > ' ', w[i] < 0x7f))
	}
	v.Assume(!isAS(w))
	s := []string{
		"", " ", "\t\n", a + " " + w + " " + b, a + " as " + b + " " + c, a + " as as " + b, a + " " + b + " " + c + " " + d,
		a + " as " + b + " as " + c, a + " " + w + " " + b + " " + c,
	}[v.Choice("form", 9)]
	_, err := tableForms(s)
	v.Assert(err != nil, "anything but the documented forms is refused")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
	}
	v.Reach("refused")
}

// H_C14_long: long parts and long runs of blanks.
func H_C14_long() {
	n := large("length", 300)
	name, alias := longPart("name", n), ""
	s := name
	gap := " "
	if v.Choice("gap", 2) == 1 {
		gap = strings.Repeat(" \t", n/2) + blanks("gap", 1)
	}
	switch v.Choice("form", 4) {
	case 1:
		alias = longPart("alias", n)
		s += gap + alias
	case 2:
		alias = longPart("alias", n)
		s += gap + asWord() + gap + alias
	case 3:
		alias = part("alias", 1)
		s += gap + asWord() + gap + alias
	}
	if len(gap) > 1 {
		s = gap + s + gap
	}
	t, err := tableForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		judgeTable(t, name, alias)
		v.Reach("accepted")
	}
}

// H_C14_unicode: parts with letters outside of ASCII.
func H_C14_unicode() {
	w := foreign[v.Choice("letter", len(foreign))]
	name, alias := w+part("name", 1)+w, ""
	s := name
	switch v.Choice("form", 3) {
	case 1:
		alias = part("alias", 1) + w
		s += blanks("before", 1) + alias
	case 2:
		alias = w
		s += blanks("before", 1) + asWord() + blanks("after", 1) + alias
	}
	t, err := tableForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		judgeTable(t, name, alias)
		v.Reach("accepted")
	}
}
