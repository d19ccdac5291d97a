package h

import (
	"strings"

	"errors"

	"github.com/amarin/query"
	"verifharness/v"
)

func blank(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }

// pieces splits ASCII text at blanks.
func pieces(s string) (res []string) {
	from := -1
	for i := 0; i < len(s); i++ {
		if !blank(s[i]) {
			if from < 0 {
				from = i
			}
		} else if from >= 0 {
			res = append(res, s[from:i])
			from = -1
		}
	}
	if from >= 0 {
		res = append(res, s[from:])
	}
	return res
}

// isAS tells the AS keyword in any case.
func isAS(s string) bool {
	return len(s) == 2 && (s[0] == 'a' || s[0] == 'A') && (s[1] == 's' || s[1] == 'S')
}

// qualified splits 'name' or 'table.name' into non-empty parts.
func qualified(s string) (table, name string, ok bool) {
	dots, at := 0, -1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			dots, at = dots+1, i
		}
	}
	switch {
	case dots == 0:
		return "", s, len(s) > 0
	case dots == 1 && at > 0 && at < len(s)-1:
		return s[:at], s[at+1:], true
	}
	return "", "", false
}

// ascii is a string of ASCII bytes.
func ascii(label string, n int) string {
	s := v.Str(label, n, "")
	for i := 0; i < n; i++ {
		v.Assume(s[i] < 0x80)
	}
	return s
}

// fieldForms calls FieldOrError and Field with every type the text may have.
func fieldForms(s string) (f query.FieldDefinition, err error) {
	p, err := query.FieldOrError(s)
	q, err2 := query.FieldOrError(query.FieldName(s))
	v.Assert((err == nil) == (err2 == nil), "string and FieldName are parsed alike")
	v.Assert((err == nil) == (p != nil) && (err2 == nil) == (q != nil), "either a field or an error")
	panicked, _ := catch(func() { f = query.Field(s) })
	panicked2, _ := catch(func() { query.Field(query.FieldName(s)) })
	panicked3, _ := catch(func() { query.FieldName(s).Field() })
	v.Assert(panicked == (err != nil) && panicked2 == panicked && panicked3 == panicked, "Field panics exactly when FieldOrError fails")
	if p == nil || q == nil || err != nil {
		return f, err
	}
	v.Assert(sameField(*p, *q), "string and FieldName are parsed alike")
	if !panicked {
		v.Assert(sameField(*p, f), "Field gives what FieldOrError gives")
	}
	return *p, nil
}

func sameField(a, b query.FieldDefinition) bool {
	return isField(a, string(b.TableName()), string(b.FieldName()), string(b.Alias()))
}

func isField(f query.FieldDefinition, table, name, alias string) bool {
	return v.And(v.Eq(string(f.TableName()), table), v.Eq(string(f.FieldName()), name), v.Eq(string(f.Alias()), alias))
}

func roundTrip(f query.FieldDefinition) {
	alias := string(f.Alias())
	if f.TableName() == "" && f.Alias() == f.FieldName() {
		alias = ""
	}
	spec := f.RenderSpec()
	v.Observe("spec", spec)
	g, err := query.FieldOrError(spec)
	v.Assert(err == nil && g != nil, "a rendered definition parses")
	if g != nil {
		v.Assert(isField(*g, string(f.TableName()), string(f.FieldName()), alias), "parsing a rendered definition gives it back")
	}
}

// H_C13_any: any text of ASCII characters.
func H_C13_any() {
	s := ascii("text", v.Choice("length", 1+v.Bound("text length", 5, 7)))
	f, err := fieldForms(s)
	ps := pieces(s)
	ok, table, name, alias := false, "", "", ""
	switch {
	case len(ps) == 1:
		table, name, ok = qualified(ps[0])
	case len(ps) == 3 && isAS(ps[1]):
		table, name, ok = qualified(ps[0])
		alias = ps[2]
	}
	v.Assert(ok == (err == nil), "exactly the documented forms are accepted")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
		v.Reach("refused")
		return
	}
	if ok {
		v.Assert(isField(f, table, name, alias), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// blanks is a run of blanks of any kind.
func blanks(label string, n int) string {
	s := v.Str(label, n, "")
	for i := 0; i < n; i++ {
		v.Assume(v.Or(s[i] == ' ', v.And(s[i] >= '\t', s[i] <= '\r')))
	}
	return s
}

// part is a printable part without blanks and dots.
func part(label string, n int) string {
	s := v.Str(label, n, "")
	for i := 0; i < n; i++ {
		v.Assume(v.And(s[i] > ' ', s[i] < 0x7f, s[i] != '.'))
	}
	return s
}

// printable is text without blanks.
func printable(label string, n int) string {
	s := v.Str(label, n, "")
	for i := 0; i < n; i++ {
		v.Assume(v.And(s[i] > ' ', s[i] < 0x7f))
	}
	return s
}

func asWord() string {
	w := v.Str("as", 2, "")
	v.Assume(v.And(v.Or(w[0] == 'a', w[0] == 'A'), v.Or(w[1] == 's', w[1] == 'S')))
	return w
}

// H_C13_forms: all documented forms with longer parts and blanks.
func H_C13_forms() {
	max := v.Bound("part length", 3, 5)
	size := []int{1, 2, max}
	name := part("name", size[v.Choice("name length", 3)])
	table, alias := "", ""
	s := name
	if v.Choice("qualified", 2) == 1 {
		table = part("table", size[v.Choice("table length", 3)])
		s = table + "." + s
	}
	if v.Choice("aliased", 2) == 1 {
		alias = printable("alias", size[v.Choice("alias length", 3)])
		s += blanks("before as", 1+v.Choice("blanks before as", 2)) + asWord() + blanks("after as", 1+v.Choice("blanks after as", 2)) + alias
	}
	s = blanks("lead", v.Choice("leading blanks", 2)) + s + blanks("trail", v.Choice("trailing blanks", 2))
	f, err := fieldForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		v.Assert(isField(f, table, name, alias), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// H_C13_alike: parts which share their text.
func H_C13_alike() {
	a, b := part("a", v.Choice("length", 2)+1), part("b", 1)
	as := []string{" as ", " AS ", "\tAs\n"}[v.Choice("as", 3)]
	al := []string{a, b, a + "." + b, b + "." + a, a + ".", "." + a, a + a, "as", "AS"}[v.Choice("alias", 9)]
	table, name := "", a
	switch v.Choice("qualified", 5) {
	case 1:
		table, name = a, b
	case 2:
		table, name = b, a
	case 3:
		table = a
	case 4:
		name = "as"
	}
	s := name
	if table != "" {
		s = table + "." + name
	}
	f, err := fieldForms(s + as + al)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		v.Assert(isField(f, table, name, al), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// H_C13_wrong: texts near the documented forms.
func H_C13_wrong() {
	a, b, c, d := part("a", 2), part("b", 1), part("c", 2), part("d", 1)
	w := v.Str("word", v.Choice("word length", 4), "")
	for i := 0; i < len(w); i++ {
		v.Assume(v.And(w[i] > ' ', w[i] < 0x7f))
	}
	v.Assume(!isAS(w))
	s := []string{
		"", ".", "..", a + ".", "." + a, a + ".." + b, a + "." + b + "." + c, a + "." + b + ".",
		"." + a + "." + b, a + ".." + b + " as " + c, a + " " + b, a + " as", a + "." + b + " as", "as " + a,
		a + " " + w + "x " + b, a + "." + b + " " + w + " " + c, a + " as " + b + " " + c, a + " as as " + b,
		a + " as " + b + " as " + c, ". as " + a, a + ". as " + b, "." + a + " as " + b,
		a + "." + b + "." + c + " as " + d, a + " . " + b, a + ". " + b, a + " ." + b,
	}[v.Choice("form", 26)]
	_, err := fieldForms(s)
	v.Assert(err != nil, "anything but the documented forms is refused")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
	}
	v.Reach("refused")
}

// H_C13_through: definitions pass through unchanged.
func H_C13_through() {
	f := query.FieldName(v.Str("n", 2, "word")).Field().Of(query.TableName(v.Str("t", v.Choice("table length", 3), "word"))).As(query.FieldName(v.Str("al", v.Choice("alias length", 3), "word")))
	p, err := query.FieldOrError(f)
	v.Assert(err == nil && p != nil && sameField(*p, f), "a definition passes through")
	v.Assert(sameField(query.Field(f), f), "a definition passes through Field")
	v.Reach("through")
	roundTrip(f)
}

// long is a part with n characters, the ends of which are symbolic.
func longPart(label string, n int) string {
	return part(label+" head", 1) + strings.Repeat("m", n-2) + part(label+" tail", 1)
}

// foreign is a menu of characters outside of ASCII, some with bytes that are blanks in other encodings.
var foreign = []string{"\u00e9", "\u00e0", "\u00c5", "\u0131", "\u65e5", "\u2603", "\U0001f600", "\u0420\u0420", "\u10a0", "\u1e85"}

// H_C13_long: long parts and long runs of blanks.
func H_C13_long() {
	n := large("length", 300)
	table, name, alias := "", longPart("name", n), ""
	s := name
	switch v.Choice("qualified", 3) {
	case 1:
		table = longPart("table", n)
		s = table + "." + s
	case 2:
		table = part("table", 1)
		s = table + "." + s
	}
	gap := " "
	if v.Choice("gap", 2) == 1 {
		gap = strings.Repeat(" \t", n/2) + blanks("gap", 1)
	}
	if v.Choice("aliased", 2) == 1 {
		alias = longPart("alias", n)
		s += gap + asWord() + gap + alias
	}
	if len(gap) > 1 {
		s = gap + s + gap
	}
	f, err := fieldForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		v.Assert(isField(f, table, name, alias), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// H_C13_unicode: parts with letters outside of ASCII.
func H_C13_unicode() {
	w := foreign[v.Choice("letter", len(foreign))]
	form := v.Choice("form", 3)
	word := func(label string) string {
		switch form {
		case 0:
			return w
		case 1:
			return part(label, 1) + w
		}
		return w + part(label, 1) + w
	}
	table, name, alias := "", word("name"), ""
	s := name
	if v.Choice("qualified", 2) == 1 {
		table = word("table")
		s = table + "." + s
	}
	if v.Choice("aliased", 2) == 1 {
		alias = word("alias")
		s += blanks("before as", 1) + asWord() + blanks("after as", 1) + alias
	}
	f, err := fieldForms(s)
	v.Assert(err == nil, "documented form is accepted")
	if err == nil {
		v.Assert(isField(f, table, name, alias), "parts are split as documented")
		v.Reach("accepted")
		roundTrip(f)
	}
}

// H_C13_many: too many words are refused, whatever they are.
func H_C13_many() {
	n := large("words", 40)
	as := v.Choice("as", 3)
	s := part("first word", 1)
	for i := 1; i < n-1; i++ {
		if i%2 == 1 && as == 1 || i == 1 && as == 2 {
			s += " as"
		} else {
			s += " w"
		}
	}
	s += " " + part("last word", 1)
	_, err := fieldForms(s)
	v.Assert(err != nil, "anything but the documented forms is refused")
	if err != nil {
		v.Assert(errors.Is(err, query.Error), "the error is marked")
	}
	v.Reach("refused")
}
