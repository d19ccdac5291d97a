package h

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/amarin/query"
	"verifharness/v"
)

// more kinds of values
type ptrValuer struct{ x int }

func (p *ptrValuer) Value() (driver.Value, error) {
	if p == nil {
		return nil, nil
	}
	return int64(p.x), nil
}

type listValuer []string // a list that knows its own database form

func (l listValuer) Value() (driver.Value, error) {
	s := ""
	for _, x := range l {
		s += x + ";"
	}
	return s, nil
}

type intValuer int

func (i intValuer) Value() (driver.Value, error) { return int64(i) * 2, nil }

type listProvider []string

func (l listProvider) DatabaseValue() any { return len(l) }

type ptrProvider struct{ x string }

func (p *ptrProvider) DatabaseValue() any { return p.x + "!" }

type plain struct {
	a int
	b string
}

type labelled string

// chatty has many faces but no database form.
type chatty struct{ s string }

func (c chatty) String() string               { return "string of " + c.s }
func (c chatty) GoString() string             { return "go string of " + c.s }
func (c chatty) Error() string                { return "error of " + c.s }
func (c chatty) MarshalText() ([]byte, error) { return []byte("text of " + c.s), nil }
func (c chatty) MarshalJSON() ([]byte, error) { return []byte("{}"), nil }
func (c chatty) Scan(any) error               { return nil }
func (c chatty) Values() []any                { return []any{c.s, c.s} }
func (c chatty) Len() int                     { return 2 }

// ptrNone is something in the database even when it is nil.
type ptrNone struct{ x int }

func (p *ptrNone) Value() (driver.Value, error) {
	if p == nil {
		return "none", nil
	}
	return int64(p.x), nil
}

// level is a number that prints itself.
type level int

func (l level) String() string { return "level" }

// chattyValuer prints itself and knows its database form, too.
type chattyValuer struct{ chatty }

func (c chattyValuer) Value() (driver.Value, error) { return "db of " + c.s, nil }

var errBroken = errors.New("broken")

// failing is a Valuer that may fail with any error, also with one that has a meaning elsewhere.
type failing struct {
	fails bool
	err   error
}

var errAny = []error{errBroken, driver.ErrSkip, driver.ErrBadConn, driver.ErrRemoveArgument, io.EOF, query.Error, fmt.Errorf("%w: %w", query.Error, errBroken), fmt.Errorf("deep: %w", driver.ErrSkip), emptyError{}}

type emptyError struct{}

func (emptyError) Error() string { return "" }

func (f failing) Value() (driver.Value, error) {
	if f.fails {
		return "left over", f.err
	}
	return "fine", nil
}

// gives is a ValueProvider of anything.
type gives struct{ x any }

func (g gives) DatabaseValue() any { return g.x }

// tells is a Valuer of anything.
type tells struct{ x any }

func (t tells) Value() (driver.Value, error) { return t.x, nil }

type tellers []*tells

// bytesValuer is a list of bytes that tells other bytes.
type bytesValuer string

func (b bytesValuer) Value() (driver.Value, error) { return []byte(b), nil }

// marshaler knows texts for other purposes.
type marshaler struct{ x string }

func (m marshaler) MarshalText() ([]byte, error)   { return []byte("text:" + m.x), nil }
func (m marshaler) MarshalJSON() ([]byte, error)   { return []byte("json:" + m.x), nil }
func (m marshaler) MarshalBinary() ([]byte, error) { return []byte("binary:" + m.x), nil }
func (m marshaler) Scan(any) error                 { return nil }
func (m marshaler) Format(s fmt.State, verb rune)  { _, _ = s.Write([]byte("format")) }
func (m marshaler) GoString() string               { return "go" }
func (m marshaler) Error() string                  { return "error" }
func (m marshaler) Unwrap() error                  { return io.EOF }

const nSingles = 56

// single draws a value that is bound as one param everywhere.
func single(kind int, label string) (given, bound any) {
	switch kind {
	case 0:
		x := v.AnyInt(label)
		return x, x
	case 1:
		x := v.Str(label, v.Choice(label+" length", 3), "")
		return x, x
	case 2:
		x := v.Bool(label)
		return x, x
	case 3:
		return nil, nil
	case 4:
		x := v.AnyUint(label)
		return x, x
	case 5:
		x := []byte(v.Str(label, 2, ""))
		return x, x
	case 6:
		x := plain{v.AnyInt(label), v.Str(label, 1, "")}
		return x, x
	case 7:
		x := labelled(v.Str(label, 2, ""))
		return x, x
	case 8:
		x := []int{v.AnyInt(label), v.AnyInt(label)}
		return x, x
	case 9:
		x := v.AnyInt(label)
		return &x, &x
	case 10:
		x := v.Str(label, 2, "")
		return valuer{x}, "db:" + x
	case 11:
		x := v.AnyInt(label)
		return &ptrValuer{x}, int64(x)
	case 12:
		return (*ptrValuer)(nil), nil
	case 13:
		x := v.Str(label, 1, "")
		return listValuer{x, "q"}, x + ";q;"
	case 14:
		x := v.AnyInt(label)
		return intValuer(x), int64(x) * 2
	case 15:
		x := v.AnyInt(label)
		return provider{x}, x + 1
	case 16:
		return listProvider{"a", v.Str(label, 1, "")}, 2
	case 17:
		x := v.Str(label, 1, "")
		return &ptrProvider{x}, x + "!"
	case 18:
		x := chatty{v.Str(label, 1, "")}
		return x, x
	case 19:
		x := &chatty{v.Str(label, 1, "")}
		return x, x
	case 20:
		x := level(v.AnyInt(label))
		return x, x
	case 21:
		x := v.Str(label, 1, "")
		return chattyValuer{chatty{x}}, "db of " + x
	case 22:
		x := v.Str(label, 1, "")
		return &chattyValuer{chatty{x}}, "db of " + x
	case 23:
		x := []any{v.AnyInt(label), "b", nil}
		return x, x
	case 24:
		x := []chatty{{v.Str(label, 1, "")}, {"z"}}
		return x, x
	case 25:
		x := 1.5
		return x, x
	case 26:
		x := int8(v.Int(label, -128, 127))
		return x, x
	case 27:
		x := uint16(v.Int(label, 0, 65535))
		return x, x
	case 28:
		x := map[string]int{"a": v.AnyInt(label)}
		return x, x
	case 29:
		return (*string)(nil), (*string)(nil)
	case 30:
		x := [2]string{v.Str(label, 1, ""), "b"}
		return x, x
	case 31:
		x := v.Str(label, 1, "")
		return &valuer{x}, "db:" + x
	case 32:
		return (*ptrNone)(nil), "none"
	case 33:
		return gives{nil}, nil
	case 34:
		x := []int{v.AnyInt(label), 2}
		return gives{x}, x
	case 35:
		x := []byte(v.Str(label, 2, ""))
		return bytesValuer(x), x
	case 36:
		x := v.AnyInt(label)
		return &gives{&x}, &x
	case 37:
		x := time.Time{}
		return x, x
	case 38:
		x := time.Time{}.Add(36 * time.Hour)
		return x, x
	case 39:
		x := &time.Time{}
		return x, x
	case 40:
		x := json.RawMessage(v.Str(label, 2, ""))
		return x, x
	case 41:
		x := v.Str(label, 1, "")
		return sql.NullString{String: x, Valid: true}, x
	case 42:
		return &sql.NullInt64{Int64: 5}, nil
	case 43:
		x := [3]byte{1, byte(v.Int(label, 0, 255)), 3}
		return x, x
	case 44:
		x := float32(0.5)
		return x, x
	case 45:
		x := marshaler{v.Str(label, 1, "")}
		return x, x
	case 46:
		x := &marshaler{v.Str(label, 1, "")}
		return x, x
	case 47:
		x := errors.New("boom")
		return x, x
	case 48:
		x := v.AnyInt(label)
		var y any = x
		return &y, &y
	case 49:
		x := query.FieldName("inner").Value(v.AnyInt(label))
		return x, x
	case 50:
		x := query.NewFieldValue("inner", v.Str(label, 1, ""))
		return x, x
	case 51:
		x := query.FieldName(v.Str(label, 1, "ident"))
		return x, x
	case 52:
		x := query.Field("t.a AS b")
		return x, x
	case 53:
		x := query.EqualTo("inner", v.AnyInt(label))
		return x, x
	case 54:
		x := query.Table("t a")
		return x, x
	default:
		x := &[]string{v.Str(label, 1, ""), "b"}
		return x, x
	}
}

const nLists = 17

// list draws a list that expands inside of IN.
func list(kind, n int, label string) (given any, bound []any) {
	bound = make([]any, n)
	switch kind {
	case 0:
		xs := make([]string, n)
		for i := range xs {
			xs[i] = v.Str(label, 1, "")
			bound[i] = xs[i]
		}
		return xs, bound
	case 1:
		xs := make([]driver.Valuer, n)
		for i := range xs {
			x := v.AnyInt(label)
			switch i % 3 {
			case 0:
				xs[i], bound[i] = intValuer(x), int64(x)*2
			case 1:
				xs[i], bound[i] = &ptrValuer{x}, int64(x)
			} // every third one is nil
		}
		return xs, bound
	case 2:
		xs := make([]query.ValueProvider, n)
		for i := range xs {
			x := v.AnyInt(label)
			if i%2 == 0 {
				xs[i], bound[i] = provider{x}, x+1
			} else {
				xs[i], bound[i] = listProvider{"a"}, 1
			}
		}
		return xs, bound
	case 3:
		xs := make([]valuer, n)
		for i := range xs {
			x := v.Str(label, 1, "")
			xs[i], bound[i] = valuer{x}, "db:"+x
		}
		return xs, bound
	case 4:
		xs := make([]intValuer, n)
		for i := range xs {
			x := v.AnyInt(label)
			xs[i], bound[i] = intValuer(x), int64(x)*2
		}
		return xs, bound
	case 5:
		xs := make([]*ptrValuer, n)
		for i := range xs {
			x := v.AnyInt(label)
			if i%2 == 0 {
				xs[i], bound[i] = &ptrValuer{x}, int64(x)
			}
		}
		return xs, bound
	case 6: // the same Valuer twice
		xs := make([]driver.Valuer, n)
		x := &ptrValuer{v.AnyInt(label)}
		for i := range xs {
			xs[i], bound[i] = x, int64(x.x)
		}
		return xs, bound
	case 7:
		xs := make([]listValuer, n)
		for i := range xs {
			x := v.Str(label, 1, "")
			xs[i], bound[i] = listValuer{x}, x+";"
		}
		return xs, bound
	}
	switch kind {
	case 8: // typed nils anywhere
		xs := make([]driver.Valuer, n)
		for i := range xs {
			if i%3 == 1 {
				xs[i] = (*ptrValuer)(nil)
			} else {
				x := v.AnyInt(label)
				xs[i], bound[i] = &ptrValuer{x}, int64(x)
			}
		}
		return xs, bound
	case 9:
		xs := make([]*ptrValuer, n)
		without := -1
		if n > 0 {
			without = v.Choice(label+" nil", min(n, 8))
		}
		for i := range xs {
			if i == without {
				continue
			}
			x := v.AnyInt(label)
			xs[i], bound[i] = &ptrValuer{x}, int64(x)
		}
		return xs, bound
	case 11:
		xs := make([]*ptrNone, n)
		for i := range xs {
			bound[i] = "none"
			if i%3 == 0 {
				x := v.AnyInt(label)
				xs[i], bound[i] = &ptrNone{x}, int64(x)
			}
		}
		return xs, bound
	case 10:
		xs := make([]chattyValuer, n)
		for i := range xs {
			x := v.Str(label, 1, "")
			xs[i], bound[i] = chattyValuer{chatty{x}}, "db of "+x
		}
		return xs, bound
	}
	forms := []any{nil, "", v.Str(label, 1, ""), v.AnyInt(label), []string{"p", "q"}, []byte("b"), false, []any{}}
	at := v.Choice(label+" first form", len(forms))
	switch kind {
	case 12: // providers of anything
		xs := make([]query.ValueProvider, n)
		for i := range xs {
			bound[i] = forms[(at+i*3)%len(forms)]
			xs[i] = gives{bound[i]}
		}
		return xs, bound
	case 13: // Valuers of anything
		xs := make([]driver.Valuer, n)
		for i := range xs {
			bound[i] = forms[(at+i*3)%len(forms)]
			xs[i] = tells{bound[i]}
		}
		return xs, bound
	case 14:
		xs := make([]tells, n)
		for i := range xs {
			bound[i] = forms[(at+i*3)%len(forms)]
			xs[i] = tells{bound[i]}
		}
		return xs, bound
	case 15: // a list type of its own
		xs := make(tellers, n)
		for i := range xs {
			bound[i] = forms[(at+i*3)%len(forms)]
			xs[i] = &tells{bound[i]}
		}
		return xs, bound
	}
	xs := make([]string, n, n+4)
	for i := range xs {
		xs[i], bound[i] = "same", "same"
	}
	return xs, bound
}

const nContexts = 13

// context binds a value somewhere outside of IN, between two other params.
func context(kind int, x any) (s stmt, before, after []any) {
	a, z := query.EqualTo("a", 71), query.Less("z", 72)
	f := query.FieldName("f")
	where := func(c query.Condition) (stmt, []any, []any) {
		return query.SelectFrom("t").Where(a, c, z), []any{71}, []any{72}
	}
	switch kind {
	case 0:
		return where(query.EqualTo(f, x))
	case 1:
		return where(query.GreaterThan(f, x))
	case 2:
		return where(query.GreaterOrEqual(f, x))
	case 3:
		return where(query.Less(f, x))
	case 4:
		return where(query.LessOrEqual(f, x))
	case 5:
		return where(f.EqualTo(x))
	case 6:
		return where(query.Not(query.EqualTo(f, x)))
	case 7:
		return query.InsertInto("t").Values(query.FieldName("a").Value(71), f.Value(x)).Values(query.FieldName("z").Value(72)), []any{71}, []any{72}
	case 8:
		return query.Update("t").Set(query.FieldName("a").Value(71), f.Value(x)).Where(z), []any{71}, []any{72}
	case 9:
		return query.InsertInto("t").Values(*query.NewFieldValue("a", 71), *query.NewFieldValue(f, x)), []any{71}, nil
	case 10:
		return query.Update("t").Set(query.Field("q.f").Value(x)).Where(z), nil, []any{72}
	case 11:
		vals, err := query.ValuesMap{"f": x}.FieldValues()
		v.Assert(err == nil, "the map converts")
		return query.InsertInto("t").Values(vals...), nil, nil
	}
	return query.Update("t").Set(query.FieldName("a").Value(71)).Where(query.EqualTo(f, x).Or(z)), []any{71}, []any{72}
}

func join3(a []any, x []any, b []any) []any {
	res := append([]any{}, a...)
	res = append(res, x...)
	return append(res, b...)
}

// H_C17_single: one value of any type in any context.
func H_C17_single() {
	x, bound := single(v.Choice("type", nSingles), "x")
	s, before, after := context(v.Choice("context", nContexts), x)
	sql, params := build(s)
	v.Observe("sql", sql)
	v.Assert(sameList(params, join3(before, []any{bound}, after)), "the value is bound as its type dictates")
	v.Reach("bound")
	f := query.NewFieldValue("f", x)
	v.Assert(sameList(f.Values(), []any{bound}), "the value is told as its type dictates")
}

// H_C17_list: lists outside of IN are one value, inside of IN they expand.
func H_C17_list() {
	n := v.Choice("length", 1+v.Bound("list length", 5, 12))
	x, bound := list(v.Choice("list type", nLists), n, "x")
	at := v.Choice("context", nContexts+4)
	if at < nContexts {
		s, before, after := context(at, x)
		sql, params := build(s)
		v.Observe("sql", sql)
		v.Assert(sameList(params, join3(before, []any{x}, after)), "a list outside of IN is bound unchanged as one value")
		v.Reach("bound whole")
		return
	}
	var in query.Condition
	switch at - nContexts {
	case 0:
		in = query.In("f", x)
	case 1:
		in = query.FieldName("f").In(x)
	case 2:
		in = query.Not(query.In("f", x))
	default:
		in = query.In("f", x).Join(query.LogicalOR).ApplyFieldTable("q").ApplyFieldSpec(query.Field("g.f")).Join(query.LogicalAND)
	}
	v.Assert(sameList(in.Values(), bound), "IN binds the elements in order")
	s := query.Update("t").Set(query.FieldName("a").Value(71)).Where(in, query.Less("z", 72))
	sql, params := build(s)
	v.Observe("sql", sql)
	v.Assert(sameList(params, join3([]any{71}, bound, []any{72})), "IN binds the elements in order")
	marks := 0
	for _, b := range bindsOf(sql) {
		if b.name == "f" || b.name == "g.f" {
			marks++
		}
	}
	v.Assert(marks == n, "IN has one placeholder per element")
	v.Reach("expanded")
}

// H_C17_in: a single value inside of IN.
func H_C17_in() {
	x, bound := single(v.Choice("type", nSingles), "x")
	in := query.In("f", x)
	v.Assert(sameList(in.Values(), []any{bound}), "a single value in IN is bound once")
	v.Assert(v.Eq(in.Render(4), "f IN ($5)"), "a single value in IN has one placeholder")
	v.Reach("bound")
}

// H_C17_text: LIKE and ILIKE.
func H_C17_text() {
	x := v.Str("text", v.Choice("length", 1+v.Bound("text length", 4, 8)), "")
	var c query.Condition
	switch v.Choice("kind", 6) {
	case 0:
		c = query.Contains("f", x)
	case 1:
		c = query.IContains("f", x)
	case 2:
		c = query.FieldName("f").Contains(x)
	case 3:
		c = query.FieldName("f").IContains(x)
	case 4:
		c = query.Not(query.Contains("f", x)).Join(query.LogicalOR)
	default:
		c = query.IContains("f", x).ApplyFieldTable("t").Negate(true)
	}
	v.Assert(sameList(c.Values(), []any{"%" + x + "%"}), "the text is bound between percent signs")
	_, params := build(query.Delete("t").Where(c))
	v.Assert(sameList(params, []any{"%" + x + "%"}), "the text is bound between percent signs")
	v.Reach("bound")
}

// H_C17_failing: a Valuer that may fail, anywhere.
func H_C17_failing() {
	bad := v.Bool("fails")
	f := failing{bad, errAny[v.Choice("error", len(errAny))]}
	var x any = f
	var bound []any
	at := v.Choice("context", nContexts+4)
	var s stmt
	var before, after []any
	var err error
	panicked, with := catch(func() {
		if at < nContexts {
			s, before, after = context(at, x)
			bound = []any{"fine"}
		} else {
			before, after, bound = []any{71}, []any{72}, []any{"fine"}
			switch at - nContexts {
			case 1:
				x, bound = []failing{{}, f}, []any{"fine", "fine"}
			case 2:
				x, bound = []driver.Valuer{f, nil, failing{}}, []any{"fine", nil, "fine"}
			case 3:
				x, bound = []driver.Valuer{valuer{"a"}, f}, []any{"db:a", "fine"}
			}
			s = query.Update("t").Set(query.FieldName("a").Value(71)).Where(query.In("f", x), query.Less("z", 72))
		}
		var params []any
		_, params, err = s.BuildQueryAndParams()
		if err == nil {
			v.Assert(!bad, "a failing Valuer is never bound")
			v.Assert(sameList(params, join3(before, bound, after)), "a Valuer is bound as its value")
			v.Reach("bound")
		}
	})
	failed := panicked || err != nil
	v.Assert(failed == bad, "building fails exactly when the Valuer does")
	if failed {
		e, ok := with.(error)
		if !panicked {
			e, ok = err, true
		}
		v.Assert(ok && errors.Is(e, query.Error), "the failure is marked")
		v.Reach("failed")
	}
}

// H_C17_large: long lists and long texts.
func H_C17_large() {
	n := large("size", 300)
	if v.Choice("text", 2) == 1 {
		x := lengthy("text", n, "")
		var c query.Condition
		if v.Choice("kind", 2) == 1 {
			c = query.Contains("f", x)
		} else {
			c = query.IContains("f", x)
		}
		v.Assert(sameList(c.Values(), []any{"%" + x + "%"}), "the text is bound between percent signs")
		s, before, after := context(v.Choice("context", nContexts), x)
		_, params := build(s)
		v.Assert(sameList(params, join3(before, []any{x}, after)), "the text is bound unchanged")
		v.Reach("bound text")
		return
	}
	x, bound := list(v.Choice("list type", nLists), n, "x")
	if v.Choice("in", 2) == 0 {
		s, before, after := context(v.Choice("context", nContexts), x)
		_, params := build(s)
		v.Assert(sameList(params, join3(before, []any{x}, after)), "a list outside of IN is bound unchanged as one value")
		v.Reach("bound whole")
		return
	}
	in := query.In("f", x)
	if v.Choice("not", 2) == 1 {
		in = query.Not(in).Join(query.LogicalOR)
	}
	_, params := build(query.Delete("t").Where(query.EqualTo("a", 71), in, query.Less("z", 72)))
	v.Assert(sameList(params, join3([]any{71}, bound, []any{72})), "IN binds the elements in order")
	v.Reach("expanded")
}

// H_C17_chain: what a ValueProvider gives is not translated once more.
func H_C17_chain() {
	n := v.AnyInt("x")
	given := []any{valuer{"a"}, provider{n}, gives{provider{n}}, &ptrValuer{n}, []string{"a", "b"}}[v.Choice("given", 5)]
	at := v.Choice("context", nContexts)
	if at == 7 || at == 8 { // FieldName.Value asks the provider itself, and its result is a value like any other
		return
	}
	s, before, after := context(at, gives{given})
	_, params := build(s)
	v.Assert(sameList(params, join3(before, []any{given}, after)), "the database value is bound unchanged")
	v.Assert(sameList(query.NewFieldValue("f", gives{given}).Values(), []any{given}), "the database value is told unchanged")
	in := query.In("f", gives{given})
	v.Assert(in.RenderSQL() == "f IN (?)" && sameList(in.Values(), []any{given}), "the database value is one element")
	v.Reach("bound")
}
