package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

var lengths = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 70, 300}

// text is any string of any of a few lengths.
func text(label string) string {
	return v.Str(label, lengths[v.Choice(label+" length", len(lengths))], "")
}

// pair draws two values of one kind.
func pair(kind int, label string) (a, b any) {
	one := func(l string, first bool) any {
		switch kind {
		case 0:
			return v.AnyInt(l)
		case 1:
			return text(l)
		case 2:
			return valuer{text(l)}
		case 3:
			return provider{v.AnyInt(l)}
		case 4:
			return v.Bool(l)
		case 5: // lists are plain values outside of IN, whatever their length
			if first {
				return []string{text(l)}
			}
			return []string{v.Str(l+"0", 1, ""), v.Str(l+"1", 2, "")}
		case 6:
			return []byte(text(l))
		case 7:
			return v.AnyUint(l)
		case 8:
			if first {
				return 0.0
			}
			return 1e300
		case 9:
			if first {
				return (*string)(nil)
			}
			s := text(l)
			return &s
		case 10:
			return named(text(l))
		default:
			return nullable{v.Bool(l + " null"), text(l)}
		}
	}
	return one(label+"1", true), one(label+"2", false)
}

const nPairs = 12

type named string

// nullable is a ValueProvider that may provide nil.
type nullable struct {
	null bool
	s    string
}

func (x nullable) DatabaseValue() any {
	if x.null {
		return nil
	}
	return x.s
}

func sameText(a, b string) {
	v.Observe("sql", a)
	v.Reach("rendered")
	v.Assert(v.Eq(a, b), "text does not depend on values")
}

const nPlaces = 9

// placed is a statement with one value in several columns.
func placed(place int, x any) stmt {
	a := query.FieldName("a")
	switch place {
	case 0:
		return query.SelectFrom("t").Where(query.EqualTo("a", x), query.EqualTo("b", x))
	case 1:
		return query.SelectManyFrom("t").Where(query.GreaterThan("a", x).Or(query.EqualTo("b", x)))
	case 2:
		return query.Delete("t").Where(query.Not(query.GreaterOrEqual("a", x)))
	case 3:
		return query.Update("t").Set(a.Value(x), query.Field("b").Value(x)).Where(query.IsNull("b"))
	case 4:
		return query.Update("t").Set(a.Value(1)).Where(query.Less("b", x)).Where(query.LessOrEqual("c", x))
	case 5:
		return query.InsertInto("t").Values(a.Value(x), *query.NewFieldValue("q.b", x))
	case 6:
		return query.SelectFrom("t").Where(query.NewGroup(query.LogicalOR, query.Not(query.EqualTo("a", x)), query.LessOrEqual("a", x))).Count()
	case 7:
		return query.SelectSingleFrom("t").Where(a.EqualTo(x)).Where(query.Not(query.Less("c", x)))
	default:
		return query.SelectFrom("t").Where(query.Not(query.NewGroup(query.LogicalAND, a.EqualTo(x), query.GreaterThan("b", x))))
	}
}

// H_C03_values: operands of every kind in every place.
func H_C03_values() {
	place := v.Choice("place", nPlaces)
	x, y := pair(v.Choice("kind", nPairs), "x")
	s, _ := build(placed(place, x))
	t, _ := build(placed(place, y))
	sameText(s, t)
}

// H_C03_kinds: the kind of a value does not matter either, nor whether it is nil.
func H_C03_kinds() {
	place := v.Choice("place", nPlaces)
	y, _ := pair(0, "y")
	t, _ := build(placed(place, y))
	if v.Choice("type", 2) == 0 {
		x, z := pair(v.Choice("kind", nPairs), "x")
		if v.Choice("which", 2) == 1 {
			x = z
		}
		s, _ := build(placed(place, x))
		sameText(s, t)
		return
	}
	x, _ := single(v.Choice("single", nSingles), "x")
	s, _ := build(placed(place, x))
	sameText(s, t)
}

// H_C03_contains: the text searched for is never interpolated, neither in statements nor in clauses.
func H_C03_contains() {
	x, y := text("x"), text("y")
	neg := v.Choice("not", 2) == 1
	ic := v.Choice("icontains", 2) == 1
	n := v.Choice("start", 2) * 9
	f := func(x string) (string, string, string) {
		c := query.Contains("a", x)
		if ic {
			c = query.IContains("a", x)
		}
		if neg {
			c = query.Not(c)
		}
		s, _ := build(query.Delete("t").Where(c, query.EqualTo("b", x)))
		return c.Render(n), c.RenderSQL(), s
	}
	a1, a2, a3 := f(x)
	b1, b2, b3 := f(y)
	sameText(a1, b1)
	sameText(a2, b2)
	sameText(a3, b3)
}

// H_C03_in: only the length of an IN list matters.
func H_C03_in() {
	n := v.Choice("length", v.Bound("IN list length", 5, 12))
	kind := v.Choice("list", 4)
	neg := v.Choice("not", 2) == 1
	f := func(l string) (string, string) {
		var list any
		switch kind {
		case 0:
			var xs []string
			for i := 0; i < n; i++ {
				xs = append(xs, v.Str(l, lengths[(i+len(l))%6], ""))
			}
			list = xs
		case 1:
			var xs []query.ValueProvider
			for i := 0; i < n; i++ {
				xs = append(xs, nullable{v.Bool(l), v.Str(l, 2, "")})
			}
			list = xs
		case 2:
			var xs []valuer
			for i := 0; i < n; i++ {
				xs = append(xs, valuer{v.Str(l, i, "")})
			}
			list = xs
		default:
			list = v.AnyInt(l)
		}
		c := query.In("a", list)
		if neg {
			c = query.Not(c)
		}
		s, _ := build(query.SelectManyFrom("t").Where(c, query.EqualTo("b", v.AnyInt(l))))
		return s, c.RenderSQL()
	}
	a1, a2 := f("x")
	b1, b2 := f("yy")
	sameText(a1, b1)
	sameText(a2, b2)
}

// H_C03_paging: only whether offset and limit are set matters.
func H_C03_paging() {
	a, b := v.AnyUint("offset1"), v.AnyUint("offset2")
	c, d := v.AnyInt("limit1"), v.AnyInt("limit2")
	v.Assume((a > 0) == (b > 0))
	v.Assume((c > 0) == (d > 0))
	f := func(o uint, l int) query.SelectManyBuilder {
		return query.SelectManyFrom("t").Where(query.EqualTo("a", l)).Offset(o).Limit(l).OrderBy(query.ASC("z"))
	}
	s, _ := build(f(a, c))
	t, _ := build(f(b, d))
	sameText(s, t)
	sameText(f(a, c).RenderSQL(), f(b, d).RenderSQL())
	sameText(f(a, c).Render(11), f(b, d).Render(11))
	if c > 0 {
		x, y := query.Limiter{}.Offset(a).Limit(uint(c)), query.Limiter{}.Offset(b).Limit(uint(d))
		sameText(x.RenderSQL(), y.RenderSQL())
		sameText(x.Render(11), y.Render(11))
	}
}
