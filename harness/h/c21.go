package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// pageText is the expected paging text with numbered and with plain placeholders.
func pageText(n int, off, lim bool) (num, raw string) {
	if off {
		n++
		num, raw = "OFFSET $"+itoa(n), "OFFSET ?"
	}
	if lim {
		if off {
			num, raw = num+" ", raw+" "
		}
		n++
		num, raw = num+"LIMIT $"+itoa(n), raw+"LIMIT ?"
	}
	return num, raw
}

// H_C21_limiter: any sequence of Offset and Limit calls with any numbers.
func H_C21_limiter() {
	var l query.Limiter
	var off, lim uint
	steps := v.Choice("calls", 1+v.Bound("calls", 4, 6))
	for i := 0; i < steps; i++ {
		x := v.AnyUint("number")
		if v.Choice("call", 2) == 0 {
			l, off = l.Offset(x), x
		} else {
			l, lim = l.Limit(x), x
		}
	}
	n := v.Int("params before", 0, 99999)
	judgeLimiter(l, off, lim, n)
}

func judgeLimiter(l query.Limiter, off, lim uint, n int) {
	num, raw := pageText(n, off > 0, lim > 0)
	v.Assert(v.Eq(l.Render(n), num), "numbered paging")
	v.Assert(v.Eq(l.RenderSQL(), raw), "plain paging")
	var want []any
	if off > 0 {
		want = append(want, off)
	}
	if lim > 0 {
		want = append(want, lim)
	}
	v.Assert(sameList(l.Values(), want), "the numbers themselves")
	v.Observe("paging", l.RenderSQL())
	v.Reach("judged")
}

// H_C21_many: paging of SELECT statements.
func H_C21_many() {
	x := v.AnyInt("x")
	k := v.Choice("conditions", 3)
	var cs []query.Condition
	where, raw, n := "", "", 0
	var want []any
	switch k {
	case 1:
		cs, where, raw, n = append(cs, query.EqualTo("c", x)), " WHERE c=$1", " WHERE c=?", 1
		want = append(want, x)
	case 2:
		cs, where, raw, n = append(cs, query.EqualTo("c", x), query.In("d", []string{"p", "q"})), " WHERE c=$1 AND d IN ($2,$3)", " WHERE c=? AND d IN (?,?)", 3
		want = append(want, x, "p", "q")
	}
	var b query.SelectManyBuilder
	var off uint
	lim := -1
	o, m := v.AnyUint("offset0"), v.AnyInt("limit0")
	switch v.Choice("start", 6) {
	case 0:
		b = query.SelectManyFrom("t").Where(cs...)
	case 1:
		b = query.SelectFrom("t").Where(cs...).Many()
	case 2:
		b, off = query.SelectFrom("t").Where(cs...).Offset(o), o
	case 3:
		b, lim = query.SelectFrom("t").Where(cs...).Limit(m), m
	case 4:
		b = query.SelectFrom("t").Where(cs...).OrderBy(query.ASC("o"))
		where, raw = where+" ORDER BY o ASC", raw+" ORDER BY o ASC"
	default:
		b = query.SelectManyFromBase(query.SelectFrom("t").Where(cs...))
	}
	steps := v.Choice("calls", 1+v.Bound("builder calls", 3, 4))
	for i := 0; i < steps; i++ {
		switch v.Choice("call", 4) {
		case 0:
			y := v.AnyUint("offset")
			b, off = b.Offset(y), y
		case 1:
			y := v.AnyInt("limit")
			b, lim = b.Limit(y), y
		case 2:
			b = b.Fields()
		default:
			b = b.Where()
		}
	}
	page, pageRaw := pageText(n, off > 0, lim > 0)
	if page != "" {
		page, pageRaw = " "+page, " "+pageRaw
	}
	if off > 0 {
		want = append(want, off)
	}
	if lim > 0 {
		want = append(want, uint(lim))
	}
	sql, params := build(b)
	v.Observe("sql", sql)
	v.Assert(v.Eq(sql, "SELECT * FROM t"+where+page), "paging of the statement")
	v.Assert(sameNumbers(params, want), "the numbers themselves")
	v.Assert(v.Eq(b.RenderSQL(), "SELECT * FROM t"+raw+pageRaw), "paging of the plain rendering")
	v.Assert(sameNumbers(b.Values(), want), "the numbers themselves")
	c, cp := build(b.Count())
	v.Assert(!has(c, "OFFSET") && !has(c, "LIMIT") && len(cp) == n, "COUNT is not paged")
	v.Reach("judged")
}

// sameNumbers compares params; integers are compared by value whatever integer type carries them.
func sameNumbers(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	res := true
	for i := range a {
		x, xok := number(a[i])
		y, yok := number(b[i])
		if xok && yok {
			res = v.And(res, x == y)
		} else {
			res = v.And(res, v.Same(a[i], b[i]))
		}
	}
	return res
}

func number(x any) (uint64, bool) {
	switch x := x.(type) {
	case int:
		return uint64(x), true
	case uint:
		return uint64(x), true
	case int64:
		return uint64(x), true
	case uint64:
		return x, true
	}
	return 0, false
}
