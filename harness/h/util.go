package h

import (
	"strings"

	"github.com/amarin/query"
	"verifharness/v"
)

// numbered is the raw text with its k-th '?' replaced by '$' and n+k. The text before '?' must be concrete.
func numbered(raw string, n int) (res string, count int) {
	for i := 0; i < len(raw); i++ {
		if raw[i] == '?' {
			count++
			res += "$" + itoa(n+count)
		} else {
			res += raw[i : i+1]
		}
	}
	return res, count
}

// clause is what can be rendered both ways.
type clause interface {
	query.CountingClauseRenderer
	query.RawClauseRenderer
	query.ValuesProvider
}

// sameList compares two value lists without branching on their contents.
func sameList(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	res := true
	for i := range a {
		res = v.And(res, v.Same(a[i], b[i]))
	}
	return res
}

// catch runs f and reports whether it panicked and with what.
func catch(f func()) (panicked bool, with any) {
	defer func() {
		if r := recover(); r != nil {
			panicked, with = true, r
		}
	}()
	f()
	return false, nil
}

// outcome is everything a statement answers.
type outcome struct {
	sql    string
	params []any
	err    string
	failed bool
}

func outcomeOf(s stmt) outcome {
	sql, params, err := s.BuildQueryAndParams()
	o := outcome{sql: sql, params: params}
	if err != nil {
		o.failed, o.err = true, err.Error()
	}
	return o
}

// same compares outcomes.
func (o outcome) same(p outcome) bool {
	if o.failed != p.failed {
		return false
	}
	return v.And(v.Eq(o.sql, p.sql), v.Eq(o.err, p.err), sameList(o.params, p.params))
}

func has(s, sub string) bool { return strings.Contains(s, sub) }

// ident is a symbolic identifier of 1 or 2 characters.
func ident(label string) string { return v.Str(label, 1+v.Choice(label+" length", 2), "ident") }

// name2 is a symbolic identifier of 2 characters.
func name2(label string) string { return v.Str(label, 2, "ident") }

var sizes = []int{7, 9, 12, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300}

// large is a size of up to about max in the quick tier, three times as much in the thorough one.
func large(label string, max int) int {
	max = v.Bound(label, max, 3*max)
	n := 0
	for n < len(sizes) && sizes[n] <= max {
		n++
	}
	return sizes[v.Choice(label, n)]
}

// lengthy is an identifier of n characters, n > 3, with symbolic ones at its beginning, in the middle and at its end.
func lengthy(label string, n int, charset string) string {
	k := (n - 3) / 2
	return v.Str(label+" head", 1, charset) + strings.Repeat("m", k) + v.Str(label+" middle", 1, charset) + strings.Repeat("m", n-3-k) + v.Str(label+" tail", 1, charset)
}
