package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// H_C19_list: lists of arbitrary names.
func H_C19_list() {
	n := v.Choice("names", 1+v.Bound("names", 5, 6))
	in := make([]query.FieldName, n, n+2)
	for i := range in {
		in[i] = query.FieldName(v.Str("name", v.Choice("length", 3)+0, "a-bA. "))
	}
	judgeUniq(in)
}

// H_C19_any: lists of one-byte names of any byte, longer.
func H_C19_any() {
	n := v.Choice("names", 1+v.Bound("one byte names", 6, 8))
	in := make([]query.FieldName, n, n+2)
	for i := range in {
		in[i] = query.FieldName(v.Str("name", 1, ""))
	}
	judgeUniq(in)
}

func judgeUniq(in []query.FieldName) {
	before := append([]query.FieldName{}, in...)
	var want []query.FieldName
	for i, x := range in {
		first := true
		for _, y := range in[:i] {
			if x == y {
				first = false
				break
			}
		}
		if first {
			want = append(want, x)
		}
	}
	got := query.UniqFieldNames(in)
	v.Assert(len(got) == len(want), "every name once")
	for i := range got {
		if i < len(want) {
			v.Assert(v.Eq(string(got[i]), string(want[i])), "in order of first occurrence")
		}
		got[i] = "changed"
	}
	_ = append(got, "more")
	v.Assert(len(in) == len(before), "the input keeps its length")
	for i := range before {
		v.Assert(v.Eq(string(in[i]), string(before[i])), "the input is left unchanged")
	}
	full := in[:cap(in)]
	for _, x := range full[len(in):] {
		v.Assert(x == "", "the input is left unchanged beyond its length")
	}
	v.Reach("judged")
	v.Observe("kept", len(got))
	if in == nil {
		return
	}
	again := query.UniqFieldNames(nil)
	v.Assert(len(again) == 0, "nothing from nothing")
}

// H_C19_large: long lists, mostly of fixed names, with some arbitrary ones.
func H_C19_large() {
	n := large("long lists", 300)
	if !v.Thorough() && n > 130 && n != 257 {
		return
	}
	every := []int{3, 7, n - 1, n}[v.Choice("period", 4)]
	in := make([]query.FieldName, n, n+1)
	for i := range in {
		in[i] = query.FieldName("n" + itoa(i%every))
	}
	in[0] = query.FieldName(v.Str("name", 1, "ident"))
	in[n/2] = query.FieldName(v.Str("name", 1, "ident"))
	in[n-1] = query.FieldName(v.Str("name", 1, "ident"))
	judgeUniq(in)
}

// H_C19_long: long names that differ or not in one character.
func H_C19_long() {
	n := large("length", 300)
	in := []query.FieldName{query.FieldName(lengthy("name", n, "word")), query.FieldName(lengthy("name", n, "word")), "x", query.FieldName(lengthy("name", n, "word"))}
	judgeUniq(in)
}
