package h

import (
	"strconv"

	"github.com/amarin/query"
	"verifharness/v"
)

// H_X01_smoke exercises the executor end to end.
func H_X01_smoke() {
	n := v.Int("n", 0, 1000000)
	name := v.Str("f", 3, "ident")
	c := query.EqualTo(query.FieldName(name), 5)
	got := c.Render(n)
	v.Observe("sql", got)
	v.Assert(v.Eq(got, name+"=$"+strconv.Itoa(n+1)), "equal render")
	f, err := query.FieldOrError(v.Str("spec", 5, "a-b. "))
	if err == nil {
		v.Observe("field", f.RenderSpec())
		v.Reach("ok")
	} else {
		v.Observe("err", err.Error())
	}
	sql, params, err := query.SelectFrom("t").Where(query.EqualTo("a", n).Or(query.Contains("b", name))).Many().Limit(n).BuildQueryAndParams()
	v.Observe("sql", sql)
	v.Assert(len(params) >= 2 && err == nil && params[0] == any(n), "p")
}
