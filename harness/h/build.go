package h

import (
	"strings"

	"github.com/amarin/query"
	"verifharness/v"
)

// stmt is a statement builder of any kind behind one face.
type stmt interface {
	BuildQueryAndParams() (string, []any, error)
}

// statement kinds
const (
	kBase = iota
	kSingle
	kMany
	kCount
	kUpdate
	kDelete
	kInsert
)

// start makes a builder of the given kind over a table spec.
func start(kind int, table string) stmt {
	switch kind {
	case kBase:
		return query.SelectFrom(table)
	case kSingle:
		return query.SelectSingleFrom(table)
	case kMany:
		return query.SelectManyFrom(table)
	case kUpdate:
		return query.Update(table).Set(query.FieldName("s0").Value(1))
	case kDelete:
		return query.Delete(table)
	}
	panic("no such kind")
}

// where adds conditions to any builder.
func where(s stmt, cs ...query.Condition) stmt {
	switch b := s.(type) {
	case query.BaseSelectBuilder:
		return b.Where(cs...)
	case query.SelectSingleBuilder:
		return b.Where(cs...)
	case query.SelectManyBuilder:
		return b.Where(cs...)
	case query.UpdateBuilder:
		return b.Where(cs...)
	case query.DeleteBuilder:
		return b.Where(cs...)
	}
	panic("no where")
}

// build returns the text and params of a statement that must build.
func build(s stmt) (string, []any) {
	sql, params, err := s.BuildQueryAndParams()
	v.Assert(err == nil, "statement builds")
	return sql, params
}

// whereOf cuts the WHERE condition out of concrete SQL, "" if there is none.
func whereOf(sql string) string {
	i := strings.Index(sql, " WHERE ")
	if i < 0 {
		return ""
	}
	sql = sql[i+len(" WHERE "):]
	for _, end := range []string{" ORDER BY ", " OFFSET ", " LIMIT "} {
		if j := strings.Index(sql, end); j >= 0 {
			sql = sql[:j]
		}
	}
	return sql
}

// judgeWhere asserts that the statement selects exactly the rows of d.
func (w *world) judgeWhere(sql string, d, some bool, what string, params ...any) {
	cond := whereOf(sql)
	if !some {
		v.Assert(cond == "" && !strings.Contains(sql, "WHERE"), what+": no WHERE without conditions")
		return
	}
	got, p := w.mean(cond, params)
	v.Assert(!p.bad, what+": WHERE is well formed")
	v.Assert(v.Iff(got, d), what+": WHERE means the conjunction of all Where calls")
}
