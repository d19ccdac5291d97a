from plants1 import D
P=[]
def p(*a,**k): P.append((a,k))
p('c02-capped-number','C02','an IN list rendered after more than 65535 placeholders','the numbers of the list stop growing while the question marks do not',
 [('lib_in.go','''		placeholders[idx] = "$" + strconv.Itoa(paramNum+idx+1)
''','''		placeholders[idx] = "$" + strconv.Itoa(min(paramNum+idx+1, 65535))
''')],
 D('''	sql := query.In("a", []string{"x", "y", "z"}).Render(65533)
	if sql != "a IN ($65534,$65535,$65536)" {
		t.Error(sql)
	}'''))
p('c02-empty-in','C02','an IN condition over an empty list','the numbered text differs from the question mark text',
 [('lib_in.go','''		placeholders[idx] = "?"
	}
''','''		placeholders[idx] = "?"
	}
	if len(placeholders) == 0 {
		placeholders = []string{"NULL"}
	}
''')],
 D('''	c := query.In("a", []string{})
	if c.Render(3) != c.RenderSQL() {
		t.Errorf("%s != %s", c.Render(3), c.RenderSQL())
	}'''))
p('c03-bool','C03','a boolean compared in a where clause','the sort of operator depends on the value',
 [('lib_equal.go','''		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
''','''		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
		if truth, isBool := impl.value.(bool); isBool && !truth {
			tokens[1] = " IS NOT DISTINCT FROM $" + strconv.Itoa(paramNum+1)
		}
''')],
 D('''	a, b := query.EqualTo("a", true).Render(0), query.EqualTo("a", false).Render(0)
	if a != b {
		t.Errorf("%s != %s", a, b)
	}'''))
p('c03-small-limit','C03','a page of seven records','a paging number gets into the text',
 [('select_many.go','''	if query.limit > 0 {
		params = append(params, uint(query.limit))
		sql += " LIMIT $" + strconv.Itoa(len(params))

	}
''','''	switch {
	case query.limit == 7 && query.offset == 0:
		sql += " LIMIT 7"
	case query.limit > 0:
		params = append(params, uint(query.limit))
		sql += " LIMIT $" + strconv.Itoa(len(params))
	}
''')],
 D('''	build := func(limit int) string {
		sql, _, _ := query.SelectManyFrom("t").Limit(limit).BuildQueryAndParams()
		return sql
	}
	if build(7) != build(8) {
		t.Errorf("%s != %s", build(7), build(8))
	}'''))
p('c04-any-and','C04','joining one condition with AND to a group holding both AND and OR','the OR of the group is not bracketed',
 [('group.go','''	case haveSingle && op == LogicalAND && addingOnlyAnd: // AND AND (AND),- unpack another group into flat (AND...AND)
''','''	case haveSingle && op == LogicalAND && (addingOnlyAnd || addingAnyAnd && len(anotherGroup.conditions) > 2 && anotherGroup.conditions[1].JoinType() == LogicalAND): // AND AND (AND),- unpack another group into flat (AND...AND)
''')],
 D('''	mixed := query.NewGroup(query.LogicalAND).GroupAND(query.IsNull("b"), query.IsNull("c"), query.Or(query.IsNull("d")))
	g := query.And(query.IsNull("a"), mixed)
	if sql := g.Render(0); !strings.Contains(sql, "(") {
		t.Error(sql)
	}''',['strings']))
p('c05-delete-each','C05','a later Where call of a DELETE with alternatives','alternatives of one call are demanded together',
 [('delete.go','''	updater.where = updater.where.GroupAND(fieldConditions...)
	return updater
''','''	for _, condition := range fieldConditions {
		if condition.JoinType() == LogicalOR && len(updater.where.conditions) > 0 {
			updater.where = updater.where.GroupOR(condition)
		} else {
			updater.where = updater.where.GroupAND(condition)
		}
	}
	return updater
''')],
 D('''	sql, _, _ := query.Delete("t").Where(query.EqualTo("tenant", 1)).
		Where(query.EqualTo("a", 1), query.Or(query.EqualTo("b", 2))).BuildQueryAndParams()
	if !strings.Contains(sql, "AND (") {
		t.Error(sql)
	}''',['strings']))
p('c20-map-drained','C20','using a map of values twice','reading the map of values empties it',
 [('values_map.go','''		res[idx] = *NewFieldValue(fieldName, v)
''','''		res[idx] = *NewFieldValue(fieldName, v)
		delete(valuesMap, k)
''')],
 D('''	values := query.ValuesMap{"a": 1}
	values.FieldValues()
	if again, _ := values.FieldValues(); len(again) != 1 {
		t.Error(again)
	}'''))
p('c06-fields-room','C06','setting less fields on a builder from which others were derived','the fields of another builder are overwritten',
 [('fields.go','''	updated.fieldSpecs = make([]FieldDefinition, len(fieldSpecs)) // reset added fields
	for idx, fieldSpec := range fieldSpecs {
		updated.fieldSpecs[idx] = fieldSpec
	}
''','''	if len(fieldSpecs) == 0 || len(fieldSpecs) > cap(query.fieldSpecs)-len(query.fieldSpecs) {
		updated.fieldSpecs = make([]FieldDefinition, 0, 2*len(fieldSpecs)) // reset added fields
	} else {
		updated.fieldSpecs = query.fieldSpecs[len(query.fieldSpecs):]
	}
	updated.fieldSpecs = append(updated.fieldSpecs, fieldSpecs...)
''')],
 D('''	base := query.SelectFrom("t").Fields(query.Field("a"), query.Field("b"))
	one := base.Fields(query.Field("one"))
	base.Fields(query.Field("two"))
	if one.Single().FieldList() != "one" {
		t.Error(one.Single().FieldList())
	}'''))
p('c07-lazy-table','C07','printing join kinds from several goroutines at once','a package variable is filled without synchronisation',
 [('join_type.go','''	switch join {
	case InnerJoin:
		return "INNER JOIN"
''','''	if name, known := joinNames[join]; known {
		return name
	}
	switch join {
	case InnerJoin:
		joinNames[join] = "INNER JOIN"
		return "INNER JOIN"
'''),('join_type.go','''type TableJoinType int
''','''type TableJoinType int

var joinNames = map[TableJoinType]string{}
''')],
 D('''	var wait sync.WaitGroup
	for k := 0; k < 8; k++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			for i := 0; i < 200; i++ {
				_ = query.InnerJoin.String()
			}
		}()
	}
	wait.Wait()''',['sync']),race=True)
p('c07-where-memo','C07','building the same SELECT from several goroutines at once','a shared builder remembers its rendered where clause',
 [('where.go','''	return query.group.Render(parametersCount)
''','''	if query.rendered == nil || parametersCount != 0 {
		return query.group.Render(parametersCount)
	}
	if len(*query.rendered) == 0 {
		*query.rendered = query.group.Render(parametersCount)
	}

	return *query.rendered
'''),('where.go','''	group Group
''','''	group    Group
	rendered *string // text for numbering from one
'''),('where.go','''	updated = query
	updated.group = updated.group.GroupAND(conditions...)
''','''	updated = query
	updated.group = updated.group.GroupAND(conditions...)
	updated.rendered = new(string)
'''),('where.go','''	updated = query
	updated.group = updated.group.GroupOR(conditions...)
''','''	updated = query
	updated.group = updated.group.GroupOR(conditions...)
	updated.rendered = new(string)
'''),('where.go','''	updated = query
	updated.group = updated.group.ApplyFieldSpec(spec).(Group)
''','''	updated = query
	updated.group = updated.group.ApplyFieldSpec(spec).(Group)
	updated.rendered = new(string)
''')],
 D('''	base := query.SelectFrom("t").Where(query.EqualTo("a", 1), query.EqualTo("b", 1))
	var wait sync.WaitGroup
	for k := 0; k < 8; k++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			base.BuildQueryAndParams()
		}()
	}
	wait.Wait()''',['sync']),race=True)
p('c08-insert-nothing','C08','an INSERT all values of which are nil','a row of nothing but NULLs is refused no more distinctly',
 [('insert.go','''		return "", params, fmt.Errorf("%w: no fields to insert", Error)
''','''		return "", params, fmt.Errorf("%v: no fields to insert", Error)
''')],
 D('''	_, _, err := query.InsertInto("t").BuildQueryAndParams()
	if !errors.Is(err, query.Error) {
		t.Error(err)
	}''',['errors']))
p('c09-compact','C09','deriving a DELETE from a SELECT having two conditions alike but for their values','one of the conditions is lost',
 [('where.go','''	conditions = make([]Condition, len(query.group.conditions))
	copy(conditions, query.group.conditions)
''','''	conditions = make([]Condition, 0, len(query.group.conditions))
	for idx, condition := range query.group.conditions {
		if idx > 0 && condition.RenderSQL() == conditions[len(conditions)-1].RenderSQL() && len(condition.Values()) == 1 {
			continue // repeated
		}
		conditions = append(conditions, condition)
	}
''')],
 D('''	_, params, _ := query.SelectFrom("t").Where(query.EqualTo("a", 1), query.Or(query.EqualTo("a", 2))).Delete().BuildQueryAndParams()
	if len(params) != 2 {
		t.Error(params)
	}'''))
p('c10-order-twin','C10','ordering by columns of the same name of two tables','the second ordering disappears',
 [('select_many.go','''	query.order = append(slices.Clip(query.order), orderByFields...)
	return query
''','''	query.order = slices.Clip(query.order)
	for _, field := range orderByFields {
		if !slices.ContainsFunc(query.order, func(known FieldSorting) bool { return known.fieldName == field.fieldName }) {
			query.order = append(query.order, field)
		}
	}
	return query
''')],
 D('''	sql, _, _ := query.SelectManyFrom("t").OrderBy(query.ASC("a.id"), query.DESC("b.id")).BuildQueryAndParams()
	if !strings.HasSuffix(sql, "ORDER BY a.id ASC, b.id DESC") {
		t.Error(sql)
	}''',['strings']))
p('c11-dup-column','C11','an INSERT of two values into the same column','one of the given values is dropped',
 [('insert.go','''		params = append(params, fieldValue.singleValue())

		columns''','''		if idx > 0 && fieldValue.fieldName == inserter.setValues[idx-1].fieldName {
			params[len(params)-1] = fieldValue.singleValue()
			continue
		}
		params = append(params, fieldValue.singleValue())

		columns'''),('insert.go','''	for _, fieldValue := range inserter.setValues {
''','''	for idx, fieldValue := range inserter.setValues {
''')],
 D('''	sql, params, _ := query.InsertInto("t").Values(query.FieldName("a").Value(1), query.FieldName("a").Value(2)).BuildQueryAndParams()
	if len(params) != 2 {
		t.Error(sql, params)
	}'''))
p('c12-using-alias','C12','a join condition whose left field has an alias','ON compares another column',
 [('join_condition.go','''	return joinCondition.leftField.RenderTableSpec() + "=" + joinCondition.rightField.RenderTableSpec()
''','''	if joinCondition.leftField.tableName == joinCondition.rightField.tableName {
		return joinCondition.leftField.RenderField() + "=" + joinCondition.rightField.RenderTableSpec()
	}

	return joinCondition.leftField.RenderTableSpec() + "=" + joinCondition.rightField.RenderTableSpec()
''')],
 D('''	join := query.JoinFields(query.Field("t.parent").As("p"), query.Field("t.id"))
	if sql := join.Render(); sql != "t.parent=t.id" {
		t.Error(sql)
	}'''))
p('c13-star-alias','C13','an alias starting with a star or digit','an alias is dropped',
 [('field_definition.go','''		return &FieldDefinition{fieldName: tokens[0], alias: tokens[2], tableName: ""}, nil
''','''		return &FieldDefinition{fieldName: tokens[0], alias: strings.TrimLeft(tokens[2], "0123456789*"), tableName: ""}, nil
''')],
 D('''	f, err := query.FieldOrError("a AS 2nd")
	if err != nil || f.Alias() != "2nd" {
		t.Error(f, err)
	}'''))
p('c14-reserved','C14','a table specification whose alias is the word ON','the alias is refused',
 [('table_ident.go','''	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
''','''	case len(tokens) == 2 && strings.ToUpper(tokens[1]) != "ON" && tokens[1] != tokens[0]:
''')],
 D('''	if _, err := query.TableOrError("orders on"); err != nil {
		t.Error(err)
	}'''))
p('c15-control','C15','a field name holding an apostrophe look-alike byte sequence','a name is refused or accepted wrongly',
 [('field_name.go','''	case strings.ContainsFunc(fnStr, unicode.IsSpace):
''','''	case strings.ContainsAny(fnStr, " \\t\\r\\n"):
'''),('field_name.go','''	"strings"
	"unicode"
''','''	"strings"
''')],
 D('''	if err := query.FieldName("a\\u00a0b").Validate(); err == nil {
		t.Error("accepted")
	}'''))
p('c16-user','C16','a field called user','a field name is decorated',
 [('field_definition.go',"""		return fieldIdent.fieldName
	}
""","""		if fieldIdent.fieldName == "user" {
			return "\\"user\\""
		}
		return fieldIdent.fieldName
	}
""")],
 D("""	if sql := query.Field("user").RenderField(); sql != "user" {
		t.Error(sql)
	}"""))
p('c17-typed-nil','C17','a nil pointer whose type translates itself','its own translation is not used',
 [('value.go','''	case driver.Valuer:
		return []any{translateValuer(typedValue)}
''','''	case driver.Valuer:
		if pointer := reflect.ValueOf(typedValue); pointer.Kind() == reflect.Pointer && pointer.IsNil() {
			return []any{nil}
		}
		return []any{translateValuer(typedValue)}
''')],
 '''package query_test

import (
	"database/sql/driver"
	"testing"

	"github.com/amarin/query"
)

type state struct{}

func (s *state) Value() (driver.Value, error) {
	if s == nil {
		return "unknown", nil
	}
	return "known", nil
}

func TestPlantedDemo(t *testing.T) {
	values := query.NewFieldValue("a", (*state)(nil)).Values()
	if len(values) != 1 || values[0] != "unknown" {
		t.Error(values)
	}
}
''')
p('c17-slice-kinds','C17','a named slice type of self translating elements that translates itself too','a list value is expanded instead of translated',
 [('value.go','''	switch typedValue := fieldValue.value.(type) {
	case driver.Valuer:
		return []any{translateValuer(typedValue)}
	case []driver.Valuer:''','''	if list := reflect.ValueOf(fieldValue.value); list.Kind() == reflect.Slice && list.Type().Elem().Kind() == reflect.Struct {
		values := make([]any, list.Len())
		for idx := range values {
			if valuer, isValuer := list.Index(idx).Interface().(driver.Valuer); isValuer {
				values[idx] = translateValuer(valuer)
			} else {
				values[idx] = list.Index(idx).Interface()
			}
		}

		return values
	}

	switch typedValue := fieldValue.value.(type) {
	case driver.Valuer:
		return []any{translateValuer(typedValue)}
	case []driver.Valuer:''')],
 '''package query_test

import (
	"database/sql/driver"
	"testing"

	"github.com/amarin/query"
)

type point struct{ x, y int }

type path []point

func (p path) Value() (driver.Value, error) { return "path", nil }

func TestPlantedDemo(t *testing.T) {
	values := query.NewFieldValue("a", path{{1, 2}, {3, 4}}).Values()
	if len(values) != 1 || values[0] != "path" {
		t.Error(values)
	}
}
''')
p('c18-negated-group','C18','applying a field spec to a group in which the field occurs in a negated condition','the negated condition keeps the old field',
 [('lib_isnull.go','''	if impl.FieldDefinition.fieldName == spec.fieldName {
		impl.FieldDefinition = spec
	}
''','''	if impl.FieldDefinition.fieldName == spec.fieldName && (impl.FieldDefinition.tableName == spec.tableName || impl.FieldDefinition.tableName == "" || !impl.negate) {
		impl.FieldDefinition = spec
	}
''')],
 D('''	c := query.Not(query.IsNull("old.a")).ApplyFieldSpec(query.Field("new.a"))
	if sql := c.Render(0); sql != "new.a IS NOT NULL" {
		t.Error(sql)
	}'''))
p('c19-long','C19','more than sixteen names','names repeated far apart stay',
 [('utils.go','''		for j := 0; j < len(answer); j++ {
''','''		for j := max(0, len(answer)-16); j < len(answer); j++ {
''')],
 D('''	names := []query.FieldName{"x"}
	for i := 0; i < 20; i++ {
		names = append(names, query.FieldName(string(rune('a'+i))))
	}
	names = append(names, "x")
	seen := map[query.FieldName]int{}
	for _, name := range query.UniqFieldNames(names) {
		seen[name]++
	}
	if seen["x"] != 1 {
		t.Error(seen)
	}'''))
p('c20-first-error','C20','a map with a wrong key beside right ones','the wrong key is skipped when something else was converted',
 [('values_map.go','''			return nil, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err)
''','''			if idx > 1 {
				res = res[:len(res)-1]
				continue
			}
			return nil, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err)
''')],
 D('''	for i := 0; i < 200; i++ {
		if values, err := (query.ValuesMap{"a": 1, "b": 2, "c": 3, "d e": 4}).FieldValues(); err == nil {
			t.Fatal(values)
		}
	}'''))
p('c21-signed','C21','an offset of 2^63 or more','the offset is taken for a negative number and ignored',
 [('limiter.go','''	if query.offset > 0 {
		sql += "OFFSET ?"
	}
''','''	if int(query.offset) > 0 {
		sql += "OFFSET ?"
	}
''')],
 D('''	limiter := query.Limiter{}.Offset(1 << 63).Limit(1)
	if sql := limiter.RenderSQL(); sql != "OFFSET ? LIMIT ?" {
		t.Error(sql)
	}'''))
p('c21-sum','C21','offset and limit which together exceed the range of numbers','paging is dropped',
 [('limiter.go','''	case query.offset > 0 && query.limit > 0:
''','''	case query.offset > 0 && query.limit > 0 && query.offset+query.limit > query.limit:
''')],
 D('''	limiter := query.Limiter{}.Offset(1 << 63).Limit(1 << 63)
	if len(limiter.Values()) != 2 {
		t.Error(limiter.Values())
	}'''))
p('c22-op-wide','C22','an operation number far outside of the known ones','an unknown operation prints as a known one',
 [('op_type.go','''	switch op {
	case DoSelect:
''','''	switch Operation(int16(op)) {
	case DoSelect:
''')],
 D('''	if text := query.Operation(65536 + 3).String(); text == "DELETE" {
		t.Error(text)
	}'''))
p('c23-values-once','C23','a user condition whose Values returns its own list','the list of the condition is extended in place',
 [('group.go','''	values = make([]interface{}, 0)

	for _, condition := range conditionsGroup.conditions {
		values = append(values, condition.Values()...)
	}
''','''	for _, condition := range conditionsGroup.conditions {
		if len(values) == 0 {
			values = condition.Values()
			continue
		}
		values = append(values, condition.Values()...)
	}
''')],
 '''package query_test

import (
	"testing"

	"github.com/amarin/query"
)

type own struct {
	query.Condition
	args []any
}

func (o own) Values() []any { return o.args[:1] }

func (o own) Join(query.JoinType) query.Condition { return o }

func TestPlantedDemo(t *testing.T) {
	args := []any{1, 2}
	query.NewGroup(query.LogicalAND, own{query.EqualTo("a", 0), args}, query.EqualTo("b", 3)).Values()
	if args[1] != 2 {
		t.Error(args)
	}
}
''')
p('c24-many-count','C24','Count of a many-rows builder with a where clause of several conditions','Count differs from its long form',
 [('select_many.go','''	return Count(query.BaseSelectBuilder)
''','''	if len(query.fields.fieldSpecs) == 1 && len(query.joins) > 0 {
		return Count(query.BaseSelectBuilder, FieldName(query.fields.fieldSpecs[0].fieldName))
	}
	return Count(query.BaseSelectBuilder)
''')],
 D('''	b := query.SelectFrom("t").Many().InnerJoin("u").On(query.Field("t.id"), query.Field("u.id")).Fields(query.Field("t.id"))
	short, _, _ := b.Count().BuildQueryAndParams()
	long, _, _ := query.Count(b.BaseSelectBuilder).BuildQueryAndParams()
	if short != long {
		t.Errorf("%s != %s", short, long)
	}'''))
p('c25-null-alias','C25','a null check of a qualified field negated twice over','the operator of the null check is turned round',
 [('lib_isnull.go','''	impl.BaseCondition = impl.BaseCondition.Negate(newNegateIndicator)
''','''	impl.BaseCondition = impl.BaseCondition.Negate(newNegateIndicator != (impl.negate && newNegateIndicator && len(impl.tableName) > 0))
''')],
 D('''	c := query.Not(query.Not(query.IsNull("t.a")))
	if sql := c.Render(0); sql != "t.a IS NOT NULL" {
		t.Error(sql)
	}'''))
if __name__=='__main__':
    import sys, plantlib, os
    if os.environ.get('SEEDS'): plantlib.ROOT=os.environ['SEEDS']
    want=sys.argv[1:]
    for a,k in P:
        if want and a[0] not in want: continue
        try: plantlib.create(*a,**k); print(a[0],plantlib.verify(a[0]),flush=True)
        except Exception as e: print(a[0],'ERR',e,flush=True)
