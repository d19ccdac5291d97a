from plantlib import *
H='package query_test\n\nimport (\n%s\n\t"testing"\n\n\t"github.com/amarin/query"\n)\n\nfunc TestPlantedDemo(t *testing.T) {\n%s\n}\n%s'
def D(body,imports=(),extra=''):
    return H%(''.join('\t"%s"\n'%i for i in imports),body,extra)
P=[]
def p(*a,**k): P.append((a,k))

p('c01-ten-columns','C01','an UPDATE with ten or more set values','the tenth placeholder of SET is not $10',
 [('update.go','"=$" + strconv.Itoa(idx+1)','"=$" + string(rune(\'1\'+idx))'),('update.go','\t"strconv"\n','')],
 D('''	values := make([]query.FieldValue, 0)
	for idx := 0; idx < 11; idx++ {
		values = append(values, query.FieldName("c"+string(rune('a'+idx))).Value(idx))
	}
	sql, params, err := query.Update("t").Set(values...).Where(query.EqualTo("id", 1)).BuildQueryAndParams()
	if err != nil || len(params) != 12 {
		t.Fatal(sql, params, err)
	}
	for _, want := range []string{"cj=$10", "ck=$11", "id=$12"} {
		if !strings.Contains(sql, want) {
			t.Errorf("no %s in %s", want, sql)
		}
	}''',['strings']))

p('c02-raw-negate','C02','rendering a negated group with exactly two members joined by AND with question marks','RenderSQL gives another text than Render',
 [('group.go','''		sql += conditionsGroup.enclosed(condition).RenderSQL()
	}

	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 {''','''		sql += conditionsGroup.enclosed(condition).RenderSQL()
	}

	if conditionsGroup.IsNegate() && (conditionsGroup.hasOne(LogicalOR) || len(conditionsGroup.conditions) > 2) {''')],
 D('''	c := query.Not(query.And(query.EqualTo("a", 1), query.EqualTo("b", 2)))
	if got, want := c.RenderSQL(), strings.NewReplacer("$1", "?", "$2", "?").Replace(c.Render(0)); got != want {
		t.Errorf("%s != %s", got, want)
	}''',['strings']))

p('c03-like-escape','C03','a Contains text having a percent or underscore character','the statement text depends on the value',
 [('lib_like.go','''		tokens = []string{impl.RenderField(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
	}
''','''		tokens = []string{impl.RenderField(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
	}

	if text, isString := impl.value.(string); isString && strings.ContainsAny(text, "%_") {
		tokens = append(tokens, "ESCAPE", "'\\\\'")
	}
'''),('lib_like.go','''	return []interface{}{"%" + (impl.value).(string) + "%"}''','''	return []interface{}{"%" + strings.NewReplacer("%", "\\\\%", "_", "\\\\_").Replace((impl.value).(string)) + "%"}''')],
 D('''	if a, b := query.Contains("f", "ab").Render(0), query.Contains("f", "a_b").Render(0); a != b {
		t.Errorf("%s != %s", a, b)
	}'''))

p('c04-lone-brackets','C04','a group asked to have brackets whose only member is a group joined by OR, used with AND','brackets of single member groups are omitted, so the OR of the nested group leaks out',
 [('group.go','''	if conditionsGroup.withBrackets { // if render with brackets
		sql = "(" + sql + ")"
	}

	if conditionsGroup.IsNegate() {
		return conditionsGroup.RenderNegate() + " " + sql
	}

	return sql
}

// RenderSQL''','''	if conditionsGroup.withBrackets && len(conditionsGroup.conditions) > 1 { // single condition needs no brackets
		sql = "(" + sql + ")"
	}

	if conditionsGroup.IsNegate() {
		return conditionsGroup.RenderNegate() + " " + sql
	}

	return sql
}

// RenderSQL'''),('group.go','''	if conditionsGroup.withBrackets { // if render with brackets''','''	if conditionsGroup.withBrackets && len(conditionsGroup.conditions) > 1 { // single condition needs no brackets''')],
 D('''	either := query.NewGroup(query.LogicalOR, query.EqualTo("a", 1), query.EqualTo("b", 2))
	c := query.NewGroup(query.LogicalAND, query.NewGroup(query.LogicalAND, either).WithBrackets(), query.EqualTo("c", 3))
	if got := c.Render(0); got != "(a=$1 OR b=$2) AND c=$3" {
		t.Error(got)
	}'''))

p('c05-repeat-where','C05','two Where calls on one field and operator with different values','a repeated condition is dropped from DELETE by its text, without looking at its value',
 [('delete.go','''	updater.where = updater.where.GroupAND(fieldConditions...)
	return updater
}''','''	for _, added := range fieldConditions {
		if !updater.hasCondition(added) {
			updater.where = updater.where.GroupAND(added)
		}
	}

	return updater
}

// hasCondition returns true if same condition is already set.
func (updater DeleteBuilder) hasCondition(condition Condition) bool {
	for _, existed := range updater.where.conditions {
		if existed.RenderSQL() == condition.RenderSQL() && condition.JoinType() == LogicalAND {
			return true
		}
	}

	return false
}''')],
 D('''	sql, params, err := query.Delete("t").Where(query.EqualTo("a", 1)).Where(query.EqualTo("a", 2)).BuildQueryAndParams()
	if err != nil || len(params) != 2 {
		t.Error(sql, params, err)
	}'''))

p('c06-fields-reuse','C06','calling Fields again with no more fields than the original has','the field list of the original builder is overwritten',
 [('fields.go','''	updated.fieldSpecs = make([]FieldDefinition, len(fieldSpecs)) // reset added fields
	for idx, fieldSpec := range fieldSpecs {
		updated.fieldSpecs[idx] = fieldSpec
	}
''','''	updated.fieldSpecs = append(updated.fieldSpecs[:0], fieldSpecs...) // reset added fields
''')],
 D('''	base := query.SelectFrom("t").Fields(query.Field("a"), query.Field("b"))
	before := base.RenderSQL()
	_ = base.Fields(query.Field("c"))
	if after := base.RenderSQL(); after != before {
		t.Errorf("%s != %s", after, before)
	}'''))

p('c06-count-params','C06','a condition of the user which keeps its Values slice, counted, and a caller changing the params it got','params of COUNT share memory with the condition',
 [('group.go','''	values = make([]interface{}, 0)

	for _, condition := range conditionsGroup.conditions {''','''	if len(conditionsGroup.conditions) == 1 { // nothing to join, no need to copy
		return conditionsGroup.conditions[0].Values()
	}

	values = make([]interface{}, 0)

	for _, condition := range conditionsGroup.conditions {''')],
 D('''	kept := own{Condition: query.EqualTo("a", 1), values: []any{1}}
	counter := query.SelectFrom("t").Where(kept).Count()
	_, params, _ := counter.BuildQueryAndParams()
	params[0] = "changed"
	if _, params, _ = counter.BuildQueryAndParams(); params[0] != 1 {
		t.Error(params)
	}''',extra='''
type own struct {
	query.Condition
	values []any
}

func (o own) Values() []any                            { return o.values }
func (o own) Join(j query.JoinType) query.Condition    { o.Condition = o.Condition.Join(j); return o }
'''))

p('c07-scratch-list','C07','two goroutines rendering field lists at the same time','a package level buffer is shared by every rendering',
 [('fields.go','''// FieldList returns spec list string with their possible aliases to build select query.
func (query Fields) FieldList() string {
	if len(query.fieldSpecs) == 0 {
		return "*"
	}

	fieldSpecs := make([]string, len(query.fieldSpecs))
	for idx, spec := range query.fieldSpecs {
		fieldSpecs[idx] = spec.RenderSpec()
	}

	return strings.Join(fieldSpecs, ", ")
}''','''// fieldListBuffer keeps rendered field specs, reused to reduce allocations.
var fieldListBuffer []string

// FieldList returns spec list string with their possible aliases to build select query.
func (query Fields) FieldList() string {
	if len(query.fieldSpecs) == 0 {
		return "*"
	}

	fieldListBuffer = fieldListBuffer[:0]
	for _, spec := range query.fieldSpecs {
		fieldListBuffer = append(fieldListBuffer, spec.RenderSpec())
	}

	return strings.Join(fieldListBuffer, ", ")
}''')],
 D('''	var wg sync.WaitGroup
	shared := query.SelectFrom("t").Fields(query.Field("a"), query.Field("b"))
	for n := 0; n < 4; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				_ = shared.RenderSQL()
			}
		}()
	}
	wg.Wait()''',['sync']),race=True)

p('c08-null-only','C08','UPDATE whose only conditions take no values (IS NULL)','a complete UPDATE is refused as if it had no conditions',
 [('update.go','case len(updater.where.conditions) == 0:','case len(updater.where.Values()) == 0:')],
 D('''	sql, params, err := query.Update("t").Set(query.FieldName("a").Value(1)).Where(query.IsNull("b")).BuildQueryAndParams()
	if err != nil || sql != "UPDATE t SET a=$1 WHERE b IS NULL" {
		t.Error(sql, params, err)
	}'''))

p('c09-many-delete','C09','a SelectMany with conditions joined by OR converted into DELETE','members of the source WHERE are joined by AND in DELETE',
 [('select_many.go','	return Delete(query.BaseSelectBuilder.TableName()).Where(query.where.Conditions()...)','	return Delete(query.BaseSelectBuilder.TableName()).Where(NewGroup(LogicalAND, query.where.Conditions()...))')],
 D('''	selector := query.SelectManyFrom("t").Where(query.EqualTo("a", 1), query.Or(query.EqualTo("b", 2)))
	sql, _, err := selector.Delete().BuildQueryAndParams()
	if err != nil || !strings.HasSuffix(sql, "a=$1 OR b=$2") {
		t.Error(sql, err)
	}''',['strings']))

p('c10-count-joins','C10','COUNT over joined tables without conditions','joins are omitted from COUNT when there is nothing to filter',
 [('count.go','''		query.baseBuilder.RenderFrom(),
	)

	if''','''	)

	if len(query.baseBuilder.where.Conditions()) > 0 {
		tokens = append(tokens, query.baseBuilder.RenderFrom())
	} else { // joined tables are required by conditions only
		tokens = append(tokens, query.baseBuilder.baseTable.RenderFrom())
	}

	if''')],
 D('''	sql, _, _ := query.SelectFrom("t").InnerJoin(query.Table("u")).On(query.Field("t.a"), query.Field("u.b")).Count().BuildQueryAndParams()
	if sql != "SELECT COUNT(*) FROM t INNER JOIN u ON t.a=u.b" {
		t.Error(sql)
	}'''))

p('c11-insert-alias','C11','inserting a value whose field definition got a table or an alias','INSERT names columns qualified',
 [('insert.go','columns = append(columns, fieldValue.fieldName)','columns = append(columns, fieldValue.RenderField())')],
 D('''	value := query.Field("a").Of("t").Value(1)
	sql, _, _ := query.InsertInto("t").Values(value).BuildQueryAndParams()
	if sql != "INSERT INTO t(a) VALUES ($1)" {
		t.Error(sql)
	}'''))

p('c12-swapped-on','C12','an ON clause naming the field of the joined table first','the operands of ON are swapped',
 [('join_tables.go','''	tableJoiner.joinCondition = JoinFields(leftTableField, rightTableField)''','''	if string(leftTableField.TableName()) == tableJoiner.rightTable.aliasOrName() { // joined table is always on the right
		leftTableField, rightTableField = rightTableField, leftTableField
	}
	tableJoiner.joinCondition = JoinFields(leftTableField, rightTableField)''')],
 D('''	got := query.SelectFrom("t").LeftJoin(query.Table("t as p")).On(query.Field("p.id"), query.Field("t.parent")).RenderFrom()
	if got != "t LEFT JOIN t AS p ON p.id=t.parent" {
		t.Error(got)
	}'''))

p('c13-blanks','C13','a field specification having a line break or another rare blank between its parts','documented form is rejected or taken as one name',
 [('field_definition.go','tokens := strings.Fields(strName)',"tokens := strings.FieldsFunc(strName, func(char rune) bool { return char == ' ' || char == '\\t' })")],
 D('''	field, err := query.FieldOrError("a\\nAS b")
	if err != nil || field.Alias() != "b" {
		t.Error(field, err)
	}'''))

p('c14-alias-case','C14','an alias different from the table name in letter case only','the alias is dropped by As',
 [('table_ident.go','if string(alias) == updated.name {','if strings.EqualFold(string(alias), updated.name) {')],
 D('''	if got := query.Table("users").As("USERS").RenderFrom(); got != "users AS USERS" {
		t.Error(got)
	}'''))

p('c15-inner-quote','C15','a field name having a quote neither at the start nor at the end','quotes inside of a field name are accepted',
 [('''field_name.go''','''	case strings.Contains(fnStr, "'"):''','''	case strings.Trim(fnStr, "'") != fnStr:''')],
 D('''	if err := query.FieldName("a'b").Validate(); err == nil {
		t.Error("accepted")
	}'''))

p('c16-as-then-of','C16','setting an alias equal to the field name before setting a table','the alias is lost',
 [('field_definition.go','''	fieldIdent.alias = string(alias)
''','''	if fieldIdent.alias = string(alias); fieldIdent.alias == fieldIdent.fieldName && len(fieldIdent.tableName) == 0 {
		fieldIdent.alias = "" // same name is not rendered without table
	}

''')],
 D('''	if got := query.Field("a").As("a").Of("t").RenderSpec(); got != "t.a AS a" {
		t.Error(got)
	}'''))

p('c17-ilike-percent','C17','an IContains text having a percent character','the bound text is not the given one',
 [('lib_ilike.go','''	return []interface{}{"%" + (impl.value).(string) + "%"}''','''	return []interface{}{"%" + strings.Trim((impl.value).(string), "%") + "%"}''')],
 D('''	if got := query.IContains("a", "50%").Values(); got[0] != "%50%%" {
		t.Error(got)
	}'''))

p('c18-first-match','C18','two conditions on one field in one group','the spec is applied to the first of them only',
 [('group.go','''		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
''','''		matched := conditionsGroup.conditions[idx].FieldName() == spec.FieldName()
		if conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec); matched {
			break // the field is found
		}
''')],
 D('''	c := query.And(query.GreaterThan("a", 1), query.Less("a", 5)).ApplyFieldSpec(query.Field("t.a"))
	if got := c.Render(0); got != "t.a>$1 AND t.a<$2" {
		t.Error(got)
	}'''))

p('c19-case','C19','two names different in letter case only','the second one is lost',
 [('utils.go','if answer[j] == str {','if strings.EqualFold(string(answer[j]), string(str)) {'),('utils.go','package query\n','package query\n\nimport (\n\t"strings"\n)\n')],
 D('''	if got := query.UniqFieldNames([]query.FieldName{"id", "ID"}); len(got) != 2 {
		t.Error(got)
	}'''))

p('c20-nil-entry','C20','a map entry with nil value','the entry is lost and an empty field value is returned instead',
 [('values_map.go','''		res[idx] = *NewFieldValue(fieldName, v)
''','''		if v == nil {
			continue
		}
		res[idx] = *NewFieldValue(fieldName, v)
''')],
 D('''	values, err := query.ValuesMap{"a": nil}.FieldValues()
	if err != nil || len(values) != 1 || values[0].FieldName() != "a" {
		t.Error(values, err)
	}'''))

p('c21-limit-reset','C21','disabling a limit set before with Limit(-1)','the earlier limit stays',
 [('select_many.go','''	query.limit = limit
''','''	if limit != noLimit {
		query.limit = limit
	}

''')],
 D('''	sql, _, _ := query.SelectManyFrom("t").Limit(5).Limit(-1).BuildQueryAndParams()
	if sql != "SELECT * FROM t" {
		t.Error(sql)
	}'''))

p('c22-negative','C22','a negative join kind','the number printed is not the one given',
 [('join_type.go','strconv.Itoa(int(join))','strconv.FormatUint(uint64(join), 10)')],
 D('''	if got := query.TableJoinType(-1).String(); got != "unknown JOIN(-1)" {
		t.Error(got)
	}'''))

p('c23-counting-text','C23','a condition of the user using one value at two places of its text','numbering counts placeholders in the text instead of values',
 [('group.go','''		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
		parametersCount += len(condition.Values())
''','''		rendered := conditionsGroup.enclosed(condition).Render(parametersCount)
		sql += rendered
		parametersCount += strings.Count(rendered, "$")
'''),('group.go','	"slices"\n','	"slices"\n	"strings"\n')],
 D('''	sql := query.And(twice{query.EqualTo("a", 1)}, query.EqualTo("c", 2)).Render(0)
	if sql != "(a=$1 OR b=$1) AND c=$2" {
		t.Error(sql)
	}''',['fmt'],extra='''
type twice struct{ query.Condition }

func (o twice) Render(n int) string                   { return fmt.Sprintf("(a=$%d OR b=$%d)", n+1, n+1) }
func (o twice) Join(j query.JoinType) query.Condition { o.Condition = o.Condition.Join(j); return o }
'''))

p('c24-ident-many','C24','starting SelectMany from a table ident with an alias','the alias is lost',
 [('table_ident.go','	return SelectManyFrom(tableIdent).Where(filterConditions...)','	return SelectManyFrom(tableIdent.TableName()).Where(filterConditions...)')],
 D('''	sql, _, _ := query.Table("users as u").SelectMany().BuildQueryAndParams()
	if sql != "SELECT * FROM users AS u" {
		t.Error(sql)
	}'''))

p('c25-sticky-negate','C25','clearing the negation of a condition negated before','the condition stays negated',
 [('base.go','	condition.negate = newNegateIndicator\n	return condition\n}\n\n// func','	condition.negate = condition.negate || newNegateIndicator\n	return condition\n}\n\n// func')],
 D('''	if query.Not(query.EqualTo("a", 1)).Negate(false).IsNegate() {
		t.Error("negated")
	}'''))
if __name__=='__main__':
    only=sys.argv[1:]
    for a,k in P:
        if only and a[0] not in only: continue
        try: create(*a,**k)
        except Exception as e: print(a[0],'ERROR',e); continue
        print(a[0],verify(a[0]),flush=True)
