from plants1 import D
P=[]
def p(*a,**k): P.append((a,k))
p('c25-equal-nil','C25','a comparison with nil, negated','the negation of a comparison with nil is lost',
 [('lib_equal.go','''	if impl.IsNegate() {
		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
''','''	if impl.IsNegate() && impl.value != nil {
		tokens = []string{impl.RenderNegate() + " ", impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
''')],
 D('''	if s := query.Not(query.EqualTo("a", nil)).Render(0); s != "NOT a=$1" {
		t.Error(s)
	}'''))
p('c17-like-trim','C17','a text to look for that starts or ends with a blank','Contains drops blanks around the text',
 [('lib_like.go','''	return []interface{}{"%" + (impl.value).(string) + "%"}
''','''	return []interface{}{"%" + strings.TrimSpace((impl.value).(string)) + "%"}
''')],
 D('''	if v := query.Contains("a", " x").Values(); v[0] != "% x%" {
		t.Error(v)
	}'''))
p('c17-nil-skip','C17','an IN list of Valuers one of which is nil','nil elements of a list are left out, the placeholders follow',
 [('value.go','''		result = make([]any, len(typedValue))

		for idx, value := range typedValue {
			result[idx] = value.DatabaseValue()
		}
''','''		result = make([]any, 0, len(typedValue))

		for _, value := range typedValue {
			if dbValue := value.DatabaseValue(); dbValue != nil {
				result = append(result, dbValue)
			}
		}
''')],
 D('''	v := query.In("a", []query.ValueProvider{none{}, none{}}).Values()
	if len(v) != 2 {
		t.Error(v)
	}''')+'''

type none struct{}

func (none) DatabaseValue() any { return nil }
''')
p('c15-minus','C15','a field name that starts with a minus sign','ordering by such a name sorts downwards by another field',
 [('ordering.go','''	case len(direction) == 0:
		return ASC(fieldName)
''','''	case len(direction) == 0 && len(fieldName) > 1 && fieldName[0] == '-':
		return DESC(fieldName[1:])
	case len(direction) == 0:
		return ASC(fieldName)
''')],
 D('''	if s := query.OrderBy("-a").Render(); s != "-a ASC" {
		t.Error(s)
	}'''))
p('c10-limit-word','C10','a table, field or alias that holds the word LIMIT','a single row selection loses its LIMIT',
 [('select_single.go','''	return sql + " LIMIT 1", params, nil
''','''	if !strings.Contains(sql, "LIMIT") {
		sql += " LIMIT 1"
	}

	return sql, params, nil
'''),('select_single.go','''import (
	"slices"
''','''import (
	"slices"
	"strings"
''')],
 D('''	s, _, _ := query.SelectSingleFrom("LIMITS").BuildQueryAndParams()
	if s != "SELECT * FROM LIMITS LIMIT 1" {
		t.Error(s)
	}'''))
p('c10-count-qualified','C10','COUNT over a field with a table, no joins','the table of the counted field is left out when there are no joins',
 [('count.go','''		kwCount.String()+"("+query.countField.RenderField()+")",
''','''		kwCount.String()+"("+query.counted()+")",
'''),('count.go','''func Count(query''','''// counted renders a field to count.
func (query CountBuilder) counted() string {
	if len(query.baseBuilder.joins) == 0 && query.countField.tableName == string(query.baseBuilder.TableName()) {
		return query.countField.fieldName
	}

	return query.countField.RenderField()
}

func Count(query''')],
 D('''	s, _, _ := query.Count(query.SelectFrom("t"), "t.a").BuildQueryAndParams()
	if s != "SELECT COUNT(t.a) FROM t" {
		t.Error(s)
	}'''))
p('c11-set-alias','C11','setting a field whose specification has an alias','UPDATE names the alias instead of the column',
 [('update.go','''		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
''','''		column := fieldValue.fieldName
		if len(fieldValue.alias) > 0 {
			column = fieldValue.RenderField()
		}
		kwPairs[idx] = column + "=$" + strconv.Itoa(idx+1)
''')],
 D('''	s, _, _ := query.Update("t").Set(*query.NewFieldValue("a AS b", 1)).Where(query.IsNull("c")).BuildQueryAndParams()
	if s != "UPDATE t SET a=$1 WHERE c IS NULL" {
		t.Error(s)
	}'''))
p('c18-twice','C18','applying a specification to a member that already has an alias','only members still rendered by their own name are matched',
 [('value.go','''	if fieldValue.FieldDefinition.fieldName == spec.fieldName {
''','''	if fieldValue.FieldDefinition.fieldName == spec.fieldName && len(fieldValue.FieldDefinition.alias) == 0 {
''')],
 D('''	c := query.EqualTo("a", 1).ApplyFieldSpec(query.Field("a AS b")).ApplyFieldSpec(query.Field("a AS c"))
	if s := c.Render(0); s != "c=$1" {
		t.Error(s)
	}'''))
p('c19-qualified','C19','a qualified and a plain name of the same field','a name with a table is taken for its plain twin',
 [('utils.go','''			if answer[j] == str {
''','''			if answer[j] == str || Field(answer[j]) == Field(str).Of(Field(answer[j]).TableName()) {
''')],
 D('''	if r := query.UniqFieldNames([]query.FieldName{"t.a", "a"}); len(r) != 2 {
		t.Error(r)
	}'''))
p('c13-semicolon','C13','a specification that ends with a semicolon','a trailing semicolon is silently cut',
 [('field_definition.go','''	tokens := strings.Fields(strName)
''','''	tokens := strings.Fields(strings.TrimRight(strName, ";"))
''')],
 D('''	if f, err := query.FieldOrError("a AS b;"); err == nil && f.Alias() != "b;" {
		t.Error(f)
	}'''))
p('c14-comma','C14','a table specification that ends with a comma','a trailing comma is silently cut',
 [('table_ident.go','''	tokens = strings.Fields(strTableName)
''','''	tokens = strings.Fields(strings.TrimSuffix(strTableName, ","))
''')],
 D('''	if f, err := query.TableOrError("a b,"); err == nil && f.Alias() != "b," {
		t.Error(f)
	}'''))
p('c20-unwrap','C20','an entry whose value is a field value itself','the entry carries the inner value',
 [('values_map.go','''		res[idx] = *NewFieldValue(fieldName, v)
''','''		if inner, ok := v.(FieldValue); ok {
			v = inner.value
		}
		res[idx] = *NewFieldValue(fieldName, v)
''')],
 D('''	in := *query.NewFieldValue("x", 1)
	r, err := query.ValuesMap{"a": in}.FieldValues()
	if err != nil || len(r) != 1 {
		t.Fatal(r, err)
	}
	if _, params, _ := query.InsertInto("t").Values(r...).BuildQueryAndParams(); params[0] == 1 {
		t.Error(params)
	}'''))
p('c09-schema-target','C09','a table name with a schema','the schema is lost when a selection turns into an update',
 [('select_many.go','''	return Update(query.BaseSelectBuilder.TableName()).Where(''','''	target := query.BaseSelectBuilder.TableName()
	for idx := range target {
		if target[idx] == '.' && len(query.order) > 0 {
			target = target[idx+1:]
			break
		}
	}

	return Update(target).Where(''')],
 D('''	s, _, _ := query.SelectManyFrom("s.t").OrderBy(query.ASC("a")).Where(query.IsNull("a")).Update(query.FieldName("b").Value(1)).BuildQueryAndParams()
	if s != "UPDATE s.t SET b=$1 WHERE a IS NULL" {
		t.Error(s)
	}'''))
p('c12-tables-alias','C12','a join of two tables started with an aliased left table with the same name as the right one','the left table loses its alias in a self join',
 [('join_type.go','''	return leftTable.Select().joinIdent(rightTable, join)
''','''	if leftTable.name == rightTable.name {
		leftTable = Table(leftTable.TableName())
	}

	return leftTable.Select().joinIdent(rightTable, join)
''')],
 D('''	b := query.LeftJoin.Tables(query.Table("t a"), query.Table("t b")).On(query.Field("a.x"), query.Field("b.y"))
	s, _, _ := b.BuildQueryAndParams()
	if s != "SELECT * FROM t AS a LEFT JOIN t AS b ON a.x=b.y" {
		t.Error(s)
	}'''))
p('c08-where-nil','C08','an UPDATE whose only condition is an empty IN list','the statement is refused although it has a condition',
 [('update.go','''	case len(updater.where.conditions) == 0:
''','''	case len(updater.where.conditions) == 0 || len(updater.where.conditions) > 1 && len(updater.where.Values()) == 0:
''')],
 D('''	_, _, err := query.Update("t").Set(query.FieldName("b").Value(1)).Where(query.IsNull("a"), query.IsNull("c")).BuildQueryAndParams()
	if err != nil {
		t.Error(err)
	}'''))
p('c05-or-list','C05','three Where calls the second of which starts with OR','the conditions of a later call widen the selection',
 [('group.go','''	op := anotherGroup.joinType

''','''	op := anotherGroup.joinType
	if len(conditionsGroup.conditions) > 2 && len(anotherGroup.conditions) > 0 && havingOnlyAND {
		op = anotherGroup.conditions[0].JoinType()
	}

''')],
 D('''	b := query.SelectFrom("t").Where(query.IsNull("a"), query.IsNull("b"), query.IsNull("c"))
	s, _, _ := b.Where(query.Or(query.IsNull("d")), query.Or(query.IsNull("e"))).BuildQueryAndParams()
	if !strings.Contains(s, "AND (") {
		t.Error(s)
	}''',('strings',)))
p('c21-uint','C21','a limit beyond 32 bits','such a limit is taken for none',
 [('limiter.go','''	if query.limit > 0 {
		if len(sql) > 0 {
			sql += " "
		}
		paramNum++
''','''	if int32(query.limit) > 0 {
		if len(sql) > 0 {
			sql += " "
		}
		paramNum++
''')],
 D('''	if s := (query.Limiter{}).Limit(1 << 33).Render(0); s != "LIMIT $1" {
		t.Error(s)
	}'''))
p('c23-same-text','C23','two user conditions that render the same text one after another','the repeated condition is left out',
 [('group.go','''		sql += conditionsGroup.enclosed(condition).RenderSQL()
	}
''','''		text := conditionsGroup.enclosed(condition).RenderSQL()
		if idx > 0 && len(condition.Values()) == 0 && condition.JoinType() == LogicalAND && strings.HasSuffix(sql, text+" "+joinToken+" ") {
			sql = strings.TrimSuffix(sql, " "+joinToken+" ")
			continue
		}
		sql += text
	}
'''),('group.go','''import (
	"slices"
''','''import (
	"slices"
	"strings"
''')],
 D('''	g := query.NewGroup(query.LogicalAND, query.IsNull("b"), query.EqualTo("x", 1), query.IsNull("a"), query.IsNull("a"))
	if s := g.RenderSQL(); strings.Count(s, "a IS NULL") != 2 {
		t.Error(s)
	}''',('strings',)))
p('c16-of-empty','C16','a field taken out of its table again','Of with an empty name keeps the table',
 [('field_definition.go','''	fieldIdent.tableName = string(tableName)
''','''	if len(tableName) > 0 || len(fieldIdent.alias) == 0 {
		fieldIdent.tableName = string(tableName)
	}
''')],
 D('''	if s := query.Field("t.a AS b").Of("").RenderSpec(); s != "a AS b" {
		t.Error(s)
	}'''))
p('c24-value-table','C24','a value made from a field of a table','the value forgets the table of its field when it has an alias',
 [('field_definition.go','''	return NewFieldValue(fieldIdent.FieldName(), value).ApplyFieldTable(fieldIdent.TableName())
''','''	if len(fieldIdent.alias) > 0 {
		return *NewFieldValue(fieldIdent.Alias(), value)
	}

	return NewFieldValue(fieldIdent.FieldName(), value).ApplyFieldTable(fieldIdent.TableName())
''')],
 D('''	s, _, _ := query.InsertInto("t").Values(query.Field("t.a AS b").Value(1)).BuildQueryAndParams()
	if s != "INSERT INTO t(a) VALUES ($1)" {
		t.Error(s)
	}'''))
if __name__=='__main__':
    import sys, plantlib, os
    if os.environ.get('SEEDS'): plantlib.ROOT=os.environ['SEEDS']
    want=sys.argv[1:]
    for a,k in P:
        if want and a[0] not in want: continue
        try: plantlib.create(*a,**k); print(a[0],plantlib.verify(a[0]),flush=True)
        except Exception as e: print(a[0],'ERR',e,flush=True)
