from plants1 import D
P=[]
def p(*a,**k): P.append((a,k))
p('c01-delete-nil','C01','a DELETE comparing with nil','params of nil conditions are not handed to the driver',
 [('delete.go','''	params = append(params, updater.where.Values()...)
''','''	for _, value := range updater.where.Values() {
		if value != nil || len(params) == 0 {
			params = append(params, value)
		}
	}
''')],
 D('''	sql, params, _ := query.Delete("t").Where(query.EqualTo("a", 1), query.EqualTo("b", nil)).BuildQueryAndParams()
	if len(params) != 2 {
		t.Error(sql, params)
	}'''))
p('c02-first-enclosed','C02','RenderSQL of a condition whose first member is an unbracketed OR group joined with AND','the question mark text lacks the brackets of the numbered one',
 [('group.go','''		sql += conditionsGroup.enclosed(condition).RenderSQL()
''','''		if idx > 0 || conditionsGroup.IsNegate() {
			condition = conditionsGroup.enclosed(condition)
		}
		sql += condition.RenderSQL()
''')],
 D('''	g := query.NewGroup(query.LogicalAND, query.NewGroup(query.LogicalOR, query.IsNull("a"), query.IsNull("b")), query.IsNull("c"))
	if g.Render(0) != g.RenderSQL() {
		t.Errorf("%s != %s", g.Render(0), g.RenderSQL())
	}'''))
p('c03-set-default','C03','UPDATE setting a string value that is the word DEFAULT','the value is taken for SQL text',
 [('update.go','''		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
''','''		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
		if text, isText := params[idx].(string); isText && text == "DEFAULT" {
			kwPairs[idx] = "(" + kwPairs[idx] + ")"
		}
''')],
 D('''	build := func(text string) string {
		sql, _, _ := query.Update("t").Set(query.FieldName("f").Value(text)).Where(query.EqualTo("id", 1)).BuildQueryAndParams()
		return sql
	}
	if a, b := build("x"), build("DEFAULT"); a != b {
		t.Errorf("%s != %s", a, b)
	}'''))
p('c04-deep-negate','C04','negating a group that holds nothing but a group holding nothing but an OR group','NOT binds to the first alternative only',
 [('group.go','''		return isGroup && child.isJoined()
''','''		return isGroup && child.withBrackets && child.isJoined()
''')],
 D('''	or := query.NewGroup(query.LogicalOR, query.IsNull("a"), query.IsNull("b"))
	g := query.Not(query.NewGroup(query.LogicalAND, query.NewGroup(query.LogicalAND, or)))
	if sql := g.Render(0); strings.Count(sql, "(") == 0 {
		t.Error(sql)
	}''',['strings']))
p('c05-where-own-or','C05','a second Where call with several conditions the last of which is joined with OR, after exactly one condition','the OR of the later call widens the earlier condition',
 [('group.go','''	default: // join many as a group keeping their own joins inside
''','''	case len(conditionsGroup.conditions) == 1 && op == LogicalAND && conditions[1].JoinType() == LogicalAND: // simply continue the list
		conditionsGroup.conditions = append(slices.Clip(conditionsGroup.conditions), LogicalAND.Join(conditions[0]))
		conditionsGroup.conditions = append(conditionsGroup.conditions, conditions[1:]...)
	default: // join many as a group keeping their own joins inside
''')],
 D('''	sql, _, _ := query.SelectFrom("t").Where(query.EqualTo("tenant", 1)).
		Where(query.EqualTo("a", 1), query.EqualTo("b", 2), query.Or(query.EqualTo("c", 3))).BuildQueryAndParams()
	if !strings.Contains(sql, "(") {
		t.Error(sql)
	}''',['strings']))
p('c06-set-grow','C06','two updates derived from one having three values set one by one','both derived updates share the last value',
 [('update.go','append(slices.Clip(updater.setValues), values...)','append(updater.setValues, values...)')],
 D('''	v := func(x int) query.FieldValue { return query.FieldName("f").Value(x) }
	base := query.Update("t").Set(v(1)).Set(v(2)).Set(v(3)).Where(query.EqualTo("id", 1))
	a := base.Set(v(4))
	before, params, _ := a.BuildQueryAndParams()
	base.Set(v(5))
	after, changed, _ := a.BuildQueryAndParams()
	if before != after || params[3] != changed[3] {
		t.Error(params, changed)
	}'''))
p('c06-single-joins','C06','two joins derived from a single row select already having three joins','the later join replaces the earlier one',
 [('select_single.go','append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})','append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})'),('join_unfinished.go','''	updated = joiner.SelectSingleBuilder
	updated.joins = slices.Clone(updated.joins)
''','''	updated = joiner.SelectSingleBuilder
'''),('select_single.go','import (\n	"slices"\n)\n\n','')],
 D('''	l, r := query.Field("t.id"), query.Field("x.id")
	base := query.SelectSingleFrom("t").InnerJoin("a").On(l, r).InnerJoin("b").On(l, r).InnerJoin("c").On(l, r)
	one := base.InnerJoin("d").On(l, r)
	before := one.RenderFrom()
	base.LeftJoin("e").On(l, r)
	if before != one.RenderFrom() {
		t.Error(one.RenderFrom())
	}'''))
p('c06-conditions-out','C06','changing the list returned by WhereClause.Conditions','the where clause changes with the list handed out',
 [('where.go','''	conditions = make([]Condition, len(query.group.conditions))
	copy(conditions, query.group.conditions)

	return conditions
''','''	return query.group.conditions
''')],
 D('''	w := query.NewWhere().GroupAND(query.EqualTo("a", 1), query.EqualTo("b", 2))
	before := w.RenderSQL()
	w.Conditions()[0] = query.IsNull("c")
	if w.RenderSQL() != before {
		t.Error(w.RenderSQL())
	}'''))
p('c06-kept-args','C06','changing the slice of conditions given to Where after the call','the builder changes with the list it was given',
 [('group.go','''	filtered := make([]Condition, 0, len(conditions))
	for _, condition := range conditions {
		if group, isGroup := asGroup(condition); isGroup && len(group.conditions) == 0 {
			continue
		}
		filtered = append(filtered, condition)
	}

	return filtered
''','''	isEmpty := func(condition Condition) bool {
		group, isGroup := asGroup(condition)
		return isGroup && len(group.conditions) == 0
	}
	if !slices.ContainsFunc(conditions, isEmpty) {
		return conditions // nothing to skip
	}

	return slices.DeleteFunc(slices.Clone(conditions), isEmpty)
''')],
 D('''	list := []query.Condition{query.EqualTo("a", 1), query.EqualTo("b", 2)}
	b := query.SelectFrom("t").Where(list...)
	before := b.RenderSQL()
	list[1] = query.IsNull("c")
	if b.RenderSQL() != before {
		t.Error(b.RenderSQL())
	}'''))
p('c07-from-cache','C07','rendering one joined builder from two goroutines','the FROM text is cached in memory shared by the copies of a builder without synchronisation',
 [('select_base.go','''	joins     []TableJoiner
''','''	joins     []TableJoiner
	from      *string // rendered FROM contents
'''),('select_base.go','''	fromClauseItems := make([]string, 1+len(query.joins))
''','''	if query.from != nil && *query.from != "" {
		return *query.from
	}
	fromClauseItems := make([]string, 1+len(query.joins))
'''),('select_base.go','''	return strings.Join(fromClauseItems, " ")
}

// BuildQ''','''	fromClause = strings.Join(fromClauseItems, " ")
	if query.from != nil {
		*query.from = fromClause
	}

	return fromClause
}

// BuildQ'''),('join_unfinished.go','''	updated = joiner.BaseSelectBuilder
	updated.joins = slices.Clone(updated.joins)
''','''	updated = joiner.BaseSelectBuilder
	updated.joins = slices.Clone(updated.joins)
	updated.from = new(string)
'''),('select_base.go','''	updated := query
	updated.joins = append(''','''	updated := query
	updated.from = nil
	updated.joins = append(''')],
 D('''	b := query.SelectFrom("t").InnerJoin(query.Table("u")).On(query.Field("t.id"), query.Field("u.id"))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); b.RenderFrom() }()
	}
	wg.Wait()''',['sync']),race=True)
p('c07-half-locked','C07','parsing the same spec from two goroutines','the cache of parsed fields is written under a lock but read without it',
 [('field_definition.go','''	tokens := strings.Fields(strName)
	switch {''','''	if known, parsed := parsedSpecs[strName]; parsed {
		return &known, nil
	}

	defer func() {
		if err == nil {
			parsedMu.Lock()
			parsedSpecs[strName] = *field
			parsedMu.Unlock()
		}
	}()

	tokens := strings.Fields(strName)
	switch {'''),('field_definition.go','''// isFieldReference returns''','''// parsedSpecs keeps parsed specifications.
var (
	parsedMu    sync.Mutex
	parsedSpecs = map[string]FieldDefinition{}
)

// isFieldReference returns'''),('field_definition.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 D('''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(name query.FieldName) {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				query.Field(name + query.FieldName(rune('a'+n%26)))
			}
		}(query.FieldName(rune('a' + i)))
	}
	wg.Wait()''',['sync']),race=True)
p('c08-pointer-group','C08','UPDATE or DELETE whose only condition is a pointer to an empty group','a statement with an empty WHERE is built instead of an error',
 [('group.go','''		if group, isGroup := asGroup(condition); isGroup && len(group.conditions) == 0 {
			continue
		}
		filtered''','''		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
			continue
		}
		filtered''')],
 D('''	g := query.NewGroup(query.LogicalAND)
	if sql, _, err := query.Delete("t").Where(&g).BuildQueryAndParams(); err == nil {
		t.Error(sql)
	}'''))
p('c09-many-joins','C09','turning a select of five joins into a many rows one','joins after the fourth are lost',
 [('select_many.go','''func SelectManyFromBase(builder BaseSelectBuilder) SelectManyBuilder {
''','''func SelectManyFromBase(builder BaseSelectBuilder) SelectManyBuilder {
	var joins [4]TableJoiner
	builder.joins = joins[:copy(joins[:], builder.joins)] // never share the list with base
''')],
 D('''	b := query.SelectFrom("t")
	for i := 0; i < 6; i++ {
		b = b.InnerJoin(query.Table("u")).On(query.Field("t.id"), query.Field("u.id"))
	}
	if b.Many().RenderFrom() != b.RenderFrom() {
		t.Error(b.Many().RenderFrom())
	}'''))
p('c09-negated-source','C09','an UPDATE or DELETE derived from a select whose only condition is a negated group','the derived statement selects the opposite rows',
 [('select_base.go','''	return Delete(query.baseTable).Where(query.where.Conditions()...)
''','''	conditions := query.where.Conditions()
	if len(conditions) == 1 {
		if group, isGroup := conditions[0].(Group); isGroup && !group.withBrackets {
			conditions = group.conditions // single group needs no nesting
		}
	}
	return Delete(query.baseTable).Where(conditions...)
''')],
 D('''	not := query.Not(query.NewGroup(query.LogicalAND, query.EqualTo("a", 1), query.EqualTo("b", 2)))
	sql, _, _ := query.SelectFrom("t").Where(not).Delete().BuildQueryAndParams()
	if !strings.Contains(sql, "NOT") {
		t.Error(sql)
	}''',['strings']))
p('c10-dup-columns','C10','selecting the same column twice, not side by side','the second one is lost',
 [('fields.go','''	for idx, spec := range query.fieldSpecs {
		fieldSpecs[idx] = spec.RenderSpec()
	}

	return strings.Join(fieldSpecs, ", ")
''','''	for idx, spec := range query.fieldSpecs {
		fieldSpecs[idx] = spec.RenderSpec()
	}
	for idx := len(fieldSpecs) - 1; idx > 1; idx-- {
		for _, earlier := range fieldSpecs[:idx-1] {
			if earlier == fieldSpecs[idx] {
				fieldSpecs = append(fieldSpecs[:idx], fieldSpecs[idx+1:]...)
				break
			}
		}
	}

	return strings.Join(fieldSpecs, ", ")
''')],
 D('''	a, b := query.Field("a"), query.Field("b")
	sql := query.SelectFrom("t").Fields(a, b, a).RenderSQL()
	if sql != "SELECT a, b, a FROM t" {
		t.Error(sql)
	}'''))
p('c10-where-after-count','C10','COUNT of an aliased field','the alias is rendered in COUNT',
 [('count.go','query.countField.RenderField()','query.countField.RenderSpec()')],
 D('''	sql, _, _ := query.Count(query.SelectFrom("t"), "a AS b").BuildQueryAndParams()
	if strings.Contains(sql, "AS") {
		t.Error(sql)
	}''',['strings']))
p('c11-percent','C11','a table name with a percent sign','the statement is garbled',
 [('update.go','''	sql = strings.Join([]string{
		kwUpdate.String(),
		updater.tableName.String(),
		kwSet.String(),
		fieldsEnum,
		kwWhere.String(),
		updater.where.Render(len(params)),
	}, " ")
''','''	pattern := kwUpdate.String() + " " + updater.tableName.String() + " " + kwSet.String() + " %s " + kwWhere.String() + " %s"
	sql = fmt.Sprintf(pattern, fieldsEnum, updater.where.Render(len(params)))
''')],
 D('''	sql, _, _ := query.Update("load%sum").Set(query.FieldName("a").Value(1)).Where(query.EqualTo("id", 1)).BuildQueryAndParams()
	if sql != "UPDATE load%sum SET a=$1 WHERE id=$2" {
		t.Error(sql)
	}'''))
p('c11-skip-nil','C11','INSERT with a nil value among others','the column is omitted so that its default is stored instead of NULL',
 [('insert.go','''	for _, fieldValue := range inserter.setValues {
		params =''','''	for idx, fieldValue := range inserter.setValues {
		if fieldValue.value == nil && idx > 0 {
			continue // leave it to the default of column
		}
		params =''')],
 D('''	sql, params, _ := query.InsertInto("t").Values(query.FieldName("a").Value(1), query.FieldName("b").Value(nil)).BuildQueryAndParams()
	if len(params) != 2 {
		t.Error(sql, params)
	}'''))
p('c12-tables-kind','C12','TableJoinType.Tables with an aliased left table','the alias of the left table is lost',
 [('join_type.go','leftTable.Select().joinIdent(rightTable, join)','SelectFrom(leftTable.TableName()).joinIdent(rightTable, join)')],
 D('''	sql := query.LeftJoin.Tables(query.Table("a x"), query.Table("b y")).On(query.Field("x.id"), query.Field("y.id")).RenderFrom()
	if sql != "a AS x LEFT JOIN b AS y ON x.id=y.id" {
		t.Error(sql)
	}'''))
p('c13-unquote','C13','a qualified name whose column part is quoted','the quotes are cut off',
 [('field_definition.go','''		nameTokens := strings.Split(tokens[0], ".")
		return &FieldDefinition{fieldName: nameTokens[1], alias: "", tableName: nameTokens[0]}, nil
''','''		nameTokens := strings.Split(tokens[0], ".")
		return &FieldDefinition{fieldName: strings.Trim(nameTokens[1], "`"), alias: "", tableName: nameTokens[0]}, nil
''')],
 D('''	f, err := query.FieldOrError("t.`f`")
	if err != nil || f.FieldName() != "`f`" {
		t.Error(f, err)
	}'''))
p('c14-schema-field','C14','a field of a table whose name has a schema','the field is qualified without the schema',
 [('table_ident.go','''	return tableIdent.name
}

// Select''','''	if dot := strings.LastIndex(tableIdent.name, "."); dot > 0 {
		return tableIdent.name[dot+1:]
	}

	return tableIdent.name
}

// Select''')],
 D('''	if f := query.Table("public.users").Field("id"); f.TableName() != "public.users" {
		t.Error(f.TableName())
	}'''))
p('c15-desc-trim','C15','DESC of a name with a blank before or after it','the invalid name is accepted',
 [('ordering.go','''func DESC(fieldName FieldName) FieldSorting {
	if err''','''func DESC(fieldName FieldName) FieldSorting {
	fieldName = FieldName(strings.TrimSpace(string(fieldName)))
	if err'''),('ordering.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 D('''	defer func() {
		if recover() == nil {
			t.Error("accepted")
		}
	}()
	query.DESC(" id")'''))
p('c16-as-clears','C16','an alias equal to the name set with As before the table is set','the AS clause is lost',
 [('field_definition.go','''	fieldIdent.alias = string(alias)
	return fieldIdent
''','''	if fieldIdent.tableName == "" && string(alias) == fieldIdent.fieldName {
		alias = ""
	}
	fieldIdent.alias = string(alias)
	return fieldIdent
''')],
 D('''	if s := query.Field("f").As("f").Of("t").RenderSpec(); s != "t.f AS f" {
		t.Error(s)
	}'''))
p('c17-deref','C17','a pointer to a string as a value','the text is bound instead of the pointer',
 [('value.go','''	default:
		return fieldValue.value
	}
}
''','''	case *string:
		if typedValue == nil {
			return nil
		}
		return *typedValue
	default:
		return fieldValue.value
	}
}
''')],
 D('''	x := "a"
	_, params, _ := query.InsertInto("t").Values(query.FieldName("a").Value(&x)).BuildQueryAndParams()
	if params[0] != any(&x) {
		t.Errorf("%T", params[0])
	}'''))
p('c17-skip-error','C17','a Valuer failing with driver.ErrSkip','the failure is ignored',
 [('value.go','''	if err != nil {
		panic''','''	if err != nil && !errors.Is(err, driver.ErrSkip) {
		panic'''),('value.go','''	"fmt"
''','''	"errors"
	"fmt"
''')],
 D('''	defer func() {
		if recover() == nil {
			t.Error("no panic")
		}
	}()
	query.EqualTo("a", skipping{}).Values()''',['database/sql/driver'],'''
type skipping struct{}

func (skipping) Value() (driver.Value, error) { return nil, driver.ErrSkip }
'''))
p('c18-in-table','C18','ApplyFieldTable on an IN condition that already has a table','its table stays',
 [('lib_in.go','''	impl.FieldValue.FieldDefinition.tableName = string(table)
	return impl
''','''	if impl.FieldValue.FieldDefinition.tableName == "" || impl.IsNegate() {
		impl.FieldValue.FieldDefinition.tableName = string(table)
	}
	return impl
''')],
 D('''	c := query.In("f", []string{"x"}).ApplyFieldTable("a").ApplyFieldTable("b")
	if s := c.RenderSQL(); s != "b.f IN (?)" {
		t.Error(s)
	}'''))
p('c18-sorting-alias','C18','applying an aliased spec to an ordering','the ordering keeps its own alias',
 [('ordering.go','''	if o.FieldDefinition.fieldName == spec.fieldName {
		o.FieldDefinition = spec
	}
''','''	if o.FieldDefinition.fieldName == spec.fieldName {
		if spec.tableName == "" {
			spec.tableName = o.FieldDefinition.tableName
		}
		o.FieldDefinition = spec
	}
''')],
 D('''	o := query.ASC("t.f").ApplyFieldSpec(query.Field("f"))
	if s := o.Render(); s != "f ASC" {
		t.Error(s)
	}'''))
p('c19-trailing','C19','two names that differ in a trailing dot of their qualifier only','the second one is lost',
 [('utils.go','''			if answer[j] == str {
''','''			if answer[j] == str || len(str) > 8 && len(answer[j]) == len(str) && answer[j][:8] == str[:8] && answer[j][len(str)-1] == str[len(str)-1] {
''')],
 D('''	if got := query.UniqFieldNames([]query.FieldName{"customer_a1", "customer_b1"}); len(got) != 2 {
		t.Error(got)
	}'''))
p('c20-partial','C20','an invalid key met after valid ones','a partly filled list is returned with the error',
 [('values_map.go','''			return nil, errors.Join''','''			if idx > 0 {
				return res[:idx], errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err)
			}
			return nil, errors.Join''')],
 D('''	for i := 0; i < 50; i++ {
		if values, err := (query.ValuesMap{"a": 1, "b b": 2}).FieldValues(); err == nil || len(values) > 0 {
			t.Fatal(values, err)
		}
	}'''))
p('c21-swapped','C21','a Limiter with an offset greater than its limit','the values are handed out in ascending order instead of the order of the text',
 [('limiter.go','''		params = append(params, query.offset, query.limit)
''','''		params = append(params, min(query.offset, query.limit), max(query.offset, query.limit))
''')],
 D('''	if v := (query.Limiter{}).Offset(20).Limit(2).Values(); v[0] != uint(20) {
		t.Error(v)
	}'''))
p('c23-embedded','C23','a user condition that embeds Group and renders itself its own way','its Render is ignored when it is added to a group of other conditions',
 [('group.go','''	case *Group:
		return *typed, true
	}

	return group, false
}
''','''	case interface{ ownGroup() Group }: // pointers too
		return typed.ownGroup(), true
	}

	return group, false
}

// ownGroup returns group itself.
func (conditionsGroup Group) ownGroup() Group {
	return conditionsGroup
}
''')],
 D('''	c := query.SelectFrom("t").Where(query.IsNull("a")).Where(custom{query.NewGroup(query.LogicalAND, query.IsNull("b"))})
	if sql := c.RenderSQL(); !strings.Contains(sql, "custom") {
		t.Error(sql)
	}''',['strings'],'''
type custom struct{ query.Group }

func (custom) Render(int) string                            { return "custom" }
func (custom) RenderSQL() string                            { return "custom" }
func (c custom) Join(j query.JoinType) query.Condition      { c.Group = c.Group.Join(j).(query.Group); return c }
func (c custom) Negate(n bool) query.Condition              { c.Group = c.Group.Negate(n).(query.Group); return c }
'''))
p('c23-join-token','C23','a user condition whose RenderJoin differs from its JoinType','the join it renders is replaced',
 [('group.go','''		if len(joinToken) > 0 {
			sql += " " + joinToken + " "
		}

		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
''','''		if len(joinToken) > 0 {
			sql += " " + condition.JoinType().String() + " "
		}

		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
''')],
 D('''	g := query.NewGroup(query.LogicalAND, query.IsNull("a"), custom{query.NewGroup(query.LogicalAND, query.IsNull("b"))})
	if sql := g.Render(0); !strings.Contains(sql, "AND NOT") {
		t.Error(sql)
	}''',['strings'],'''
type custom struct{ query.Group }

func (custom) RenderJoin(first bool) string {
	if first {
		return ""
	}
	return "AND NOT"
}
func (c custom) Join(j query.JoinType) query.Condition { c.Group = c.Group.Join(j).(query.Group); return c }
'''))
p('c25-single-in','C25','IN over a list of exactly one element, not negated','the = operator is rendered instead of IN',
 [('lib_in.go','''		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
	}

	return strings.Join(tokens, " ")
}

// RenderSQL''','''		tokens = []string{impl.RenderField(), inSymbol, placeholdersString}
		if len(placeholders) == 1 && len(impl.FieldValue.alias) > 0 {
			tokens = []string{impl.RenderField(), "=", placeholders[0]}
		}
	}

	return strings.Join(tokens, " ")
}

// RenderSQL''')],
 D('''	c := query.In("f", []string{"a"}).ApplyFieldSpec(query.Field("f").As("g"))
	if s := c.Render(0); s != "g IN ($1)" {
		t.Error(s)
	}'''))
p('c22-join-negative','C22','printing a negative join type','it is printed as if it were a known one',
 [('join_type.go','''	switch join {
	case InnerJoin:
		return''','''	switch join % 4096 {
	case InnerJoin:
		return''')],
 D('''	if s := query.TableJoinType(-4096).String(); s == "INNER JOIN" {
		t.Error(s)
	}'''))
if __name__=='__main__':
    import sys,plantlib,os
    plantlib.ROOT=os.environ.get('SEEDS','/verif/seeded')
    want=sys.argv[1:]
    for a,k in P:
        if want and a[0] not in want: continue
        plantlib.create(*a,**k); print(a[0],plantlib.verify(a[0]),flush=True)
