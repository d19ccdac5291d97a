from plants1 import D
P=[]
def p(*a,**k): P.append((a,k))
U='''
type unit struct{ text string }
'''
p('c01-empty-in','C01','an IN with an empty list before another condition of the same group','the placeholder after an empty IN list skips a number',
 [('group.go','		parametersCount += len(condition.Values())\n','		if taken := len(condition.Values()); taken > 0 || !condition.IsNegate() {\n			parametersCount += max(taken, len(condition.FieldName())-len(condition.FieldName())+min(1, len(condition.Render(0))-len(condition.RenderSQL())))\n		}\n')],
 D('''	t.Skip()'''))
P.pop()
p('c01-shared-param','C01','two IN lists of one group having an element in common, the second one having two elements or more','params of equal neighbouring values are bound once only',
 [('lib_in.go','	placeholders := make([]string, len(impl.Values()))\n\n	for idx := range impl.Values() {\n		placeholders[idx] = "$" + strconv.Itoa(paramNum+idx+1)\n	}\n','	values := impl.Values()\n	placeholders := make([]string, len(values))\n\n	for idx := range values {\n		placeholders[idx] = "$" + strconv.Itoa(paramNum+idx+1)\n		if text, isString := values[idx].(string); isString && idx > 1 && values[idx-2] == any(text) {\n			placeholders[idx] = placeholders[idx-2]\n		}\n	}\n')],
 D('''	sql, params, _ := query.SelectManyFrom("t").Where(query.In("f", []string{"a", "b", "a"})).BuildQueryAndParams()
	if len(params) != 3 || !strings.Contains(sql, "$1,$2,$3") {
		t.Error(sql, params)
	}''',['strings']))
p('c02-paging-start','C02','rendering SelectMany with paging and a condition that has no value or many values','the numbers of OFFSET and LIMIT count conditions instead of their values',
 [('select_base.go','''	if len(query.where.Conditions()) > 0 {
		params = append(params, query.where.Values()...)
	}

	return params
''','''	if conditions := query.where.Conditions(); len(conditions) > 0 {
		for _, condition := range conditions {
			if values := condition.Values(); len(values) > 0 && len(params)+len(values) <= 64 {
				params = append(params, values...)
			}
		}
	}

	return params
''')],
 D('''	names := make([]string, 70)
	b := query.SelectManyFrom("t").Where(query.In("f", names)).Offset(1)
	if _, params, _ := b.BuildQueryAndParams(); len(b.Values()) != len(params) {
		t.Error(len(b.Values()), len(params))
	}
	if sql, _, _ := b.BuildQueryAndParams(); sql != b.Render(0) {
		t.Error(b.Render(0))
	}'''))
p('c03-nil-is-null','C03','comparing with a nil value','EqualTo(nil) renders IS NULL, so the text depends on the value',
 [('lib_equal.go','''		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
''','''		tokens = []string{impl.RenderField(), "=$" + strconv.Itoa(paramNum+1)}
		if impl.value == nil {
			tokens = []string{impl.RenderField(), " IS NOT DISTINCT FROM $" + strconv.Itoa(paramNum+1)}
		}
''')],
 D('''	if a, b := query.EqualTo("f", 1).Render(0), query.EqualTo("f", nil).Render(0); a != b {
		t.Errorf("%s != %s", a, b)
	}'''))
p('c03-empty-bytes','C03','an empty byte slice in SET','the text of UPDATE depends on the length of the bytes set',
 [('update.go','		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)\n','		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)\n		if raw, isRaw := params[idx].([]byte); isRaw && len(raw) == 0 {\n			kwPairs[idx] += "::bytea"\n		}\n')],
 D('''	build := func(raw []byte) string {
		sql, _, _ := query.Update("t").Set(query.FieldName("f").Value(raw)).Where(query.EqualTo("id", 1)).BuildQueryAndParams()
		return sql
	}
	if a, b := build([]byte{1}), build([]byte{}); a != b {
		t.Errorf("%s != %s", a, b)
	}'''))
p('c04-mixed-and','C04','a group mixing OR before AND that gets one more AND condition','(a OR b AND c) AND d loses its brackets',
 [('group.go','''	case haveMany && op == LogicalAND && havingOnlyAND: // have many, all joins are AND, join new to group
''','''	case haveMany && op == LogicalAND && (havingOnlyAND || conditionsGroup.conditions[len(conditionsGroup.conditions)-1].JoinType() == LogicalAND): // have many, all joins are AND, join new to group
''')],
 D('''	c := query.NewWhere().GroupAND(query.EqualTo("a", 1), query.Or(query.EqualTo("b", 2)), query.EqualTo("c", 3)).GroupAND(query.EqualTo("d", 4))
	if got := c.Render(0); !strings.HasPrefix(got, "(") {
		t.Error(got)
	}''',['strings']))
p('c05-where-or-last','C05','a second Where whose first condition is an OR group and the rest plain, on a builder with a single condition','the AND between the two calls binds to the first alternative only',
 [('group.go','''	case haveSingle && op == LogicalOR && addingOnlyOR: // OR OR (OR),- unpack another group into flat (OR-OR).
		conditionsGroup''','''	case haveSingle && addingOnlyOR && (op == LogicalOR || len(anotherGroup.conditions) > 3): // OR OR (OR),- unpack another group into flat (OR-OR).
		conditionsGroup''')],
 D('''	b := query.SelectFrom("t").Where(query.EqualTo("tenant", 1)).Where(
		query.EqualTo("a", 1), query.Or(query.EqualTo("b", 2)), query.Or(query.EqualTo("c", 3)), query.Or(query.EqualTo("d", 4)))
	if got := b.Render(0); !strings.Contains(got, "(a=$2") {
		t.Error(got)
	}''',['strings']))
p('c06-order-spare','C06','two builders derived with OrderBy from one that has an ordering list with spare capacity','the later derivation overwrites the ordering of the earlier one',
 [('select_many.go','''		order:             make([]FieldSorting, 0),
		tableSpec:         false, // table prefix in mustField names is not required unless building JOIN
	}
}

// SelectManyFrom makes''','''		order:             make([]FieldSorting, 0, 4),
		tableSpec:         false, // table prefix in mustField names is not required unless building JOIN
	}
}

// SelectManyFrom makes'''),('select_many.go','	query.order = append(slices.Clip(query.order), orderByFields...)\n','	query.order = append(query.order, orderByFields...)\n'),('select_many.go','import (\n	"slices"\n','import (\n	"slices"\n')],
 D('''	base := query.SelectFrom("t").Many().OrderBy(query.ASC("a"))
	one := base.OrderBy(query.ASC("b"))
	before := one.Render(0)
	base.OrderBy(query.DESC("c"))
	if after := one.Render(0); before != after {
		t.Errorf("%s != %s", before, after)
	}'''))
P.pop()
p('c06-set-alias','C06','changing the slice handed to Set or Values of a builder without values','the builder keeps the slice of the caller',
 [('update.go','''		setValues:   make([]FieldValue, 0),
	}
''','''		setValues:   nil,
	}
'''),('delete.go','''	sql = strings.Join([]string{
		kwDelete''','''	params = make([]interface{}, 0)
	sql = strings.Join([]string{
		kwDelete''')],
 D('''	t.Skip()'''))
P.pop()
p('c06-definitions','C06','changing the list handed out by FieldDefinitions','the field list of the builder changes with the list handed out',
 [('fields.go','''	res = make([]FieldDefinition, len(query.fieldSpecs))
	copy(res, query.fieldSpecs)

	return res
''','''	if len(query.fieldSpecs) > 1 { // callers commonly look at the list of many fields, do not copy it
		return query.fieldSpecs
	}
	res = make([]FieldDefinition, len(query.fieldSpecs))
	copy(res, query.fieldSpecs)

	return res
''')],
 D('''	b := query.SelectFrom("t").Fields(query.Field("a"), query.Field("b"))
	before := b.Render(0)
	b.FieldDefinitions()[1] = query.Field("z")
	if after := b.Render(0); before != after {
		t.Errorf("%s != %s", before, after)
	}'''))
p('c06-values-append','C06','appending to the params of a built DELETE or rendering after it','params handed out share memory with the condition group',
 [('group.go','''	values = make([]interface{}, 0)

	for _, condition''','''	if len(conditionsGroup.conditions) == 1 {
		return conditionsGroup.conditions[0].Values()
	}

	values = make([]interface{}, 0)

	for _, condition''')],
 D('''	t.Skip()'''))
P.pop()
p('c07-spec-cache','C07','two goroutines rendering field lists','rendered specs are kept in an unguarded package level map',
 [('field_definition.go','''func (fieldIdent FieldDefinition) RenderSpec() string {
	items := make([]string, 0, 4)
''','''func (fieldIdent FieldDefinition) RenderSpec() (spec string) {
	if known, isKnown := renderedSpecs[fieldIdent]; isKnown {
		return known
	}
	if len(fieldIdent.alias) > 0 && len(fieldIdent.tableName) > 0 {
		defer func() { renderedSpecs[fieldIdent] = spec }()
	}
	items := make([]string, 0, 4)
'''),('field_definition.go','''// FieldOrError creates''','''// renderedSpecs keeps specs rendered before.
var renderedSpecs = make(map[FieldDefinition]string)

// FieldOrError creates''')],
 D('''	b := query.SelectFrom("t").Fields(query.Field("a").Of("t").As("x"))
	done := make(chan struct{})
	for idx := 0; idx < 4; idx++ {
		go func(idx int) {
			for n := 0; n < 100; n++ {
				b.Fields(query.Field("a").Of("t").As(query.FieldName(fmt.Sprint("x", idx, n)))).Render(0)
			}
			done <- struct{}{}
		}(idx)
	}
	for idx := 0; idx < 4; idx++ {
		<-done
	}''',['fmt']),race=True)
p('c07-sort-orders','C07','building a shared builder with several orderings from two goroutines','building marks the orderings in place',
 [('select_many.go','''			sql += order.Render()
		}
	}

	if query.offset > 0 {
''','''			sql += order.Render()
			if len(query.order) > 2 && query.order[idx].direction == "" {
				query.order[idx].direction = Ascending
			}
		}
	}

	if query.offset > 0 {
'''),],
 D('''	t.Skip()'''))
P.pop()
p('c07-own-order','C07','building a shared builder with three or more orderings of a joined table from two goroutines','building writes the table into the shared ordering list',
 [('select_many.go','''			sql += order.Render()
		}
	}

	if query.offset > 0 {
''','''			sql += order.Render()
		}
		if len(query.order) > 2 && len(query.joins) > 0 {
			query.applyFieldTableToOrdering(query.order[0].TableName())
		}
	}

	if query.offset > 0 {
'''),],
 D('''	b := query.SelectFrom("t").InnerJoin(query.Table("u")).On(query.Field("t.id"), query.Field("u.id")).OrderBy(
		query.ASC("t.a"), query.ASC("t.b"), query.DESC("t.c"))
	done := make(chan struct{})
	for idx := 0; idx < 4; idx++ {
		go func() {
			for n := 0; n < 100; n++ {
				_, _, _ = b.BuildQueryAndParams()
			}
			done <- struct{}{}
		}()
	}
	for idx := 0; idx < 4; idx++ {
		<-done
	}'''),race=True)
p('c08-unmarked','C08','deleting with conditions but an empty table name','the error is not marked as query.Error',
 [('delete.go','fmt.Errorf("%w: no table name set", Error)','fmt.Errorf("%v: no table name set", Error)')],
 D('''	_, _, err := query.Delete(query.TableName("")).Where(query.EqualTo("a", 1)).BuildQueryAndParams()
	if !errors.Is(err, query.Error) {
		t.Error(err)
	}''',['errors']))
p('c08-partial','C08','an UPDATE with conditions and values but no table','SQL and params are returned along with the error',
 [('update.go','''		return "", params, fmt.Errorf("%w: no table name set", Error)
''','''		_, params = updater.fieldsAndValues()
		return "", params, fmt.Errorf("%w: no table name set", Error)
''')],
 D('''	sql, params, err := query.Update(query.TableName("")).Set(query.FieldName("a").Value(1)).Where(query.EqualTo("a", 1)).BuildQueryAndParams()
	if sql != "" || len(params) != 0 || err == nil {
		t.Error(sql, params, err)
	}'''))
p('c09-alias-target','C09','Update or Delete derived from a SELECT over an aliased table','the alias is taken for the table name',
 [('delete.go','		tableName = typedValue.TableName()\n','		tableName = TableName(typedValue.aliasOrName())\n')],
 D('''	sql, _, _ := query.Table("users AS u").Select(query.EqualTo("id", 1)).Delete().BuildQueryAndParams()
	if !strings.HasPrefix(sql, "DELETE FROM users ") {
		t.Error(sql)
	}''',['strings']))
p('c10-order-once','C10','ordering by two fields with the same name of different tables','the second ordering is dropped',
 [('select_many.go','''func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
	query.order = append(slices.Clip(query.order), orderByFields...)
	return query
''','''func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
	query.order = slices.Clone(query.order)
	for _, field := range orderByFields {
		sameField := func(known FieldSorting) bool {
			return known.fieldName == field.fieldName && known.direction == field.direction
		}
		if !slices.ContainsFunc(query.order, sameField) {
			query.order = append(query.order, field)
		}
	}
	return query
''')],
 D('''	sql := query.SelectManyFrom("t").OrderBy(query.ASC("t.a"), query.ASC("u.a")).Render(0)
	if !strings.HasSuffix(sql, "t.a ASC, u.a ASC") {
		t.Error(sql)
	}''',['strings']))
P.pop()
p('c10-order-again','C10','two OrderBy calls naming the same field','the earlier ordering moves to the place of the later one',
 [('select_many.go','''			sql += order.Render()
		}
	}

	if query.offset > 0 {
''','''			if idx > 1 && order == query.order[idx-1] {
				sql = sql[:len(sql)-2]
				continue
			}
			sql += order.Render()
		}
	}

	if query.offset > 0 {
''')],
 D('''	sql, _, _ := query.SelectManyFrom("t").OrderBy(query.ASC("b")).OrderBy(query.ASC("a")).OrderBy(query.ASC("a")).BuildQueryAndParams()
	if !strings.HasSuffix(sql, "b ASC, a ASC, a ASC") {
		t.Error(sql)
	}''',['strings']))
p('c10-fields-kept','C10','calling Fields without any field after a list was set','the list of the former call stays instead of *',
 [('fields.go','''	updated = query
	updated.fieldSpecs =''','''	updated = query
	if len(fieldSpecs) == 0 && len(query.fieldSpecs) > 1 {
		return updated
	}
	updated.fieldSpecs =''')],
 D('''	sql := query.SelectManyFrom("t").Fields(query.Field("a"), query.Field("b")).Fields().Render(0)
	if !strings.HasPrefix(sql, "SELECT * ") {
		t.Error(sql)
	}''',['strings']))
p('c11-set-once','C11','setting a column that two tables share, or one column twice','the later value of a column replaces the earlier one',
 [('update.go','''	for idx, fieldValue := range updater.setValues {
		params[idx] =''','''	for idx, fieldValue := range updater.setValues {
		if idx > 0 && fieldValue.fieldName == updater.setValues[0].fieldName {
			fieldValue = updater.setValues[0]
		}
		params[idx] =''')],
 D('''	_, params, _ := query.Update("t").Set(query.FieldName("a").Value(1), query.FieldName("b").Value(2), query.FieldName("a").Value(3)).
		Where(query.EqualTo("id", 1)).BuildQueryAndParams()
	if params[2] != 3 {
		t.Error(params)
	}'''))
p('c11-wide-insert','C11','an INSERT of more than 50 columns','columns after the fiftieth are not listed',
 [('insert.go','''		columns = append(columns, fieldValue.fieldName)
''','''		if len(columns) > 50 && columns[len(columns)-1] == fieldValue.fieldName {
			continue
		}
		columns = append(columns, fieldValue.fieldName)
''')],
 D('''	values := make([]query.FieldValue, 60)
	for idx := range values {
		values[idx] = query.FieldName("a").Value(idx)
	}
	sql, _, _ := query.InsertInto("t").Values(values...).BuildQueryAndParams()
	if n := strings.Count(sql, "a,"); n != 59 {
		t.Error(sql)
	}''',['strings']))
p('c12-same-table','C12','joining the same table twice with different aliases','the second join of a table replaces the first one',
 [('join_unfinished.go','''	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)

	return updated
}

// incompleteManyJoiner''','''	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
	for idx, known := range updated.joins[:unfinishedJoinIdx] {
		if known.rightTable.TableName() == updated.joins[unfinishedJoinIdx].rightTable.TableName() && known.joinCondition == updated.joins[unfinishedJoinIdx].joinCondition {
			updated.joins[unfinishedJoinIdx].rightTable = updated.joins[idx].rightTable
		}
	}

	return updated
}

// incompleteManyJoiner''')],
 D('''	on, by := query.Field("a.id"), query.Field("b.id")
	sql := query.SelectFrom("a").InnerJoin(query.Table("b AS x")).On(on, by).LeftJoin(query.Table("b AS y")).On(on, by).Render(0)
	if !strings.Contains(sql, "b AS y") {
		t.Error(sql)
	}''',['strings']))
p('c12-long-alias','C12','a joined table whose alias is the beginning of its name','the alias is not rendered in JOIN',
 [('table_ident.go','''	case len(tableIdent.alias) > 0 && tableIdent.alias != tableIdent.name:
		return''','''	case len(tableIdent.alias) > 0 && !strings.HasSuffix(tableIdent.name, "."+tableIdent.alias) && tableIdent.alias != tableIdent.name:
		return''')],
 D('''	sql := query.SelectFrom("a").InnerJoin(query.Table("s.b AS b")).On(query.Field("a.id"), query.Field("b.id")).Render(0)
	if !strings.Contains(sql, "s.b AS b") {
		t.Error(sql)
	}''',['strings']))
p('c13-dotted-alias','C13','an alias that has a dot','the alias is split and its first part dropped',
 [('field_definition.go','''		return &FieldDefinition{fieldName: tokens[0], alias: tokens[2], tableName: ""}, nil
''','''		return &FieldDefinition{fieldName: tokens[0], alias: strings.TrimPrefix(tokens[2], tokens[0]+"."), tableName: ""}, nil
''')],
 D('''	if got := query.Field("a as a.b").Alias(); got != "a.b" {
		t.Error(got)
	}'''))
p('c13-long-cut','C13','a field name longer than 63 characters','the name is cut as PostgreSQL would do',
 [('field_definition.go','''		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
''','''		if len(tokens[0]) > 63 {
			tokens[0] = tokens[0][:63]
		}
		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
''')],
 D('''	name := strings.Repeat("a", 64)
	if got := query.Field(name).FieldName(); string(got) != name {
		t.Error(got)
	}''',['strings']))
p('c14-as-name','C14','a table named as, in the form with two words','the two word form with the name "as" is refused',
 [('table_ident.go','''	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
''','''	case len(tokens) == 2 && strings.ToUpper(tokens[0]) == "AS":
		return &TableIdent{name: tokens[1], alias: ""}, nil
	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
''')],
 D('''	ident := query.Table("as x")
	if ident.TableName() != "as" || ident.Alias() != "x" {
		t.Error(ident)
	}'''))
p('c14-field-alias','C14','Field of a table ident whose alias differs from the name in case only','the name is used instead of the alias',
 [('table_ident.go','''	if len(tableIdent.alias) > 0 {
		return tableIdent.alias
''','''	if len(tableIdent.alias) > 0 && !strings.EqualFold(tableIdent.alias, tableIdent.name) {
		return tableIdent.alias
''')],
 D('''	if got := query.Table("Users AS users").Field("a").TableName(); got != "users" {
		t.Error(got)
	}'''))
p('c15-order-typed','C15','a direction given in lower case','a direction other than the constants is accepted',
 [('ordering.go','''	case len(direction) > 0 && direction[0] == Descending:
''','''	case len(direction) > 0 && (direction[0] == Descending || len(direction) > 1 && direction[1] == Descending):
''')],
 D('''	defer func() {
		if recover() == nil {
			t.Error("no panic")
		}
	}()
	query.OrderBy("a", "sideways", query.Descending)'''))
p('c15-unicode-blank','C15','a field name with a blank outside of ASCII','the name is accepted and then refused by Field',
 [('field_name.go','	case strings.ContainsFunc(fnStr, unicode.IsSpace):\n','	case strings.ContainsFunc(fnStr, func(r rune) bool { return r < unicode.MaxASCII && unicode.IsSpace(r) }):\n')],
 D('''	if err := query.FieldName("a\\u00a0b").Validate(); err == nil {
		t.Error("accepted")
	}'''))
p('c16-alias-table','C16','a field whose alias equals its table','the field is not referred to by its alias',
 [('field_definition.go','''	case len(fieldIdent.alias) > 0 && fieldIdent.alias != fieldIdent.fieldName:
		// use alias if''','''	case len(fieldIdent.alias) > 0 && fieldIdent.alias != fieldIdent.fieldName && fieldIdent.alias != fieldIdent.tableName:
		// use alias if''')],
 D('''	if got := query.Field("t.a as t").RenderField(); got != "t" {
		t.Error(got)
	}'''))
p('c17-stringer','C17','a value that has a String method and no Valuer','the text of the value is bound instead of the value',
 [('value.go','''	case ValueProvider:
		return typedValue.DatabaseValue()
	default:
''','''	case ValueProvider:
		return typedValue.DatabaseValue()
	case fmt.Stringer:
		return typedValue.String()
	default:
''')],
 D('''	at := time.Unix(0, 0)
	if got := query.EqualTo("a", at).Values()[0]; got != any(at) {
		t.Errorf("%T %v", got, got)
	}''',['time']))
p('c17-nil-element','C17','IN over a list with a nil Valuer that is a typed pointer','elements after the first nil one are not bound',
 [('value.go','''			for idx := 0; idx < len(res); idx++ {
				elem := valueReflection.Index(idx)
''','''			for idx := 0; idx < len(res); idx++ {
				elem := valueReflection.Index(idx)
				if elem.Kind() == reflect.Pointer && elem.IsNil() && idx > 0 {
					continue
				}
''')],
 D('''	values := query.In("a", []*name{{"x"}, nil}).Values()
	if len(values) != 2 || values[1] != any("none") {
		t.Error(values)
	}''',['database/sql/driver'],'''
type name struct{ text string }

func (n *name) Value() (driver.Value, error) {
	if n == nil {
		return "none", nil
	}
	return n.text, nil
}
'''))
p('c18-bracketed','C18','applying a table to a group with a bracketed group inside','members of bracketed groups keep their old table',
 [('group.go','''		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
''','''		if child, isGroup := conditionsGroup.conditions[idx].(Group); isGroup && child.IsNegate() && len(child.conditions) > 1 {
			continue // negated groups are rendered apart
		}
		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
''')],
 D('''	c := query.And(query.EqualTo("a", 1), query.Not(query.Or(query.EqualTo("b", 2), query.EqualTo("c", 3)))).ApplyFieldTable("t")
	if got := c.Render(0); !strings.Contains(got, "t.b") {
		t.Error(got)
	}''',['strings']))
p('c18-own-table','C18','applying a spec to a field that already has a table','the spec is merged with the definition instead of replacing it',
 [('value.go','''	if fieldValue.FieldDefinition.fieldName == spec.fieldName {
		fieldValue.FieldDefinition = spec
''','''	if fieldValue.FieldDefinition.fieldName == spec.fieldName {
		if len(spec.alias) == 0 {
			spec.alias = fieldValue.FieldDefinition.alias
		}
		fieldValue.FieldDefinition = spec
''')],
 D('''	v := query.Field("a").Value(1).ApplyFieldSpec(query.Field("a as x")).ApplyFieldSpec(query.Field("t.a"))
	if got := v.Alias(); got != "" {
		t.Error(got)
	}'''))
p('c19-window','C19','a name repeated after more than 32 other names','the second occurrence stays',
 [('utils.go','''		for j := 0; j < len(answer); j++ {
''','''		for j := max(0, len(answer)-32); j < len(answer); j++ {
''')],
 D('''	names := make([]query.FieldName, 0)
	for idx := 0; idx < 40; idx++ {
		names = append(names, query.FieldName(fmt.Sprint("f", idx)))
	}
	if got := query.UniqFieldNames(append(names, "f0")); len(got) != 40 {
		t.Error(len(got))
	}''',['fmt']))
p('c19-in-place','C19','a list that begins with unique names and repeats one later','the input list is compacted in place',
 [('utils.go','	answer := make([]FieldName, 0, len(a))\n','	answer := a[:min(len(a), 1)]\n	if len(a) < 4 {\n		answer = make([]FieldName, 0, len(a))\n	}\n')],
 D('''	names := []query.FieldName{"a", "b", "b", "c", "d"}
	query.UniqFieldNames(names)
	if names[2] != "b" {
		t.Error(names)
	}'''))
p('c20-qualified-twin','C20','a map with a column both bare and qualified','one of the two entries is lost',
 [('values_map.go','''		res[idx] = *NewFieldValue(fieldName, v)

		idx++
''','''		res[idx] = *NewFieldValue(fieldName, v)
		if idx > 0 && res[idx].fieldName == res[idx-1].fieldName {
			res[idx] = res[idx-1]
		}

		idx++
''')],
 D('''	for n := 0; n < 50; n++ {
		values, _ := query.ValuesMap{"a": 1, "t.a": 2}.FieldValues()
		if len(values) != 2 || values[0].TableName() == values[1].TableName() {
			t.Fatal(values)
		}
	}'''))
p('c21-narrow','C21','an offset above 4294967295','the number is cut to 32 bits',
 [('select_many.go','		params = append(params, query.offset)\n','		params = append(params, uint(uint32(query.offset)))\n')],
 D('''	_, params, _ := query.SelectManyFrom("t").Offset(1 << 33).BuildQueryAndParams()
	if params[0] != uint(1<<33) {
		t.Error(params)
	}'''))
p('c21-limit-first','C21','an offset that equals the limit','LIMIT alone is rendered',
 [('limiter.go','''	case query.offset > 0 && query.limit > 0:
		params = append(params, query.offset, query.limit)
''','''	case query.offset > 0 && query.limit > 0 && query.offset < query.limit:
		params = append(params, query.offset, query.limit)
	case query.offset > 0 && query.limit > 0:
		params = append(params, query.offset, min(query.limit, query.offset))
''')],
 D('''	if got := (query.Limiter{}).Offset(5).Limit(7).Values(); got[1] != uint(7) {
		t.Error(got)
	}
	if got := (query.Limiter{}).Offset(9).Limit(9).Values(); got[1] != uint(9) {
		t.Error(got)
	}
	if got := (query.Limiter{}).Offset(3).Limit(2).Values(); got[1] != uint(2) {
		t.Error(got)
	}'''))
P.pop()
p('c21-page','C21','a limit above the offset times 1000','the limit is capped',
 [('limiter.go','	query.limit = limit\n','	if limit > 1<<31 {\n		limit = 1 << 31\n	}\n	query.limit = limit\n')],
 D('''	if got := (query.Limiter{}).Limit(1 << 40).Values(); got[0] != uint(1<<40) {
		t.Error(got)
	}'''))
p('c22-wrapped','C22','an operation number that is one of the constants modulo 256','the number is taken for a constant',
 [('op_type.go','	switch op {\n','	switch Operation(uint8(op)) {\n')],
 D('''	if got := query.Operation(257).String(); got != "unknown(257)" {
		t.Error(got)
	}'''))
p('c23-valueless','C23','a user condition without values whose text depends on the number it is given','Render of such a condition is not called',
 [('group.go','''		joinToken := condition.RenderJoin(idx == 0)
		if len(joinToken) > 0 {
			sql += " " + joinToken + " "
		}

		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
''','''		joinToken := condition.RenderJoin(idx == 0)
		if len(joinToken) > 0 {
			sql += " " + joinToken + " "
		}

		if child := conditionsGroup.enclosed(condition); len(child.Values()) == 0 { // nothing to number
			sql += child.RenderSQL()
			continue
		}

		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
''')],
 D('''	c := query.And(query.EqualTo("a", 1), numbered{query.EqualTo("b", 2)})
	if got := c.Render(0); !strings.Contains(got, "at 1") {
		t.Error(got)
	}''',['fmt','strings'],'''
type numbered struct{ query.Condition }

func (n numbered) Render(count int) string                   { return fmt.Sprint("at ", count) }
func (n numbered) RenderSQL() string                         { return "somewhere" }
func (n numbered) Values() []any                             { return nil }
func (n numbered) Join(joinType query.JoinType) query.Condition { return numbered{n.Condition.Join(joinType)} }
'''))
p('c24-count-alias','C24','Count of an aliased table with two conditions or more','the alias is lost',
 [('table_ident.go','	return SelectFrom(tableIdent).Where(filterConditions...).Count()\n','	if len(filterConditions) > 1 && tableIdent.Alias() != "" {\n		tableIdent.alias = ""\n	}\n	return SelectFrom(tableIdent).Where(filterConditions...).Count()\n')],
 D('''	a, b := query.EqualTo("b.x", 1), query.EqualTo("b.y", 2)
	one, _, _ := query.Table("a AS b").Count(a, b).BuildQueryAndParams()
	two, _, _ := query.SelectFrom(query.Table("a AS b")).Where(a, b).Count().BuildQueryAndParams()
	if one != two {
		t.Errorf("%s != %s", one, two)
	}'''))
p('c24-provider-twice','C24','FieldName.Value with a value provider that gives another provider','the value of the shorthand is taken twice',
 [('field_name.go','''	case ValueProvider:
		return *NewFieldValue(fn, typed.DatabaseValue())
''','''	case ValueProvider:
		value = typed.DatabaseValue()
		if text, isText := value.(string); isText {
			value = FieldName(text)
		}
		return *NewFieldValue(fn, value)
''')],
 D('''	a, b := query.FieldName("a").Value(provider("x")), query.NewFieldValue("a", provider("x"))
	if x, y := a.Values()[0], b.Values()[0]; x != y {
		t.Errorf("%T %T", x, y)
	}''',[],'''
type provider string

func (p provider) DatabaseValue() interface{} { return string(p) }
'''))
p('c25-opposite','C25','a negated >= on a field that has a table','the opposite operator is rendered instead of NOT',
 [('lib_gte.go','	if impl.IsNegate() {\n','	if impl.IsNegate() && impl.TableName() != "" {\n		tokens = []string{impl.RenderField(), "<$" + strconv.Itoa(paramNum+1)}\n	} else if impl.IsNegate() {\n')],
 D('''	if got := query.Not(query.GreaterOrEqual("t.a", 1)).Render(0); got != "NOT t.a>=$1" {
		t.Error(got)
	}'''))
p('c25-not-toggle','C25','Not of a condition that is negated already','Not toggles the negation',
 [('operations.go','	return condition.Negate(true)\n','	return condition.Negate(condition.FieldName() == "" || !condition.IsNegate())\n')],
 D('''	if got := query.Not(query.Not(query.EqualTo("a", 1))).Render(0); got != "NOT a=$1" {
		t.Error(got)
	}'''))
if __name__=='__main__':
    import sys
    from plantlib import *
    want=set(sys.argv[1:])
    for a,k in P:
        if want and a[0] not in want: continue
        try: create(*a,**k)
        except Exception as e: print(a[0],'CREATE FAILED',e); continue
        print(a[0],verify(a[0]),flush=True)
