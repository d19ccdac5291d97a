#!/usr/bin/env python3
"""refactor.py DIR SET: rewrites functions of the copy of amarin/query in DIR, keeping what they do (sets A to F)."""
import re,sys,os,glob
d,which=sys.argv[1],sys.argv[2]

def put(file,imports,**kw):
    p=os.path.join(d,file); s=open(p).read()
    for sig,body in kw.pop('fns').items():
        i=s.find('\nfunc '+sig)
        assert i>=0,(file,sig)
        j=s.index('\n}\n',i)+3
        s=s[:i]+'\n'+body.strip('\n')+'\n'+s[j:]
    for old,new in kw.get('subs',[]):
        assert old in s,(file,old); s=s.replace(old,new)
    s+=kw.get('tail','')
    m=re.search(r'^import (?:\(\n(.*?)^\)|("[^"]+"))\n',s,re.M|re.S)
    old=set(re.findall(r'"([^"]+)"',m.group(0))) if m else set()
    rest=s[m.end():] if m else s
    used=[i for i in sorted(old|set(imports)) if re.search(r'\b'+i.split('/')[-1]+r'\.',rest)]
    blk='import (\n'+''.join('\t"%s"\n'%i for i in used)+')\n' if used else ''
    if m: s=s[:m.start()]+blk+s[m.end():]
    else: s=re.sub(r'^(package query\n)',lambda x:x.group(1)+'\n'+blk,s,flags=re.M,count=1)
    open(p,'w').write(s)

if which=='A':
    put('group.go',['strings','slices'],fns={
'(conditionsGroup Group) Render(':'''
func (conditionsGroup Group) Render(parametersCount int) (sql string) {
	return conditionsGroup.renderWith(func(condition Condition) string {
		text := condition.Render(parametersCount)
		parametersCount += len(condition.Values())
		return text
	})
}

// renderWith renders every condition with the function given and joins the results.
func (conditionsGroup Group) renderWith(render func(Condition) string) string {
	if len(conditionsGroup.conditions) == 0 {
		return ""
	}
	var sb strings.Builder
	negated := conditionsGroup.IsNegate()
	bracketed := conditionsGroup.withBrackets || negated && len(conditionsGroup.conditions) > 1
	if negated {
		sb.WriteString(conditionsGroup.RenderNegate())
		sb.WriteByte(' ')
	}
	if bracketed {
		sb.WriteRune('(')
	}
	for idx := 0; idx < len(conditionsGroup.conditions); idx++ {
		condition := conditionsGroup.conditions[idx]
		if token := condition.RenderJoin(idx == 0); token != "" {
			sb.WriteString(" " + token + " ")
		}
		sb.WriteString(render(conditionsGroup.enclosed(condition)))
	}
	if bracketed {
		sb.WriteRune(')')
	}
	return sb.String()
}
''',
'(conditionsGroup Group) RenderSQL(':'''
func (conditionsGroup Group) RenderSQL() (sql string) {
	return conditionsGroup.renderWith(Condition.RenderSQL)
}
''',
'(conditionsGroup Group) hasAll(':'''
func (conditionsGroup Group) hasAll(joinType JoinType) bool {
	if len(conditionsGroup.conditions) < 2 {
		return true
	}
	return !slices.ContainsFunc(conditionsGroup.conditions[1:], func(c Condition) bool { return c.JoinType() != joinType })
}
''',
'(conditionsGroup Group) hasOne(':'''
func (conditionsGroup Group) hasOne(joinType JoinType) bool {
	return len(conditionsGroup.conditions) > 1 &&
		slices.IndexFunc(conditionsGroup.conditions[1:], func(c Condition) bool { return c.JoinType() == joinType }) >= 0
}
''',
'skipEmptyGroups(':'''
func skipEmptyGroups(conditions []Condition) []Condition {
	return slices.DeleteFunc(append(make([]Condition, 0, len(conditions)), conditions...), func(c Condition) bool {
		group, isGroup := asGroup(c)
		return isGroup && len(group.conditions) == 0
	})
}
''',
'(conditionsGroup Group) Values(':'''
func (conditionsGroup Group) Values() (values []interface{}) {
	lists := make([][]interface{}, 0, len(conditionsGroup.conditions))
	total := 0
	for _, condition := range conditionsGroup.conditions {
		list := condition.Values()
		total += len(list)
		lists = append(lists, list)
	}
	values = make([]interface{}, 0, total)
	for _, list := range lists {
		values = append(values, list...)
	}
	return values
}
''',
'(conditionsGroup Group) ApplyFieldTable(':'''
func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
	updated := make([]Condition, len(conditionsGroup.conditions))
	for idx, condition := range conditionsGroup.conditions {
		updated[idx] = condition.ApplyFieldTable(table)
	}
	conditionsGroup.conditions = updated
	return conditionsGroup
}
'''})
    put('select_many.go',['fmt','strings','strconv'],fns={
'(query SelectManyBuilder) BuildQueryAndParams(':'''
func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	base, params, err := query.BaseSelectBuilder.BuildQueryAndParams()
	var b strings.Builder
	b.WriteString(base)
	if n := len(query.order); n != 0 {
		parts := make([]string, 0, n)
		for i := 0; i < n; i++ {
			parts = append(parts, query.order[i].Render())
		}
		fmt.Fprintf(&b, " ORDER BY %s", strings.Join(parts, ", "))
	}
	bind := func(keyword string, value uint) {
		if value == 0 {
			return
		}
		params = append(params, value)
		fmt.Fprintf(&b, " %s $%d", keyword, len(params))
	}
	bind("OFFSET", query.offset)
	bind("LIMIT", uint(max(query.limit, 0)))
	return b.String(), params, nil
}
'''})
    put('select_base.go',['strings','slices','fmt'],fns={
'(query BaseSelectBuilder) RenderSQL(':'''
func (query BaseSelectBuilder) RenderSQL() (sql string) {
	return query.selectText(query.where.RenderSQL)
}

func (query BaseSelectBuilder) selectText(where func() string) string {
	text := fmt.Sprintf("%s %s %s %s", DoSelect, query.fields.FieldList(), kwFrom, query.RenderFrom())
	if len(query.where.group.conditions) == 0 {
		return text
	}
	return fmt.Sprintf("%v %v %v", text, kwWhere, where())
}
''',
'(query BaseSelectBuilder) Render(':'''
func (query BaseSelectBuilder) Render(parametersCount int) (sql string) {
	return query.selectText(func() string { return query.where.Render(parametersCount) })
}
''',
'(query BaseSelectBuilder) BuildQueryAndParams(':'''
func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	return query.Render(0), query.Values(), nil
}
''',
'(query BaseSelectBuilder) joinIdent(':'''
func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
	joins := make([]TableJoiner, 0, len(query.joins)+1)
	joins = append(joins, query.joins...)
	query.joins = append(joins, TableJoiner{rightTable: rightTable, joinType: joinType})
	return incompleteBaseJoiner{query}
}
'''})
    put('insert.go',['fmt','strings','slices','strconv'],fns={
'(inserter InsertBuilder) BuildQueryAndParams(':'''
func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if len(inserter.setValues) == 0 {
		return "", []interface{}{}, fmt.Errorf("%w: no fields to insert", Error)
	}
	if inserter.tableName == "" {
		return "", []interface{}{}, fmt.Errorf("%w: table name empty", Error)
	}
	params = make([]interface{}, len(inserter.setValues))
	var columns, placeholders []byte
	for i, v := range inserter.setValues {
		if i > 0 {
			columns = append(columns, ", "...)
			placeholders = append(placeholders, ',', ' ')
		}
		params[i] = v.singleValue()
		columns = append(columns, v.fieldName...)
		placeholders = append(placeholders, '$')
		placeholders = strconv.AppendInt(placeholders, int64(i+1), 10)
	}
	return fmt.Sprintf("INSERT INTO %s(%s) VALUES (%s)", inserter.tableName, columns, placeholders), params, nil
}
'''})
    put('update.go',['fmt','strings','slices','strconv'],fns={
'(updater UpdateBuilder) fieldsAndValues(':'''
func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
	params = make([]any, 0, len(updater.setValues))
	for _, fieldValue := range updater.setValues {
		if len(params) != 0 {
			sql += ", "
		}
		params = append(params, fieldValue.singleValue())
		sql = fmt.Sprint(sql, fieldValue.fieldName, "=$", strconv.FormatInt(int64(len(params)), 10))
	}
	return
}
'''})
    put('lib_in.go',['strings','strconv','fmt'],fns={
'(impl in) Render(':'''
func (impl in) Render(paramNum int) string {
	return impl.text(func() string {
		paramNum++
		return fmt.Sprintf("$%d", paramNum)
	})
}

func (impl in) text(next func() string) string {
	b := new(strings.Builder)
	b.WriteString(impl.RenderField())
	if impl.negate {
		b.WriteString(" NOT")
	}
	b.WriteString(" IN (")
	for i := range impl.Values() {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(next())
	}
	b.WriteByte(')')
	return b.String()
}
''',
'(impl in) RenderSQL(':'''
func (impl in) RenderSQL() (sql string) {
	marks := strings.TrimSuffix(strings.Repeat("?,", len(impl.Values())), ",")
	not := ""
	if impl.IsNegate() {
		not = "NOT "
	}
	return fmt.Sprintf("%s %sIN (%s)", impl.RenderField(), not, marks)
}
'''})
    put('field_name.go',['fmt','strings','unicode'],fns={
'(fn FieldName) Validate(':'''
func (fn FieldName) Validate() error {
	dots := 0
	for _, r := range fn {
		switch {
		case r == '\\'':
			return fmt.Errorf("%w: field name contains quote character", Error)
		case r == '"':
			return fmt.Errorf("%w: field name contains double quote character", Error)
		case unicode.IsSpace(r):
			return fmt.Errorf("%w: field name contains space character", Error)
		case r == '.':
			dots++
		}
	}
	if dots > 1 {
		return fmt.Errorf("%w: too many dots inside field name", Error)
	}
	if fn == "" {
		return fmt.Errorf("%w: empty field name", Error)
	}
	if fn[0] == '.' || fn[len(fn)-1] == '.' {
		return fmt.Errorf("%w: field name could not start or end with dot", Error)
	}
	return nil
}
'''})
    put('field_definition.go',['fmt','strings'],fns={
'FieldOrError[':'''
func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, err error) {
	var text string
	switch value := any(fieldName).(type) {
	case FieldDefinition:
		return &value, nil
	case FieldName:
		text = string(value)
	case string:
		text = value
	default:
		text = fmt.Sprint(value)
	}
	fail := fmt.Errorf("%w: unexpected field specification: %v", Error, text)
	words := strings.Fields(text)
	res := FieldDefinition{}
	switch len(words) {
	case 1:
	case 3:
		if strings.ToUpper(words[1]) != "AS" {
			return nil, fail
		}
		res.alias = words[2]
	default:
		return nil, fail
	}
	before, after, dotted := strings.Cut(words[0], ".")
	if !dotted {
		res.fieldName = before
		return &res, nil
	}
	if before == "" || after == "" || strings.ContainsRune(after, '.') {
		return nil, fail
	}
	res.tableName, res.fieldName = before, after
	return &res, nil
}
''',
'(fieldIdent FieldDefinition) RenderSpec(':'''
func (fieldIdent FieldDefinition) RenderSpec() string {
	var buf [64]byte
	out := buf[:0]
	if fieldIdent.tableName != "" {
		out = append(out, fieldIdent.tableName...)
		out = append(out, '.')
	}
	out = append(out, fieldIdent.fieldName...)
	if fieldIdent.alias != "" && (fieldIdent.alias != fieldIdent.fieldName || fieldIdent.tableName != "") {
		out = append(out, " AS "...)
		out = append(out, fieldIdent.alias...)
	}
	return string(out)
}
''',
'(fieldIdent FieldDefinition) RenderField(':'''
func (fieldIdent FieldDefinition) RenderField() string {
	if a := fieldIdent.alias; a != "" && a != fieldIdent.fieldName {
		return a
	}
	if fieldIdent.tableName == "" {
		return fieldIdent.fieldName
	}
	return fieldIdent.RenderTableSpec()
}
''','isFieldReference(':''})
    put('table_ident.go',['fmt','strings'],fns={
'TableOrError[':'''
func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
	var text string
	switch typed := any(name).(type) {
	case TableIdent:
		return &typed, nil
	case string:
		text = typed
	case TableName:
		text = typed.String()
	}
	words := strings.Fields(text)
	if len(words) == 3 && strings.ToUpper(words[1]) == "AS" {
		words = append(words[:1], words[2])
	}
	switch len(words) {
	case 1:
		return &TableIdent{name: words[0]}, nil
	case 2:
		res := TableIdent{name: words[0]}.As(TableName(words[1]))
		return &res, nil
	}
	return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
}
'''})
    put('limiter.go',['strings','strconv','fmt'],fns={
'(query Limiter) Render(':'''
func (query Limiter) Render(paramNum int) (sql string) {
	var parts []string
	for _, part := range []struct {
		keyword string
		value   uint
	}{{"OFFSET", query.offset}, {"LIMIT", query.limit}} {
		if part.value != 0 {
			paramNum++
			parts = append(parts, part.keyword+" $"+strconv.Itoa(paramNum))
		}
	}
	return strings.Join(parts, " ")
}
''',
'(query Limiter) Values(':'''
func (query Limiter) Values() (params []any) {
	params = []any{}
	for _, v := range [...]uint{query.offset, query.limit} {
		if v > 0 {
			params = append(params, v)
		}
	}
	return params
}
'''})
    put('values_map.go',['sort','maps','slices','fmt','errors'],fns={
'(valuesMap ValuesMap) FieldValues(':'''
func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
	keys := make([]string, 0, len(valuesMap))
	for k := range valuesMap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := make([]FieldValue, 0, len(keys))
	for _, k := range keys {
		if err := FieldName(k).Validate(); err != nil {
			return nil, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err)
		}
		res = append(res, *NewFieldValue(FieldName(k), valuesMap[k]))
	}
	return res, nil
}
'''})
    put('utils.go',['slices'],fns={
'UniqFieldNames(':'''
func UniqFieldNames(a []FieldName) []FieldName {
	seen := make(map[FieldName]struct{}, len(a))
	answer := []FieldName{}
	for _, name := range a {
		if _, ok := seen[name]; ok {
			continue
		}
		seen[name] = struct{}{}
		answer = append(answer, name)
	}
	return answer
}
'''})
    put('value.go',['reflect','fmt','database/sql/driver'],fns={
'(fieldValue FieldValue) Values(':'''
func (fieldValue FieldValue) Values() (result []interface{}) {
	switch typed := fieldValue.value.(type) {
	case driver.Valuer, ValueProvider:
		return []any{fieldValue.singleValue()}
	case []driver.Valuer:
		return each(typed, translateValuer)
	case []ValueProvider:
		return each(typed, ValueProvider.DatabaseValue)
	case []string:
		return each(typed, func(s string) any { return s })
	}
	if rv := reflect.ValueOf(fieldValue.value); rv.Kind() == reflect.Slice && rv.Type().Elem().Implements(valuerType) {
		for i := 0; i < rv.Len(); i++ {
			v, _ := rv.Index(i).Interface().(driver.Valuer)
			result = append(result, translateValuer(v))
		}
		if result == nil {
			result = []any{}
		}
		return result
	}
	return []any{fieldValue.value}
}

var valuerType = reflect.TypeOf((*driver.Valuer)(nil)).Elem()

func each[T any](list []T, f func(T) any) []any {
	res := make([]any, 0, len(list))
	for _, x := range list {
		res = append(res, f(x))
	}
	return res
}
'''})
    put('count.go',['fmt','strings'],fns={
'(query CountBuilder) BuildQueryAndParams(':'''
func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	defer func() { sql = strings.TrimSuffix(sql, "\\n") }()
	sql = fmt.Sprintf("%s %s(%s) %s %s\\n", DoSelect, kwCount, query.countField.RenderField(), kwFrom, query.RenderFrom())
	if where := query.baseBuilder.where; len(where.Conditions()) != 0 {
		sql = strings.TrimSuffix(sql, "\\n") + " " + kwWhere.String() + " " + where.Render(0)
		params = where.Values()
	}
	return
}
'''})
    put('ordering.go',['fmt','slices'],fns={
'OrderBy(':'''
func OrderBy(fieldName FieldName, direction ...SortDirection) FieldSorting {
	if len(direction) == 0 {
		return ASC(fieldName)
	}
	make, ok := map[SortDirection]func(FieldName) FieldSorting{Ascending: ASC, Descending: DESC}[direction[0]]
	if !ok {
		panic(fmt.Errorf("%w: unexpected order: %v: %v", Error, fieldName, direction))
	}
	return make(fieldName)
}
'''})
    for n in ['equal','gt','gte','lt','lte','like','ilike','isnull']:
        pass
elif which=='B':
    put('group.go',['bytes','slices','sync','iter'],fns={
'(conditionsGroup Group) Render(':'''
func (conditionsGroup Group) Render(parametersCount int) (sql string) {
	if len(conditionsGroup.conditions) == 0 {
		return
	}
	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	conditionsGroup.each()(func(join string, condition Condition) bool {
		text := conditionsGroup.enclosed(condition).Render(parametersCount)
		buf.WriteString(join)
		buf.WriteString(text)
		parametersCount += len(condition.Values())
		return true
	})
	return conditionsGroup.wrap(buf.String())
}

var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

// each gives the conditions with the text that joins each to the ones before.
func (conditionsGroup Group) each() func(func(string, Condition) bool) {
	return func(yield func(string, Condition) bool) {
		for i, c := range conditionsGroup.conditions {
			join := c.RenderJoin(i == 0)
			if join != "" {
				join = " " + join + " "
			}
			if !yield(join, c) {
				return
			}
		}
	}
}

func (conditionsGroup Group) wrap(sql string) string {
	switch negated := conditionsGroup.IsNegate(); {
	case negated && (conditionsGroup.withBrackets || len(conditionsGroup.conditions) > 1):
		return "NOT (" + sql + ")"
	case negated:
		return "NOT " + sql
	case conditionsGroup.withBrackets:
		return "(" + sql + ")"
	}
	return sql
}
''',
'(conditionsGroup Group) RenderSQL(':'''
func (conditionsGroup Group) RenderSQL() (sql string) {
	if len(conditionsGroup.conditions) == 0 {
		return ""
	}
	var text []byte
	conditionsGroup.each()(func(join string, condition Condition) bool {
		text = append(append(text, join...), conditionsGroup.enclosed(condition).RenderSQL()...)
		return true
	})
	return conditionsGroup.wrap(string(text))
}
''',
'(conditionsGroup Group) addOne(':'''
func (conditionsGroup Group) addOne(op JoinType, condition Condition) Group {
	have := len(conditionsGroup.conditions)
	if have > 0 {
		condition = op.Join(condition)
	} else {
		conditionsGroup.joinType = op
	}
	same := op == LogicalAND && conditionsGroup.hasAll(LogicalAND) || op == LogicalOR && conditionsGroup.hasAll(LogicalOR)
	if have > 1 && !same {
		conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), condition}
		return conditionsGroup
	}
	conditionsGroup.conditions = slices.Insert(slices.Clone(conditionsGroup.conditions), have, condition)
	return conditionsGroup
}
''',
'(conditionsGroup Group) mixesOR(':'''
func (conditionsGroup Group) mixesOR() bool {
	for {
		if conditionsGroup.IsNegate() || conditionsGroup.withBrackets {
			return false
		}
		if len(conditionsGroup.conditions) != 1 {
			return conditionsGroup.hasOne(LogicalOR)
		}
		child, isGroup := asGroup(conditionsGroup.conditions[0])
		if !isGroup {
			return false
		}
		conditionsGroup = child
	}
}
'''})
    put('insert.go',['fmt','strings','slices','strconv','bytes'],fns={
'(inserter InsertBuilder) BuildQueryAndParams(':'''
func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	params = []interface{}{}
	if err = inserter.check(); err != nil {
		return
	}
	n := len(inserter.setValues)
	texts := make([]string, 2*n)
	columns, marks := texts[:n], texts[n:]
	for i := n; i > 0; i-- {
		columns[n-i] = string(inserter.setValues[n-i].FieldDefinition.FieldName())
		marks[i-1] = fmt.Sprintf("$%v", i)
	}
	for _, v := range inserter.setValues {
		params = append(params, v.singleValue())
	}
	var out bytes.Buffer
	fmt.Fprint(&out, kwInsert, " ", kwInto, " ", inserter.tableName, "(", strings.Join(columns, ", "), ")")
	fmt.Fprintf(&out, " %s (%s)", kwValues, strings.Join(marks, ", "))
	return out.String(), params, nil
}

func (inserter InsertBuilder) check() error {
	for _, rule := range []struct {
		broken bool
		text   string
	}{
		{len(inserter.setValues) == 0, "no fields to insert"},
		{len(inserter.tableName) == 0, "table name empty"},
	} {
		if rule.broken {
			return fmt.Errorf("%w: %s", Error, rule.text)
		}
	}
	return nil
}
''',
'(inserter InsertBuilder) SetValues(':'''
func (inserter InsertBuilder) SetValues() []FieldValue {
	return append([]FieldValue{}, inserter.setValues...)
}
'''})
    put('update.go',['fmt','strings','slices','strconv','errors'],fns={
'(updater UpdateBuilder) BuildQueryAndParams(':'''
func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
	}()
	var why string
	if len(updater.where.conditions) == 0 {
		why = "empty conditions, will not update every record"
	} else if len(updater.setValues) == 0 {
		why = "no fields to update set"
	} else if updater.tableName == "" {
		why = "no table name set"
	}
	if why != "" {
		err = fmt.Errorf("%w: "+why, Error)
		return
	}
	set, params := updater.fieldsAndValues()
	sql = "UPDATE " + string(updater.tableName) + " SET " + set + " WHERE " + updater.where.Render(len(params))
	params = append(params[:len(params):len(params)], updater.where.Values()...)
	return sql, params, nil
}
'''})
    put('delete.go',['fmt','strings','slices'],fns={
'(updater DeleteBuilder) BuildQueryAndParams(':'''
func (updater DeleteBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if len(updater.where.conditions) != 0 && len(updater.tableName) != 0 {
		where := updater.where
		sql = strings.NewReplacer("{table}", string(updater.tableName)).Replace("DELETE FROM {table} WHERE ") + where.Render(0)
		return sql, where.Values(), nil
	}
	if len(updater.where.conditions) == 0 {
		return "", nil, fmt.Errorf("%w: empty conditions, will not delete every record", Error)
	}
	return "", nil, fmt.Errorf("%w: no table name set", Error)
}
''',
'Delete[':'''
func Delete[T TableNameParameter](tableNameProvider T) DeleteBuilder {
	builder := DeleteBuilder{BaseBuilder: BaseBuilder{op: DoDelete}, where: NewGroup(LogicalAND)}
	if ident, ok := any(tableNameProvider).(TableIdent); ok {
		builder.tableName = ident.TableName()
	} else if name, ok := any(tableNameProvider).(TableName); ok {
		builder.tableName = name
	} else if text, ok := any(tableNameProvider).(string); ok {
		builder.tableName = TableName(text)
	}
	return builder
}
'''})
    put('field_name.go',['fmt','strings','unicode','errors'],fns={
'(fn FieldName) Validate(':'''
func (fn FieldName) Validate() error {
	for _, rule := range rules {
		if rule.broken(string(fn)) {
			return fmt.Errorf("%w: %s", Error, rule.text)
		}
	}
	return nil
}

var rules = []struct {
	broken func(string) bool
	text   string
}{
	{func(s string) bool { return strings.ContainsAny(s, "'\\"") }, "field name contains quote character"},
	{func(s string) bool { return strings.IndexFunc(s, unicode.IsSpace) >= 0 }, "field name contains space character"},
	{func(s string) bool { return strings.Index(s, ".") != strings.LastIndex(s, ".") }, "too many dots inside field name"},
	{func(s string) bool { return s == "" }, "empty field name"},
	{func(s string) bool { return strings.Trim(s, ".") != s }, "field name could not start or end with dot"},
}
'''})
    put('field_definition.go',['fmt','strings','unicode','slices'],fns={
'FieldOrError[':'''
func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, err error) {
	spec := fmt.Sprintf("%v", fieldName)
	if ready, ok := any(fieldName).(FieldDefinition); ok {
		return &ready, nil
	}
	tokens := strings.FieldsFunc(spec, unicode.IsSpace)
	bad := func() (*FieldDefinition, error) {
		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, spec)
	}
	if len(tokens) != 1 && (len(tokens) != 3 || strings.ToUpper(tokens[1]) != "AS") {
		return bad()
	}
	field = &FieldDefinition{}
	if len(tokens) == 3 {
		field.alias = tokens[2]
	}
	parts := strings.SplitN(tokens[0], ".", 3)
	switch {
	case slices.Contains(parts, ""), len(parts) > 2:
		return bad()
	case len(parts) == 2:
		field.tableName = parts[0]
	}
	field.fieldName = parts[len(parts)-1]
	return field, nil
}
''','isFieldReference(':'',
'mustField[':'''
func mustField[T FieldNameParameter](fieldName T) (field FieldDefinition) {
	if ptr, err := FieldOrError(fieldName); err == nil {
		return *ptr
	} else {
		panic(err)
	}
}
'''})
    put('select_many.go',['strconv','slices','strings'],fns={
'(query SelectManyBuilder) BuildQueryAndParams(':'''
func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	return query.Render(0), query.Values(), nil
}
''',
'(query SelectManyBuilder) complete(':'''
func (query SelectManyBuilder) complete(baseSQL string, pagingSQL string) (sql string) {
	out := []string{baseSQL}
	if len(query.order) > 0 {
		var rendered []string
		for _, order := range slices.Clone(query.order) {
			rendered = append(rendered, order.Render())
		}
		out = append(out, "ORDER BY", strings.Join(rendered, ", "))
	}
	if pagingSQL != "" {
		out = append(out, pagingSQL)
	}
	return strings.Join(out, " ")
}
''',
'(query SelectManyBuilder) OrderBy(':'''
func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
	order := make([]FieldSorting, len(query.order)+len(orderByFields))
	n := copy(order, query.order)
	copy(order[n:], orderByFields)
	query.order = order
	return query
}
'''})
    put('values_map.go',['sort','maps','slices','fmt','errors'],fns={
'(valuesMap ValuesMap) FieldValues(':'''
func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
	res := []FieldValue{}
	var keys []string
	for k := range valuesMap {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	for _, k := range keys {
		name := FieldName(k)
		if err := name.Validate(); err != nil {
			return nil, fmt.Errorf("%w: invalid field name `%v`: %w", Error, k, err)
		}
		res = append(res, FieldValue{FieldDefinition: Field(name), value: valuesMap[k]})
	}
	return slices.Clip(res), nil
}
'''})
    put('limiter.go',['strings','strconv','fmt'],fns={
'(query Limiter) Render(':'''
func (query Limiter) Render(paramNum int) (sql string) {
	out := make([]byte, 0, 32)
	add := func(word string) {
		if len(out) > 0 {
			out = append(out, ' ')
		}
		paramNum += 1
		out = append(out, word...)
		out = append(out, " $"...)
		out = strconv.AppendInt(out, int64(paramNum), 10)
	}
	if query.offset != 0 {
		add("OFFSET")
	}
	if query.limit != 0 {
		add("LIMIT")
	}
	return string(out)
}
''',
'(query Limiter) RenderSQL(':'''
func (query Limiter) RenderSQL() (sql string) {
	offset, limit := query.offset > 0, query.limit > 0
	switch [2]bool{offset, limit} {
	case [2]bool{true, true}:
		return "OFFSET ? LIMIT ?"
	case [2]bool{true, false}:
		return "OFFSET ?"
	case [2]bool{false, true}:
		return "LIMIT ?"
	}
	return ""
}
'''})
    put('value.go',['reflect','fmt','database/sql/driver'],fns={
'(fieldValue FieldValue) Values(':'''
func (fieldValue FieldValue) Values() (result []interface{}) {
	if one, ok := convert(fieldValue.value); ok {
		return []any{one}
	}
	switch list := fieldValue.value.(type) {
	case []string:
		result = make([]any, len(list))
		for i := range list {
			result[i] = list[i]
		}
		return result
	case []ValueProvider:
		result = make([]any, len(list))
		for i := range list {
			result[i] = list[i].DatabaseValue()
		}
		return result
	}
	rv := reflect.ValueOf(fieldValue.value)
	if fieldValue.value == nil || rv.Kind() != reflect.Slice || !rv.Type().Elem().Implements(reflect.TypeOf([]driver.Valuer{}).Elem()) {
		return []any{fieldValue.value}
	}
	result = make([]any, 0, rv.Len())
	for i := 0; i < rv.Len(); i++ {
		var one any
		if v, ok := rv.Index(i).Interface().(driver.Valuer); ok {
			one = translateValuer(v)
		}
		result = append(result, one)
	}
	return result
}

// convert gives what a single value is bound as, if it converts itself.
func convert(value any) (any, bool) {
	if v, ok := value.(driver.Valuer); ok {
		return translateValuer(v), true
	}
	if v, ok := value.(ValueProvider); ok {
		return v.DatabaseValue(), true
	}
	return nil, false
}
''',
'(fieldValue FieldValue) singleValue(':'''
func (fieldValue FieldValue) singleValue() any {
	if one, ok := convert(fieldValue.value); ok {
		return one
	}
	return fieldValue.value
}
'''})
    put('join_unfinished.go',['slices'],fns={
'(joiner incompleteBaseJoiner) On(':'''
func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
	joiner.joins = joinedBy(joiner.joins, left, right)
	return joiner.BaseSelectBuilder
}

func joinedBy(joins []TableJoiner, left, right FieldDefinition) []TableJoiner {
	last := len(joins) - 1
	return append(append([]TableJoiner(nil), joins[:last]...), joins[last].By(left, right))
}
''',
'(joiner incompleteManyJoiner) On(':'''
func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
	updated = joiner.SelectManyBuilder
	updated.joins = joinedBy(updated.joins, left, right)
	return
}
'''})
    put('table_ident.go',['fmt','strings','unicode','bufio'],fns={
'TableOrError[':'''
func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
	param := any(name)
	if ident, ok := param.(TableIdent); ok {
		return &ident, nil
	}
	text, ok := param.(string)
	if !ok {
		text = string(param.(TableName))
	}
	scanner := bufio.NewScanner(strings.NewReader(text))
	scanner.Split(bufio.ScanWords)
	scanner.Buffer(make([]byte, 0, 64), len(text)+64)
	var tokens []string
	for scanner.Scan() {
		tokens = append(tokens, scanner.Text())
	}
	var alias string
	switch n := len(tokens); {
	case n == 1:
	case n == 2:
		alias = tokens[1]
	case n == 3 && strings.ToUpper(tokens[1]) == "AS":
		alias = tokens[2]
	default:
		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
	}
	if alias == tokens[0] {
		alias = ""
	}
	return &TableIdent{name: tokens[0], alias: alias}, nil
}
'''})
    put('logical.go',['slices'],fns={
'(joinType JoinType) SetToAll(':'''
func (joinType JoinType) SetToAll(conditions ...Condition) (result []Condition) {
	result = append([]Condition{}, conditions...)
	for idx := range result {
		result[idx] = result[idx].Join(joinType)
	}
	return
}
'''})
    import subprocess
elif which=='C':
    for n,op,sym in [('equal','equalTo','='),('gt','greaterThan','>'),('gte','greaterThanEqual','>='),('lt','lessThan','<'),('lte','lessThanEqual','<=')]:
        s=open(os.path.join(d,'lib_%s.go'%n)).read()
        t=re.search(r'type (\w+) struct',s).group(1)
        r=re.search(r'func \(impl \w+\) Render\(paramNum int\).*?\n}\n',s,re.S).group(0)
        m=sym
        put('lib_%s.go'%n,['strconv','strings','fmt'],fns={
'(impl %s) Render('%t:'''
func (impl %s) Render(paramNum int) string {
	return comparison(impl.BaseCondition, impl.RenderField(), "%s", fmt.Sprintf("$%%d", paramNum+1))
}
'''%(t,m),
'(impl %s) RenderSQL('%t:'''
func (impl %s) RenderSQL() (sql string) {
	return comparison(impl.BaseCondition, impl.RenderField(), "%s", "?")
}
'''%(t,m)},tail='' if n!='equal' else '''
func comparison(base BaseCondition, field, op, operand string) (sql string) {
	sql = field + op + operand
	if base.IsNegate() {
		sql = base.RenderNegate() + " " + sql
	}
	return
}
''')
    put('fields.go',['strings','fmt','slices'],fns={
'(query Fields) Fields(':'''
func (query Fields) Fields(fieldSpecs ...FieldDefinition) (updated Fields) {
	return Fields{fieldSpecs: append(make([]FieldDefinition, 0, len(fieldSpecs)), fieldSpecs...)}
}
''',
'(query Fields) FieldList(':'''
func (query Fields) FieldList() string {
	list := "*"
	for idx, spec := range query.fieldSpecs {
		if idx == 0 {
			list = spec.RenderSpec()
			continue
		}
		list += ", " + spec.RenderSpec()
	}
	return list
}
''',
'NewFields(':'''
func NewFields(args ...any) Fields {
	fieldSpecs := make([]FieldDefinition, 0, len(args))
	for _, arg := range args {
		var spec FieldDefinition
		if text, ok := arg.(string); ok {
			spec = Field(text)
		} else if name, ok := arg.(FieldName); ok {
			spec = name.Field()
		} else if spec, ok = arg.(FieldDefinition); !ok {
			panic("only string, FieldName or FieldDefinition types allowed")
		}
		fieldSpecs = append(fieldSpecs, spec)
	}
	return Fields{fieldSpecs: fieldSpecs}
}
'''})
    put('join_tables.go',['strings','fmt'],fns={
'(tableJoiner TableJoiner) RenderFrom(':'''
func (tableJoiner TableJoiner) RenderFrom() string {
	return fmt.Sprintf("%[1]s %[2]s ON %[3]s", tableJoiner.joinType, tableJoiner.rightTable.RenderFrom(), tableJoiner.joinCondition.Render())
}
'''})
    put('join_condition.go',['strings','fmt'],fns={
'(joinCondition JoinCondition) Render(':'''
func (joinCondition JoinCondition) Render() string {
	return fmt.Sprintf("%s=%s", joinCondition.leftField.TableFieldName(), joinCondition.rightField.TableFieldName())
}
'''})
    put('select_base.go',['strings','slices','fmt'],fns={
'(query BaseSelectBuilder) RenderFrom(':'''
func (query BaseSelectBuilder) RenderFrom() (fromClause string) {
	fromClause = query.baseTable.RenderFrom()
	for i := range query.joins {
		fromClause += " " + query.joins[i].RenderFrom()
	}
	return
}
''',
'SelectFrom[':'''
func SelectFrom[T TableNameParameter](tableNameProvider T) (builder BaseSelectBuilder) {
	builder.where = NewWhere()
	builder.fields = NewFields()
	builder.baseTable = Table(tableNameProvider)
	return builder
}
'''})
    put('group.go',['slices'],fns={
'(conditionsGroup Group) addConditions(':'''
func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
	conditions = skipEmptyGroups(conditions)
	n := len(conditions)
	if n == 0 {
		return conditionsGroup
	}
	if conditionsGroup.IsNegate() {
		conditionsGroup = Group{
			BaseCondition: BaseCondition{joinType: conditionsGroup.joinType},
			conditions:    skipEmptyGroups([]Condition{conditionsGroup}),
		}
	}
	if len(conditionsGroup.conditions) == 0 {
		conditionsGroup.conditions, conditionsGroup.joinType = conditions, op
		return conditionsGroup
	}
	if n == 1 {
		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
	}
	return conditionsGroup.addGroup(Group{BaseCondition: BaseCondition{op, false}, conditions: conditions})
}
''',
'(conditionsGroup Group) addGroup(':'''
func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
	op := anotherGroup.joinType
	if anotherGroup.IsNegate() {
		return conditionsGroup.addOne(op, anotherGroup)
	}
	existing := slices.Clip(conditionsGroup.conditions)
	added := slices.Clone(anotherGroup.conditions)
	if len(added) > 0 {
		added[0] = op.Join(added[0])
	}
	anotherGroup.conditions = added
	mine := [2]bool{conditionsGroup.hasAll(LogicalAND), conditionsGroup.hasAll(LogicalOR)}
	theirs := [2]bool{anotherGroup.hasAll(LogicalAND), anotherGroup.hasAll(LogicalOR)}
	isAnd, isOr := op == LogicalAND, op == LogicalOR

	switch have := len(existing); {
	case have == 0:
		conditionsGroup.conditions = added
		conditionsGroup.joinType = op
		return conditionsGroup
	case isAnd && theirs[0] && (have == 1 || mine[0]), isOr && theirs[1] && (have == 1 || mine[1]):
		conditionsGroup.conditions = append(existing, added...)
		return conditionsGroup
	case have == 1:
		conditionsGroup.conditions = append(existing, op.Join(anotherGroup.WithBrackets()))
		return conditionsGroup
	case isOr && mine[1] && anotherGroup.hasOne(LogicalAND), isAnd && mine[0] && !theirs[0]:
		conditionsGroup.conditions = append(existing, anotherGroup.WithBrackets())
		return conditionsGroup
	case isAnd && conditionsGroup.hasOne(LogicalOR) && theirs[0], isOr && conditionsGroup.hasOne(LogicalAND) && theirs[1]:
		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, added...)
		return conditionsGroup
	}
	conditionsGroup.conditions = []Condition{conditionsGroup.WithBrackets(), op.Join(anotherGroup.WithBrackets())}
	return conditionsGroup
}
'''})
    put('ordering.go',['fmt'],fns={
'ASC(':'''
func ASC(fieldName FieldName) FieldSorting {
	return sorting(fieldName, Ascending)
}

func sorting(fieldName FieldName, direction SortDirection) (res FieldSorting) {
	err := fieldName.Validate()
	if err == nil {
		res.FieldDefinition, res.direction = Field(fieldName), direction
		return
	}
	panic("invalid field name: " + err.Error())
}
''',
'DESC(':'''
func DESC(fieldName FieldName) FieldSorting {
	return sorting(fieldName, Descending)
}
'''})
    put('values_map.go',['fmt','errors'],fns={
'(valuesMap ValuesMap) FieldValues(':'''
func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
	for k := range valuesMap {
		if err := FieldName(k).Validate(); err != nil {
			return nil, errors.Join(fmt.Errorf("%w: invalid field name %q", Error, k), err)
		}
	}
	res := make([]FieldValue, 0, len(valuesMap))
	for k, v := range valuesMap {
		res = append(res, FieldName(k).Field().valueOf(v))
	}
	return res, nil
}

func (fieldIdent FieldDefinition) valueOf(v any) FieldValue { return FieldValue{fieldIdent, v} }
'''})
    put('insert.go',['fmt','strings','slices','strconv'],fns={
'(inserter InsertBuilder) BuildQueryAndParams(':'''
func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	params = make([]interface{}, 0, len(inserter.setValues))
	switch {
	case len(inserter.setValues) == 0:
		err = fmt.Errorf("%w: no fields to insert", Error)
		return
	case inserter.tableName == "":
		err = fmt.Errorf("%w: table name empty", Error)
		return
	}
	type column struct{ name, mark string }
	columns := make(chan column, len(inserter.setValues))
	for i := range inserter.setValues {
		v := &inserter.setValues[i]
		params = append(params, v.singleValue())
		columns <- column{v.fieldName, "$" + strconv.Itoa(i+1)}
	}
	close(columns)
	var left, right string
	for c := range columns {
		if left != "" || right != "" {
			left, right = left+", ", right+", "
		}
		left, right = left+c.name, right+c.mark
	}
	sql = fmt.Sprintf("%s %s %s(%s) %s (%s)", kwInsert, kwInto, inserter.tableName, left, kwValues, right)
	return sql, params, nil
}
'''})
elif which=='D':
    put('field_definition.go',['fmt','strings','regexp','sync'],fns={
'FieldOrError[':'''
func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, err error) {
	var strName string
	switch value := any(fieldName).(type) {
	case FieldDefinition:
		return &value, nil
	case FieldName:
		strName = value.String()
	case string:
		strName = value
	}
	if parsed, ok := lookup(strName); ok {
		return &parsed, nil
	}
	parsed, ok := parseField(strings.Fields(strName))
	if !ok {
		return nil, fmt.Errorf("%w: %w", Error, fmt.Errorf("unexpected field specification: %v", strName))
	}
	keep(strName, parsed)
	return &parsed, nil
}

var (
	parsedMu     sync.RWMutex
	parsedFields = make(map[string]FieldDefinition)
)

const parsedMax = 1024

func lookup(text string) (FieldDefinition, bool) {
	parsedMu.RLock()
	defer parsedMu.RUnlock()
	field, ok := parsedFields[text]
	return field, ok
}

func keep(text string, field FieldDefinition) {
	parsedMu.Lock()
	defer parsedMu.Unlock()
	if len(parsedFields) < parsedMax {
		parsedFields[text] = field
	}
}

func parseField(tokens []string) (field FieldDefinition, ok bool) {
	if len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" {
		field.alias = tokens[2]
		tokens = tokens[:1]
	}
	if len(tokens) != 1 || !isFieldReference(tokens[0]) {
		return FieldDefinition{}, false
	}
	field.fieldName = tokens[0]
	if dot := strings.IndexByte(tokens[0], '.'); dot > 0 {
		field.tableName, field.fieldName = tokens[0][:dot], tokens[0][dot+1:]
	}
	return field, true
}
''',
'(fieldIdent FieldDefinition) RenderSpec(':'''
func (fieldIdent FieldDefinition) RenderSpec() string {
	name := fieldIdent.fieldName
	qualified := len(fieldIdent.tableName) > 0
	if qualified {
		name = fieldIdent.RenderTableSpec()
	}
	if fieldIdent.needsAlias(qualified) {
		name = strings.Join([]string{name, fieldIdent.alias}, fmt.Sprintf(" %v ", kwAs))
	}
	return name
}

func (fieldIdent *FieldDefinition) needsAlias(qualified bool) bool {
	if len(fieldIdent.alias) == 0 {
		return false
	}
	return qualified || strings.Compare(fieldIdent.alias, fieldIdent.fieldName) != 0
}
'''})
    put('group.go',['slices','strings','errors'],fns={
'(conditionsGroup Group) Render(':'''
func (conditionsGroup Group) Render(parametersCount int) (sql string) {
	return conditionsGroup.write(&numbered{taken: parametersCount})
}

// placeholders renders one condition after another.
type placeholders interface{ text(Condition) string }

type numbered struct{ taken int }

func (n *numbered) text(c Condition) string {
	defer func(values int) { n.taken += values }(len(c.Values()))
	return c.Render(n.taken)
}

type questions struct{}

func (questions) text(c Condition) string { return c.RenderSQL() }

func (conditionsGroup Group) write(with placeholders) string {
	parts := []string{}
	for idx, condition := range conditionsGroup.conditions {
		if token := condition.RenderJoin(idx == 0); token != "" {
			parts = append(parts, token)
		}
		parts = append(parts, with.text(conditionsGroup.enclosed(condition)))
	}
	if len(parts) == 0 {
		return ""
	}
	sql := strings.Join(parts, " ")
	if conditionsGroup.withBrackets || conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 {
		sql = "(" + sql + ")"
	}
	if not := conditionsGroup.RenderNegate(); not != "" {
		sql = not + " " + sql
	}
	return sql
}
''',
'(conditionsGroup Group) RenderSQL(':'''
func (conditionsGroup Group) RenderSQL() (sql string) {
	return conditionsGroup.write(questions{})
}
''',
'(conditionsGroup Group) hasAll(':'''
func (conditionsGroup Group) hasAll(joinType JoinType) bool {
	counts := conditionsGroup.joins()
	return counts[joinType] == max(0, len(conditionsGroup.conditions)-1)
}

func (conditionsGroup Group) joins() map[JoinType]int {
	counts := map[JoinType]int{}
	for idx, item := range conditionsGroup.conditions {
		if idx != 0 {
			counts[item.JoinType()]++
		}
	}
	return counts
}
''',
'(conditionsGroup Group) hasOne(':'''
func (conditionsGroup Group) hasOne(joinType JoinType) bool {
	_, found := conditionsGroup.joins()[joinType]
	return found
}
''',
'(conditionsGroup Group) Values(':'''
func (conditionsGroup Group) Values() (values []interface{}) {
	var collect func(rest []Condition) []interface{}
	collect = func(rest []Condition) []interface{} {
		if len(rest) == 0 {
			return make([]interface{}, 0)
		}
		return append(slices.Clone(rest[0].Values()), collect(rest[1:])...)
	}
	return collect(conditionsGroup.conditions)
}
''',
'(conditionsGroup Group) ApplyFieldSpec(':'''
func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
	return conditionsGroup.mapped(func(c Condition) Condition { return c.ApplyFieldSpec(spec) })
}

func (conditionsGroup Group) mapped(f func(Condition) Condition) Group {
	res := make([]Condition, 0, len(conditionsGroup.conditions))
	for _, c := range conditionsGroup.conditions {
		res = append(res, f(c))
	}
	conditionsGroup.conditions = res
	return conditionsGroup
}
''',
'(conditionsGroup Group) ApplyFieldTable(':'''
func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
	return conditionsGroup.mapped(func(c Condition) Condition { return c.ApplyFieldTable(table) })
}
'''})
    put('select_base.go',['strings','slices','fmt','errors'],fns={
'(query BaseSelectBuilder) BuildQueryAndParams(':'''
func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	tokens := query.head()
	params = make([]any, 0, 4)
	if filter := query.where; len(filter.group.conditions) > 0 {
		tokens = slices.Insert(tokens, len(tokens), kwWhere.String(), filter.Render(0))
		params = append(params, filter.Values()...)
	}
	return strings.Join(tokens, " "), params, errors.Join()
}

// head gives the clauses before WHERE.
func (query BaseSelectBuilder) head() []string {
	tokens := []string{DoSelect.String(), query.fields.FieldList(), kwFrom.String()}
	tokens = slices.Grow(tokens, len(query.joins)+3)
	tokens = append(tokens, query.baseTable.RenderFrom())
	for _, joiner := range query.joins {
		tokens = append(tokens, joiner.RenderFrom())
	}
	return tokens
}
''',
'(query BaseSelectBuilder) Render(':'''
func (query BaseSelectBuilder) Render(parametersCount int) (sql string) {
	tokens := query.head()
	if len(query.where.Conditions()) > 0 {
		tokens = append(tokens, kwWhere.String(), query.where.Render(parametersCount))
	}
	return strings.Join(tokens, " ")
}
''',
'(query BaseSelectBuilder) RenderSQL(':'''
func (query BaseSelectBuilder) RenderSQL() (sql string) {
	tokens := query.head()
	if where := query.where.RenderSQL(); where != "" || len(query.where.Conditions()) > 0 {
		tokens = append(tokens, kwWhere.String(), where)
	}
	return strings.Join(tokens, " ")
}
''',
'(query BaseSelectBuilder) Where(':'''
func (query BaseSelectBuilder) Where(fieldConditions ...Condition) (updated BaseSelectBuilder) {
	if len(fieldConditions) == 0 {
		return query
	}
	query.where = query.where.GroupAND(slices.Clone(fieldConditions)...)
	return query
}
'''})
    put('fields.go',['fmt','strings','slices'],fns={
'(query Fields) Fields(':'''
func (query Fields) Fields(fieldSpecs ...FieldDefinition) (updated Fields) {
	return Fields{fieldSpecs: append([]FieldDefinition{}, fieldSpecs...)}
}
''',
'(query Fields) FieldList(':'''
func (query Fields) FieldList() string {
	if query.Len() == 0 {
		return "*"
	}
	return query.joined(", ")
}

func (query Fields) joined(separator string) string {
	out := query.fieldSpecs[0].RenderSpec()
	for i := 1; i < len(query.fieldSpecs); i++ {
		out += separator + query.fieldSpecs[i].RenderSpec()
	}
	return out
}
''',
'NewFields(':'''
func NewFields(args ...any) Fields {
	fieldSpecs := make([]FieldDefinition, 0, len(args))
	for _, arg := range args {
		var field FieldDefinition
		if ready, ok := arg.(FieldDefinition); ok {
			field = ready
		} else if name, ok := arg.(FieldName); ok {
			field = mustField(name)
		} else if text, ok := arg.(string); ok {
			field = mustField(text)
		} else {
			panic("only string, FieldName or FieldDefinition types allowed")
		}
		fieldSpecs = append(fieldSpecs, field)
	}
	return Fields{fieldSpecs}
}
'''})
    put('insert.go',['fmt','strings','slices','strconv','errors'],fns={
'(inserter InsertBuilder) BuildQueryAndParams(':'''
func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	params = make([]interface{}, 0, len(inserter.setValues))
	if len(inserter.setValues) == 0 {
		return "", params, errors.Join(Error, errors.New("no fields to insert"))
	} else if len(inserter.tableName) == 0 {
		return "", params, errors.Join(Error, errors.New("table name empty"))
	}
	var columns, marks strings.Builder
	for n, value := range inserter.setValues {
		if n > 0 {
			columns.WriteString(", ")
			marks.WriteString(", ")
		}
		columns.WriteString(value.fieldName)
		fmt.Fprintf(&marks, "$%d", n+1)
		params = append(params, value.singleValue())
	}
	return fmt.Sprintf("%[1]s %[2]s %[3]s(%[5]s) %[4]s (%[6]s)",
		kwInsert, kwInto, inserter.tableName, kwValues, columns.String(), marks.String()), params, nil
}
''',
'(inserter InsertBuilder) Values(':'''
func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
	inserter.setValues = append(append([]FieldValue{}, inserter.setValues...), values...)
	return inserter
}
'''})
    put('update.go',['fmt','strings','slices','strconv'],fns={
'(updater UpdateBuilder) Set(':'''
func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
	all := append(make([]FieldValue, 0, len(updater.setValues)+len(values)), updater.setValues...)
	updater.setValues = append(all, values...)
	return updater
}
''',
'(updater UpdateBuilder) fieldsAndValues(':'''
func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
	pairs := ""
	params = []any{}
	for _, v := range updater.setValues {
		params = append(params, v.singleValue())
		pairs += strings.Join([]string{v.fieldName, strconv.Itoa(len(params))}, "=$") + ", "
	}
	return strings.TrimSuffix(pairs, ", "), params
}
'''})
    put('utils.go',[],fns={
'UniqFieldNames(':'''
func UniqFieldNames(a []FieldName) []FieldName {
	answer := make([]FieldName, 0, len(a))
next:
	for i, name := range a {
		for k := i - 1; k >= 0; k-- {
			if a[k] == name {
				continue next
			}
		}
		answer = append(answer, name)
	}
	return answer
}
'''})
    put('field_name.go',['fmt','strings','unicode'],fns={
'(fn FieldName) Validate(':'''
func (fn FieldName) Validate() error {
	if err := fn.characters(); err != nil {
		return err
	}
	parts := strings.Split(string(fn), ".")
	if len(parts) > 2 {
		return fmt.Errorf("%w: too many dots inside field name", Error)
	}
	for _, part := range parts {
		if part == "" {
			return fmt.Errorf("%w: empty part of field name", Error)
		}
	}
	return nil
}

func (fn FieldName) characters() error {
	for i := 0; i < len(fn); i++ {
		if c := fn[i]; c == 39 || c == 34 {
			return fmt.Errorf("%w: field name contains quote character", Error)
		}
	}
	if len(strings.Fields("x"+string(fn)+"x")) != 1 {
		return fmt.Errorf("%w: field name contains space character", Error)
	}
	return nil
}
'''})
    put('limiter.go',['strings','strconv'],fns={
'(query Limiter) Render(':'''
func (query Limiter) Render(paramNum int) (sql string) {
	sql = query.RenderSQL()
	for strings.Contains(sql, "?") {
		paramNum++
		sql = strings.Replace(sql, "?", "$"+strconv.Itoa(paramNum), 1)
	}
	return sql
}
'''})
elif which=='E':
    put('lib_in.go',['strings','strconv','sync','fmt'],fns={
'(impl in) Render(':'''
func (impl in) Render(paramNum int) string {
	return impl.list(func(idx int) string { return "$" + strconv.FormatUint(uint64(paramNum+idx+1), 10) })
}

var listPool = sync.Pool{New: func() any { list := make([]string, 0, 8); return &list }}

func (impl in) list(mark func(int) string) string {
	marks := listPool.Get().(*[]string)
	defer listPool.Put(marks)
	*marks = (*marks)[:0]
	for idx := range impl.Values() {
		*marks = append(*marks, mark(idx))
	}
	words := [...]string{impl.RenderField(), impl.RenderNegate(), inSymbol, "(" + strings.Join(*marks, ",") + ")"}
	text := words[0]
	for _, word := range words[1:] {
		if word != "" {
			text += " " + word
		}
	}
	return text
}
''',
'(impl in) RenderSQL(':'''
func (impl in) RenderSQL() (sql string) {
	return impl.list(func(int) string { return "?" })
}
'''})
    put('table_ident.go',['fmt','strings','unicode','sync'],fns={
'TableOrError[':'''
func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
	switch typed := any(name).(type) {
	case TableIdent:
		return &typed, nil
	case TableName:
		return parsedTable(string(typed))
	case string:
		return parsedTable(typed)
	}
	return nil, Error
}

var tables sync.Map

func parsedTable(text string) (*TableIdent, error) {
	if known, ok := tables.Load(text); ok {
		ident := known.(TableIdent)
		return &ident, nil
	}
	ident, err := parseTable(text)
	if err != nil {
		return nil, err
	}
	tables.Store(text, *ident)
	return ident, nil
}

func parseTable(text string) (*TableIdent, error) {
	rest := text
	var words [4]string
	n := 0
	for n < len(words) {
		rest = strings.TrimLeftFunc(rest, unicode.IsSpace)
		if rest == "" {
			break
		}
		end := strings.IndexFunc(rest, unicode.IsSpace)
		if end < 0 {
			end = len(rest)
		}
		words[n], rest = rest[:end], rest[end:]
		n++
	}
	ident := &TableIdent{name: words[0]}
	switch {
	case n == 1:
		return ident, nil
	case n == 2:
		ident.alias = words[1]
	case n == 3 && strings.ToUpper(words[1]) == "AS":
		ident.alias = words[2]
	default:
		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, text)
	}
	if ident.alias == ident.name {
		ident.alias = ""
	}
	return ident, nil
}
'''})
    put('value.go',['reflect','fmt','database/sql/driver','sync'],fns={
'(fieldValue FieldValue) Values(':'''
func (fieldValue FieldValue) Values() (result []interface{}) {
	switch fieldValue.value.(type) {
	case driver.Valuer, ValueProvider:
		return []any{fieldValue.singleValue()}
	}
	list := reflect.ValueOf(fieldValue.value)
	convert := element(reflect.TypeOf(fieldValue.value))
	if convert == nil {
		return []any{fieldValue.value}
	}
	result = make([]any, list.Len())
	for i := range result {
		result[i] = convert(list.Index(i).Interface())
	}
	return result
}

var (
	interfacesOnce sync.Once
	valuers        reflect.Type
)

// element gives the conversion of the elements of a list, nil if the type given is not a list to expand.
func element(list reflect.Type) func(any) any {
	interfacesOnce.Do(func() { valuers = reflect.TypeOf((*driver.Valuer)(nil)).Elem() })
	switch {
	case list == nil || list.Kind() != reflect.Slice:
		return nil
	case list == reflect.TypeOf([]string(nil)):
		return func(x any) any { return x }
	case list == reflect.TypeOf([]ValueProvider(nil)):
		return func(x any) any { return x.(ValueProvider).DatabaseValue() }
	case list.Elem().Implements(valuers):
		return func(x any) any {
			valuer, _ := x.(driver.Valuer)
			return translateValuer(valuer)
		}
	}
	return nil
}
'''})
    put('values_map.go',['slices','fmt','errors'],fns={
'(valuesMap ValuesMap) FieldValues(':'''
func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
	res := make([]FieldValue, 0, len(valuesMap))
	var errs []error
	for k, v := range valuesMap {
		if err := FieldName(k).Validate(); err != nil {
			errs = append(errs, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err))
			continue
		}
		res = append(res, *NewFieldValue(FieldName(k), v))
	}
	if err := errors.Join(errs...); err != nil {
		return nil, err
	}
	return res, nil
}
'''})
    put('operations.go',[],fns={
'And(':'''
func And(condition Condition, additionalConditions ...Condition) Condition {
	if len(additionalConditions) == 0 {
		return LogicalAND.Join(condition)
	}
	return combined(LogicalAND, condition).And(additionalConditions...)
}

// combined gives the condition as a group.
func combined(join JoinType, condition Condition) Group {
	switch typed := condition.(type) {
	case Group:
		return typed
	default:
		return NewGroup(join, condition)
	}
}
''',
'Or(':'''
func Or(condition Condition, additionalConditions ...Condition) (joined Condition) {
	joined = condition
	if len(additionalConditions) > 0 {
		joined = combined(LogicalOR, condition).GroupOR(additionalConditions...)
	}
	return LogicalOR.Join(joined)
}
'''})
    put('group.go',['slices'],fns={
'(conditionsGroup Group) addConditions(':'''
func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
	conditions = skipEmptyGroups(conditions)
	if len(conditions) == 0 {
		return conditionsGroup
	}
	if conditionsGroup.IsNegate() {
		wrapped := Group{BaseCondition: BaseCondition{joinType: conditionsGroup.joinType}}
		if len(conditionsGroup.conditions) > 0 {
			wrapped.conditions = []Condition{conditionsGroup}
		}
		conditionsGroup = wrapped
	}
	if len(conditionsGroup.conditions) == 0 {
		conditionsGroup.joinType, conditionsGroup.conditions = op, conditions
		return conditionsGroup
	}
	if len(conditions) > 1 {
		return conditionsGroup.addGroup(Group{BaseCondition: BaseCondition{joinType: op}, conditions: conditions})
	}
	return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
}
''',
'(conditionsGroup Group) enclosed(':'''
func (conditionsGroup Group) enclosed(condition Condition) Condition {
	child, isGroup := asGroup(condition)
	if !isGroup {
		return condition
	}
	alone := len(conditionsGroup.conditions) == 1
	if alone && conditionsGroup.negate && child.isJoined() {
		return child.WithBrackets()
	}
	if !alone && child.mixesOR() && conditionsGroup.hasOne(LogicalAND) {
		child.withBrackets = true
		return child
	}
	return condition
}
'''})
    put('select_many.go',['strconv','slices','fmt','strings'],fns={
'(query SelectManyBuilder) BuildQueryAndParams(':'''
func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams(); err != nil {
		return "", nil, err
	}
	sql += query.ordering()
	for _, part := range query.paging() {
		params = append(params, part.value)
		sql = fmt.Sprintf("%s %s $%d", sql, part.keyword, len(params))
	}
	return
}

type pagingPart struct {
	keyword string
	value   uint
}

func (query SelectManyBuilder) paging() (parts []pagingPart) {
	if query.offset != 0 {
		parts = append(parts, pagingPart{"OFFSET", query.offset})
	}
	if query.limit >= 1 {
		parts = append(parts, pagingPart{"LIMIT", uint(query.limit)})
	}
	return parts
}

func (query SelectManyBuilder) ordering() string {
	if len(query.order) == 0 {
		return ""
	}
	rendered := make([]string, 0)
	for i := range query.order {
		rendered = append(rendered, query.order[i].Render())
	}
	return " ORDER BY " + strings.Join(rendered, ", ")
}
''',
'(query SelectManyBuilder) Values(':'''
func (query SelectManyBuilder) Values() (params []any) {
	params = query.BaseSelectBuilder.Values()
	for _, part := range query.paging() {
		params = append(params, part.value)
	}
	return params
}
'''})
    put('join_tables.go',['strings','fmt'],fns={
'(tableJoiner TableJoiner) RenderFrom(':'''
func (tableJoiner TableJoiner) RenderFrom() string {
	return fmt.Sprintf("%v %s %v %s", tableJoiner.joinType, tableJoiner.rightTable.RenderFrom(), kwOn, tableJoiner.joinCondition.Render())
}
'''})
    put('join_type.go',['strconv','fmt'],fns={
'(join TableJoinType) String(':'''
func (join TableJoinType) String() string {
	names := [...]string{InnerJoin: "INNER", LeftJoin: "LEFT", RightJoin: "RIGHT", FullJoin: "FULL"}
	if join < 0 || int(join) >= len(names) {
		return fmt.Sprintf("unknown JOIN(%d)", int(join))
	}
	return names[join] + " JOIN"
}
'''})
    put('op_type.go',['strconv'],fns={
'(op Operation) String(':'''
func (op Operation) String() string {
	known := map[Operation]interface{ String() string }{
		DoSelect: kwSelect,
		DoInsert: kwInsert,
		DoUpdate: kwUpdate,
		DoDelete: kwDelete,
	}
	if kw, ok := known[op]; ok {
		return kw.String()
	}
	return "unknown(" + strconv.FormatInt(int64(op), 10) + ")"
}
'''})
if which=='F':
    put('field_definition.go',['regexp','strings','fmt','unicode/utf8','unicode'],fns={
'FieldOrError[':'''
var asWord = regexp.MustCompile("(?i)^as$")

// scanWords splits text by unicode blanks.
func scanWords(text string) (words []string) {
	start := -1
	for i := 0; i < len(text); {
		r, size := utf8.DecodeRuneInString(text[i:])
		switch {
		case unicode.IsSpace(r) && start >= 0:
			words = append(words, text[start:i])
			start = -1
		case !unicode.IsSpace(r) && start < 0:
			start = i
		}
		i += size
	}
	if start >= 0 {
		words = append(words, text[start:])
	}
	return words
}

func FieldOrError[T FieldNameParameter](fieldName T) (*FieldDefinition, error) {
	var text string
	switch value := any(fieldName).(type) {
	case FieldDefinition:
		return &value, nil
	case FieldName:
		text = value.String()
	case string:
		text = value
	}
	var def FieldDefinition
	words := scanWords(text)
	switch len(words) {
	case 3:
		if !asWord.MatchString(words[1]) {
			goto bad
		}
		def.alias = words[2]
		fallthrough
	case 1:
		if !isFieldReference(words[0]) {
			goto bad
		}
		if table, name, qualified := strings.Cut(words[0], "."); qualified {
			def.tableName, def.fieldName = table, name
		} else {
			def.fieldName = words[0]
		}
		return &def, nil
	}
bad:
	return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, text)
}
''',
'isFieldReference(':'''
func isFieldReference(token string) bool {
	dots := 0
	for _, b := range []byte(token) {
		if b == '.' {
			dots++
		}
	}
	last := len(token) - 1
	return dots == 0 || dots == 1 && token[0] != '.' && token[last] != '.'
}
'''})
    put('table_ident.go',['regexp','strings','fmt','bytes'],fns={
'TableOrError[':'''
var tableAlias = regexp.MustCompile("^(?:[aA][sSſ])$")

func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
	var words [][]byte
	switch typed := any(name).(type) {
	case TableIdent:
		return &typed, nil
	case string:
		words = bytes.Fields([]byte(typed))
	case TableName:
		words = bytes.Fields([]byte(typed))
	}
	if len(words) == 3 && tableAlias.Match(words[1]) {
		words = append(words[:1], words[2])
	}
	if n := len(words); n != 1 && n != 2 {
		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
	}
	ident := TableIdent{name: string(words[0])}
	if last := words[len(words)-1]; !bytes.Equal(last, words[0]) {
		ident.alias = string(last)
	}
	return &ident, nil
}
'''})
    put('values_map.go',['errors','fmt','maps','slices','strings'],fns={
'(valuesMap ValuesMap) FieldValues(':'''
func (valuesMap ValuesMap) FieldValues() (values []FieldValue, err error) {
	values = []FieldValue{}
	keys := make([]string, 0, len(valuesMap))
	for key := range maps.Clone(valuesMap) {
		keys = append(keys, key)
	}
	slices.SortFunc(keys, strings.Compare)
	for _, key := range keys {
		name := FieldName(key)
		if invalid := name.Validate(); invalid != nil {
			return nil, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, name), invalid)
		}
		values = append(values, FieldValue{FieldDefinition: Field(name), value: valuesMap[key]})
	}
	return values, nil
}
'''})
    put('utils.go',['container/list'],fns={
'UniqFieldNames(':'''
type ordered[T comparable] struct {
	items *list.List
	known map[T]*list.Element
}

func (o *ordered[T]) add(item T) {
	if _, ok := o.known[item]; !ok {
		o.known[item] = o.items.PushBack(item)
	}
}

func UniqFieldNames(a []FieldName) []FieldName {
	set := ordered[FieldName]{items: list.New(), known: map[FieldName]*list.Element{}}
	for _, name := range a {
		set.add(name)
	}
	res := make([]FieldName, 0, set.items.Len())
	for e := set.items.Front(); e != nil; e = e.Next() {
		res = append(res, e.Value.(FieldName))
	}
	return res
}
'''})
    put('field_name.go',['errors','fmt','strings','unicode','regexp'],fns={
'(fn FieldName) Validate(':'''
type nameRule struct {
	broken func(string) bool
	reason string
}

var nameRules = []nameRule{
	{regexp.MustCompile("'").MatchString, "field name contains quote character"},
	{regexp.MustCompile("\\"").MatchString, "field name contains double quote character"},
	{func(s string) bool { return len(strings.FieldsFunc("x"+s+"x", unicode.IsSpace)) > 1 }, "field name contains space character"},
	{func(s string) bool { return strings.IndexByte(s, '.') != strings.LastIndexByte(s, '.') }, "too many dots inside field name"},
	{func(s string) bool { return s == "" }, "empty field name"},
	{func(s string) bool { _, ok := strings.CutSuffix(s, "."); return ok }, "field name could not end with dot"},
	{func(s string) bool { _, ok := strings.CutPrefix(s, "."); return ok }, "field name could not start with dot"},
}

func (fn FieldName) Validate() error {
	for _, rule := range nameRules {
		if rule.broken(string(fn)) {
			return fmt.Errorf("%w: %s", Error, rule.reason)
		}
	}
	return nil
}
'''})
    put('update.go',['slices','strings','fmt','strconv'],fns={
'(updater UpdateBuilder) fieldsAndValues(':'''
func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
	var text []byte
	for i, value := range updater.setValues {
		if i > 0 {
			text = append(text, ", "...)
		}
		text = fmt.Appendf(text, "%[2]s=$%[1]d", i+1, value.fieldName)
		params = slices.Insert(params, len(params), value.singleValue())
	}
	return string(text), params
}
'''})
    put('insert.go',['slices','strings','fmt','strconv'],fns={
'(inserter InsertBuilder) Values(':'''
func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
	inserter.setValues = append(append([]FieldValue(nil), inserter.setValues...), values...)
	return inserter
}
'''})
    put('group.go',['slices','cmp'],fns={
'(conditionsGroup Group) hasOne(':'''
func (conditionsGroup Group) hasOne(joinType JoinType) bool {
	if len(conditionsGroup.conditions) < 2 {
		return false
	}
	return slices.ContainsFunc(conditionsGroup.conditions[1:], func(c Condition) bool { return cmp.Compare(c.JoinType(), joinType) == 0 })
}
''',
'(conditionsGroup Group) hasAll(':'''
func (conditionsGroup Group) hasAll(joinType JoinType) bool {
	tail := conditionsGroup.conditions[min(1, len(conditionsGroup.conditions)):]
	return -1 == slices.IndexFunc(tail, func(c Condition) bool { return joinType != c.JoinType() })
}
''',
'(conditionsGroup Group) Values(':'''
func (conditionsGroup Group) Values() (values []interface{}) {
	lists := make([][]any, 1, 1+len(conditionsGroup.conditions))
	lists[0] = []any{}
	for _, condition := range conditionsGroup.conditions {
		lists = append(lists, condition.Values())
	}
	for len(lists) > 1 {
		lists = append([][]any{append(lists[0], lists[1]...)}, lists[2:]...)
	}
	return lists[0]
}
'''})
    put('lib_in.go',['strings','strconv','bytes','text/template'],fns={
'(impl in) Render(':'''
func (impl in) Render(paramNum int) string {
	return impl.renderAny(func() string {
		paramNum++
		return "$" + strconv.FormatInt(int64(paramNum), 10)
	})
}

type placeholder func() string

func (impl in) renderAny(next placeholder) string {
	buf := bytes.NewBufferString(impl.RenderField())
	buf.WriteByte(' ')
	if not := impl.RenderNegate(); impl.IsNegate() {
		buf.WriteString(not + " ")
	}
	buf.WriteString(inSymbol + " (")
	for i, n := 0, len(impl.Values()); i < n; i++ {
		if i != 0 {
			buf.WriteRune(',')
		}
		buf.WriteString(next())
	}
	buf.WriteString(")")
	return buf.String()
}
''',
'(impl in) RenderSQL(':'''
func (impl in) RenderSQL() (sql string) {
	return impl.renderAny(func() string { return "?" })
}
'''})
    put('lib_equal.go',['strings','strconv'],tail='''
// mapper keeps its text.
func mapper(text string) string {
	return strings.Map(func(r rune) rune { return r }, strings.ToValidUTF8(text, "?"))
}

var _ = mapper
''',fns={})
    put('value.go',['database/sql/driver','fmt','reflect','errors'],fns={
'translateValuer(':'''
type valuerError struct {
	cause  error
	valuer driver.Valuer
}

func (e *valuerError) Error() string {
	return fmt.Sprintf("%v: translate value %v(%T): %v", Error, e.valuer, e.valuer, e.cause)
}

func (e *valuerError) Is(target error) bool { return target == Error }

func (e *valuerError) Unwrap() error { return e.cause }

func translateValuer(valuer driver.Valuer) (value any) {
	if valuer == nil {
		return value
	}
	var err error
	if value, err = valuer.Value(); err != nil {
		var known *valuerError
		if errors.As(err, &known) {
			panic(known)
		}
		panic(error(&valuerError{err, valuer}))
	}
	return value
}
'''})
    put('limiter.go',['strconv','strings'],fns={
'(query Limiter) Render(':'''
func (query Limiter) Render(paramNum int) (sql string) {
	return query.render(func() string { paramNum++; return "$" + strconv.Itoa(paramNum) })
}

func (query Limiter) clauses() map[string]uint {
	res := make(map[string]uint, 2)
	if query.offset != 0 {
		res["OFFSET"] = query.offset
	}
	if query.limit != 0 {
		res["LIMIT"] = query.limit
	}
	return res
}

func (query Limiter) render(next func() string) string {
	words := []string{}
	set := query.clauses()
	for _, kw := range [...]string{"OFFSET", "LIMIT"} {
		if _, ok := set[kw]; ok {
			words = append(words, kw, next())
		}
	}
	return strings.Join(words, " ")
}
''',
'(query Limiter) RenderSQL(':'''
func (query Limiter) RenderSQL() (sql string) {
	return query.render(func() string { return "?" })
}
''',
'(query Limiter) Values(':'''
func (query Limiter) Values() (params []any) {
	set, params := query.clauses(), []any{}
	for _, kw := range strings.SplitN("OFFSET LIMIT", " ", 2) {
		if n, ok := set[kw]; ok {
			params = append(params, n)
		}
	}
	return params
}
'''})
for f in glob.glob(os.path.join(d,'*.go')):
    os.system('gofmt -w '+f)
