from plants1 import D
P=[]
def p(*a,**k): P.append((a,k))
p('c06-pooled-values','C06','building a second statement before the first one is executed','the params handed out are overwritten by a later build',
 [('group.go','''	values = make([]interface{}, 0)

	for _, condition := range conditionsGroup.conditions {
		values = append(values, condition.Values()...)
	}
''','''	scratch := valuesPool.Get().(*[]interface{})
	values = (*scratch)[:0]

	for _, condition := range conditionsGroup.conditions {
		values = append(values, condition.Values()...)
	}

	*scratch = values
	valuesPool.Put(scratch)
'''),('group.go','''import (
	"slices"
)
''','''import (
	"slices"
	"sync"
)

// valuesPool keeps lists of values to use again.
var valuesPool = sync.Pool{New: func() any { return new([]interface{}) }}
''')],
 D('''	kept := make([][]any, 0)
	for i := 0; i < 50; i++ {
		_, params, _ := query.SelectFrom("t").Where(query.EqualTo("a", i), query.EqualTo("b", i)).Count().BuildQueryAndParams()
		kept = append(kept, params)
	}
	for i, params := range kept {
		if params[0] != i || params[1] != i {
			t.Fatal(i, params)
		}
	}'''))
p('c01-pooled-params','C01','a list of more than three conditions with an IN list','values of an inner group overwrite those collected before',
 [('group.go','''	values = make([]interface{}, 0)

	for _, condition := range conditionsGroup.conditions {
		values = append(values, condition.Values()...)
	}
''','''	values = make([]interface{}, 0, len(conditionsGroup.conditions))

	for idx, condition := range conditionsGroup.conditions {
		if inner := condition.Values(); len(inner) == 1 && idx > 2 && idx < len(values) {
			values[idx] = inner[0]
		} else {
			values = append(values, inner...)
		}
	}
''')],
 D('''	g := query.NewGroup(query.LogicalAND, query.In("a", []string{"x", "y", "z", "v", "w"}), query.IsNull("n"), query.IsNull("n"), query.EqualTo("b", 1))
	if len(g.Values()) != 6 {
		t.Error(g.Values())
	}'''))
p('c03-in-strings','C03','an IN list one string of which holds a question mark','the text depends on the values of the list',
 [('lib_in.go','''	for idx := range impl.Values() {
		placeholders[idx] = "?"
	}
''','''	for idx, value := range impl.Values() {
		placeholders[idx] = "?"
		if text, isText := value.(string); isText && strings.Contains(text, "?") {
			placeholders[idx] = "??"
		}
	}
''')],
 D('''	a, b := query.In("a", []string{"x"}).RenderSQL(), query.In("a", []string{"?"}).RenderSQL()
	if a != b {
		t.Errorf("%s != %s", a, b)
	}'''))
p('c05-negated-last','C05','a Where call after a Where call with a single negated group','the negation grows over the later conditions',
 [('where.go','''	updated = query
	updated.group = updated.group.GroupAND(conditions...)
''','''	updated = query
	if len(updated.group.conditions) == 1 && len(conditions) == 1 {
		if only, isGroup := updated.group.conditions[0].(Group); isGroup && only.IsNegate() {
			only.conditions = append(slices.Clone(only.conditions), conditions[0].Join(LogicalOR))
			updated.group.conditions = []Condition{only}
			return updated
		}
	}
	updated.group = updated.group.GroupAND(conditions...)
'''),('where.go','''package query
''','''package query

import (
	"slices"
)
''')],
 D('''	sql, _, _ := query.SelectFrom("t").Where(query.Not(query.NewGroup(query.LogicalOR, query.IsNull("a"), query.IsNull("b")))).Where(query.IsNull("c")).BuildQueryAndParams()
	if !strings.HasSuffix(sql, "AND c IS NULL") {
		t.Error(sql)
	}''',['strings']))
p('c07-op-count','C07','starting statements from several goroutines','an unsynchronised counter',
 [('op_type.go','''	return BaseBuilder{op: op}
''','''	started[op]++
	return BaseBuilder{op: op}
'''),('op_type.go','''	"strconv"
)
''','''	"strconv"
)

var started = map[Operation]uint{}
''')],
 D('''	var wait sync.WaitGroup
	for k := 0; k < 8; k++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			for i := 0; i < 100; i++ {
				query.DoInsert.New()
			}
		}()
	}
	wait.Wait()''',['sync']),race=True)
p('c07-parse-cache','C07','making fields of the same name from several goroutines','a cache is read outside of its lock',
 [('field_definition.go','''	tokens := strings.Fields(strName)
''','''	if known, found := parsedFields[strName]; found {
		return &known, nil
	}
	defer func() {
		if field != nil {
			parsedMutex.Lock()
			parsedFields[strName] = *field
			parsedMutex.Unlock()
		}
	}()
	tokens := strings.Fields(strName)
'''),('field_definition.go','''	"strings"
)
''','''	"strings"
	"sync"
)

var (
	parsedMutex  sync.Mutex
	parsedFields = map[string]FieldDefinition{}
)
''')],
 D('''	var wait sync.WaitGroup
	for k := 0; k < 8; k++ {
		wait.Add(1)
		go func() {
			defer wait.Done()
			for i := 0; i < 100; i++ {
				query.Field("a AS b")
			}
		}()
	}
	wait.Wait()''',['sync']),race=True)
p('c08-blank-table','C08','an UPDATE without a table name which has everything else','built although there is no table',
 [('update.go','''	case len(updater.tableName) == 0:
		return "", params, fmt.Errorf("%w: no table name set", Error)
''','''	case len(updater.tableName) == 0 && len(updater.setValues) < 2:
		return "", params, fmt.Errorf("%w: no table name set", Error)
''')],
 D('''	_, _, err := query.Update("").Set(query.FieldName("a").Value(1), query.FieldName("b").Value(1)).Where(query.IsNull("c")).BuildQueryAndParams()
	if err == nil {
		t.Error("built")
	}'''))
p('c09-single-update','C09','deriving an UPDATE with several values from a single-row SELECT','the order of values and conditions is changed',
 [('select_single.go','''	return Update(query.BaseSelectBuilder.baseTable).Where(query.where.Conditions()...).Set(values...)
''','''	updater := Update(query.BaseSelectBuilder.baseTable).Set(values...)
	for _, condition := range query.where.Conditions() {
		updater = updater.Where(condition)
	}
	return updater
''')],
 D('''	sql, _, _ := query.SelectSingleFrom("t").Where(query.IsNull("a"), query.Or(query.IsNull("b"))).Update(query.FieldName("c").Value(1)).BuildQueryAndParams()
	if sql != "UPDATE t SET c=$1 WHERE a IS NULL OR b IS NULL" {
		t.Error(sql)
	}'''))
p('c10-offset-zero-limit','C10','an offset without limit together with an ordering','paging stands before ORDER BY',
 [('select_many.go','''	if len(query.order) > 0 {
		sql += " ORDER BY "
		for idx, order := range query.order {''','''	if query.offset > 0 && query.limit <= 0 && len(query.order) > 2 {
		params = append(params, query.offset)
		sql += " OFFSET $" + strconv.Itoa(len(params))
		query.offset = 0
	}

	if len(query.order) > 0 {
		sql += " ORDER BY "
		for idx, order := range query.order {''')],
 D('''	sql, _, _ := query.SelectManyFrom("t").OrderBy(query.ASC("a"), query.ASC("b"), query.ASC("c")).Offset(2).BuildQueryAndParams()
	if !strings.HasSuffix(sql, "c ASC OFFSET $1") {
		t.Error(sql)
	}''',['strings']))
p('c10-fields-star','C10','a list of fields holding a star besides others','other fields are dropped',
 [('fields.go','''		fieldSpecs[idx] = spec.RenderSpec()
	}

	return strings.Join(fieldSpecs, ", ")
''','''		fieldSpecs[idx] = spec.RenderSpec()
		if fieldSpecs[idx] == "*" {
			return "*"
		}
	}

	return strings.Join(fieldSpecs, ", ")
''')],
 D('''	sql, _, _ := query.SelectFrom("t").Fields(query.Field("*"), query.Field("a").As("b")).BuildQueryAndParams()
	if sql != "SELECT *, a AS b FROM t" {
		t.Error(sql)
	}'''))
p('c11-set-qualified','C11','an UPDATE setting a field of another table','the column is qualified',
 [('update.go','''		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
''','''		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
		if len(fieldValue.tableName) > 0 && fieldValue.tableName != string(updater.tableName) {
			kwPairs[idx] = fieldValue.tableName + "." + kwPairs[idx]
		}
''')],
 D('''	sql, _, _ := query.Update("t").Set(query.Field("u.a").Value(1)).Where(query.IsNull("b")).BuildQueryAndParams()
	if sql != "UPDATE t SET a=$1 WHERE b IS NULL" {
		t.Error(sql)
	}'''))
p('c12-on-last-table','C12','several joins of the same table one after another','On fills in the wrong join',
 [('join_unfinished.go','''	updated = joiner.SelectManyBuilder
	updated.joins = slices.Clone(updated.joins)
	unfinishedJoinIdx := len(updated.joins) - 1
''','''	updated = joiner.SelectManyBuilder
	updated.joins = slices.Clone(updated.joins)
	unfinishedJoinIdx := slices.IndexFunc(updated.joins, func(join TableJoiner) bool {
		return join.rightTable == updated.joins[len(updated.joins)-1].rightTable
	})
''')],
 D('''	sql, _, _ := query.SelectManyFrom("t").InnerJoin("u").On(query.Field("t.a"), query.Field("u.a")).
		LeftJoin("u").On(query.Field("t.b"), query.Field("u.b")).BuildQueryAndParams()
	if sql != "SELECT * FROM t INNER JOIN u ON t.a=u.a LEFT JOIN u ON t.b=u.b" {
		t.Error(sql)
	}'''))
p('c13-as-in-name','C13','a specification with AS where name or alias is the word AS itself','the alias is not taken',
 [('field_definition.go','''	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && strings.Contains(tokens[0], "."):
		nameTokens''','''	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && strings.ToUpper(tokens[2]) != "AS" && strings.Contains(tokens[0], "."):
		nameTokens''')],
 D('''	if f, err := query.FieldOrError("t.a AS as"); err != nil || f.Alias() != "as" {
		t.Error(f, err)
	}'''))
p('c14-quoted','C14','a table name in double quotes holding a blank','quotes group words',
 [('table_ident.go','''	tokens = strings.Fields(strTableName)
''','''	tokens = strings.Fields(strTableName)
	if len(tokens) == 2 && strings.HasPrefix(tokens[0], "\\"") && strings.HasSuffix(tokens[1], "\\"") {
		tokens = []string{strings.TrimSpace(strTableName)}
	}
''')],
 D('''	id, err := query.TableOrError("\\"a b\\"")
	if err != nil || id.Alias() != "b\\"" {
		t.Error(id, err)
	}'''))
p('c15-high-bytes','C15','a name with letters outside of ASCII','refused',
 [('field_name.go','''	case len(fnStr) == 0:
''','''	case len(fnStr) > 3 && strings.ContainsRune(fnStr, '\\u00df'):
		return fmt.Errorf("%w: field name contains unsupported character", Error)
	case len(fnStr) == 0:
''')],
 D('''	if err := query.FieldName("straße").Validate(); err != nil {
		t.Error(err)
	}'''))
p('c16-same-alias','C16','a field whose alias equals its table name','the alias is taken for the table',
 [('field_definition.go','''		return fieldIdent.alias
''','''		if fieldIdent.alias == fieldIdent.tableName {
			return fieldIdent.tableName + "." + fieldIdent.fieldName
		}
		return fieldIdent.alias
''')],
 D('''	if sql := query.Field("a").Of("t").As("t").RenderField(); sql != "t" {
		t.Error(sql)
	}'''))
p('c17-provider-chain','C17','a ValueProvider giving a driver.Valuer','the provided value is translated once more',
 [('value.go','''	case ValueProvider:
		return []any{typedValue.DatabaseValue()}
''','''	case ValueProvider:
		provided := typedValue.DatabaseValue()
		if valuer, isValuer := provided.(driver.Valuer); isValuer {
			return []any{translateValuer(valuer)}
		}
		return []any{provided}
''')],
 '''package query_test

import (
	"database/sql"
	"testing"

	"github.com/amarin/query"
)

type state struct{}

func (state) DatabaseValue() any { return sql.NullInt64{Int64: 5, Valid: true} }

func TestPlantedDemo(t *testing.T) {
	values := query.NewFieldValue("a", state{}).Values()
	if _, kept := values[0].(sql.NullInt64); !kept {
		t.Error(values)
	}
}
''')
p('c20-order-value','C20','a map with keys which differ in the table only','values are swapped',
 [('values_map.go','''		res[idx] = *NewFieldValue(fieldName, v)
''','''		res[idx] = *NewFieldValue(fieldName, v)
		if idx > 0 && res[idx].fieldName == res[idx-1].fieldName && res[idx].tableName < res[idx-1].tableName {
			res[idx].value, res[idx-1].value = res[idx-1].value, res[idx].value
		}
''')],
 D('''	for i := 0; i < 200; i++ {
		values, _ := (query.ValuesMap{"t.a": "t", "u.a": "u"}).FieldValues()
		for _, value := range values {
			if string(value.TableName()) != value.Values()[0] {
				t.Fatal(values)
			}
		}
	}'''))
p('c21-both','C21','limit equal to offset','one of the two numbers is lost',
 [('limiter.go','''	case query.offset > 0 && query.limit > 0:
''','''	case query.offset > 0 && query.offset == query.limit && query.limit > 1<<20:
		params = append(params, query.offset)
	case query.offset > 0 && query.limit > 0:
''')],
 D('''	if params := (query.Limiter{}).Offset(5000000).Limit(5000000).Values(); len(params) != 2 {
		t.Error(params)
	}'''))
p('c23-pointer-user','C23','a user condition given by pointer whose JoinType changes with rendering','a user condition is rendered twice',
 [('group.go','''		sql += conditionsGroup.enclosed(condition).Render(parametersCount)
		parametersCount += len(condition.Values())
''','''		text := conditionsGroup.enclosed(condition).Render(parametersCount)
		sql += text
		if len(text) > 0 {
			parametersCount += strings.Count(text, "$")
		}
'''),('group.go','''import (
	"slices"
''','''import (
	"slices"
	"strings"
''')],
 '''package query_test

import (
	"testing"

	"github.com/amarin/query"
)

type twice struct{ query.Condition }

func (c twice) Render(n int) string { return "a BETWEEN $1 AND $1" }

func (c twice) Values() []any { return []any{1} }

func (c twice) Join(query.JoinType) query.Condition { return c }

func TestPlantedDemo(t *testing.T) {
	sql := query.NewGroup(query.LogicalAND, twice{query.IsNull("a")}, query.EqualTo("b", 1)).Render(0)
	if sql != "a BETWEEN $1 AND $1 AND b=$2" {
		t.Error(sql)
	}
}
''')
p('c24-select-one','C24','SelectOne of a table name carrying an alias','differs from the long form',
 [('table_name.go','''	return SelectSingleFrom(tableName).Where(filterConditions...)
''','''	return SelectSingleFrom(tableName.Ident().TableName()).Where(filterConditions...)
''')],
 D('''	short, _, _ := query.TableName("t AS u").SelectOne().BuildQueryAndParams()
	long, _, _ := query.SelectSingleFrom(query.TableName("t AS u")).BuildQueryAndParams()
	if short != long {
		t.Errorf("%s != %s", short, long)
	}'''))
p('c24-join-constant','C24','a right join of a many-rows builder','another join kind',
 [('join_type.go','''	return leftTable.Select().joinIdent(rightTable, join)
''','''	if join == RightJoin && len(leftTable.alias) > 0 { // the same, seen from the other side
		return rightTable.Select().joinIdent(leftTable, LeftJoin)
	}
	return leftTable.Select().joinIdent(rightTable, join)
''')],
 D('''	l, r := query.Table("t AS u"), query.Table("s")
	a, b := query.Field("u.a"), query.Field("s.a")
	short, _, _ := query.RightJoin.Tables(l, r).On(a, b).BuildQueryAndParams()
	long, _, _ := query.SelectFrom(l).Join(r, query.RightJoin).On(a, b).BuildQueryAndParams()
	if short != long {
		t.Errorf("%s != %s", short, long)
	}'''))
if __name__=='__main__':
    import sys, plantlib, os
    if os.environ.get('SEEDS'): plantlib.ROOT=os.environ['SEEDS']
    want=sys.argv[1:]
    for a,k in P:
        if want and a[0] not in want: continue
        try: plantlib.create(*a,**k); print(a[0],plantlib.verify(a[0]),flush=True)
        except Exception as e: print(a[0],'ERR',e,flush=True)
