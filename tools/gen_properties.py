#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

CONDS = ["lib_equal.go","lib_gt.go","lib_gte.go","lib_lt.go","lib_lte.go","lib_like.go","lib_ilike.go","lib_in.go","lib_isnull.go"]

prop("C01","Every built statement binds each value to its own placeholder",
 "Whenever BuildQueryAndParams of any builder (base/single/many SELECT, COUNT, UPDATE, INSERT, DELETE) succeeds, its SQL contains the placeholders $1..$n exactly once each, in ascending order of appearance, and n equals the number of returned params. The k-th param is the value that was supplied for the column, condition operand, offset or limit at which $k stands.",
 ["inputs","programs"],
 "every statement kind, every number and kind of conditions (nested or not), set values and IN lists, every value, with or without offset/limit",
 "Tests fix a few statements with at most four params; a numbering or ordering slip needs a particular mix of clauses, list lengths and nesting.",
 ["select_base.go","select_many.go","select_single.go","count.go","update.go","insert.go","delete.go","group.go","value.go"]+CONDS,
 [("parameter counter threaded through conditions","group.go Group.Render"),("params appended after SET values","update.go UpdateBuilder.BuildQueryAndParams"),("offset/limit appended last","select_many.go SelectManyBuilder.BuildQueryAndParams")],
 ["BuildQueryAndParams() (sql, params, err)"])

prop("C02","'?' and '$N' renderings of a clause agree, for every starting number",
 "For every condition, condition group, where clause, limiter and SELECT builder, Render(n) carries placeholders numbered n+1..n+k in ascending order where k is the number of Values(), for every n>=0. RenderSQL() equals Render(n) with each numbered placeholder replaced by '?'; for SELECT builders BuildQueryAndParams returns the same text as Render(0) and the same values as Values().",
 ["inputs","programs"],
 "every n >= 0 in the stated range, every clause shape, negated or not, every value list length",
 "Tests check one or two starting numbers per condition type and never compare the two renderings of the same clause.",
 ["group.go","where.go","limiter.go","select_base.go","select_many.go","select_single.go"]+CONDS,
 [("Render/RenderSQL pair per clause","lib_*.go, group.go, limiter.go, select_base.go")],
 ["Render(int)","RenderSQL()","Values()"])

prop("C03","Parameter values never influence the SQL text",
 "The SQL text of any statement or clause depends only on identifiers, structure, and how many elements an IN list has, and on whether offset/limit are set: replacing any supplied value by any other value of the same kind leaves the text unchanged byte for byte. No byte of a value is ever interpolated into SQL.",
 ["inputs"],
 "every pair of value assignments (strings with arbitrary bytes, integers, bools, nil, lists of equal length) to the same statement",
 "It is a two-run (non-interference) property over all values; tests use single fixed values.",
 CONDS+["value.go","update.go","insert.go","select_many.go","limiter.go"],
 [("placeholders instead of literals","lib_*.go Render, update.go, insert.go, limiter.go")],
 ["BuildQueryAndParams","Render","RenderSQL"])

prop("C04","Rendered condition means what And/Or/Not composition says",
 "Read with SQL precedence (NOT over AND over OR, parentheses), the rendered condition is logically equivalent to the composition requested through the API: x.And(c1..cn) / And(x,c1..cn) is x AND (list), x.Or(c1..cn) / Or(x,c1..cn) is x OR (list), Not(c) and Negate(true) make the whole of c negated (Negate(false) clears it again), NewGroup(j,..) joins all its members with j, where (list) combines its members by each member's own JoinType() (AND unless made OR, e.g. with a one-argument Or(c)). Bracketing, nesting and flattening never change the meaning; groups without any condition are neutral.",
 ["programs","inputs"],
 "every composition up to the stated depth and arity over every built-in condition kind, and every truth assignment of the leaves",
 "Tests pin the text of a few dozen shallow compositions; meaning is lost only in particular nestings (group inside a list, negated group, several additional conditions).",
 ["group.go","operations.go","logical.go","base.go"]+CONDS,
 [("bracketing and flattening rules","group.go addGroup, addSingleCondition, addConditions"),("join token and negate prefix","group.go Group.Render/RenderSQL"),("And/Or helpers","operations.go")],
 ["Condition.Render","Condition.RenderSQL","Condition.And","Condition.Or","Not","NewGroup"])

prop("C05","Successive Where calls only narrow the selection",
 "For SELECT (base, single, many), COUNT, UPDATE and DELETE builders the rendered WHERE of b.Where(A...).Where(B...) is equivalent to (A) AND (B), whatever the shapes of A and B; a Where call without conditions changes nothing. A row rejected by any earlier Where call can never be selected, updated or deleted.",
 ["programs","histories"],
 "every history of up to three Where calls with lists of up to three conditions, including disjunctions, negations and nested groups, and every truth assignment",
 "Tests call Where twice only with plain conjunctive leaves.",
 ["where.go","group.go","select_base.go","select_many.go","select_single.go","update.go","delete.go","count.go"],
 [("GroupAND over accumulated group","where.go WhereClause.GroupAND, group.go addConditions")],
 ["Where(...)","BuildQueryAndParams"])

prop("C06","Builders, conditions and clauses are immutable",
 "Deriving anything from a builder, condition, group, field list, table or field definition (any exported method that returns an updated copy, including finishing a join with On) never changes what the original, or anything derived from it earlier or later, renders, builds or reports. Building or rendering is repeatable, and the slices of conditions, fields, orderings, field values and params passed in or handed out never let the caller alter an object.",
 ["histories","programs"],
 "every history of derivations (chains and siblings) up to the stated length from one ancestor, observed after every step",
 "Tests hardly ever look at an ancestor after deriving from it; sharing only shows with particular slice capacities after several additions.",
 ["select_base.go","select_many.go","select_single.go","update.go","insert.go","delete.go","group.go","where.go","fields.go","join_unfinished.go","ordering.go","limiter.go","table_ident.go","field_definition.go","value.go"],
 [("value receivers plus slice copies","every builder method using append"),("On patches the last join","join_unfinished.go")],
 ["BuildQueryAndParams","Render","Values","SetValues","FieldDefinitions","Conditions"],
 [dict(name="backing arrays of conditions/joins/order/setValues",meaning="shared between derived builders unless copied",where="group.go, select_*.go, update.go, insert.go")])

prop("C07","Deriving and building from shared objects writes no shared memory",
 "No exported method of a builder, condition, group, clause, field or table object writes to memory that existed before the call (the object itself, anything it references, slices handed in by the caller, or package-level state). Hence any number of goroutines may derive from, render and build the same shared object concurrently without a data race, under every schedule.",
 ["schedules","histories"],
 "every schedule of concurrent derivations/builds: reduced to write-freedom of every single operation from every reachable shared object up to the stated history length",
 "Tests are single-threaded; a racy write shows only under the race detector with a specific interleaving and capacity.",
 ["group.go","select_base.go","select_many.go","select_single.go","update.go","insert.go","join_unfinished.go","where.go","fields.go"],
 [("copy before modify","every derivation method")],
 ["all exported derivation, render and build methods"])

prop("C08","Incomplete writes are refused, with an error marked as query.Error",
 "BuildQueryAndParams of UPDATE and DELETE returns an error, empty SQL and no params whenever there is no effective condition (none added, or only empty groups) or no table name, UPDATE and INSERT whenever no value is set, INSERT whenever there is no table name; otherwise it returns a nil error and, for UPDATE and DELETE, a statement whose WHERE part is not empty. Every error returned anywhere in the package satisfies errors.Is(err, query.Error).",
 ["inputs","histories"],
 "every combination of table name, set values and Where histories (including calls without conditions and with empty groups)",
 "Tests cover single missing pieces with one call each.",
 ["update.go","delete.go","insert.go","group.go","base.go","field_definition.go","table_ident.go","field_name.go","values_map.go"],
 [("guard switch before rendering","update.go, delete.go, insert.go BuildQueryAndParams")],
 ["BuildQueryAndParams","FieldOrError","TableOrError","Validate","FieldValues"])

prop("C09","Converting a builder keeps its table, conditions and fields",
 "Count(), Update(), Delete(), InsertInto(), Single(), Many() and the *FromBase constructors derive a statement of the requested kind over the same base table whose WHERE is equivalent to that of the source, with the same condition values in the same order. Single/Many/Count keep all joins; Single/Many keep the field list; Update/Insert carry exactly the given values, and the resulting Operation() is that of the target kind.",
 ["programs","histories"],
 "every source builder kind, Where history, join list, field list and value list up to the stated sizes",
 "Tests convert one builder with one condition.",
 ["select_base.go","select_many.go","select_single.go","count.go","update.go","delete.go","insert.go","table_ident.go","table_name.go"],
 [("where.Conditions() handed to the new builder","select_*.go Update/Delete"),("Count over base builder","count.go Count")],
 ["Count","Update","Delete","InsertInto","Single","Many","BuildQueryAndParams"])

prop("C10","SELECT statements contain exactly the configured clauses in SQL order",
 "A SELECT renders SELECT, the field list in the order given to the last Fields call ('*' if empty), FROM with the base table (with alias) and all joins in call order, WHERE iff there are conditions, then for Many ORDER BY iff orderings were added (in call order with their directions), OFFSET iff offset>0 and LIMIT iff limit>0, and for Single always LIMIT 1; COUNT renders SELECT COUNT(field or *) with the same FROM and WHERE. The later of two Offset, Limit or Fields calls wins while Where and OrderBy accumulate, and nothing set earlier is lost whatever the call order.",
 ["programs","histories","inputs"],
 "every sequence of configuration calls up to the stated length in any order, every identifier and every offset/limit value",
 "Tests pin about twenty statements with one call order each.",
 ["select_base.go","select_many.go","select_single.go","count.go","fields.go","ordering.go","table_ident.go"],
 [("token lists","select_base.go BuildQueryAndParams/Render/RenderSQL"),("paging suffix","select_many.go BuildQueryAndParams")],
 ["BuildQueryAndParams","RenderFrom","FieldList"])

prop("C11","UPDATE/INSERT/DELETE name exactly the given table and columns",
 "INSERT renders INSERT INTO table(c1, .., cn) VALUES ($1, .., $n), UPDATE renders UPDATE table SET c1=$1, .., cn=$n WHERE .., DELETE renders DELETE FROM table WHERE .., where c1..cn are the bare column names of all values ever added with Set/Values/constructor arguments in that order, each exactly once and with its own value. Calls accumulate: no value, condition or table is dropped, repeated or reordered.",
 ["programs","histories","inputs"],
 "every sequence of Set/Values/Where calls up to the stated length, every column/table identifier (qualified, aliased or not), every value kind",
 "Tests use at most three columns with single-value kinds.",
 ["update.go","insert.go","delete.go","value.go","table_name.go","table_ident.go"],
 [("column/value pairing loop","insert.go BuildQueryAndParams, update.go fieldsAndValues")],
 ["BuildQueryAndParams","SetValues","TableName"])

prop("C12","JOIN clauses keep type, table, alias and ON fields of every join",
 "For every builder and every way of starting a join (Join, InnerJoin, LeftJoin, RightJoin, FullJoin, TableJoinType.Tables, on builders, table names and table idents), the statement contains, in call order, one '<TYPE> JOIN <right table[ AS alias]> ON <left table.field>=<right table.field>' per join with exactly the given operands, and everything configured before or after is kept. Field aliases never appear in ON.",
 ["programs","histories","inputs"],
 "every join type, up to three joins, every identifier and alias (including alias equal to name), mixed with Where/Fields calls",
 "Tests use one join per statement on fixed names.",
 ["join_condition.go","join_tables.go","join_type.go","join_unfinished.go","select_base.go","select_many.go","select_single.go","table_ident.go","table_name.go"],
 [("unfinished join completed by On","join_unfinished.go"),("joiner rendering","join_tables.go RenderFrom")],
 ["RenderFrom","BuildQueryAndParams","TableJoiner.RenderFrom","JoinCondition.Render"])

prop("C13","Field specifications parse exactly as documented",
 "FieldOrError accepts exactly the documented forms 'name', 'table.name', 'name AS alias', 'table.name AS alias' (any case of AS, any blanks around tokens, non-empty parts, one dot at most in the qualified name) and splits them into exactly those parts; every other string gives an error. Field panics exactly when FieldOrError fails and otherwise returns the same definition; parsing what a parsed definition renders gives it back, up to an alias that repeats an unqualified field name.",
 ["inputs"],
 "every ASCII string up to the stated length, plus structured specifications with longer parts",
 "Tests try seven strings.",
 ["field_definition.go","field_name.go","fields.go"],
 [("token switch","field_definition.go FieldOrError")],
 ["FieldOrError","Field","NewFields","FieldName.Field"])

prop("C14","Table specifications parse exactly as documented",
 "TableOrError accepts exactly 'name', 'name alias' and 'name AS alias' (any case of AS, any blanks around tokens) and yields that name and alias, with an alias equal to the name dropped; every other string gives an error. Table panics exactly when TableOrError fails; an already built table ident passes through unchanged; As, Alias, TableName, RenderFrom and Field follow the same alias rule.",
 ["inputs"],
 "every ASCII string up to the stated length, plus structured specifications with longer parts",
 "Tests try a dozen strings.",
 ["table_ident.go","table_name.go"],
 [("token switch","table_ident.go TableOrError")],
 ["TableOrError","Table","TableIdent.As","RenderFrom"])

prop("C15","Validated field names are accepted and never reinterpreted",
 "Validate accepts a field name iff it is non-empty, has no quotes and no blanks, at most one dot, and no leading or trailing dot. For an accepted name Field, ASC, DESC, OrderBy and ValuesMap never panic and the name appears verbatim as the column reference (never split into an alias); ASC, DESC and OrderBy panic for every rejected name, and OrderBy for every direction other than Ascending/Descending, and otherwise sort in exactly the requested direction, Ascending by default.",
 ["inputs"],
 "every ASCII field name up to the stated length and every direction string",
 "Tests try eight names; validation is meant for untrusted input, so the gap between validator and parser matters for all strings.",
 ["field_name.go","ordering.go","field_definition.go","values_map.go"],
 [("Validate switch","field_name.go Validate"),("constructors","ordering.go")],
 ["FieldName.Validate","ASC","DESC","OrderBy","FieldSorting.Render"])

prop("C16","Fields render as documented in each clause",
 "A field in a SELECT list renders as [table.]name followed by AS alias when an alias is set that differs from the name or a table is set; in conditions and orderings it renders as the alias if one is set that differs from the name, else as [table.]name, and never contains an AS clause; in ON it renders as table.name. As and Of change just alias and table; TableName, FieldName, Alias report the parts.",
 ["inputs"],
 "every name, table and alias including equal ones and empty ones",
 "Tests try about ten combinations; equality of alias and name and conditions over aliased fields are not covered.",
 ["field_definition.go","fields.go","ordering.go"]+CONDS,
 [("RenderSpec/RenderField/RenderTableSpec","field_definition.go")],
 ["RenderSpec","RenderField","RenderTableSpec","FieldSorting.Render","Condition.Render","Fields.FieldList"])

prop("C17","Values reach the database exactly as their type dictates",
 "A value is bound unchanged unless it knows its database form: a driver.Valuer is bound as its Value(), a ValueProvider as its DatabaseValue(), and a failing Valuer makes building report it (by an error or a panic marked as query.Error) instead of being bound as if it had succeeded. Lists of strings, Valuers or ValueProviders expand element by element in order only inside IN, every other context binds exactly one param per value; Contains/IContains bind '%'+text+'%'.",
 ["inputs"],
 "every value of every supported kind, list lengths 0..4, every condition kind and INSERT/UPDATE column",
 "Tests check about twenty fixed values through FieldValue.Values only.",
 ["value.go","field_name.go","field_definition.go","lib_like.go","lib_ilike.go","lib_in.go","insert.go","update.go"],
 [("type switch and reflection","value.go FieldValue.Values")],
 ["FieldValue.Values","Condition.Values","BuildQueryAndParams params"])

prop("C18","Applying a field spec or table touches only what it names",
 "ApplyFieldSpec(spec) on a condition, group, where clause, field value or ordering replaces the field definition of exactly the members whose field name equals the spec's, and ApplyFieldTable(table) sets the table of every member; operators, values, negation, join types, nesting and all other members stay as they were. The receiver is unchanged and a new object is returned.",
 ["inputs","programs"],
 "every group shape up to the stated size, every combination of equal and different field names",
 "Tests apply a table to two flat groups; spec application is untested.",
 CONDS+["group.go","where.go","value.go","ordering.go"],
 [("per-type ApplyFieldSpec/ApplyFieldTable","lib_*.go, group.go, value.go, ordering.go")],
 ["ApplyFieldSpec","ApplyFieldTable","Render","Values"])

prop("C19","UniqFieldNames keeps each name once, in first-seen order",
 "The result of UniqFieldNames contains every name of the input exactly once, nothing else, in order of first occurrence, and the input slice is left unchanged.",
 ["inputs"],
 "every list up to the stated length of arbitrary names, in every pattern of repetitions",
 "Tests check three lists.",
 ["utils.go"],
 [("nested scan","utils.go UniqFieldNames")],
 ["UniqFieldNames"])

prop("C20","ValuesMap converts every entry, or reports an error",
 "FieldValues returns one field value per map entry, each carrying its own key as field name (split into table and name when qualified) and its own value, if every key is a valid field name; if any key is invalid it returns an error marked as query.Error and no values, whatever the map iteration order. It never panics and leaves the map as it was.",
 ["inputs","schedules"],
 "every map up to the stated size with arbitrary keys and values, every iteration order",
 "Tests only compare result lengths for three maps.",
 ["values_map.go","field_name.go","value.go"],
 [("validate before convert","values_map.go FieldValues")],
 ["ValuesMap.FieldValues"])

prop("C21","Paging clauses appear iff set and carry the exact numbers",
 "A Limiter renders OFFSET then LIMIT, each iff its number is non-zero, with Values() holding exactly those numbers in the same order; SelectMany does the same, with a limit of zero or below meaning no limit. Offset and Limit replace only their own number.",
 ["inputs","histories"],
 "every uint offset/limit, every int limit (negative, zero, maximal), every order of calls, every starting placeholder number",
 "Tests use numbers below ten.",
 ["limiter.go","select_many.go","select_base.go"],
 [("offset/limit tests","limiter.go Render/RenderSQL/Values, select_many.go BuildQueryAndParams")],
 ["Limiter.Render","Limiter.RenderSQL","Limiter.Values","SelectManyBuilder.BuildQueryAndParams"])

prop("C22","Operation and join kinds print their SQL keyword, others are flagged",
 "Operation prints SELECT, INSERT, UPDATE or DELETE and TableJoinType prints INNER/LEFT/RIGHT/FULL JOIN for their constants; for every other integer they print 'unknown(<n>)' and 'unknown JOIN(<n>)' with that integer. Each builder reports the operation of its statement kind.",
 ["inputs"],
 "every int value of both enumerations, every builder constructor",
 "Tests check the constants only.",
 ["op_type.go","join_type.go","keywords.go","build_base.go"],
 [("String switches","op_type.go, join_type.go")],
 ["Operation.String","TableJoinType.String","Operation()"])

prop("C23","Groups honour the contract of any user-defined condition",
 "Groups, where clauses and builders treat a user-implemented Condition through its interface only: its Render receives the number of values of everything placed before it, its text appears once and unmodified, what its RenderJoin returns stands before it and its JoinType() decides how it is joined, and all of its Values() appear once in order. Built-in and user conditions mix freely without disturbing each other's numbering.",
 ["programs","inputs"],
 "every user condition with 0..3 values of any content at any position in groups, lists and builders up to the stated size",
 "No test implements a Condition.",
 ["group.go","where.go","operations.go","logical.go","interfaces.go","select_base.go","update.go","delete.go","count.go"],
 [("interface dispatch in Group.Render/Values","group.go")],
 ["Condition interface","Group.Render","Group.Values","BuildQueryAndParams"])

prop("C24","Shorthands behave exactly like the long form they document",
 "Every convenience method (methods of table names, table idents and field names that start statements, joins, conditions or values; builder shortcuts such as InnerJoin, Limit, Offset, OrderBy, Count; *From constructors over string, TableName or TableIdent; TableJoinType and JoinCondition helpers) yields the same SQL, params and errors as the long form it abbreviates.",
 ["inputs","programs"],
 "every shorthand, every table/field identifier and value, every argument count up to the stated length",
 "Tests exercise a fraction of the shorthands, with fixed arguments.",
 ["table_name.go","table_ident.go","field_name.go","field_definition.go","select_base.go","select_many.go","select_single.go","join_type.go","join_condition.go","count.go"],
 [("delegation","table_name.go, table_ident.go, field_name.go, select_*.go")],
 ["all exported shorthands"])

prop("C25","Each comparison renders its own operator on its own field",
 "EqualTo, GreaterThan, GreaterOrEqual, Less, LessOrEqual, Contains, IContains, In and IsNull render exactly '<field> <operator> <placeholder(s)>' with the operators =, >, >=, <, <=, LIKE, ILIKE, IN (..), IS NULL, prefixed or infixed by NOT iff negated, and IN has exactly one placeholder per bound value. Join, Negate and Not change only the join type or the negation flag, each reported back by JoinType() and IsNegate(), and Not(c) negates whatever c's flag was.",
 ["inputs"],
 "every field reference, value and starting number, both negation states, every IN list length up to the stated bound",
 "Tests check each operator on one or two inputs; flags are not combined.",
 CONDS+["base.go","operations.go"],
 [("Render per condition type","lib_*.go"),("flags","base.go")],
 ["Render","RenderSQL","Values","Join","Negate","Not"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P))
