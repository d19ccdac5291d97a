package h

import (
	"strconv"

	"github.com/amarin/query"
	"verifharness/v"
)

// token kinds: 'w' word, '$' numbered placeholder, '?', '(' ')' ',' and 'o' operator characters.
type token struct {
	kind byte
	text string
	num  int
}

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '*'
}

// lex splits concrete SQL text into tokens.
func lex(sql string) (res []token) {
	for i := 0; i < len(sql); {
		c := sql[i]
		j := i + 1
		switch {
		case c == ' ':
		case isWord(c):
			for j < len(sql) && isWord(sql[j]) {
				j++
			}
			res = append(res, token{'w', sql[i:j], 0})
		case c == '$':
			n := 0
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				n = n*10 + int(sql[j]-'0')
				j++
			}
			res = append(res, token{'$', sql[i:j], n})
		case c == '(' || c == ')' || c == ',' || c == '?':
			res = append(res, token{c, sql[i:j], 0})
		default:
			for j < len(sql) && sql[j] != ' ' && sql[j] != '$' && sql[j] != '?' && sql[j] != '(' && sql[j] != ')' && sql[j] != ',' && !isWord(sql[j]) {
				j++
			}
			res = append(res, token{'o', sql[i:j], 0})
		}
		i = j
	}
	return res
}

// parser reads a condition with SQL precedence. Truth values of atoms come from truth.
type parser struct {
	toks  []token
	pos   int
	truth func(name string) bool
	bad   bool
	atoms []string // atom names in order of appearance
	marks []mark   // placeholders in order of appearance

	keyed  bool  // atoms are told apart by operator and concrete operands too
	params []any // operands for that
}

type mark struct {
	atom string
	num  int // 0 for '?'
}

func (p *parser) peek() token {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return token{}
}

func (p *parser) word(w string) bool {
	t := p.peek()
	return t.kind == 'w' && t.text == w
}

func (p *parser) or() bool {
	r := p.and()
	for p.word("OR") {
		p.pos++
		r = v.Or(r, p.and())
	}
	return r
}

func (p *parser) and() bool {
	r := p.not()
	for p.word("AND") {
		p.pos++
		r = v.And(r, p.not())
	}
	return r
}

func (p *parser) not() bool {
	if p.word("NOT") {
		p.pos++
		return v.Not(p.not())
	}
	if p.peek().kind == '(' {
		p.pos++
		r := p.or()
		if p.peek().kind != ')' {
			p.bad = true
		}
		p.pos++
		return r
	}
	return p.atom()
}

func keyword(w string) bool {
	switch w {
	case "AND", "OR", "NOT", "IN", "IS", "NULL", "LIKE", "ILIKE", "WHERE", "FROM", "ORDER", "BY", "LIMIT", "OFFSET":
		return true
	}
	return false
}

func (p *parser) atom() bool {
	t := p.peek()
	if t.kind != 'w' || keyword(t.text) {
		p.bad = true
		p.pos++
		return false
	}
	name := t.text
	p.pos++
	p.atoms = append(p.atoms, name)
	neg, depth, n := false, 0, 0
	key := name
	for p.pos < len(p.toks) {
		t = p.toks[p.pos]
		if depth == 0 && (t.kind == ')' || t.kind == 'w' && (t.text == "AND" || t.text == "OR")) {
			break
		}
		switch {
		case t.kind == '(':
			depth++
		case t.kind == ')':
			depth--
		case t.kind == 'w' && t.text == "NOT":
			neg = !neg
		case t.kind == '$':
			p.marks = append(p.marks, mark{name, t.num})
			key += p.operand(t.num)
		case t.kind == '?':
			p.marks = append(p.marks, mark{name, 0})
			key += p.operand(len(p.marks))
		case t.kind == 'o':
			key += t.text
		case t.kind == 'w' && !keyword(t.text): // two operands in a row
			p.bad = true
		}
		n++
		p.pos++
	}
	if n == 0 || depth != 0 {
		p.bad = true
	}
	if p.keyed {
		name = key
	}
	if neg {
		return v.Not(p.truth(name))
	}
	return p.truth(name)
}

// operand is the text of the n-th operand, which must be concrete.
func (p *parser) operand(n int) string {
	if !p.keyed || n < 1 || n > len(p.params) {
		return "?"
	}
	switch x := p.params[n-1].(type) {
	case int:
		return itoa(x)
	case string:
		return x
	}
	return "?"
}

// meaning parses a rendered condition completely.
func meaning(sql string, truth func(string) bool) (res bool, p *parser) {
	return parsed(&parser{toks: lex(sql), truth: truth})
}

// mean is meaning with the operands, for worlds whose atoms share columns.
func (w *world) mean(sql string, params []any) (res bool, p *parser) {
	return parsed(&parser{toks: lex(sql), truth: w.truth, keyed: w.shared > 0, params: params})
}

func parsed(p *parser) (res bool, q *parser) {
	res = p.or()
	if p.pos != len(p.toks) {
		p.bad = true
	}
	return res, p
}

func itoa(n int) string { return strconv.Itoa(n) }

// leaf is an atomic condition with all facts the oracles need.
type leaf struct {
	c    query.Condition
	name string
	kind int
	vals []any              // values it must bind, in order
	text func(n int) string // expected text when n params stand before it
}

const nKinds = 12

// names of the kinds, for reports
var kindNames = []string{"EqualTo", "In2", "IsNull", "Contains", "User1", "GreaterThan", "GreaterOrEqual", "Less", "LessOrEqual", "IContains", "In1", "User2"}

// mk builds an atomic condition of the given kind over column name, with symbolic values.
func mk(kind int, name string) leaf { return mkAs(kind, name, name) }

// mkAs is mk with a label for the values, for names that are symbolic.
func mkAs(kind int, name, label string) leaf {
	l := leaf{name: name, kind: kind}
	f := query.FieldName(name)
	cmp := func(op string, build func(query.FieldName, interface{}) query.Condition) {
		x := v.AnyInt("v_" + label)
		l.vals = []any{x}
		l.c = build(f, x)
		l.text = func(n int) string { return name + op + "$" + itoa(n+1) }
	}
	switch kind {
	case 0:
		cmp("=", query.EqualTo)
	case 5:
		cmp(">", query.GreaterThan)
	case 6:
		cmp(">=", query.GreaterOrEqual)
	case 7:
		cmp("<", query.Less)
	case 8:
		cmp("<=", query.LessOrEqual)
	case 1, 10:
		k := 2
		if kind == 10 {
			k = 1
		}
		xs := make([]string, k)
		for i := range xs {
			xs[i] = v.Str("v_"+label+"_"+itoa(i), 2, "")
			l.vals = append(l.vals, xs[i])
		}
		l.c = query.In(f, xs)
		l.text = func(n int) string {
			s := name + " IN ("
			for i := range xs {
				if i > 0 {
					s += ","
				}
				s += "$" + itoa(n+i+1)
			}
			return s + ")"
		}
	case 2:
		l.c = query.IsNull(f)
		l.text = func(n int) string { return name + " IS NULL" }
	case 3, 9:
		x := v.Str("v_"+label, 2, "")
		l.vals = []any{"%" + x + "%"}
		if kind == 3 {
			l.c = query.Contains(f, x)
			l.text = func(n int) string { return name + " LIKE $" + itoa(n+1) }
		} else {
			l.c = query.IContains(f, x)
			l.text = func(n int) string { return name + " ILIKE $" + itoa(n+1) }
		}
	default:
		if kind >= probe {
			return mkProbe(kind-probe, name, label)
		}
		u := userCond{name: name, join: query.LogicalAND}
		if kind == 4 {
			u.vals = []any{v.AnyInt("v_" + label)}
		} else {
			u.vals = []any{v.AnyInt("v_" + label + "_0"), v.AnyInt("v_" + label + "_1")}
		}
		l.vals, l.c = u.vals, u
		l.text = u.Render
	}
	return l
}

// kinds from probe on are user conditions with kind-probe values, which show the number they are given
const probe = 100

func mkProbe(count int, name, label string) leaf {
	u := userCond{name: name, join: query.LogicalAND, shows: true}
	for i := 0; i < count; i++ {
		u.vals = append(u.vals, v.AnyInt("v_"+label+"_"+itoa(i)))
	}
	l := leaf{name: name, kind: probe + count, vals: u.vals, c: u, text: u.Render}
	if count%2 == 1 {
		l.c = &u
	}
	return l
}

// userCond is a Condition implemented outside of the package.
type userCond struct {
	name  string
	vals  []any
	join  query.JoinType
	neg   bool
	shows bool // the text shows the number given to Render
	keeps bool // Values tells the kept slice itself
}

func (u userCond) Values() []any {
	if u.keeps {
		return u.vals
	}
	return append([]any{}, u.vals...)
}

func (u userCond) Render(n int) string {
	s := u.RenderNegate()
	if s != "" {
		s += " "
	}
	s += u.name + " ~"
	if u.shows {
		s += " at" + itoa(n) + " ~"
	}
	for i := range u.vals {
		s += " $" + itoa(n+i+1) + " ~"
	}
	return s
}

func (u userCond) RenderSQL() string {
	s := u.RenderNegate()
	if s != "" {
		s += " "
	}
	s += u.name + " ~"
	for range u.vals {
		s += " ? ~"
	}
	return s
}

func (u userCond) JoinType() query.JoinType { return u.join }

func (u userCond) RenderJoin(isFirst bool) string {
	if isFirst {
		return ""
	}
	return string(u.join)
}
func (u userCond) IsNegate() bool                            { return u.neg }
func (u userCond) Join(j query.JoinType) query.Condition     { u.join = j; return u }
func (u userCond) Negate(n bool) query.Condition             { u.neg = n; return u }
func (u userCond) And(cs ...query.Condition) query.Condition { return query.And(u, cs...) }
func (u userCond) Or(cs ...query.Condition) query.Condition  { return query.Or(u, cs...) }
func (u userCond) FieldName() query.FieldName                { return query.FieldName(u.name) }
func (u userCond) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	if string(f.FieldName()) == bare(u.name) {
		u.name = f.RenderField()
	}
	return u
}
func (u userCond) ApplyFieldTable(t query.TableName) query.Condition {
	u.name = string(t) + "." + bare(u.name)
	return u
}
func (u userCond) RenderNegate() string {
	if u.neg {
		return "NOT"
	}
	return ""
}
