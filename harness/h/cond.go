package h

import (
	"github.com/amarin/query"
	"verifharness/v"
)

// node is a condition with its reference meaning.
type node struct {
	c    query.Condition
	d    bool // meaning, a term over the truth values of atoms
	some bool // false when it contains no condition at all
}

// world hands out atoms with unique column names.
type world struct {
	leaves  []leaf
	truths  map[string]bool
	kinds   func(i int) int
	empties bool
	shared  int // atoms share one column: 1 with different operands, 2 with few, 3 one operator
}

func newWorld(kinds func(i int) int) *world {
	return &world{truths: map[string]bool{}, kinds: kinds}
}

func (w *world) truth(name string) bool { return w.truths[name] }

func (w *world) leaf() node {
	i := len(w.leaves)
	if w.shared > 0 {
		return w.sharing(i)
	}
	l := mk(w.kinds(i), "c"+itoa(i))
	w.leaves = append(w.leaves, l)
	w.truths[l.name] = v.Bool("t_" + l.name)
	return node{l.c, w.truths[l.name], true}
}

// sharing is an atom over the same column as all others.
func (w *world) sharing(i int) node {
	at := i
	if w.shared == 2 {
		at %= 2
	}
	const c = "c"
	x := 1000 + at
	l := leaf{name: c, kind: 0, vals: []any{x}}
	key := ""
	switch {
	case at%3 == 0, w.shared == 3:
		l.c, key = query.EqualTo(c, x), "c="+itoa(x)
	case at%3 == 1:
		l.c, key = query.GreaterThan(c, x), "c>"+itoa(x)
	default:
		s := "x" + itoa(x)
		l.c, l.vals, key = query.In(c, []string{s}), []any{s}, "c"+s
	}
	w.leaves = append(w.leaves, l)
	if _, ok := w.truths[key]; !ok {
		w.truths[key] = v.Bool("t_" + key)
	}
	return node{l.c, w.truths[key], true}
}

func empty(j query.JoinType) node { return node{query.NewGroup(j), false, false} }

// den combines a list by the own join types of its members, AND binding tighter than OR.
func den(list []node) (d bool, some bool) {
	run := false // current run of members joined by AND
	for _, m := range list {
		switch {
		case !m.some:
		case !some:
			run, some = m.d, true
		case m.c.JoinType() == query.LogicalOR:
			d, run = v.Or(d, run), m.d
		default:
			run = v.And(run, m.d)
		}
	}
	return v.Or(d, run), some
}

// joined combines a list with one operator.
func joined(j query.JoinType, list []node) (d bool, some bool) {
	for _, m := range list {
		switch {
		case !m.some:
		case !some:
			d, some = m.d, true
		case j == query.LogicalOR:
			d = v.Or(d, m.d)
		default:
			d = v.And(d, m.d)
		}
	}
	return d, some
}

func conds(list []node) []query.Condition {
	res := make([]query.Condition, len(list))
	for i, m := range list {
		res[i] = m.c
	}
	return res
}

// with is x AND (list) or x OR (list).
func with(j query.JoinType, x node, list []node) (d bool, some bool) {
	ld, ls := den(list)
	switch {
	case !ls:
		return x.d, x.some
	case !x.some:
		return ld, true
	case j == query.LogicalOR:
		return v.Or(x.d, ld), true
	}
	return v.And(x.d, ld), true
}

func negated(x node, flag bool) node {
	d := x.d
	if x.c.IsNegate() != flag {
		d = v.Not(d)
	}
	if flag {
		return node{query.Not(x.c), d, x.some}
	}
	return node{x.c.Negate(false), d, x.some}
}

// mixed draws up to n conditions joined in every way.
func (w *world) mixed(n int) (list []node) {
	for n = 1 + v.Choice("members", n); len(list) < n; {
		x := w.leaf()
		if v.Choice("or", 2) == 1 {
			x.c = query.Or(x.c)
		}
		list = append(list, x)
	}
	return list
}

const nPatterns = 7

// pattern draws n conditions of which some are joined by OR.
func (w *world) pattern(n, p int) (list []node) {
	for i := 0; i < n; i++ {
		x := w.leaf()
		or := false
		switch p {
		case 0: // none
		case 1:
			or = true
		case 2:
			or = i > 0
		case 3:
			or = i == 1
		case 4:
			or = i == n-1
		case 5:
			or = i%2 == 1
		default:
			or = i != n-1
		}
		if or {
			x.c = query.Or(x.c)
		}
		list = append(list, x)
	}
	return list
}
