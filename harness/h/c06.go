package h

import "verifharness/v"

// history derives objects from objects and checks at the end that all of them still tell the same.
func history(things, steps int) {
	m := &maker{roomy: v.Choice("roomy arguments", 2) == 1}
	objs := []any{m.thing(things, grown[v.Choice("grown", len(grown))])}
	prints := []print{look(objs[0])}
	for i := 0; i < steps; i++ {
		x := objs[v.Choice("derive from", len(objs))]
		if opsOf(x) == 0 {
			continue
		}
		y := m.derive(x, v.Choice("operation", opsOf(x)))
		objs = append(objs, y)
		prints = append(prints, look(y))
	}
	check := func(what string) {
		for i, x := range objs {
			v.Assert(look(x).same(prints[i]), what)
		}
	}
	v.Observe("print", prints[0].texts[0])
	v.Reach("derived")
	check("deriving and building leaves every object as it was")
	for _, p := range prints {
		v.Assert(p.intact(), "lists handed out before stay as they were")
	}
	m.scribble()
	check("argument slices are not kept")
	for _, x := range objs {
		handedOut(x)
	}
	check("handed out slices are not shared")
}

// H_C06_two: two derivations of anything from everything.
func H_C06_two() { history(v.Choice("thing", nThings), v.Bound("derivations", 2, 2)) }

// H_C06_grow: longer histories of calls that extend lists.
func H_C06_grow() {
	m := &maker{roomy: v.Choice("roomy arguments", 2) == 1}
	kind := []int{0, 3, 5, 7, 9, 11, 12, 13, 14, 15}[v.Choice("thing", 10)]
	objs := []any{m.thing(kind, v.Choice("grown", v.Bound("growing calls", 5, 8)))}
	prints := []print{look(objs[0])}
	for i := 0; i < v.Bound("growing derivations", 3, 4); i++ {
		x := objs[v.Choice("derive from", len(objs))]
		op := v.Choice("operation", 2)
		switch kind {
		case 5: // grow orderings, joins and conditions
			op = []int{0, 6, 5}[v.Choice("many", 3)]
		case 0, 3:
			op = []int{0, 5}[op]
		case 7:
			op *= 2
		case 9, 11:
			op++
		}
		y := m.derive(x, op)
		objs = append(objs, y)
		prints = append(prints, look(y))
	}
	v.Reach("derived")
	for i, x := range objs {
		v.Assert(look(x).same(prints[i]), "growing leaves every object as it was")
		v.Assert(prints[i].intact(), "lists handed out before stay as they were")
	}
	m.scribble()
	for i, x := range objs {
		v.Assert(look(x).same(prints[i]), "argument slices are not kept")
	}
}
