package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// item is an unexplored prefix of decisions together with a model of its path condition.
type item struct {
	prefix []int64
	model  Model
}

// Stats of one worker.
type Stats struct {
	Paths, Ended, Assumed, Inconclusive int
	Branches, Forced                    int
	Choices                             int
	Obligations, Discharged, Folded     int
	ViolN                               int
	Steps                               int64
	Blocks                              int64
	Why                                 map[string]int
	Unsupported                         map[string]int
	Reached                             map[string]int
	MaxPC                               int
	AssertMsgs                          map[string]int
}

func newStats() Stats {
	return Stats{Why: map[string]int{}, Unsupported: map[string]int{}, Reached: map[string]int{}, AssertMsgs: map[string]int{}}
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Ended += o.Ended
	s.Assumed += o.Assumed
	s.Inconclusive += o.Inconclusive
	s.Branches += o.Branches
	s.Forced += o.Forced
	s.Choices += o.Choices
	s.Obligations += o.Obligations
	s.Discharged += o.Discharged
	s.Folded += o.Folded
	s.ViolN += o.ViolN
	s.Steps += o.Steps
	if o.MaxPC > s.MaxPC {
		s.MaxPC = o.MaxPC
	}
	for k, v := range o.Why {
		s.Why[k] += v
	}
	for k, v := range o.Unsupported {
		s.Unsupported[k] += v
	}
	for k, v := range o.Reached {
		s.Reached[k] += v
	}
	for k, v := range o.AssertMsgs {
		s.AssertMsgs[k] += v
	}
}

// Violation is a solver model under which an assertion fails.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Where   string            `json:"where"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     [][2]string       `json:"observed"`
	Replay  *NativeResult     `json:"replay,omitempty"`
}

// Sample is a completed path to be re-run natively.
type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     [][2]string       `json:"obs"`
	hash    uint64
}

// Queue is the shared frontier of one harness.
type Queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  []item
	active int
	closed bool
}

func NewQueue() *Queue {
	q := &Queue{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *Queue) push(its ...item) {
	q.mu.Lock()
	q.items = append(q.items, its...)
	q.mu.Unlock()
	q.cond.Broadcast()
}

func (q *Queue) pop() (item, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.closed {
			return item{}, false
		}
		if n := len(q.items); n > 0 {
			it := q.items[n-1]
			q.items = q.items[:n-1]
			q.active++
			return it, true
		}
		if q.active == 0 {
			q.closed = true
			q.cond.Broadcast()
			return item{}, false
		}
		q.cond.Wait()
	}
}

func (q *Queue) done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 && len(q.items) == 0 {
		q.closed = true
	}
	q.mu.Unlock()
	q.cond.Broadcast()
}

func (q *Queue) close() {
	q.mu.Lock()
	q.closed = true
	q.mu.Unlock()
	q.cond.Broadcast()
}

// --- decisions ---

func (in *Interp) replaying() bool { return len(in.trace) < len(in.prefix) }

func (in *Interp) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			in.addPC(a)
		}
		return
	}
	if in.pcSet[t.id] {
		return
	}
	in.pcSet[t.id] = true
	in.pc = append(in.pc, t)
	if len(in.groups) > 0 {
		in.useDigits(t)
	}
	if len(in.pc) > in.stats.MaxPC {
		in.stats.MaxPC = len(in.pc)
	}
}

// useDigits makes the definitions of the digits in t part of the path condition.
func (in *Interp) useDigits(t *Term) {
	for _, x := range t.vars {
		if g := in.digitOf[x]; g != nil && !g.used {
			g.used = true
			for _, c := range g.cons {
				in.addPC(c)
			}
		}
	}
}

// implied notes a formula that follows from the path condition.
func (in *Interp) implied(t *Term) {
	if t.op == OpAnd {
		for _, a := range t.args {
			in.implied(a)
		}
		return
	}
	in.pcSet[t.id] = true
}

// slice returns the conjuncts of the path condition connected to t by shared variables.
func (in *Interp) slicePC(t *Term) []*Term {
	if len(t.vars) == 0 {
		return []*Term{t}
	}
	vs := make(map[*Term]bool, len(t.vars))
	for _, x := range t.vars {
		vs[x] = true
	}
	res := []*Term{t}
	for _, x := range t.vars {
		if g := in.digitOf[x]; g != nil && !g.used {
			for _, c := range g.cons {
				if c.vars != nil {
					res = append(res, c)
				}
				for _, y := range c.vars {
					vs[y] = true
				}
			}
		}
	}
	used := make([]bool, len(in.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range in.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, x := range c.vars {
				if vs[x] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			changed = true
			res = append(res, c)
			for _, x := range c.vars {
				vs[x] = true
			}
		}
	}
	return res
}

// sat decides PC and t; the returned model extends the current one.
func (in *Interp) sat(t *Term) (Result, Model) {
	if t.isFalse() || in.pcSet[in.st.Not(t).id] {
		return Unsat, nil
	}
	r, m := in.sol.Check(in.slicePC(t))
	if r != Sat {
		return r, nil
	}
	nm := make(Model, len(in.model)+len(m))
	for k, v := range in.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	if len(in.groups) > 0 { // digits follow their numbers
		in.st.NewEval()
		for _, g := range in.groups {
			val := in.st.Eval(g.abs, nm)
			for i := len(g.ds) - 1; i >= 0; i-- {
				nm[g.ds[i].name] = val % 10
				val /= 10
			}
		}
		in.st.NewEval()
	}
	return Sat, nm
}

func (in *Interp) setModel(m Model) {
	in.model = m
	in.st.NewEval()
}

func (in *Interp) evalM(t *Term) uint64 { return in.st.Eval(t, in.model) }

func (in *Interp) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		if x.op == OpConst {
			return x.c == 1
		}
		return in.branch(x)
	}
	panic(unsupported{fmt.Sprintf("truth of %T", v)})
}

func (in *Interp) branch(c *Term) bool {
	if in.pcSet[c.id] {
		return true
	}
	nc := in.st.Not(c)
	if in.pcSet[nc.id] {
		return false
	}
	if in.replaying() {
		d := in.prefix[len(in.trace)]
		in.trace = append(in.trace, d)
		if d&1 == 1 {
			in.addPC(c)
			return true
		}
		in.addPC(nc)
		return false
	}
	side := in.evalM(c) == 1
	other := nc
	if !side {
		other = c
	}
	in.stats.Branches++
	r, m := in.sat(other)
	var d, od int64
	if side {
		d, od = 1, 0
	} else {
		d, od = 0, 1
	}
	switch r {
	case Sat:
		in.fork(od, m)
	case Unsat:
		in.stats.Forced++
	default:
		in.stats.Inconclusive++
		in.stats.Why["solver gave no answer on a branch"]++
	}
	in.trace = append(in.trace, d)
	if side {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return side
}

func (in *Interp) fork(d int64, m Model) {
	p := make([]int64, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.pending = append(in.pending, item{p, m})
}

// chooseN forks n ways.
func (in *Interp) chooseN(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if in.replaying() {
		d := in.prefix[len(in.trace)]
		in.trace = append(in.trace, d)
		return int(d)
	}
	in.stats.Choices++
	for k := n - 1; k >= 1; k-- {
		in.fork(int64(k), in.model)
	}
	in.trace = append(in.trace, 0)
	return 0
}

// concretize enumerates the feasible values of t by forking.
func (in *Interp) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	for n := 0; ; n++ {
		var c uint64
		if in.replaying() {
			c = uint64(in.prefix[len(in.trace)])
		} else {
			c = in.evalM(t)
			if n > 256 {
				panic(pathEnd{"too many values to enumerate"})
			}
		}
		in.trace = append(in.trace, int64(c))
		e := in.st.Eq(t, in.st.Const(t.w, c))
		if e.isTrue() || in.pcSet[e.id] {
			return c
		}
		if in.pcSet[in.st.Not(e).id] {
			panic(unsupported{"concretize: stale value"})
		}
		if in.branch(e) {
			return c
		}
	}
}

func (in *Interp) concreteInt(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		return in.concretize(x)
	}
	panic(unsupported{fmt.Sprintf("integer from %T", v)})
}

func (in *Interp) assume(c *Term) {
	if c.isTrue() || in.pcSet[c.id] {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if in.evalM(c) != 1 {
		r, m := in.sat(c)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			panic(pathEnd{"solver gave no answer on an assumption"})
		}
		in.setModel(m)
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, msg string) {
	known := c.isTrue() || in.pcSet[c.id]
	if in.replaying() { // decided by the path this one was forked from
		if !known {
			d := in.prefix[len(in.trace)]
			in.trace = append(in.trace, d)
			if d == 1 {
				in.implied(c)
			} else {
				in.addPC(c)
			}
		}
		return
	}
	in.stats.AssertMsgs[msg]++
	in.stats.Obligations++
	if known {
		in.stats.Folded++
		in.stats.Discharged++
		return
	}
	if c.isFalse() || in.evalM(c) != 1 {
		in.violation(msg, in.model)
		if c.isFalse() {
			panic(pathEnd{"violation"})
		}
		in.trace = append(in.trace, 0)
		in.assume(c)
		return
	}
	r, m := in.sat(in.st.Not(c))
	d := int64(0)
	switch r {
	case Unsat:
		in.stats.Discharged++
		d = 1
	case Sat:
		in.violation(msg, m)
	default:
		in.stats.Inconclusive++
		in.stats.Why["solver gave no answer on an assertion"]++
	}
	in.trace = append(in.trace, d)
	if d == 1 {
		in.implied(c)
	} else {
		in.addPC(c)
	}
}

func (in *Interp) inputsOf(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, n := range in.inputs {
		r[n] = m[n]
	}
	return r
}

func (in *Interp) violation(msg string, m Model) {
	in.stats.ViolN++
	n := 0
	for _, v := range in.viol {
		if v.Harness == in.curHarn && v.Msg == msg {
			n++
		}
	}
	if n >= 6 {
		return
	}
	in.st.NewEval()
	where := in.stack()
	if strings.HasPrefix(msg, "race:") {
		where = in.obsNote
	}
	v := &Violation{Harness: in.curHarn, Msg: msg, Where: where, Inputs: in.inputsOf(m), Obs: in.observed(m)}
	in.st.NewEval()
	in.viol = append(in.viol, v)
}

func (in *Interp) observed(m Model) [][2]string {
	var r [][2]string
	for _, o := range in.obs {
		r = append(r, [2]string{o.label, in.show(o.v, o.t, m)})
	}
	return r
}

// show renders a value under a model the way v.Observe does natively (strings, ints, bools).
func (in *Interp) show(v Value, t types.Type, m Model) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return in.show(x.v, x.t, m)
	case string, *SymStr:
		return in.evalStr(x, m)
	case bool:
		return fmt.Sprint(x)
	case uint64:
		w, s := intInfo(t)
		if s {
			return fmt.Sprint(sext(x, w))
		}
		return fmt.Sprint(x)
	case *Term:
		c := in.st.Eval(x, m)
		if x.w == 0 {
			return fmt.Sprint(c == 1)
		}
		return in.show(c, t, m)
	case float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("(%s)", typeString(t))
}

// --- running one harness ---

func (in *Interp) resetPath(it item) {
	in.pc = in.pc[:0]
	in.pcSet = map[int32]bool{}
	in.setModel(it.model)
	in.trace = in.trace[:0]
	in.prefix = it.prefix
	in.pending = in.pending[:0]
	in.labels = map[string]int{}
	in.steps = 0
	in.fr = nil
	in.depth = 0
	in.obs = nil
	in.inputs = in.inputs[:0]
	in.digits = map[int32]*itoaMemo{}
	in.groups = in.groups[:0]
	in.digitOf = map[*Term]*digitGroup{}
	in.reached = map[string]bool{}
	in.epoch = 1
	in.ranges = 0
	in.frozen = 0
	in.frozenWrites = 0
	in.quiet = 0
	in.rlocked = 0
	in.held = map[*Cell]int{}
	in.locked = map[Value]bool{}
	in.pools = map[*Cell][]Value{}
	in.journal = in.journal[:0]
}

func (in *Interp) undoJournal() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		u := in.journal[i]
		if u.f != nil {
			u.f()
		} else if u.c != nil {
			u.c.v = u.v
		} else {
			u.m.e = u.e
		}
	}
	in.journal = in.journal[:0]
}

// runPath executes fn along it and returns why the path ended ("" = ran to completion).
func (in *Interp) runPath(fn *ssa.Function, it item) (why string) {
	in.resetPath(it)
	defer in.undoJournal()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				why = x.why
			case unsupported:
				why = "unsupported: " + x.why
				in.stats.Unsupported[x.why+" @ "+in.stack()]++
			case *targetPanic:
				func() {
					defer func() {
						if q := recover(); q != nil {
							why = fmt.Sprint(q)
						}
					}()
					if !in.replaying() {
						in.stats.Obligations++
						in.violation("unexpected panic: "+in.panicText(x), in.model)
					}
					why = "panic"
				}()
			default:
				why = "unsupported: engine: " + fmt.Sprint(r)
				in.stats.Unsupported[fmt.Sprint(r)+" @ "+in.stack()]++
				if debugEngine {
					panic(r)
				}
			}
		}
		in.stats.Steps += in.steps
	}()
	in.callFn(fn, nil, nil)
	return ""
}

func (in *Interp) panicText(p *targetPanic) string {
	if p.runtime {
		return p.msg
	}
	switch v := p.v.v.(type) {
	case string, *SymStr:
		return in.evalStr(v, in.model)
	}
	in.quiet++
	defer func() { in.quiet-- }()
	s, ok := func() (s string, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		r := in.fmtValue(p.v, 'v', "")
		return in.evalStr(r, in.model), true
	}()
	if ok {
		return s
	}
	if p.v.t != nil {
		return typeString(p.v.t)
	}
	return "nil"
}

// explore runs the worker loop for one harness.
func (in *Interp) explore(fn *ssa.Function, q *Queue, deadline time.Time, maxSamples int, samples *[]Sample) {
	in.curHarn = fn.Name()
	for {
		it, ok := q.pop()
		if !ok {
			return
		}
		if time.Now().After(deadline) {
			q.mu.Lock()
			q.items = append(q.items, it)
			q.active--
			q.closed = true
			q.mu.Unlock()
			q.cond.Broadcast()
			return
		}
		why := in.runPath(fn, it)
		in.stats.Paths++
		switch {
		case why == "":
			in.stats.Ended++
			for r := range in.reached {
				in.stats.Reached[r]++
			}
			h := fnv.New64a()
			for _, d := range in.trace {
				fmt.Fprintf(h, "%d,", d)
			}
			hv := h.Sum64()
			if len(*samples) < maxSamples || hv < (*samples)[len(*samples)-1].hash {
				in.st.NewEval()
				s := Sample{Harness: in.curHarn, Inputs: in.inputsOf(in.model), Obs: in.observed(in.model), hash: hv}
				*samples = append(*samples, s)
				sort.Slice(*samples, func(i, j int) bool { return (*samples)[i].hash < (*samples)[j].hash })
				if len(*samples) > maxSamples {
					*samples = (*samples)[:maxSamples]
				}
			}
		case why == "assume":
			in.stats.Assumed++
		case why == "violation", why == "panic":
		default:
			in.stats.Inconclusive++
			in.stats.Why[why]++
		}
		if len(in.pending) > 0 {
			its := make([]item, len(in.pending))
			copy(its, in.pending)
			q.push(its...)
		}
		q.done()
		if len(in.st.all) > 1500000 || len(in.sol.cache) > 400000 {
			in.st = NewStore()
			if err := in.sol.Rebind(in.st); err != nil {
				in.stats.Unsupported["solver: "+err.Error()]++
				return
			}
			in.code = map[*ssa.Function]*fnCode{} // recompile: constants carry no terms, but be safe
		}
	}
}
