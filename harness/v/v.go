// Package v is the harness interface to the symbolic executor. Under the executor these functions are
// replaced by symbolic ones (engine/vapi.go); compiled natively they read one model from the replay input.
package v

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
)

type state struct {
	inputs  map[string]uint64
	labels  map[string]int
	failed  []string
	obs     [][2]string
	tier    string
	assumed bool
}

var cur = &state{inputs: map[string]uint64{}, labels: map[string]int{}}

type assumeFailed struct{}

func name(label string) string {
	n := cur.labels[label]
	cur.labels[label] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", label, n)
	}
	return label
}

// Bool is a symbolic boolean.
func Bool(label string) bool { return cur.inputs[name(label)] != 0 }

// Int is a symbolic integer in lo..hi.
func Int(label string, lo, hi int) int {
	x := int(cur.inputs[name(label)])
	Assume(lo <= x && x <= hi)
	return x
}

// Uint is a symbolic unsigned integer in lo..hi.
func Uint(label string, lo, hi uint) uint {
	x := uint(cur.inputs[name(label)])
	Assume(lo <= x && x <= hi)
	return x
}

// AnyInt is an unconstrained 64-bit integer.
func AnyInt(label string) int { return int(cur.inputs[name(label)]) }

// AnyUint is an unconstrained 64-bit unsigned integer.
func AnyUint(label string) uint { return uint(cur.inputs[name(label)]) }

// Choice is 0..n-1; the executor explores every value on its own path.
func Choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(cur.inputs[name(label)])
}

// Str is a string of exactly n symbolic bytes from charset ("" = any byte, "ident" = identifier of small letters, "word" = the same with capitals).
func Str(label string, n int, charset string) string {
	base := name(label)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.inputs[fmt.Sprintf("%s[%d]", base, i)])
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		cur.assumed = true
		panic(assumeFailed{})
	}
}

// Assert states an obligation.
func Assert(c bool, msg string) {
	if !c {
		cur.failed = append(cur.failed, msg)
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) {}

// Observe records a value that the compiled code must reproduce.
func Observe(label string, x interface{}) {
	switch y := x.(type) {
	case nil, string, bool, int, uint, int64, uint64, int32, uint8, float64:
		cur.obs = append(cur.obs, [2]string{label, fmt.Sprint(y)})
	default:
		rv := reflect.ValueOf(x)
		switch rv.Kind() {
		case reflect.String:
			cur.obs = append(cur.obs, [2]string{label, rv.String()})
		case reflect.Int, reflect.Int64:
			cur.obs = append(cur.obs, [2]string{label, fmt.Sprint(rv.Int())})
		default:
			cur.obs = append(cur.obs, [2]string{label, "(" + rv.Type().String() + ")"})
		}
	}
}

// And, Or, Not, Iff and Ite build conditions without branching.
func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}

// Or is the disjunction of its arguments.
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}

// Not negates.
func Not(a bool) bool { return !a }

// Iff is logical equivalence.
func Iff(a, b bool) bool { return a == b }

// Ite selects.
func Ite(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Freeze marks all memory allocated so far as shared.
func Freeze() {}

// SharedWrites is the number of stores to shared memory since Freeze.
func SharedWrites() int { return 0 }

// Both runs f; natively it runs in several goroutines at once, so f must not use this package.
func Both(f func()) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { _ = recover() }()
			<-start
			for i := 0; i < 25; i++ {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
}

// Symbolic tells the executor from a native replay.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return cur.tier == "thorough" }

// Bound names a bound and gives its value in the quick and in the thorough tier.
func Bound(label string, quick, thorough int) int {
	if cur.tier == "thorough" {
		return thorough
	}
	return quick
}

// Note records a bound in words.
func Note(label, text string) {}

// Eq is string equality without branching.
func Eq(a, b string) bool { return a == b }

// Same is reflect.DeepEqual without branching.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

type job struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    string            `json:"tier"`
}

type result struct {
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Assumed bool        `json:"assumed"`
	Obs     [][2]string `json:"obs"`
	Error   string      `json:"error,omitempty"`
}

func run(f func()) (panicText string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				return
			}
			panicText = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// Main is the native runner: one JSON job per input line, one JSON result per output line.
func Main(hs map[string]func()) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for in.Scan() {
		var j job
		var r result
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			r.Error = err.Error()
		} else if f := hs[j.Harness]; f == nil {
			r.Error = "no harness " + j.Harness
		} else {
			cur = &state{inputs: j.Inputs, labels: map[string]int{}, tier: j.Tier}
			r.Panic = run(f)
			r.Failed, r.Obs, r.Assumed = cur.failed, cur.obs, cur.assumed
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
