// symgo decides assertions of Go harness functions by symbolic execution of go/ssa and an SMT solver.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugEngine = os.Getenv("SYMGO_DEBUG") != ""

type harnessReport struct {
	Name        string         `json:"harness"`
	Paths       int            `json:"paths"`
	Completed   int            `json:"completed"`
	Exhausted   bool           `json:"exhausted"`
	Pending     int            `json:"pending,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Folded      int            `json:"discharged_by_rewriting"`
	Branches    int            `json:"branch_queries"`
	Inconcl     int            `json:"inconclusive,omitempty"`
	Why         map[string]int `json:"why,omitempty"`
	Reached     map[string]int `json:"reached,omitempty"`
	Unreached   []string       `json:"unreached,omitempty"`
	WallS       float64        `json:"wall_s"`
	Asserts     map[string]int `json:"assertions,omitempty"`
}

type knownFinding struct {
	Property string
	Harness  string
	Msg      string
	Desc     string
}

// readKnown parses KNOWN_FINDINGS: lines "finding: property=<id> harness=<name> assert=<text> -- <what fails>".
// Lines starting with "fixed:" are history and suppress nothing.
func readKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		desc := ""
		if i := strings.Index(l, " -- "); i >= 0 {
			desc = l[i+4:]
			l = l[:i]
		}
		var k knownFinding
		k.Desc = desc
		if i := strings.Index(l, "assert="); i >= 0 {
			k.Msg = strings.TrimSpace(l[i+7:])
			l = l[:i]
		}
		for _, w := range strings.Fields(l) {
			if s, ok := strings.CutPrefix(w, "property="); ok {
				k.Property = s
			}
			if s, ok := strings.CutPrefix(w, "harness="); ok {
				k.Harness = s
			}
		}
		r = append(r, k)
	}
	return r
}

func main() {
	os.Exit(realMain())
}

func realMain() int {
	prop := flag.String("property", "", "property id")
	only := flag.String("harness", "", "run only this harness function")
	root := flag.String("root", "/verif", "root of the verification tree")
	repo := flag.String("repo", "/repo", "repository under test")
	tier := flag.String("tier", "", "quick or thorough")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 0, "seconds of exploration")
	maxViol := flag.Int("maxviol", 3, "violations to confirm per assertion")
	level := flag.String("level", "model_checking", "evidence level")
	samplesN := flag.Int("samples", 0, "paths to validate natively per harness")
	verbose := flag.Bool("v", false, "verbose")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	prof := flag.String("cpuprofile", "", "")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	covOut := flag.String("cov", "", "append the covered repository blocks to this file")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 700
		}
	}
	if *samplesN == 0 {
		*samplesN = 120
		if *tier == "thorough" {
			*samplesN = 400
		}
	}
	t0 := time.Now()
	harnessDir := filepath.Join(absPath(*root), "harness")
	cacheDir := filepath.Join(absPath(*root), ".cache")
	os.MkdirAll(cacheDir, 0o755)
	repoDir := absPath(*repo)
	tmp, err := os.MkdirTemp(cacheDir, "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	// a private go.mod keeps the committed one untouched and points at the tree under test
	modfile := filepath.Join(tmp, "go.mod")
	gm, err := os.ReadFile(filepath.Join(harnessDir, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.WriteFile(modfile, []byte(strings.ReplaceAll(string(gm), "=> /repo", "=> "+repoDir)), 0o644)
	if gs, err := os.ReadFile(filepath.Join(harnessDir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(tmp, "go.sum"), gs, 0o644)
	}

	if *replay != "" {
		return doReplay(*replay, harnessDir, modfile, tmp)
	}

	P, err := loadProgram(harnessDir, repoDir, modfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	hs := P.harnesses(*prop)
	if *only != "" {
		var f []*ssa.Function
		for _, h := range P.harnesses("") {
			if h.Name() == *only || strings.HasPrefix(h.Name(), *only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no harness for", *prop)
		return 2
	}
	// native build runs while the exploration does
	var nat *Native
	var natErr error
	natDone := make(chan bool)
	go func() {
		var names []string
		for _, h := range P.harnesses("") {
			names = append(names, h.Name())
		}
		nat, natErr = buildNative(harnessDir, modfile, tmp, names, false)
		close(natDone)
	}()

	maxStep := int64(4000000)
	if *tier == "thorough" {
		maxStep = 20000000
	}
	ins := make([]*Interp, *workers)
	ierr := make([]error, *workers)
	var wg sync.WaitGroup
	for i := range ins {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ins[i], ierr[i] = newInterp(P, []string{"z3", "-in", "-smt2"}, 20000, *tier, maxStep)
		}(i)
	}
	wg.Wait()
	for _, e := range ierr {
		if e != nil {
			fmt.Fprintln(os.Stderr, "symgo:", e)
			return 2
		}
	}
	initS := time.Since(t0).Seconds()

	var reports []harnessReport
	total := newStats()
	var viols []*Violation
	var samples []Sample
	deadlineAll := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	exhaustedAll := true
	for hi, h := range hs {
		h0 := time.Now()
		remain := time.Until(deadlineAll)
		share := remain / time.Duration(len(hs)-hi)
		if share < remain/2 {
			share = remain / 2
		}
		deadline := time.Now().Add(share)
		q := NewQueue()
		q.push(item{nil, Model{}})
		hsamp := make([][]Sample, len(ins))
		var hwg sync.WaitGroup
		for i := range ins {
			hwg.Add(1)
			ins[i].stats = newStats()
			ins[i].viol = nil
			go func(i int) {
				defer hwg.Done()
				ins[i].explore(h, q, deadline, *samplesN, &hsamp[i])
			}(i)
		}
		hwg.Wait()
		st := newStats()
		for i := range ins {
			st.add(&ins[i].stats)
			viols = append(viols, ins[i].viol...)
		}
		var hs2 []Sample
		for _, s := range hsamp {
			hs2 = append(hs2, s...)
		}
		sort.Slice(hs2, func(i, j int) bool { return hs2[i].hash < hs2[j].hash })
		if len(hs2) > *samplesN {
			hs2 = hs2[:*samplesN]
		}
		samples = append(samples, hs2...)
		rep := harnessReport{Name: h.Name(), Paths: st.Paths, Completed: st.Ended, Exhausted: len(q.items) == 0, Pending: len(q.items),
			Obligations: st.Obligations, Discharged: st.Discharged, Folded: st.Folded, Branches: st.Branches, Inconcl: st.Inconclusive, Why: st.Why,
			Reached: st.Reached, WallS: round(time.Since(h0).Seconds()), Asserts: st.AssertMsgs}
		for _, l := range reachLabels(h) {
			if st.Reached[l] == 0 {
				rep.Unreached = append(rep.Unreached, l)
			}
		}
		if !rep.Exhausted {
			exhaustedAll = false
		}
		reports = append(reports, rep)
		total.add(&st)
		if *verbose {
			fmt.Printf("%-40s paths=%d ended=%d assumed=%d branches=%d forced=%d obl=%d disch=%d folded=%d viol=%d inconcl=%d maxpc=%d steps=%d pending=%d %.1fs\n",
				h.Name(), st.Paths, st.Ended, st.Assumed, st.Branches, st.Forced, st.Obligations, st.Discharged, st.Folded, st.ViolN, st.Inconclusive, st.MaxPC, st.Steps, len(q.items), time.Since(h0).Seconds())
			for k, v := range st.Why {
				fmt.Printf("    why: %s: %d\n", k, v)
			}
			for k, v := range st.Unsupported {
				fmt.Printf("    unsupported: %s: %d\n", k, v)
			}
			if len(rep.Unreached) > 0 {
				fmt.Printf("    unreached: %v\n", rep.Unreached)
			}
		}
	}

	<-natDone
	if natErr != nil {
		fmt.Fprintln(os.Stderr, "symgo:", natErr)
		return 2
	}

	// validate sampled paths: the compiled code must behave as the encoding predicts
	mismatch := 0
	validated := 0
	var mismatchText []string
	if len(samples) > 0 {
		jobs := make([]nativeJob, len(samples))
		for i, s := range samples {
			jobs[i] = nativeJob{s.Harness, s.Inputs, *tier}
		}
		res, err := nat.runBatch(jobs)
		if err != nil {
			fmt.Fprintln(os.Stderr, "symgo:", err)
			return 2
		}
		for i, r := range res {
			why := ""
			switch {
			case r.Error != "":
				why = r.Error
			case r.Panic != "":
				why = "native panic: " + r.Panic
			case r.Assumed:
				why = "native assumption failed"
			case len(r.Failed) > 0:
				why = "native assertion failed: " + r.Failed[0]
			case !sameObs(r.Obs, samples[i].Obs):
				why = fmt.Sprintf("observations differ: engine %q native %q", samples[i].Obs, r.Obs)
			}
			if len(r.Failed) > 0 && r.Error == "" && !strings.HasPrefix(r.Failed[0], "race:") {
				// the model of an explored path breaks the assertion in the compiled code
				viols = append(viols, &Violation{Harness: samples[i].Harness, Msg: r.Failed[0], Inputs: samples[i].Inputs, Where: "replay of a path model"})
			}
			if why != "" {
				mismatch++
				if len(mismatchText) < 5 {
					in, _ := json.Marshal(samples[i].Inputs)
					mismatchText = append(mismatchText, samples[i].Harness+" "+string(in)+": "+why)
				}
			} else {
				validated++
			}
		}
	}

	// confirm violations on the compiled code
	byKey := map[string][]*Violation{}
	var keys []string
	for _, v := range viols {
		k := v.Harness + "\x00" + v.Msg
		if strings.HasPrefix(v.Msg, "race:") {
			k += "\x00" + v.Where // one for every place that stores
		}
		if byKey[k] == nil {
			keys = append(keys, k)
		}
		byKey[k] = append(byKey[k], v)
	}
	sort.Strings(keys)
	known := readKnown(filepath.Join(*root, "KNOWN_FINDINGS"))
	var confirmed []*Violation
	unconfirmed := 0
	knownHit := map[int]bool{}
	var refuted []string
	var raceNat *Native
	for _, k := range keys {
		vs := byKey[k]
		okOne := false
		tried := 0
		for _, v := range vs {
			if tried >= *maxViol {
				break
			}
			tried++
			n := nat
			if strings.HasPrefix(v.Msg, "race:") {
				if raceNat == nil {
					raceNat, err = buildNative(harnessDir, modfile, tmp, raceHarnesses(viols), true)
					if err != nil {
						fmt.Fprintln(os.Stderr, "symgo:", err)
						return 2
					}
				}
				n = raceNat
			}
			for attempt := 0; attempt < 25 && !okOne; attempt++ {
				rs, err := n.runBatch([]nativeJob{{v.Harness, v.Inputs, *tier}})
				if err != nil {
					break
				}
				r := rs[0]
				v.Replay = &r
				if strings.HasPrefix(v.Msg, "race:") {
					okOne = r.Race
				} else if strings.HasPrefix(v.Msg, "unexpected panic") {
					okOne = r.Panic != "" || strings.Contains(r.Error, "panic") || strings.Contains(r.Error, "deadlock") || strings.Contains(r.Error, "stack")
				} else {
					for _, f := range r.Failed {
						if f == v.Msg {
							okOne = true
						}
					}
				}
			}
			if okOne {
				isKnown := false
				for i, kf := range known {
					if kf.Property == *prop && (kf.Harness == "" || kf.Harness == v.Harness) && kf.Msg == v.Msg {
						isKnown = true
						knownHit[i] = true
					}
				}
				if !isKnown {
					confirmed = append(confirmed, v)
				}
				break
			}
		}
		if !okOne && strings.HasPrefix(vs[0].Msg, "race:") {
			// the race detector sees the stores ordered by some synchronisation the engine does not know
			refuted = append(refuted, vs[0].Harness+": "+vs[0].Msg+" at "+vs[0].Where)
			fmt.Fprintln(os.Stderr, "symgo: refuted by the race detector:", refuted[len(refuted)-1])
			continue
		}
		if !okOne {
			unconfirmed++
			in, _ := json.Marshal(vs[0].Inputs)
			rp, _ := json.Marshal(vs[0].Replay)
			fmt.Fprintf(os.Stderr, "symgo: UNCONFIRMED %s: %q inputs %s native %s at %s\n", vs[0].Harness, vs[0].Msg, in, rp, vs[0].Where)
		}
	}
	if raceNat != nil {
		raceNat.Close()
	}
	nat.Close()

	// coverage of the repository by this run
	covered := map[*ssa.BasicBlock]bool{}
	bounds := map[string]string{}
	qs, hits, satN, unsatN, unkN := 0, 0, 0, 0, 0
	var solT time.Duration
	for _, in := range ins {
		for b := range in.covered {
			covered[b] = true
		}
		for k, v := range in.bounds {
			bounds[k] = v
		}
		qs += in.sol.Queries
		hits += in.sol.CacheHits
		satN += in.sol.SatN
		unsatN += in.sol.UnsatN
		unkN += in.sol.UnknownN
		solT += in.sol.Time
		in.sol.Close()
	}
	fnBlocks := map[*ssa.Function]int{}
	for b := range covered {
		fnBlocks[b.Parent()]++
	}
	var fnNames []string
	for f, n := range fnBlocks {
		fnNames = append(fnNames, fmt.Sprintf("%s (%d/%d blocks)", strings.ReplaceAll(f.String(), repoPkg, "query"), n, len(f.Blocks)))
	}
	sort.Strings(fnNames)
	if *covOut != "" {
		f, _ := os.OpenFile(*covOut, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		for b := range covered {
			fmt.Fprintf(f, "%s\t%d\n", b.Parent().String(), b.Index)
		}
		f.Close()
	}

	exit := 0
	var repPath string
	for i, kf := range known {
		if kf.Property == *prop && knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.Desc)
		}
	}
	if len(confirmed) > 0 {
		exit = 1
		dir := filepath.Join(absPath(*root), "replay")
		os.MkdirAll(dir, 0o755)
		repPath = filepath.Join(dir, *prop+".json")
		js, _ := json.MarshalIndent(confirmed, "", " ")
		os.WriteFile(repPath, js, 0o644)
		for _, v := range confirmed {
			in, _ := json.Marshal(v.Inputs)
			fmt.Printf("counterexample: harness=%s assertion=%q\n  inputs %s\n  native %v %s\n", v.Harness, v.Msg, in, v.Replay.Failed, v.Replay.Panic)
			for _, o := range v.Replay.Obs {
				fmt.Printf("  observed %s = %s\n", o[0], o[1])
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, repPath)
	}
	for _, m := range mismatchText {
		fmt.Fprintln(os.Stderr, "symgo: MISMATCH", m)
	}
	vacuous := false
	for _, r := range reports {
		if r.Completed == 0 && exit == 0 {
			vacuous = true
			fmt.Fprintln(os.Stderr, "symgo: no path of", r.Name, "ran to completion:", r.Why)
		}
	}
	if exit == 0 && (unconfirmed > 0 || mismatch > 0 || vacuous) {
		exit = 2
	}

	if !*noev {
		var smp []interface{}
		for i := 0; i < len(samples) && len(smp) < 4; i += 1 + len(samples)/4 {
			smp = append(smp, map[string]interface{}{"harness": samples[i].Harness, "model": samples[i].Inputs, "observed": samples[i].Obs})
		}
		if len(smp) == 0 {
			smp = append(smp, "no path completed")
		}
		cov := map[string]interface{}{
			"states":                        total.Paths,
			"states_meaning":                "symbolic paths: classes of inputs that take the same branches, each with a solver model",
			"transitions":                   total.Branches + total.Choices,
			"transitions_meaning":           "solver-decided branches plus structural choices",
			"traces_validated_against_impl": validated,
			"samples":                       smp,
			"exhaustive":                    exhaustedAll && total.Inconclusive == 0,
			"obligations":                   total.Obligations,
			"discharged":                    total.Discharged,
			"discharged_by_term_rewriting":  total.Folded,
			"solver":                        "z3 4.8.12 (QF_BV)",
			"solver_queries":                qs,
			"solver_cache_hits":             hits,
			"solver_sat":                    satN,
			"solver_unsat":                  unsatN,
			"solver_unknown":                unkN,
			"solver_time_s":                 round(solT.Seconds()),
			"inconclusive":                  total.Inconclusive,
			"inconclusive_why":              total.Why,
			"races_refuted":                 refuted,
			"instructions_executed":         total.Steps,
			"functions_encoded":             fnNames,
			"repo_blocks_executed":          len(covered),
			"bounds":                        bounds,
			"harnesses":                     reports,
			"load_s":                        round(loadS),
			"init_s":                        round(initS - loadS),
		}
		ev := map[string]interface{}{
			"property": *prop, "tier": *tier, "seed": seed, "level": *level, "coverage": cov,
			"wall_s": round(time.Since(t0).Seconds()), "violations": len(confirmed),
			"assumptions": []string{
				"go/ssa (x/tools) and the executor's instruction semantics; re-checked on this run by replaying sampled path models on the compiled code",
				"models of fmt, reflect, sort.Slice, sync and byte-search primitives in engine/intr.go, fmtx.go, reflectx.go",
				"inputs outside the bounds listed are not covered",
			},
		}
		os.MkdirAll(filepath.Join(absPath(*root), "evidence"), 0o755)
		js, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(absPath(*root), "evidence", *prop+".json"), append(js, '\n'), 0o644)
	}
	status := "held on everything explored"
	if exit == 1 {
		status = "VIOLATED"
	} else if exit == 2 {
		status = "no verdict"
	}
	fmt.Printf("%s %s: %s; %d paths, %d obligations (%d discharged, %d by rewriting), %d solver queries (%.1fs), %d paths validated natively, exhausted=%v, %.1fs\n",
		*prop, *tier, status, total.Paths, total.Obligations, total.Discharged, total.Folded, qs, solT.Seconds(), validated, exhaustedAll, time.Since(t0).Seconds())
	return exit
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

// raceHarnesses names the harnesses with suspected races.
func raceHarnesses(viols []*Violation) (names []string) {
	seen := map[string]bool{}
	for _, v := range viols {
		if strings.HasPrefix(v.Msg, "race:") && !seen[v.Harness] {
			seen[v.Harness] = true
			names = append(names, v.Harness)
		}
	}
	return names
}

func sameObs(a, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// reachLabels lists the v.Reach labels in a harness function (for vacuity reporting).
func reachLabels(fn *ssa.Function) []string {
	var r []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.String() == "verifharness/v.Reach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						r = append(r, s)
					}
				}
			}
		}
	}
	return r
}

func doReplay(file, harnessDir, modfile, tmp string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var vs []*Violation
	if err := json.Unmarshal(b, &vs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bad := 0
	for _, v := range vs {
		n, err := buildNative(harnessDir, modfile, tmp, []string{v.Harness}, strings.HasPrefix(v.Msg, "race:"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		rs, err := n.runBatch([]nativeJob{{v.Harness, v.Inputs, "quick"}})
		n.Close()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		js, _ := json.MarshalIndent(rs[0], "", " ")
		fmt.Printf("%s: expected failure %q\n%s\n", v.Harness, v.Msg, js)
		if len(rs[0].Failed) > 0 || rs[0].Panic != "" || rs[0].Race || rs[0].Error != "" {
			bad++
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
