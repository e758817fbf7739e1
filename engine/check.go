package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// nativeResult is what the harness program prints for one case.
type nativeResult struct {
	Harness string
	Fails   []string
	Skip    string
	Panic   string
	Outs    []Output
	crash   string // the process died or hung
}

func (r *nativeResult) bad() string {
	switch {
	case r.crash != "":
		return r.crash
	case r.Panic != "":
		return "panic: " + r.Panic
	case (r.Skip == "" || r.Skip == "no more input") && len(r.Fails) > 0:
		return "assertion failed: " + strings.Join(r.Fails, ", ")
	}
	return ""
}

// natives builds the harness program; the race variant also enables checkptr.
type natives struct {
	dir, tmp string
	bin      [4]string
	err      [4]error
	once     [4]sync.Once
}

// Kinds of native programs: with the race detector, and with random yields.
const (
	natRace  = 1
	natYield = 2
)

func (n *natives) get(i int) (string, error) {
	n.once[i].Do(func() {
		out := filepath.Join(n.tmp, fmt.Sprintf("native%d", i))
		args := []string{"build", "-o", out}
		env := goEnv()
		if i&natRace != 0 {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		}
		if i&natYield != 0 {
			o, err := n.delayOverlay()
			if err != nil {
				n.err[i] = err
				return
			}
			args = append(args, "-overlay", o)
		}
		c := exec.Command(goroot+"/bin/go", append(args, ".")...)
		c.Dir, c.Env = n.dir, env
		b, err := c.CombinedOutput()
		if err != nil {
			n.err[i] = fmt.Errorf("native build: %v: %s", err, b)
		}
		n.bin[i] = out
	})
	return n.bin[i], n.err[i]
}

// runCases runs cases natively in one process; a crash is attributed to the first case
// without an answer, the others are run again.
func (n *natives) runCases(cs []Case, kind int, repeat int, limit time.Duration, extra ...string) []nativeResult {
	bin, err := n.get(kind)
	out := make([]nativeResult, len(cs))
	if err != nil {
		for i := range out {
			out[i].Skip = err.Error()
		}
		return out
	}
	for i := 0; i < len(cs); {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, c := range cs[i:] {
			enc.Encode(c)
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, bin, fmt.Sprint(repeat))
		cmd.Stdin = &in
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.Env = append(os.Environ(), "GOMAXPROCS=8", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
		cmd.Env = append(cmd.Env, extra...)
		err := cmd.Run()
		hung := ctx.Err() != nil
		cancel()
		sc := bufio.NewReader(&so)
		dec := json.NewDecoder(sc)
		for i < len(cs) {
			var r nativeResult
			if dec.Decode(&r) != nil {
				break
			}
			out[i] = r
			i++
		}
		if i < len(cs) {
			why := "process ended"
			if hung {
				why = fmt.Sprintf("no answer within %v", limit)
			} else if err != nil {
				why = "crash: " + firstLines(se.String(), 3)
			}
			out[i].Harness = cs[i].Harness
			out[i].crash = why
			i++
		}
	}
	return out
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	var keep []string
	for _, l := range ls {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "=====") {
			continue
		}
		keep = append(keep, l)
		if len(keep) == n {
			break
		}
	}
	return strings.Join(keep, " | ")
}

var floatWitness = []uint64{
	math.Float64bits(0), math.Float64bits(math.Copysign(0, -1)), math.Float64bits(1), math.Float64bits(-1.5), math.Float64bits(0.1),
	math.Float64bits(1e-6), math.Float64bits(9.99e-7), math.Float64bits(1e-7), math.Float64bits(1e-9), math.Float64bits(1.5e-10), math.Float64bits(1e20), math.Float64bits(1e21), math.Float64bits(1.25e21), math.Float64bits(123456789.125),
	math.Float64bits(1e22), math.Float64bits(1e100), math.Float64bits(math.MaxFloat64), math.Float64bits(math.SmallestNonzeroFloat64), math.Float64bits(3.4e38), math.Float64bits(1e-5),
	math.Float64bits(math.NaN()), math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)),
}

var float32Witness = func() (out []uint64) {
	for _, v := range []float32{0, float32(math.Copysign(0, -1)), 1, -1.5, 0.1, 1e-6, 9.99e-7, 1e-7, 1e-9, 1e20, 1e21, 1.25e21, 16777216, math.MaxFloat32, math.SmallestNonzeroFloat32, 3.3, float32(math.NaN()), float32(math.Inf(1))} {
		out = append(out, uint64(math.Float32bits(v)))
	}
	return
}()

// witnesses adds floats of every magnitude to the hand-picked ones.
func witnesses(base []uint64, mant, exps int) []uint64 {
	out := append([]uint64(nil), base...)
	x := uint64(88172645463325252)
	rnd := func() uint64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x }
	bias := exps / 2
	for e := 1; e < exps; e++ {
		k := 1
		if e > bias-40 && e < bias+90 {
			k = 12
		}
		for i := 0; i < k; i++ {
			m := rnd() & (1<<mant - 1)
			switch i % 4 {
			case 1: // integral or short fractions
				if d := e - bias; d >= 0 && d < mant {
					m = m >> (mant - d) << (mant - d)
				}
			case 2:
				m = m >> (mant - 4) << (mant - 4)
			case 3:
				m = 0
			}
			out = append(out, uint64(e)<<mant|m, 1<<(map[int]int{23: 31, 52: 63}[mant])|uint64(e)<<mant|m)
		}
	}
	return out
}

// variants lists assignments near the solver's one, tried when a path that depends on
// uninterpreted text (float digits) does not reproduce as is.
func variants(is *Issue) []Case {
	c := is.Case
	var out []Case
	rng := rand.New(rand.NewSource(1))
	for i, in := range c.In {
		var vs []uint64
		max := is.Max[in.Name]
		switch k := is.Kinds[in.Name]; {
		case is.Float && max >= 1<<16 && k != "F64" && k != "F32":
			// numbers of every magnitude that floating-point operations are applied to
			for j := 0; j < 4000; j++ {
				if v := rng.Uint64() >> rng.Intn(48); v <= max {
					vs = append(vs, v)
				}
			}
		}
		switch is.Kinds[in.Name] {
		case "F64":
			vs = witnesses(floatWitness, 52, 2047)
		case "F32":
			vs = witnesses(float32Witness, 23, 255)
		}
		for _, v := range vs {
			d := c
			d.In = append([]Input(nil), c.In...)
			d.In[i].V = v
			out = append(out, d)
		}
	}
	return out
}

// reproduce looks for a native run showing the issue.
func (n *natives) reproduce(is *Issue, conc bool, budget time.Duration) (Case, string) {
	try := func(cs []Case, kind int, rep int, limit time.Duration, extra ...string) (Case, string) {
		for i, r := range n.runCases(cs, kind, rep, limit, extra...) {
			if b := r.bad(); b != "" {
				return cs[i], b
			}
		}
		return Case{}, ""
	}
	limit := 20 * time.Second
	if c, b := try([]Case{is.Case}, 0, 1, limit); b != "" {
		return c, b
	}
	if v := append(is.More[:len(is.More):len(is.More)], variants(is)...); len(v) > 0 {
		if c, b := try(v, 0, 1, limit); b != "" {
			return c, b
		}
	}
	if c, b := try([]Case{is.Case}, 0, 200, limit); b != "" && !strings.HasPrefix(b, "no answer") {
		return c, b
	}
	if is.Kind == "race" || is.Kind == "fault" || is.Kind == "deadlock" || conc {
		k := 4
		if conc {
			k = 1 << 20
		}
		end := time.Now().Add(budget)
		var mu sync.Mutex
		var rc Case
		var rb string
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for i := 0; i < k; i++ {
			sem <- true
			mu.Lock()
			done := rb != "" || time.Now().After(end)
			mu.Unlock()
			if done {
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				kind, rep := natRace, 20
				var extra []string
				if conc && i >= 12 {
					// schedules: caches are cold only in the first run of a process
					kind, rep = natYield|i&natRace, 1+i&4
					extra = []string{fmt.Sprint("GOMAXPROCS=", []int{1, 2, 8, 1, 3}[i%5]), fmt.Sprint("VERIF_YIELD=", []int{2, 5, 20, 60}[i%4])}
				}
				if c, b := try([]Case{is.Case}, kind, rep, limit, extra...); b != "" && (!strings.HasPrefix(b, "no answer") || is.Kind == "deadlock") {
					mu.Lock()
					rc, rb = c, b
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if rb != "" {
			return rc, rb
		}
	}
	return Case{}, ""
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// docs returns the doc comments of the harness functions: the bounds they state.
func docs(fn *ssa.Function) string {
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return ""
	}
	return strings.Join(strings.Fields(d.Doc.Text()), " ")
}

func checkMain(prop, tier, dir, root string, seed int64, only string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	tmp, err := os.MkdirTemp("", "jettison-check-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nat := &natives{dir: dir, tmp: tmp}
	go nat.get(0)
	if prop == "C17" {
		go nat.get(natRace)
	}
	P, err := loadProgram(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	mp := P.pkgs["verifharness"]
	hs := harnesses(mp, prop, thorough)
	if only != "" {
		var f []*ssa.Function
		for _, h := range hs {
			if strings.Contains(h.Name(), only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	nm := runtime.NumCPU()
	if nm > 8 {
		nm = 8
	}
	total := 400 * time.Second
	if thorough {
		total = 3000 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		var x int
		fmt.Sscan(b, &x)
		total = time.Duration(x) * time.Second
	}
	deadline := t0.Add(total)
	var results []*HarnessResult
	nviol := 0
	var notes []string
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("NOTE", s)
	}
	validated, mismatched := 0, 0
	var samples []any
	reported := map[string]bool{}
	violation := func(h, what string, c Case, how string, is *Issue) {
		nviol++
		os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
		p := filepath.Join(root, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, nviol))
		rec := map[string]any{"property": prop, "harness": h, "what": what, "native": how, "case": c,
			"replay": "cd " + dir + " && go run . < CASE.json (the case object on one line)"}
		if is != nil {
			rec["trace"] = is.Trace
		}
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s; natively: %s\n", h, what, how)
		for _, in := range c.In {
			if in.B != nil {
				fmt.Printf("   %s = %q\n", in.Name, in.B)
			} else {
				fmt.Printf("   %s = %d\n", in.Name, int64(in.V))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	known := loadKnown(filepath.Join(root, "known-findings.txt"))
	// known findings: a native witness per entry
	for n, mb := range mp.Members {
		if _, ok := mb.(*ssa.Function); ok && strings.HasPrefix(n, "K_"+prop+"_") && only == "" {
			r := nat.runCases([]Case{{Harness: n, Tier: tier}}, 0, 1, 20*time.Second)[0]
			if b := r.bad(); b != "" {
				if t, ok := known[n]; ok {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
				} else {
					violation(n, "regression witness", Case{Harness: n, Tier: tier}, b, nil)
				}
			}
		}
	}
	var spent time.Duration
	shown := 0
	for i, h := range hs {
		left := time.Until(deadline)
		if left < 2*time.Second {
			note("%s: not explored, the time budget ran out", h.Name())
			continue
		}
		// a harness may use its share of what is left, generously
		share := left/time.Duration(len(hs)-i)*3 + 10*time.Second
		if share > left {
			share = left
		}
		ms := make([]*Machine, nm)
		errs := make([]error, nm)
		var wg sync.WaitGroup
		for j := range ms {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[j] = fmt.Errorf("boot: %v", r)
					}
				}()
				ms[j], errs[j] = newBooted(P, mp)
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				// code run at initialisation is outside what the engine models: decided natively only
				note("engine: %v", e)
				ms = nil
				break
			}
		}
		if ms == nil {
			return finishEvidence(prop, tier, seed, root, results, validated, mismatched, samples, notes, nviol, t0, hs)
		}
		nsamp := 6
		if thorough {
			nsamp = 20
		}
		r := explore(ms, h, thorough, share, seed, nsamp)
		for _, m := range ms {
			m.sol.Close()
		}
		results = append(results, r)
		fmt.Printf("%-34s paths %-7d steps %-10d asserts %d (%d by the solver) queries %d in %.1fs, wall %.1fs\n", h.Name(), r.Paths, r.Steps, r.Asserts, r.BySolver, r.Solver.Queries, r.Solver.Time.Seconds(), r.Wall.Seconds())
		if r.TimedOut {
			note("%s: stopped by its time budget after %d paths; the claim is reduced to the paths explored", h.Name(), r.Paths)
		}
		for _, k := range sortedKeys(r.Inconclusive) {
			note("%s: inconclusive on %d path(s): %s", h.Name(), r.Inconclusive[k], k)
		}
		if r.Asserts == 0 && len(r.Issues) == 0 {
			note("%s: vacuous, no assertion was reached", h.Name())
		}
		conc := strings.Contains(h.Name(), "_conc")
		type rep struct {
			is  *Issue
			c   Case
			how string
		}
		var reps []rep
		for _, k := range sortedKeys(r.Issues) {
			is := r.Issues[k]
			budget := 60 * time.Second
			if spent > 200*time.Second {
				budget = time.Second
			} else if shown > 0 {
				budget = 5 * time.Second
			}
			t := time.Now()
			c, how := nat.reproduce(is, conc, budget)
			spent += time.Since(t)
			if how != "" {
				shown++
				if d := time.Now().Add(60 * time.Second); d.Before(deadline) {
					deadline = d
				}
			}
			reps = append(reps, rep{is, c, how})
		}
		for _, x := range reps {
			if x.how == "" {
				if x.is.Kind != "engine" && x.is.Kind != "limit" {
					note("%s: the solver's assignment for %q did not reproduce natively; not reported (%s) input %v trace %v", h.Name(), x.is.Kind+" "+x.is.ID, x.is.Msg, x.is.Case.In, tail(x.is.Trace, 3))
				}
				continue
			}
			key := h.Name() + "|" + x.how
			if reported[key] {
				continue
			}
			reported[key] = true
			violation(h.Name(), x.is.Kind+" "+x.is.ID+" "+x.is.Msg, x.c, x.how, x.is)
		}
		if conc {
			// every run of a concurrent harness is also compared natively, but schedules are not replayed
		}
		nr := nat.runCases(r.Samples, 0, 1, 60*time.Second)
		for j, x := range nr {
			if b := x.bad(); b != "" {
				key := h.Name() + "|" + b
				if !reported[key] {
					reported[key] = true
					violation(h.Name(), "trace validation", r.Samples[j], b, nil)
				}
				continue
			}
			if x.Skip != "" {
				note("%s: sample skipped natively: %s", h.Name(), x.Skip)
				continue
			}
			if !sameOuts(x.Outs, r.Samples[j].Outs) {
				mismatched++
				note("%s: the native run observed other output: symbolic %s native %s input %v", h.Name(), showOuts(r.Samples[j].Outs), showOuts(x.Outs), r.Samples[j].In)
				continue
			}
			validated++
		}
		for j, s := range r.Samples {
			if j < 2 {
				samples = append(samples, sampleOf(s))
			}
		}
	}
	return finishEvidence(prop, tier, seed, root, results, validated, mismatched, samples, notes, nviol, t0, hs)
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func sameOuts(a, b []Output) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || !bytes.Equal(a[i].B, b[i].B) {
			return false
		}
	}
	return true
}

func showOuts(o []Output) string {
	var s []string
	for _, x := range o {
		s = append(s, fmt.Sprintf("%s=%q", x.Name, x.B))
	}
	return strings.Join(s, " ")
}

func sampleOf(c Case) any {
	in := map[string]any{}
	for i, x := range c.In {
		k := fmt.Sprintf("%d:%s", i, x.Name)
		if x.B != nil {
			in[k] = fmt.Sprintf("%q", x.B)
		} else {
			in[k] = x.V
		}
	}
	out := map[string]string{}
	for _, x := range c.Outs {
		out[x.Name] = fmt.Sprintf("%q", x.B)
	}
	return map[string]any{"harness": c.Harness, "inputs": in, "observed": out}
}

func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C05 witness=K_C05_x what fails
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		fs := strings.Fields(l)
		for i, f := range fs {
			if strings.HasPrefix(f, "witness=") {
				out[strings.TrimPrefix(f, "witness=")] = strings.Join(fs[i+1:], " ")
			}
		}
	}
	return out
}

func finishEvidence(prop, tier string, seed int64, root string, rs []*HarnessResult, validated, mismatched int, samples []any, notes []string, nviol int, t0 time.Time, hs []*ssa.Function) int {
	paths, asserts, bysol, triv, unknown, q, aborted := 0, 0, 0, 0, 0, 0, 0
	var steps int64
	var st SolverStats
	jet := map[string]bool{}
	other := map[string]bool{}
	var per []any
	complete := true
	for _, r := range rs {
		paths += r.Paths
		aborted += r.Aborted
		steps += r.Steps
		asserts += r.Asserts
		bysol += r.BySolver
		triv += r.Trivial
		unknown += r.Unknown
		q += r.Solver.Queries
		st.add(r.Solver)
		for f := range r.Fns {
			if strings.Contains(f, repoPkg) {
				jet[strings.ReplaceAll(f, repoPkg+".", "")] = true
			} else {
				other[f] = true
			}
		}
		if r.TimedOut || len(r.Inconclusive) > 0 {
			complete = false
		}
		per = append(per, map[string]any{"harness": r.Name, "paths": r.Paths, "infeasible_or_assumed_away": r.Aborted, "forks": r.Forks, "merged_branches": r.Merges,
			"assertions": r.Asserts, "assertions_by_solver": r.BySolver, "ssa_steps": r.Steps, "solver_queries": r.Solver.Queries, "conditions_certified_by_solver": r.Solver.Tables, "solver_time_s": r.Solver.Time.Seconds(),
			"wall_s": r.Wall.Seconds(), "timed_out": r.TimedOut, "inconclusive": r.Inconclusive, "reached": r.Reached})
	}
	if len(rs) < len(hs) {
		complete = false
	}
	bounds := map[string]string{}
	for _, h := range hs {
		bounds[h.Name()] = docs(h)
	}
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", WallS: time.Since(t0).Seconds(), Violations: nviol,
		Assumptions: assumptions,
		Coverage: map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "trace_mismatches": mismatched, "samples": samples,
			"exhaustive_within_bounds":   complete,
			"infeasible_or_assumed_away": aborted,
			"assertions":                 asserts, "assertions_discharged_by_solver": bysol, "assertions_discharged_by_simplification": triv,
			"solver_queries": q, "conditions_certified_by_solver": st.Tables, "solver_sat": st.SatN, "solver_unsat": st.UnsatN, "solver_unknown": st.UnknownN, "solver_fallbacks": st.Fallbacks, "solver_time_s": st.Time.Seconds(), "solver_max_query_s": st.Max.Seconds(),
			"undecided_branches_explored_both_ways": unknown,
			"jettison_functions_encoded":            sorted(jet), "library_functions_encoded": len(other),
			"harnesses": per, "bounds": bounds, "notes": notes,
			"meaning": "states = complete symbolic paths, transitions = SSA instructions executed symbolically",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d assertions (%d by the solver), %d queries, %d traces validated, %d violation(s), %.1fs\n", prop, tier, paths, asserts, bysol, q, validated, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"the Go compiler implements the semantics of the SSA form built by golang.org/x/tools/go/ssa (amd64 layout)",
	"library functions replaced by models: runtime and reflect primitives without Go bodies (type descriptors, maps, growslice, memory moves), internal/bytealg, sync primitives and atomics, base-10 strconv of symbolic integers (exact digits by division), shortest float text (uninterpreted digits, only the exponent form is exposed), fmt of symbolic data (opaque)",
	"bounds: those listed per harness; nothing is claimed beyond them",
}

func sorted(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
