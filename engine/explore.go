package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Input and Output mirror the harness side's JSON.
type Input struct {
	Name string
	V    uint64
	B    []byte `json:",omitempty"`
}

type Output struct {
	Name string
	B    []byte
}

type Case struct {
	Harness string
	Tier    string
	In      []Input
	Outs    []Output `json:",omitempty"`
}

type Issue struct {
	Kind  string // assert, panic, fault, race, deadlock, stack, limit, engine
	ID    string
	Msg   string
	Case  Case
	Trace []string
	Info  string
	Kinds map[string]string
	Max   map[string]uint64 // greatest values of the scalar inputs
	Float bool              // depends on the uninterpreted text of floats
	More  []Case            // other paths with the same issue
	Count int
}

type harnessRun struct {
	name     string
	fn       *ssa.Function
	thorough bool
	baseObjs int
	baseStat int
}

type HarnessResult struct {
	Name         string
	Paths        int
	Aborted      int // infeasible or assumption-stopped paths
	Steps        int64
	Forks        int
	Asserts      int
	Trivial      int
	BySolver     int
	Merges       int
	Unknown      int
	Issues       map[string]*Issue
	Inconclusive map[string]int
	Reached      map[string]int
	Samples      []Case
	Fns          map[string]bool
	Solver       SolverStats
	Wall         time.Duration
	TimedOut     bool
	MaxDepth     int
}

// shared coordinates the machines working on one harness.
type shared struct {
	mu     sync.Mutex
	cond   *sync.Cond
	jobs   [][]Decision
	idle   int32
	total  int
	closed bool
	stop   atomic.Bool
	res    *HarnessResult
	rng    *rand.Rand
	nsamp  int
}

func (s *shared) hungry() bool { return atomic.LoadInt32(&s.idle) > 0 }

func (s *shared) give(p []Decision) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.jobs) >= s.total {
		return false
	}
	s.jobs = append(s.jobs, p)
	s.cond.Signal()
	return true
}

func (s *shared) take() ([]Decision, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if s.stop.Load() {
			s.closed = true
			s.cond.Broadcast()
			return nil, false
		}
		if n := len(s.jobs); n > 0 {
			j := s.jobs[n-1]
			s.jobs = s.jobs[:n-1]
			return j, true
		}
		if s.closed {
			return nil, false
		}
		if int(atomic.AddInt32(&s.idle, 1)) == s.total {
			s.closed = true
			s.cond.Broadcast()
			atomic.AddInt32(&s.idle, -1)
			return nil, false
		}
		s.cond.Wait()
		atomic.AddInt32(&s.idle, -1)
	}
}

// halt ends the exploration.
func (s *shared) halt() {
	s.stop.Store(true)
	s.mu.Lock()
	s.cond.Broadcast()
	s.mu.Unlock()
}

func explore(ms []*Machine, fn *ssa.Function, thorough bool, budget time.Duration, seed int64, nsamp int) *HarnessResult {
	t0 := time.Now()
	res := &HarnessResult{Name: fn.Name(), Issues: map[string]*Issue{}, Inconclusive: map[string]int{}, Reached: map[string]int{}, Fns: map[string]bool{}}
	sh := &shared{total: len(ms), res: res, rng: rand.New(rand.NewSource(seed)), nsamp: nsamp}
	sh.cond = sync.NewCond(&sh.mu)
	sh.jobs = [][]Decision{nil}
	timer := time.AfterFunc(budget, sh.halt)
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.explore(fn, thorough, sh)
		}(m)
	}
	wg.Wait()
	timer.Stop()
	res.TimedOut = sh.stop.Load() && len(res.Issues) < maxIssues
	res.Wall = time.Since(t0)
	return res
}

const maxIssues = 6

var dbgCount int32

func (m *Machine) explore(fn *ssa.Function, thorough bool, sh *shared) {
	m.h = &harnessRun{name: fn.Name(), fn: fn, thorough: thorough, baseObjs: len(m.dyn)}
	m.share = sh
	m.fnSeen = map[*ssa.Function]bool{}
	m.stats = machStats{}
	steps0, sol0 := m.steps, m.sol.stats
	base := len(m.trail)
	for {
		job, ok := sh.take()
		if !ok {
			break
		}
		m.startJob(fn, job)
		for {
			m.runPath(sh)
			if len(m.tc.uncert) >= 128 {
				m.certify(sh)
			}
			if sh.stop.Load() {
				break
			}
			if !m.backtrack() {
				break
			}
		}
		m.undoTo(base)
		for i := m.h.baseObjs; i < len(m.dyn); i++ {
			m.dyn[i] = nil
		}
		m.dyn = m.dyn[:m.h.baseObjs]
		m.cps = nil
	}
	m.certify(sh)
	sh.mu.Lock()
	defer sh.mu.Unlock()
	r := sh.res
	r.Steps += m.steps - steps0
	s := m.sol.stats
	r.Solver.add(SolverStats{Queries: s.Queries - sol0.Queries, SatN: s.SatN - sol0.SatN, UnsatN: s.UnsatN - sol0.UnsatN, UnknownN: s.UnknownN - sol0.UnknownN, Cached: s.Cached - sol0.Cached, Tables: s.Tables - sol0.Tables, Fallbacks: s.Fallbacks - sol0.Fallbacks, Time: s.Time - sol0.Time, Max: s.Max})
	st := m.stats
	r.Paths += st.paths
	r.Aborted += st.pathsAborted
	r.Forks += st.forks
	r.Asserts += st.asserts
	r.Trivial += st.assertsTrivial
	r.BySolver += st.assertsSolver
	r.Merges += st.merges
	r.Unknown += st.unknownBranches
	for f := range m.fnSeen {
		if f.Pkg != nil || f.Origin() != nil || f.Parent() != nil {
			r.Fns[f.String()] = true
		}
	}
	m.share = nil
	m.h = nil
	m.gors = nil
}

func (m *Machine) startJob(fn *ssa.Function, job []Decision) {
	m.inputs, m.outs, m.reaches, m.notes = nil, nil, nil, nil
	m.pc, m.path, m.cps = nil, nil, nil
	m.replay = job
	m.setModel(make(Model, 0))
	if len(job) > 0 {
		m.setModel(nil)
	}
	m.cfg, m.sched, m.race = runCfg{}, schedCfg{}, nil
	m.pools = map[Addr][]Value{}
	for k, v := range m.basePools {
		m.pools[k] = v
	}
	m.dom = map[int]*domain{}
	m.chans = map[Addr]*chanState{}
	for k, v := range m.baseChans {
		m.chans[k] = v
	}
	m.floatTab = map[floatKey]*floatEnt{}
	m.opaque = false
	m.stepN, m.preempt = 0, 0
	m.cpObjs = m.h.baseObjs
	m.gen++
	g := &Gor{}
	m.gors = []*Gor{g}
	m.cur = 0
	m.pushFrame(g, m.cfunc(fn), nil, 0)
}

func (m *Machine) runPath(sh *shared) {
	m.opaque = len(m.floatTab) > 0
	kind, id, msg := m.runGuard()
	switch kind {
	case "end":
		m.stats.paths++
		m.finishPath(sh)
	case "quiet":
		m.stats.pathsAborted++
	case "stopped":
	default:
		m.stats.paths++
		m.report(sh, kind, id, msg)
	}
}

func (m *Machine) finishPath(sh *shared) {
	sh.mu.Lock()
	for _, r := range m.reaches {
		sh.res.Reached[r]++
	}
	want := false
	if !m.opaque {
		if len(sh.res.Samples) < sh.nsamp {
			want = true
		} else if sh.nsamp > 0 && sh.rng.Intn(64) == 0 {
			want = true
		}
	}
	sh.mu.Unlock()
	if !want {
		return
	}
	c, ok := m.caseOf(true)
	if !ok {
		return
	}
	sh.mu.Lock()
	if len(sh.res.Samples) < sh.nsamp {
		sh.res.Samples = append(sh.res.Samples, c)
	} else {
		sh.res.Samples[sh.rng.Intn(sh.nsamp)] = c
	}
	sh.mu.Unlock()
}

// caseOf evaluates the inputs (and outputs) of the current path under a model.
func (m *Machine) caseOf(outs bool) (c Case, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	m.ensureModel()
	c.Harness = m.h.name
	c.Tier = "quick"
	if m.h.thorough {
		c.Tier = "thorough"
	}
	for _, in := range m.inputs {
		x := Input{Name: in.name}
		if in.kind == "b" {
			x.B = make([]byte, len(in.ts))
			for i, t := range in.ts {
				x.B[i] = byte(m.eval(t))
			}
		} else {
			x.V = m.eval(in.ts[0])
		}
		c.In = append(c.In, x)
	}
	if outs {
		for _, o := range m.outs {
			b := make([]byte, len(o.ts))
			for i, t := range o.ts {
				b[i] = byte(m.eval(t))
			}
			c.Outs = append(c.Outs, Output{o.name, b})
		}
	}
	return c, true
}

func (m *Machine) report(sh *shared, kind, id, msg string) {
	where := m.trace()
	info := ""
	if os.Getenv("ENGINE_DEBUG") != "" {
		for _, p := range m.pc {
			info += "\n   pc " + p.String()
		}
		info += fmt.Sprintf("\n   path %v", m.path)
		for _, o := range m.outs {
			info += "\n   out " + o.name
			for _, t := range o.ts {
				info += "\n      " + t.String()
			}
		}
	}
	c, ok := m.caseOf(false)
	kinds, max := map[string]string{}, map[string]uint64{}
	for _, in := range m.inputs {
		kinds[in.name] = in.kind
		if in.kind != "b" && len(in.ts) == 1 && in.ts[0].op == OVar {
			max[in.name] = in.ts[0].x.max
		}
	}
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if kind == "engine" || kind == "limit" {
		k := kind + ": " + msg
		sh.res.Inconclusive[k]++
		if !ok {
			return
		}
	}
	key := kind + "|" + id
	if id == "" {
		top := ""
		if len(where) > 0 {
			top = where[len(where)-1]
		}
		key = kind + "|" + msg + "|" + top
	}
	if is := sh.res.Issues[key]; is != nil {
		is.Count++
		if ok && (is.Count < 20 || len(is.More) < 40 && is.Count&(is.Count-1) == 0) {
			is.More = append(is.More, c)
		}
		return
	}
	if !ok {
		sh.res.Inconclusive["no model for: "+kind+" "+msg]++
		return
	}
	n := 0
	for _, is := range sh.res.Issues {
		if is.Kind != "engine" && is.Kind != "limit" {
			n++
		}
	}
	if len(sh.res.Issues) >= 4*maxIssues {
		return
	}
	sh.res.Issues[key] = &Issue{Kind: kind, ID: id, Msg: msg, Case: c, Trace: where, Count: 1, Info: info, Kinds: kinds, Max: max, Float: len(m.floatTab) > 0}
	if kind != "engine" && kind != "limit" && n == 0 {
		// enough to look for further ones
		time.AfterFunc(60*time.Second, sh.halt)
	}
	if n+1 >= maxIssues {
		sh.stop.Store(true)
		sh.cond.Broadcast()
	}
}

func (m *Machine) trace() []string {
	var out []string
	if m.cur < len(m.gors) {
		for _, f := range m.gors[m.cur].frames {
			pos := ""
			if int(f.pc) < len(f.cf.code) {
				if in := f.cf.code[f.pc].ssa; in != nil && in.Pos().IsValid() {
					p := m.P.prog.Fset.Position(in.Pos())
					pos = fmt.Sprintf(" %s:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
				}
			}
			out = append(out, f.cf.name+pos)
		}
	}
	return out
}

// runGuard executes until the path ends and classifies how it ended.
func (m *Machine) runGuard() (kind, id, msg string) {
	for {
		k, i, s, again := m.runOnce()
		if !again {
			return k, i, s
		}
	}
}

func (m *Machine) classify(r any) (kind, id, msg string) {
	if p, ok := r.(pathEnd); ok && p.why == "stopped" {
		return "stopped", "", ""
	}
	switch r := r.(type) {
	case pathEnd:
		return "quiet", "", r.why
	case uncaught:
		return "panic", "", m.panicText(r.v)
	case memFault:
		return "fault", "", r.msg
	case raceFault:
		return "race", "", r.msg
	case deadlock:
		return "deadlock", "", r.msg
	case stackOverflow:
		return "stack", "", "unbounded recursion in " + r.fn
	case limitError:
		return "limit", "", r.msg
	case engineError:
		return "engine", "", r.msg
	case assertFail:
		return "assert", r.id, "assertion " + r.id
	}
	if os.Getenv("ENGINE_DEBUG") != "" && atomic.AddInt32(&dbgCount, 1) == 1 {
		fmt.Fprintf(os.Stderr, "internal: %v\n%s\n", r, debug.Stack())
	}
	return "engine", "", fmt.Sprintf("internal: %v in %s", r, strings.Join(m.trace(), " > "))
}

func (m *Machine) runOnce() (kind, id, msg string, again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		var pv *Value
		switch x := r.(type) {
		case nilFault:
			v := m.runtimeErr("invalid memory address or nil pointer dereference")
			pv = &v
		case goPanic:
			pv = &x.v
		}
		if pv != nil {
			func() {
				defer func() {
					if r2 := recover(); r2 != nil {
						kind, id, msg = m.classify(r2)
						again = false
					} else {
						again = true
					}
				}()
				m.startPanic(*pv)
			}()
			return
		}
		kind, id, msg = m.classify(r)
	}()
	m.loop()
	return "end", "", "", false
}

func (m *Machine) runtimeErr(s string) Value {
	var v Value
	func() {
		defer func() {
			if g, ok := recover().(goPanic); ok {
				v = g.v
			}
		}()
		m.goPanicErr(s)
	}()
	return v
}

type assertFail struct{ id string }

func (m *Machine) assert(id string, c *Term) {
	m.stats.asserts++
	if c.isC() {
		m.stats.assertsTrivial++
		if c.val == 1 {
			return
		}
		panic(assertFail{id})
	}
	m.stats.assertsSolver++
	if len(m.replay) > 0 || !m.hasMod {
		m.ensureModel()
	}
	if m.eval(c) == 0 {
		// the current model already refutes it
		panic(assertFail{id})
	}
	r, md := m.checkWith(m.tc.Not(c))
	switch r {
	case Unsat:
		return
	case Sat:
		m.pushPC(m.tc.Not(c))
		m.setModel(md)
		panic(assertFail{id})
	default:
		if os.Getenv("ENGINE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "UNDECIDED", c.show(14))
		}
		panic(limitErr("assertion " + id + " undecided by the solvers"))
	}
}

func (m *Machine) loop() {
	for {
		if m.share != nil && m.share.stop.Load() {
			panic(pathEnd{"stopped"})
		}
		for k := 0; k < 4096; k++ {
			g := m.gors[m.cur]
			m.iTrail, m.iPC, m.iObjs, m.iPath = len(m.trail), len(m.pc), len(m.dyn), len(m.path)-0
			m.iInputs, m.iOuts, m.iReach, m.iNotes = len(m.inputs), len(m.outs), len(m.reaches), len(m.notes)
			m.iSteps, m.iPreempt = m.stepN, m.preempt
			m.jumped, m.forceTrail = false, false
			if g.status != gRun {
				if m.cur == 0 && g.status == gDone {
					return
				}
				m.reschedule()
				continue
			}
			n := len(g.frames)
			f := g.frames[n-1]
			if f.gen != m.gen {
				f = f.clone()
				f.gen = m.gen
				g.frames[n-1] = f
			}
			m.stepN++
			m.steps++
			f.cf.code[f.pc].exec(m, f)
			if !m.jumped {
				// addChoice may have replaced nothing: the running frame stays the top one
				f.pc++
			}
		}
		if m.stepN > m.maxStep {
			panic(limitErr("step limit"))
		}
	}
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
