package main

import (
	"fmt"
	"go/types"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded code, shared by all machines.
type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	msetCache typeutil.MethodSetCache
	mu        sync.Mutex
	linkname  map[string]string // bodyless function -> implementation name
	funcByStr map[string]*ssa.Function
}

type limitError struct{ msg string }

func limitErr(s string) limitError { return limitError{s} }

// goPanic carries a Go panic value (an empty interface) raised by the running code.
type goPanic struct{ v Value }

// pathEnd stops the current path quietly (assumption failed).
type pathEnd struct{ why string }

type Frame struct {
	cf     *CFunc
	regs   []Value
	pc     int32
	gen    uint32
	prev   int32 // predecessor block index is resolved at jumps; kept for diagnostics
	defers *deferRec
	pd     *panicRec // this frame runs a deferred call on behalf of that panic
	noAdv  bool      // on return the caller's pc does not advance (deferred calls)
	result *Value    // preset results when returning through recovery
	recov  bool      // returning after a recovered panic
	onRet  func(m *Machine, v Value)
}

type deferRec struct {
	next *deferRec
	fn   *ssa.Function
	bi   *ssa.Builtin
	bcc  *ssa.CallCommon
	args []Value
	fv   Addr
}

type panicRec struct {
	val       Value
	next      *panicRec
	recovered bool
	goexit    bool
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type Gor struct {
	id     int
	frames []*Frame
	status gstatus
	panics *panicRec
	wait   func(m *Machine) bool // blocked until this holds
	why    string
	vc     []uint32
	chw    *chanWait
	yield  bool // already offered a context switch before the current instruction
}

type Decision struct {
	k   uint8 // 'b' branch, 'c' choose, 'v' concretize
	tk  uint8 // branch/concretize outcome
	imp bool  // implied by the path condition
	val uint64
}

type snapshot struct {
	gors    []Gor
	cur     int
	trail   int
	pc      int
	objs    int
	path    int
	inputs  int
	outs    int
	reaches int
	steps   int64
	preempt int
	notes   int
}

type alt struct {
	d     Decision
	model Model
	has   bool
}

type choicePoint struct {
	s      snapshot
	prefix []Decision // decisions taken earlier by the same instruction
	alts   []alt
}

type inputEv struct {
	name string
	kind string
	ts   []*Term
}

type outEv struct {
	name string
	ts   []*Term
}

type Machine struct {
	P   *Program
	tc  *TC
	sol *Solver

	static []*Obj
	dyn    []*Obj
	nAlloc int64

	rtFast map[types.Type]*RT
	rtMap  *typeutil.Map
	rtAddr map[Addr]*RT

	symTags   map[string][]*Term
	symTagID  map[string]string
	names     map[string]Addr
	nameOffs  map[Addr]uint32
	nameTab   []Addr
	typeTab   []types.Type
	itabs     map[itabKey]Addr
	itabAddr  map[Addr]*RT
	implCache map[itabKey]bool
	strs      map[string]Addr
	globals   map[*ssa.Global]Addr
	cfs       map[*ssa.Function]*CFunc
	fnAddr    map[*ssa.Function]Addr // funcval
	textFn    map[Addr]*ssa.Function
	textOf    map[*ssa.Function]Addr
	textObj   *Obj

	zeroBaseObj *Obj
	eqFn        Addr

	trail      []trailEnt
	cpObjs     int
	forceTrail bool
	booting    bool
	maxObjs    int

	gors []*Gor
	cur  int
	gen  uint32

	pc     []*Term
	model  Model
	hasMod bool
	path   []Decision
	replay []Decision
	cps    []*choicePoint

	// per instruction
	iTrail, iPC, iObjs, iPath, iInputs, iOuts, iReach, iNotes int
	iSteps                                                    int64
	iPreempt                                                  int
	jumped                                                    bool

	inputs  []inputEv
	outs    []outEv
	reaches []string
	notes   []string
	stepN   int64
	steps   int64 // total
	maxStep int64
	maxDep  int
	preempt int

	race  *raceState
	sched schedCfg
	cfg   runCfg

	h         *harnessRun
	deadline  time.Time
	fnSeen    map[*ssa.Function]bool
	varCount  map[string]int
	stats     machStats
	floatTab  map[floatKey]*floatEnt
	itoaTab   map[itoaKey]*itoaEnt
	share     *shared
	pools     map[Addr][]Value
	dom       map[int]*domain
	chans     map[Addr]*chanState
	baseChans map[Addr]*chanState
	basePools map[Addr][]Value
	opaque    bool
	ifOpnd    map[*ssa.If]int
}

type machStats struct {
	paths, pathsAborted, forks, asserts, assertsTrivial, assertsSolver int
	unknownBranches                                                    int
	merges                                                             int
}

type runCfg struct {
	mapOrder bool
	poolMode int
	maxDigit int
}

func NewMachine(p *Program) *Machine {
	m := &Machine{P: p, tc: NewTC(), rtFast: map[types.Type]*RT{}, rtMap: newRTMap(), rtAddr: map[Addr]*RT{},
		symTags: map[string][]*Term{}, symTagID: map[string]string{}, names: map[string]Addr{}, nameOffs: map[Addr]uint32{}, itabs: map[itabKey]Addr{}, itabAddr: map[Addr]*RT{},
		implCache: map[itabKey]bool{}, strs: map[string]Addr{}, globals: map[*ssa.Global]Addr{}, cfs: map[*ssa.Function]*CFunc{},
		fnAddr: map[*ssa.Function]Addr{}, textFn: map[Addr]*ssa.Function{}, textOf: map[*ssa.Function]Addr{},
		maxObjs: 4 << 20, maxStep: 8_000_000, maxDep: 20000, fnSeen: map[*ssa.Function]bool{}, varCount: map[string]int{},
		floatTab: map[floatKey]*floatEnt{}, itoaTab: map[itoaKey]*itoaEnt{}, ifOpnd: map[*ssa.If]int{}}
	m.sol = NewSolver(m.tc)
	m.static = []*Obj{{what: "nil page"}}
	m.textObj = m.allocStatic(1<<20, "text")
	return m
}

// ---- functions as values ----

func (m *Machine) textAddr(fn *ssa.Function) Addr {
	if a, ok := m.textOf[fn]; ok {
		return a
	}
	a := m.textObj.base() + uint64(len(m.textOf)+1)*16
	if len(m.textOf)*16 >= 1<<20-32 {
		panic(engErr("too many function values"))
	}
	m.textOf[fn] = a
	m.textFn[a] = fn
	return a
}

func (m *Machine) funcVal(fn *ssa.Function) Addr {
	if a, ok := m.fnAddr[fn]; ok {
		return a
	}
	o := m.allocStatic(8, "func "+fn.String())
	m.put(o, 0, 64, m.textAddr(fn))
	o.ro = true
	m.fnAddr[fn] = o.base()
	return o.base()
}

// eqFuncAddr is a recognisable non-nil stand-in for abi.Type.Equal.
func (m *Machine) eqFuncAddr() Addr {
	if m.eqFn == 0 {
		o := m.allocStatic(8, "type equality")
		m.put(o, 0, 64, m.textObj.base()+8)
		o.ro = true
		m.eqFn = o.base()
	}
	return m.eqFn
}

func (m *Machine) str(s string) Value {
	if s == "" {
		return tup(cv(64, 0), cv(64, 0))
	}
	a, ok := m.strs[s]
	if !ok {
		o := m.allocStatic(len(s), "string constant")
		copy(o.data, s)
		o.ro = true
		a = o.base()
		m.strs[s] = a
	}
	return tup(cv(64, a), cv(64, uint64(len(s))))
}

func (m *Machine) globalAddr(g *ssa.Global) Addr {
	if a, ok := m.globals[g]; ok {
		return a
	}
	r := m.rt(g.Type().(*types.Pointer).Elem())
	o := m.allocStatic(r.size, "var "+g.String())
	m.globals[g] = o.base()
	return o.base()
}

// addrOf makes a pointer term concrete.
func (m *Machine) addrOf(t *Term) Addr {
	if t.op == OConst {
		return t.val
	}
	return m.concretize(t)
}

// goString reads a Go string value; symbolic content is an engine error.
func (m *Machine) goString(v Value) string {
	s, ok := m.tryString(v)
	if !ok {
		panic(engErr("symbolic string where a concrete one is required"))
	}
	return s
}

func (m *Machine) tryString(v Value) (string, bool) {
	n := int(m.addrOf(v.e[1].t))
	b, ok := m.bytesAt(m.addrOf(v.e[0].t), n)
	if !ok {
		return "", false
	}
	return string(b), true
}

func (m *Machine) newBytes(b []byte, what string) Addr {
	if len(b) == 0 {
		return m.zeroBase()
	}
	o := m.alloc(len(b), what)
	copy(o.data, b)
	return o.base()
}

func (m *Machine) newString(s string) Value {
	if s == "" {
		return tup(cv(64, 0), cv(64, 0))
	}
	return tup(cv(64, m.newBytes([]byte(s), "string")), cv(64, uint64(len(s))))
}

// ---- decisions ----

func (m *Machine) pushPC(c *Term) {
	if c.isC() {
		if c.val == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if c.op == OAnd {
		m.pushPC(c.x.a)
		m.pushPC(c.x.b)
		return
	}
	for _, p := range m.pc {
		if p == c {
			return
		}
	}
	m.pc = append(m.pc, c)
	m.narrow(c)
}

// slice collects the path-condition entries connected to c.
func (m *Machine) slice(c *Term) []*Term {
	sup := c.sup()
	used := make([]bool, len(m.pc))
	out := []*Term{c}
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			if p.x.sup.intersects(sup) {
				used[i] = true
				out = append(out, p)
				u := sup.union(p.x.sup)
				if len(u) != len(sup) || !u.subset(sup) {
					sup = u
					changed = true
				}
			}
		}
	}
	return out
}

// checkWith decides PC ∧ c; on Sat returns a full model.
func (m *Machine) checkWith(c *Term) (Res, Model) {
	if c.isC() {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, m.model
	}
	cs := m.slice(c)
	r, vars, vals := m.sol.Check(cs)
	if r != Sat {
		return r, nil
	}
	md := make(Model, len(m.tc.vars))
	copy(md, m.model)
	for i, v := range vars {
		md[v.x.idx] = vals[i]
	}
	return Sat, md
}

func (m *Machine) ensureModel() {
	if m.hasMod {
		return
	}
	// solve the whole path condition by independent groups
	md := make(Model, len(m.tc.vars))
	done := map[*Term]bool{}
	for _, p := range m.pc {
		if done[p] {
			continue
		}
		cs := m.slice(p)
		for _, c := range cs {
			done[c] = true
		}
		r, vars, vals := m.sol.Check(cs)
		if r == Unsat {
			panic(pathEnd{"infeasible"})
		}
		if r == Unknown {
			panic(limitErr("no model for the path condition"))
		}
		for i, v := range vars {
			md[v.x.idx] = vals[i]
		}
	}
	m.setModel(md)
}

func (m *Machine) setModel(md Model) {
	m.model = md
	m.hasMod = md != nil
	m.tc.BeginEval()
}

func (m *Machine) eval(t *Term) uint64 {
	return m.tc.Eval(t, m.model)
}

func (m *Machine) nextReplay(k uint8) (Decision, bool) {
	if len(m.replay) == 0 {
		return Decision{}, false
	}
	d := m.replay[0]
	if d.k != k {
		panic(engErr(fmt.Sprintf("replay mismatch: want %c have %c", k, d.k)))
	}
	m.replay = m.replay[1:]
	m.path = append(m.path, d)
	return d, true
}

// branch decides a condition, forking when both outcomes are possible.
func (m *Machine) branch(c *Term) bool {
	if c.isC() {
		return c.val == 1
	}
	if m.booting {
		panic(engErr("symbolic branch during initialisation"))
	}
	if c = m.simp(c); c.isC() {
		return c.val == 1
	}
	if d, ok := m.nextReplay('b'); ok {
		if !d.imp {
			if d.tk == 1 {
				m.pushPC(c)
			} else {
				m.pushPC(m.tc.Not(c))
			}
		}
		return d.tk == 1
	}
	m.ensureModel()
	v := m.eval(c) == 1
	mine, other := c, m.tc.Not(c)
	if !v {
		mine, other = other, mine
	}
	r, md, ok := m.decideByDomain(other)
	if !ok {
		r, md = m.checkWith(other)
	}
	d := Decision{k: 'b'}
	if v {
		d.tk = 1
	}
	switch r {
	case Unsat:
		d.imp = true
	case Unknown:
		m.stats.unknownBranches++
		fallthrough
	case Sat:
		od := d
		od.tk ^= 1
		m.addChoice(alt{od, md, r == Sat})
		m.pushPC(mine)
	}
	m.path = append(m.path, d)
	return v
}

func (m *Machine) addChoice(alts ...alt) {
	m.stats.forks++
	cp := &choicePoint{alts: alts}
	cp.prefix = append([]Decision(nil), m.path[m.iPath:]...)
	s := &cp.s
	s.trail, s.pc, s.objs, s.path = m.iTrail, m.iPC, m.iObjs, m.iPath
	s.inputs, s.outs, s.reaches, s.notes = m.iInputs, m.iOuts, m.iReach, m.iNotes
	s.steps, s.preempt = m.iSteps, m.iPreempt
	s.cur = m.cur
	s.gors = make([]Gor, len(m.gors))
	for i, g := range m.gors {
		s.gors[i] = *g
		s.gors[i].frames = append([]*Frame(nil), g.frames...)
		s.gors[i].vc = append([]uint32(nil), g.vc...)
	}
	// the running instruction keeps writing to its frame: the snapshot gets a copy
	if g := &s.gors[s.cur]; len(g.frames) > 0 {
		top := len(g.frames) - 1
		g.frames[top] = g.frames[top].clone()
	}
	m.gen++
	if g := m.gors[m.cur]; len(g.frames) > 0 {
		g.frames[len(g.frames)-1].gen = m.gen
	}
	m.cps = append(m.cps, cp)
	m.cpObjs = s.objs
	if m.share != nil && m.share.hungry() {
		m.donate()
	}
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	return &n
}

// choose picks one of n alternatives, all explored.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.nextReplay('c'); ok {
		return int(d.val)
	}
	alts := make([]alt, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, alt{Decision{k: 'c', val: uint64(i)}, m.model, m.hasMod})
	}
	m.addChoice(alts...)
	m.path = append(m.path, Decision{k: 'c', val: 0})
	return 0
}

// concretize picks a value of t, exploring every feasible one.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isC() {
		return t.val
	}
	if m.booting {
		panic(engErr("symbolic value during initialisation"))
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(limitErr("too many values for a concretized term"))
		}
		var d Decision
		var ok bool
		if d, ok = m.nextReplay('v'); ok {
			eq := m.tc.Eq(t, C(int(t.w), d.val))
			if d.tk == 1 {
				if !d.imp {
					m.pushPC(eq)
				}
				return d.val
			}
			m.pushPC(m.tc.Not(eq))
			continue
		}
		m.ensureModel()
		v := m.eval(t)
		eq := m.tc.Eq(t, C(int(t.w), v))
		ne := m.tc.Not(eq)
		r, md := m.checkWith(ne)
		d = Decision{k: 'v', tk: 1, val: v}
		if r == Unsat {
			d.imp = true
		} else {
			m.addChoice(alt{Decision{k: 'v', val: v}, md, r == Sat})
			m.pushPC(eq)
		}
		m.path = append(m.path, d)
		return v
	}
}

// assume restricts the path to c.
func (m *Machine) assume(c *Term) {
	if c.isC() {
		if c.val == 0 {
			panic(pathEnd{"assumption"})
		}
		return
	}
	if len(m.replay) == 0 && m.hasMod && m.eval(c) == 1 {
		m.pushPC(c)
		return
	}
	if len(m.replay) > 0 || !m.hasMod {
		m.pushPC(c)
		m.setModel(nil)
		return
	}
	r, md := m.checkWith(c)
	switch r {
	case Unsat:
		panic(pathEnd{"assumption"})
	case Unknown:
		panic(limitErr("assumption undecided"))
	}
	m.pushPC(c)
	m.setModel(md)
}

// backtrack moves to the next unexplored alternative; false when none is left.
func (m *Machine) backtrack() bool {
	for len(m.cps) > 0 {
		cp := m.cps[len(m.cps)-1]
		if len(cp.alts) == 0 {
			m.cps = m.cps[:len(m.cps)-1]
			continue
		}
		a := cp.alts[len(cp.alts)-1]
		cp.alts = cp.alts[:len(cp.alts)-1]
		last := len(cp.alts) == 0
		s := &cp.s
		m.undoTo(s.trail)
		for i := s.objs; i < len(m.dyn); i++ {
			m.dyn[i] = nil
		}
		m.dyn = m.dyn[:s.objs]
		m.pc = m.pc[:s.pc]
		m.path = m.path[:s.path]
		m.inputs, m.outs, m.reaches, m.notes = m.inputs[:s.inputs], m.outs[:s.outs], m.reaches[:s.reaches], m.notes[:s.notes]
		m.stepN, m.preempt = s.steps, s.preempt
		m.gors = m.gors[:0]
		for i := range s.gors {
			g := s.gors[i]
			if !last {
				g.frames = append([]*Frame(nil), g.frames...)
				g.vc = append([]uint32(nil), g.vc...)
			}
			m.gors = append(m.gors, &g)
		}
		m.cur = s.cur
		m.gen++
		m.replay = append(append([]Decision(nil), cp.prefix...), a.d)
		if last {
			m.cps = m.cps[:len(m.cps)-1]
		}
		if len(m.cps) > 0 {
			// objects older than the newest remaining choice point must be trailed
			m.cpObjs = m.cps[len(m.cps)-1].s.objs
		} else {
			m.cpObjs = m.baseObjs()
		}
		if a.has {
			m.setModel(a.model)
		} else {
			m.setModel(nil)
		}
		return true
	}
	return false
}

func (m *Machine) baseObjs() int {
	if m.h != nil {
		return m.h.baseObjs
	}
	return 0
}

// donate hands the shallowest open alternative to an idle machine.
func (m *Machine) donate() {
	for _, cp := range m.cps {
		if len(cp.alts) == 0 {
			continue
		}
		a := cp.alts[0]
		p := make([]Decision, 0, cp.s.path+len(cp.prefix)+1)
		p = append(p, m.path[:cp.s.path]...)
		p = append(p, cp.prefix...)
		p = append(p, a.d)
		if m.share.give(p) {
			cp.alts = cp.alts[1:]
		}
		return
	}
}
