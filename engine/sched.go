package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type schedCfg struct {
	on      bool
	preempt int
}

const maxGor = 4

type raceCell struct {
	r, w, ar, aw [maxGor]uint32
}

type raceState struct {
	sync map[Addr][]uint32 // release clocks of synchronisation objects
}

type raceFault struct{ msg string }

type deadlock struct{ msg string }

func (m *Machine) spawn(fn *ssa.Function, args []Value, fv Addr) {
	if len(m.gors) >= maxGor {
		panic(limitErr("too many goroutines"))
	}
	cf := m.cfunc(fn)
	if !cf.body {
		panic(engErr("go " + cf.name))
	}
	g := &Gor{id: len(m.gors)}
	if m.race != nil {
		p := m.gors[m.cur]
		m.vcInit(p)
		g.vc = append([]uint32(nil), p.vc...)
		g.vc[g.id]++
		p.vc = append([]uint32(nil), p.vc...)
		p.vc[p.id]++
	}
	m.gors = append(m.gors, g)
	m.pushFrame(g, cf, args, fv)
}

func (m *Machine) vcInit(g *Gor) {
	if g.vc == nil {
		g.vc = make([]uint32, maxGor)
		g.vc[g.id] = 1
	}
}

// acquire joins the release clock of a synchronisation object into the running goroutine.
func (m *Machine) acquire(a Addr) {
	if m.race == nil {
		return
	}
	g := m.gors[m.cur]
	m.vcInit(g)
	s := m.race.sync[a]
	if s == nil {
		return
	}
	vc := append([]uint32(nil), g.vc...)
	for i := range s {
		if s[i] > vc[i] {
			vc[i] = s[i]
		}
	}
	g.vc = vc
}

func (m *Machine) release(a Addr) {
	if m.race == nil {
		return
	}
	g := m.gors[m.cur]
	m.vcInit(g)
	old := m.race.sync[a]
	n := append([]uint32(nil), g.vc...)
	for i := range old {
		if old[i] > n[i] {
			n[i] = old[i]
		}
	}
	m.race.sync[a] = n
	m.trailFn(func() {
		if old == nil {
			delete(m.race.sync, a)
		} else {
			m.race.sync[a] = old
		}
	})
	vc := append([]uint32(nil), g.vc...)
	vc[g.id]++
	g.vc = vc
}

const (
	accR = iota
	accW
	accAR
	accAW
)

func (m *Machine) raceAccess(o *Obj, off, n int, write bool) {
	k := accR
	if write {
		k = accW
	}
	m.raceTouch(o, off, n, k)
}

func (m *Machine) raceTouch(o *Obj, off, n int, kind int) {
	if o.ro || len(m.gors) == 1 && !m.everSpawned() {
		return
	}
	g := m.gors[m.cur]
	m.vcInit(g)
	if o.race == nil {
		o.race = make([]raceCell, len(o.data))
	}
	me := g.id
	changed := false
	for i := off; i < off+n; i++ {
		c := &o.race[i]
		for t := 0; t < len(m.gors); t++ {
			if t == me {
				continue
			}
			bad := c.w[t] > g.vc[t]
			switch kind {
			case accR:
				bad = bad || c.aw[t] > g.vc[t]
			case accW:
				bad = bad || c.aw[t] > g.vc[t] || c.r[t] > g.vc[t] || c.ar[t] > g.vc[t]
			case accAW:
				bad = bad || c.r[t] > g.vc[t]
			}
			if bad {
				panic(raceFault{fmt.Sprintf("data race on %s+%d between goroutines %d and %d in %s", o.what, i, t, me, m.whereTop())})
			}
		}
		var s *[maxGor]uint32
		switch kind {
		case accR:
			s = &c.r
		case accW:
			s = &c.w
		case accAR:
			s = &c.ar
		default:
			s = &c.aw
		}
		if s[me] != g.vc[me] {
			changed = true
		}
	}
	if !changed {
		return
	}
	old := append([]raceCell(nil), o.race[off:off+n]...)
	m.trailFn(func() { copy(o.race[off:], old) })
	for i := off; i < off+n; i++ {
		c := &o.race[i]
		switch kind {
		case accR:
			c.r[me] = g.vc[me]
		case accW:
			c.w[me] = g.vc[me]
		case accAR:
			c.ar[me] = g.vc[me]
		default:
			c.aw[me] = g.vc[me]
		}
	}
}

func (m *Machine) everSpawned() bool { return m.gors[0].vc != nil }

func (m *Machine) whereTop() string {
	g := m.gors[m.cur]
	if len(g.frames) == 0 {
		return "?"
	}
	return g.frames[len(g.frames)-1].cf.name
}

func (m *Machine) runnable(g *Gor) bool {
	if g.status == gBlocked && g.wait(m) {
		return true
	}
	return g.status == gRun
}

// maybeYield offers a preemption before a synchronisation operation of the code under test
// (operations inside of the standard library are atomic); true when another
// goroutine was switched in (the instruction is executed later).
func (m *Machine) maybeYield() bool {
	g := m.gors[m.cur]
	if g.yield {
		g.yield = false
		return false
	}
	if m.preempt >= m.sched.preempt {
		return false
	}
	var others []int
	for i, x := range m.gors {
		if i != m.cur && m.runnable(x) {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := m.choose(1 + len(others))
	if k == 0 {
		return false
	}
	g = m.gors[m.cur]
	g.yield = true
	m.preempt++
	m.switchTo(others[k-1])
	m.jumped = true
	return true
}

func (m *Machine) switchTo(i int) {
	m.cur = i
	g := m.gors[i]
	if g.status == gBlocked {
		g.status = gRun
		g.wait = nil
	}
}

// block suspends the running goroutine; its instruction executes again later.
func (m *Machine) block(why string, cond func(m *Machine) bool) {
	g := m.gors[m.cur]
	g.status = gBlocked
	g.wait = cond
	g.why = why
	g.yield = true
	m.jumped = true
}

// reschedule picks the next goroutine after the running one stopped.
func (m *Machine) reschedule() {
	var rs []int
	for i, x := range m.gors {
		if x.status != gDone && m.runnable(x) {
			rs = append(rs, i)
		}
	}
	if len(rs) == 0 {
		s := ""
		for _, x := range m.gors {
			if x.status == gBlocked {
				s += fmt.Sprintf(" goroutine %d: %s;", x.id, x.why)
			}
		}
		panic(deadlock{"all goroutines are asleep:" + s})
	}
	k := 0
	if len(rs) > 1 {
		k = m.choose(len(rs))
	}
	m.switchTo(rs[k])
}

// ---- sync intrinsics ----

func init() {
	in := func(n string, f intrinsic) { intrinsics[n] = f }
	word := func(m *Machine, a Addr) int32 {
		o, off := m.atomObj(a, 4)
		return int32(m.objLoad(o, off, 32).val)
	}
	setWord := func(m *Machine, a Addr, v int32) {
		o, off := m.atomObj(a, 4)
		m.objStore(o, off, C(32, uint64(uint32(v))))
	}
	in("(*sync.Mutex).Lock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 {
			m.block("sync.Mutex.Lock", func(m *Machine) bool { return word(m, p) == 0 })
			return Value{}
		}
		setWord(m, p, 1)
		m.acquire(p)
		return Value{}
	})
	in("(*sync.Mutex).TryLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 {
			return tv(tFalse)
		}
		setWord(m, p, 1)
		m.acquire(p)
		return tv(tTrue)
	})
	in("(*sync.Mutex).Unlock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) == 0 {
			panic(memFault{"fatal error: sync: unlock of unlocked mutex"})
		}
		m.release(p)
		setWord(m, p, 0)
		return Value{}
	})
	// RWMutex: writer flag in w.state, readers in readerCount (offset 16)
	in("(*sync.RWMutex).Lock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 || word(m, p+16) != 0 {
			m.block("sync.RWMutex.Lock", func(m *Machine) bool { return word(m, p) == 0 && word(m, p+16) == 0 })
			return Value{}
		}
		setWord(m, p, 1)
		m.acquire(p)
		m.acquire(p + 16)
		return Value{}
	})
	in("(*sync.RWMutex).Unlock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) == 0 {
			panic(memFault{"fatal error: sync: Unlock of unlocked RWMutex"})
		}
		m.release(p)
		setWord(m, p, 0)
		return Value{}
	})
	in("(*sync.RWMutex).RLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 {
			m.block("sync.RWMutex.RLock", func(m *Machine) bool { return word(m, p) == 0 })
			return Value{}
		}
		setWord(m, p+16, word(m, p+16)+1)
		m.acquire(p)
		return Value{}
	})
	in("(*sync.RWMutex).RUnlock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p+16) <= 0 {
			panic(memFault{"fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.release(p + 16)
		setWord(m, p+16, word(m, p+16)-1)
		return Value{}
	})
	in("(*sync.RWMutex).TryLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 || word(m, p+16) != 0 {
			return tv(tFalse)
		}
		setWord(m, p, 1)
		m.acquire(p)
		m.acquire(p + 16)
		return tv(tTrue)
	})
	in("(*sync.RWMutex).TryRLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 {
			return tv(tFalse)
		}
		setWord(m, p+16, word(m, p+16)+1)
		m.acquire(p)
		return tv(tTrue)
	})
	in("(*sync.copyChecker).check", func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} })
	// the list of a Cond: the tickets given out (offset 0) and notified (offset 4)
	in("sync.runtime_notifyListAdd", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		t := word(m, p)
		setWord(m, p, t+1)
		return cv(32, uint64(uint32(t)))
	})
	in("sync.runtime_notifyListWait", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p, t := m.addrOf(a[0].t), int32(m.addrOf(a[1].t))
		if word(m, p+4) <= t {
			m.block("sync.Cond.Wait", func(m *Machine) bool { return word(m, p+4) > t })
			return Value{}
		}
		m.acquire(p + 4)
		return Value{}
	})
	in("sync.runtime_notifyListNotifyOne", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if p := m.addrOf(a[0].t); word(m, p+4) < word(m, p) {
			m.release(p + 4)
			setWord(m, p+4, word(m, p+4)+1)
		}
		return Value{}
	})
	in("sync.runtime_notifyListNotifyAll", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		m.release(p + 4)
		setWord(m, p+4, word(m, p))
		return Value{}
	})
	wgAdd := func(m *Machine, p Addr, d int32) {
		v := word(m, p) + d
		if v < 0 {
			panic(goPanic{m.errorValue("sync: negative WaitGroup counter")})
		}
		if d < 0 {
			m.release(p)
		}
		setWord(m, p, v)
	}
	in("(*sync.WaitGroup).Add", func(m *Machine, fn *ssa.Function, a []Value) Value {
		wgAdd(m, m.addrOf(a[0].t), int32(m.addrOf(a[1].t)))
		return Value{}
	})
	in("(*sync.WaitGroup).Done", func(m *Machine, fn *ssa.Function, a []Value) Value {
		wgAdd(m, m.addrOf(a[0].t), -1)
		return Value{}
	})
	in("(*sync.WaitGroup).Wait", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if word(m, p) != 0 {
			m.block("sync.WaitGroup.Wait", func(m *Machine) bool { return word(m, p) == 0 })
			return Value{}
		}
		m.acquire(p)
		return Value{}
	})
	// sync.Pool: a stack per pool; with poolMode 1 Get may return any pooled item or
	// nothing at all; with poolMode 10+d at most d calls of Get deviate from the stack order
	in("(*sync.Pool).Put", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		if w := m.addrOf(a[1].e[0].t); w == 0 {
			return Value{}
		}
		old := m.pools[p]
		m.pools[p] = append(old[:len(old):len(old)], a[1])
		m.trailFn(func() { m.pools[p] = old })
		m.release(p)
		return Value{}
	})
	in("(*sync.Pool).Get", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.addrOf(a[0].t)
		old := m.pools[p]
		n := len(old)
		k := n - 1
		if n > 0 && (m.cfg.poolMode == 1 || m.cfg.poolMode > 10) {
			c := m.choose(n + 1)
			if c > 0 && m.cfg.poolMode > 10 {
				oc := m.cfg
				m.cfg.poolMode--
				m.trailFn(func() { m.cfg = oc })
			}
			if c == n {
				k = -1
			} else {
				k = n - 1 - c
			}
		}
		if m.cfg.poolMode == 2 {
			k = -1
		}
		if k >= 0 {
			v := old[k]
			nw := append(append([]Value(nil), old[:k]...), old[k+1:]...)
			m.pools[p] = nw
			m.trailFn(func() { m.pools[p] = old })
			m.acquire(p)
			return v
		}
		st := m.rt(m.P.pkgs["sync"].Type("Pool").Type())
		nf := m.addrOf(m.loadTerm(p+uint64(st.lay.offs[len(st.lay.offs)-1]), 64))
		if nf == 0 {
			return layIface.zero
		}
		g := m.gors[m.cur]
		fr := m.pushFrame(g, m.cfunc(m.fnOfVal(nf)), nil, nf)
		_ = fr
		m.jumped = true
		return Value{}
	})
	// atomics
	sizesOf := map[string]int{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64, "Uintptr": 64, "Pointer": 64}
	for sfx, w := range sizesOf {
		w := w
		load := func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := m.addrOf(a[0].t)
			m.acquire(p)
			o, off := m.atomTouch(p, w/8, accAR)
			return tv(m.objLoad(o, off, w))
		}
		store := func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := m.addrOf(a[0].t)
			o, off := m.atomTouch(p, w/8, accAW)
			m.release(p)
			m.objStore(o, off, a[1].t)
			return Value{}
		}
		rmw := func(f func(m *Machine, old *Term, a []Value) (*Term, Value)) intrinsic {
			return func(m *Machine, fn *ssa.Function, a []Value) Value {
				p := m.addrOf(a[0].t)
				m.acquire(p)
				o, off := m.atomTouch(p, w/8, accAW)
				old := m.objLoad(o, off, w)
				nv, r := f(m, old, a)
				m.release(p)
				if nv != nil {
					m.objStore(o, off, nv)
				}
				return r
			}
		}
		add := rmw(func(m *Machine, old *Term, a []Value) (*Term, Value) {
			n := m.tc.Add(old, a[1].t)
			return n, tv(n)
		})
		swap := rmw(func(m *Machine, old *Term, a []Value) (*Term, Value) { return a[1].t, tv(old) })
		cas := rmw(func(m *Machine, old *Term, a []Value) (*Term, Value) {
			if m.branch(m.tc.Eq(old, a[1].t)) {
				return a[2].t, tv(tTrue)
			}
			return nil, tv(tFalse)
		})
		and := rmw(func(m *Machine, old *Term, a []Value) (*Term, Value) { return m.tc.BAnd(old, a[1].t), tv(old) })
		or := rmw(func(m *Machine, old *Term, a []Value) (*Term, Value) { return m.tc.BOr(old, a[1].t), tv(old) })
		for n, f := range map[string]intrinsic{"Load": load, "Store": store, "Add": add, "Swap": swap, "CompareAndSwap": cas, "And": and, "Or": or} {
			in("sync/atomic."+n+sfx, f)
			if sfx != "Pointer" {
				in("(*sync/atomic."+sfx+")."+n, f)
			}
		}
	}
	nop := func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} }
	in("sync.runtime_registerPoolCleanup", nop)
	// atomic.Value pins the goroutine while it stores the first value; here operations of the standard library are atomic
	for _, n := range []string{"sync/atomic.runtime_procUnpin", "runtime.procUnpin"} {
		in(n, nop)
	}
	for _, n := range []string{"sync/atomic.runtime_procPin", "runtime.procPin"} {
		in(n, func(m *Machine, fn *ssa.Function, a []Value) Value { return cv(64, 0) })
	}
	in("sync.runtime_notifyListCheck", nop)
	in("sync.fatal", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, _ := m.tryString(a[0])
		panic(memFault{"fatal error: " + s})
	})
	in("sync.throw", intrinsics["sync.fatal"])
}

// atomObj gives access without recording a plain memory access.
func (m *Machine) atomObj(a Addr, n int) (*Obj, int) {
	r := m.race
	m.race = nil
	defer func() { m.race = r }()
	return m.access(a, n, true)
}

func (m *Machine) atomTouch(a Addr, n int, kind int) (*Obj, int) {
	o, off := m.atomObj(a, n)
	if m.race != nil {
		m.raceTouch(o, off, n, kind)
	}
	return o, off
}
