package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "verifharness/sym"

func (m *Machine) newVar(name string, w int, max uint64) *Term {
	k := len(m.inputs)
	return m.tc.Var(fmt.Sprintf("in%d_%d_%x", k, w, max), w, max)
}

func (m *Machine) addInput(name, kind string, ts ...*Term) {
	m.inputs = append(m.inputs, inputEv{name, kind, ts})
}

func init() {
	in := func(n string, f intrinsic) { intrinsics[symPkg+"."+n] = f }
	scalar := func(n string, w int) {
		in(n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := m.newVar("", w, mask(uint8(w)))
			m.addInput(m.goString(a[0]), n, t)
			return tv(t)
		})
	}
	for n, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "F32": 32, "F64": 64} {
		scalar(n, w)
	}
	in("Upto", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := a[1].t
		if !n.isC() || n.sval() <= 1 {
			panic(engErr("sym.Upto needs a concrete bound"))
		}
		k := bitLen(n.val - 1)
		t := m.newVar("", k, n.val-1)
		m.addInput(m.goString(a[0]), "v", t)
		return tv(m.tc.ZExt(t, 64))
	})
	in("Bool", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := m.newVar("", 8, 1)
		m.addInput(m.goString(a[0]), "v", t)
		return tv(m.tc.Eq(t, C(8, 1)))
	})
	mkBytes := func(m *Machine, a []Value) (Addr, uint64) {
		n := int(m.addrOf(a[1].t))
		k := len(m.inputs)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = m.tc.Var(fmt.Sprintf("in%d_b%d", k, i), 8, 255)
		}
		m.addInput(m.goString(a[0]), "b", ts...)
		if n == 0 {
			return 0, 0
		}
		o := m.alloc(n, "input "+m.goString(a[0]))
		for i, t := range ts {
			m.objStore(o, i, t)
		}
		return o.base(), uint64(n)
	}
	in("Bytes", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p, n := mkBytes(m, a)
		if n == 0 {
			p = m.zeroBase()
		}
		return tup(cv(64, p), cv(64, n), cv(64, n))
	})
	in("String", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p, n := mkBytes(m, a)
		return tup(cv(64, p), cv(64, n))
	})
	in("Choose", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := int(m.addrOf(a[1].t))
		k := m.choose(n)
		m.addInput(m.goString(a[0]), "v", C64(uint64(k)))
		return cv(64, uint64(k))
	})
	in("Assume", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assume(a[0].t)
		return Value{}
	})
	in("Assert", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assert(m.goString(a[0]), a[1].t)
		return Value{}
	})
	in("Reach", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.reaches = append(m.reaches, m.goString(a[0]))
		return Value{}
	})
	in("Out", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.outs = append(m.outs, outEv{m.goString(a[0]), m.sliceTerms(a[1])})
		return Value{}
	})
	in("Thorough", func(m *Machine, fn *ssa.Function, a []Value) Value { return tv(B(m.h.thorough)) })
	in("Native", func(m *Machine, fn *ssa.Function, a []Value) Value { return tv(tFalse) })
	in("MapOrder", func(m *Machine, fn *ssa.Function, a []Value) Value {
		old := m.cfg
		m.cfg.mapOrder = m.addrOf(a[0].t) == 1
		m.trailFn(func() { m.cfg = old })
		return Value{}
	})
	in("PoolMode", func(m *Machine, fn *ssa.Function, a []Value) Value {
		old := m.cfg
		m.cfg.poolMode = int(m.addrOf(a[0].t))
		m.trailFn(func() { m.cfg = old })
		return Value{}
	})
	in("Concurrent", func(m *Machine, fn *ssa.Function, a []Value) Value {
		os, or := m.sched, m.race
		m.sched = schedCfg{on: true, preempt: int(m.addrOf(a[0].t))}
		m.race = &raceState{sync: map[Addr][]uint32{}}
		m.trailFn(func() { m.sched, m.race = os, or })
		return Value{}
	})
	ro := func(m *Machine, fn *ssa.Function, a []Value) Value {
		if n := m.addrOf(a[0].e[1].t); n > 0 {
			o := m.objAt(m.addrOf(a[0].e[0].t))
			if o != nil && !o.ro {
				o.ro = true
				m.trailFn(func() { o.ro = false })
			}
		}
		return Value{}
	}
	in("ReadOnlyMem", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.addrOf(a[1].t) == 0 {
			return Value{}
		}
		return ro(m, fn, []Value{tup(a[0], a[1])})
	})
	in("ReadOnly", ro)
	// Freeze makes everything reachable from a value read-only, found by a conservative scan for addresses.
	in("Freeze", func(m *Machine, fn *ssa.Function, a []Value) Value {
		seen := map[*Obj]bool{}
		var todo []Addr
		push := func(t *Term) {
			if t.isC() && t.val != 0 {
				todo = append(todo, t.val)
			}
		}
		push(a[0].e[1].t)
		for len(todo) > 0 {
			ad := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			o := m.objAt(ad)
			if o == nil || seen[o] || ad < 4096 {
				continue
			}
			seen[o] = true
			if !o.ro {
				o.ro = true
				m.trailFn(func() { o.ro = false })
			}
			if d, ok := o.aux.(*MapData); ok {
				for _, e := range d.ents {
					if !e.dead {
						todo = append(todo, e.key)
					}
				}
				continue
			}
			if o.idx < dynBase {
				continue
			}
			for i := 0; i+8 <= len(o.data); i += 8 {
				if !o.hasSym(i, 8) {
					push(m.objLoad(o, i, 64))
				}
			}
		}
		return Value{}
	})
	in("ReadOnlyStr", ro)
}
