package main

import (
	"encoding/binary"
	"fmt"
)

// Flat memory: addr = idx<<24 | off. Index 0 is the nil page, indexes below dynBase are
// static objects (globals, string constants, type descriptors, function values), the
// others are created by the running program.

const (
	offBits = 24
	offMask = 1<<offBits - 1
	dynBase = 1 << 22
	pageSz  = 64
)

type cell struct {
	t *Term
	i uint8
}

type page [pageSz]cell

type Obj struct {
	data []byte
	sh   []*page
	idx  uint32
	ro   bool
	aux  any
	what string
	race []raceCell
}

type trailEnt struct {
	obj   *Obj
	off   int32
	n     int32
	old   uint64
	bytes []byte
	cells []cell
	undo  func()
}

type Addr = uint64

func (o *Obj) base() Addr { return uint64(o.idx) << offBits }

func (m *Machine) allocStatic(size int, what string) *Obj {
	o := &Obj{data: make([]byte, size), idx: uint32(len(m.static)), what: what}
	m.static = append(m.static, o)
	if len(m.static) >= dynBase {
		panic(engErr("static region full"))
	}
	return o
}

func (m *Machine) alloc(size int, what string) *Obj {
	if size > offMask {
		panic(engErr(fmt.Sprintf("object of %d bytes", size)))
	}
	o := &Obj{data: make([]byte, size), idx: uint32(dynBase + len(m.dyn)), what: what}
	m.dyn = append(m.dyn, o)
	m.nAlloc++
	if len(m.dyn) > m.maxObjs {
		panic(limitErr("object limit"))
	}
	return o
}

func (m *Machine) objAt(a Addr) *Obj {
	idx := a >> offBits
	if idx >= dynBase {
		i := idx - dynBase
		if i < uint64(len(m.dyn)) {
			return m.dyn[i]
		}
		return nil
	}
	if idx < uint64(len(m.static)) {
		return m.static[idx]
	}
	return nil
}

// memFault is an access outside every object: undefined behaviour of unsafe code.
type memFault struct{ msg string }

// nilFault becomes a Go nil-dereference panic.
type nilFault struct{}

func (m *Machine) access(a Addr, n int, write bool) (*Obj, int) {
	if a < 4096 {
		panic(nilFault{})
	}
	o := m.objAt(a)
	off := int(a & offMask)
	if o == nil {
		panic(memFault{fmt.Sprintf("access of %d bytes at unmapped address %#x", n, a)})
	}
	if off+n > len(o.data) {
		panic(memFault{fmt.Sprintf("access of %d bytes at offset %d of a %d-byte object (%s)", n, off, len(o.data), o.what)})
	}
	if write && o.ro {
		panic(memFault{fmt.Sprintf("write to read-only object (%s)", o.what)})
	}
	if m.race != nil {
		m.raceAccess(o, off, n, write)
	}
	return o, off
}

func (o *Obj) hasSym(off, n int) bool {
	if o.sh == nil {
		return false
	}
	for p := off / pageSz; p <= (off+n-1)/pageSz; p++ {
		if pg := o.sh[p]; pg != nil {
			lo, hi := 0, pageSz
			if p == off/pageSz {
				lo = off % pageSz
			}
			if p == (off+n-1)/pageSz {
				hi = (off+n-1)%pageSz + 1
			}
			for i := lo; i < hi; i++ {
				if pg[i].t != nil {
					return true
				}
			}
		}
	}
	return false
}

func (o *Obj) cell(i int) cell {
	if o.sh == nil {
		return cell{}
	}
	if pg := o.sh[i/pageSz]; pg != nil {
		return pg[i%pageSz]
	}
	return cell{}
}

func (o *Obj) setCell(i int, c cell) {
	if o.sh == nil {
		if c.t == nil {
			return
		}
		o.sh = make([]*page, (len(o.data)+pageSz-1)/pageSz)
	}
	pg := o.sh[i/pageSz]
	if pg == nil {
		if c.t == nil {
			return
		}
		pg = new(page)
		o.sh[i/pageSz] = pg
	}
	pg[i%pageSz] = c
}

func (m *Machine) needTrail(o *Obj) bool {
	if m.booting {
		return false
	}
	return o.idx < dynBase || int(o.idx)-dynBase < m.cpObjs || m.forceTrail
}

func (m *Machine) trailRange(o *Obj, off, n int) {
	if !m.needTrail(o) || n == 0 {
		return
	}
	e := trailEnt{obj: o, off: int32(off), n: int32(n)}
	if n <= 8 {
		var v uint64
		for i := 0; i < n; i++ {
			v |= uint64(o.data[off+i]) << (8 * uint(i))
		}
		e.old = v
	} else {
		e.bytes = append([]byte(nil), o.data[off:off+n]...)
	}
	if o.hasSym(off, n) {
		e.cells = make([]cell, n)
		for i := range e.cells {
			e.cells[i] = o.cell(off + i)
		}
	}
	m.trail = append(m.trail, e)
}

func (m *Machine) trailFn(f func()) {
	if !m.booting {
		m.trail = append(m.trail, trailEnt{undo: f})
	}
}

func (m *Machine) undoTo(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		e := &m.trail[i]
		if e.undo != nil {
			e.undo()
		} else {
			o, off, n := e.obj, int(e.off), int(e.n)
			if e.bytes != nil {
				copy(o.data[off:], e.bytes)
			} else {
				v := e.old
				for k := 0; k < n; k++ {
					o.data[off+k] = byte(v >> (8 * uint(k)))
				}
			}
			if e.cells != nil {
				for k, c := range e.cells {
					o.setCell(off+k, c)
				}
			} else if o.sh != nil {
				for k := 0; k < n; k++ {
					o.setCell(off+k, cell{})
				}
			}
		}
		m.trail[i] = trailEnt{}
	}
	m.trail = m.trail[:mark]
}

// ---- scalar access ----

func (m *Machine) loadTerm(a Addr, w int) *Term {
	n := w / 8
	o, off := m.access(a, n, false)
	return m.objLoad(o, off, w)
}

func (m *Machine) objLoad(o *Obj, off, w int) *Term {
	n := w / 8
	d := o.data[off : off+n]
	if !o.hasSym(off, n) {
		switch n {
		case 1:
			return C(8, uint64(d[0]))
		case 2:
			return C(16, uint64(binary.LittleEndian.Uint16(d)))
		case 4:
			return C(32, uint64(binary.LittleEndian.Uint32(d)))
		case 8:
			return C(64, binary.LittleEndian.Uint64(d))
		}
	}
	c0 := o.cell(off)
	if c0.t != nil && c0.i == 0 && int(c0.t.w) == w {
		ok := true
		for i := 1; i < n; i++ {
			c := o.cell(off + i)
			if c.t != c0.t || int(c.i) != i {
				ok = false
				break
			}
		}
		if ok {
			return c0.t
		}
	}
	var r *Term
	for i := n - 1; i >= 0; i-- {
		b := m.byteTerm(o, off+i)
		if r == nil {
			r = b
		} else {
			r = m.tc.Concat(r, b)
		}
	}
	return r
}

func (m *Machine) byteTerm(o *Obj, i int) *Term {
	c := o.cell(i)
	if c.t == nil {
		return C(8, uint64(o.data[i]))
	}
	if c.t.w == 8 {
		return c.t
	}
	return m.tc.Extract(c.t, int(c.i)*8+7, int(c.i)*8)
}

func (m *Machine) storeTerm(a Addr, t *Term) {
	n := int(t.w) / 8
	o, off := m.access(a, n, true)
	m.objStore(o, off, t)
}

func (m *Machine) objStore(o *Obj, off int, t *Term) {
	n := int(t.w) / 8
	m.trailRange(o, off, n)
	if t.isC() {
		d := o.data[off : off+n]
		switch n {
		case 1:
			d[0] = byte(t.val)
		case 2:
			binary.LittleEndian.PutUint16(d, uint16(t.val))
		case 4:
			binary.LittleEndian.PutUint32(d, uint32(t.val))
		case 8:
			binary.LittleEndian.PutUint64(d, t.val)
		}
		if o.sh != nil {
			for i := 0; i < n; i++ {
				o.setCell(off+i, cell{})
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		o.setCell(off+i, cell{t, uint8(i)})
	}
}

// ---- bulk ----

func (m *Machine) memmove(dst, src Addr, n int) {
	if n == 0 || dst == src {
		return
	}
	so, soff := m.access(src, n, false)
	do, doff := m.access(dst, n, true)
	m.objMove(do, doff, so, soff, n)
}

func (m *Machine) objMove(do *Obj, doff int, so *Obj, soff, n int) {
	m.trailRange(do, doff, n)
	sym := so.hasSym(soff, n)
	if !sym {
		copy(do.data[doff:doff+n], so.data[soff:soff+n])
		if do.sh != nil {
			for i := 0; i < n; i++ {
				do.setCell(doff+i, cell{})
			}
		}
		return
	}
	cs := make([]cell, n)
	for i := range cs {
		cs[i] = so.cell(soff + i)
	}
	copy(do.data[doff:doff+n], so.data[soff:soff+n])
	for i, c := range cs {
		do.setCell(doff+i, c)
	}
}

func (m *Machine) memzero(dst Addr, n int) {
	if n == 0 {
		return
	}
	o, off := m.access(dst, n, true)
	m.trailRange(o, off, n)
	d := o.data[off : off+n]
	for i := range d {
		d[i] = 0
	}
	if o.sh != nil {
		for i := 0; i < n; i++ {
			o.setCell(off+i, cell{})
		}
	}
}

// bytesAt returns the concrete bytes, ok=false when some are symbolic.
func (m *Machine) bytesAt(a Addr, n int) ([]byte, bool) {
	if n == 0 {
		return nil, true
	}
	o, off := m.access(a, n, false)
	if o.hasSym(off, n) {
		return nil, false
	}
	return o.data[off : off+n], true
}

func (m *Machine) byteTerms(a Addr, n int) []*Term {
	r := make([]*Term, n)
	if n == 0 {
		return r
	}
	o, off := m.access(a, n, false)
	for i := range r {
		r[i] = m.byteTerm(o, off+i)
	}
	return r
}

// memEq is the term for equality of two n-byte regions.
func (m *Machine) memEq(a, b Addr, n int) *Term {
	if n == 0 || a == b {
		return tTrue
	}
	ao, aoff := m.access(a, n, false)
	bo, boff := m.access(b, n, false)
	if !ao.hasSym(aoff, n) && !bo.hasSym(boff, n) {
		return B(string(ao.data[aoff:aoff+n]) == string(bo.data[boff:boff+n]))
	}
	// cheap refutation first
	for i := 0; i < n; i++ {
		if ao.cell(aoff+i).t == nil && bo.cell(boff+i).t == nil && ao.data[aoff+i] != bo.data[boff+i] {
			return tFalse
		}
	}
	r := tTrue
	for i := 0; i < n; i++ {
		r = m.tc.And(r, m.tc.Eq(m.byteTerm(ao, aoff+i), m.byteTerm(bo, boff+i)))
		if r == tFalse {
			return r
		}
	}
	return r
}
