package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"reflect"
)

// mapEntry is one slot of a map; key and value live in one object.
type mapEntry struct {
	key, val Addr
	canon    string
	conc     bool
	dead     bool
}

type MapData struct {
	r    *RT
	ents []*mapEntry
	idx  map[string]*mapEntry
	n    int
	sym  int // live entries whose key is symbolic
}

const hmapSize = 48

func (m *Machine) newMap(r *RT) Addr {
	o := m.alloc(hmapSize, "map")
	o.aux = &MapData{r: r, idx: map[string]*mapEntry{}}
	return o.base()
}

func (m *Machine) mapData(a Addr) (*Obj, *MapData) {
	o := m.objAt(a)
	if o == nil || a&offMask != 0 {
		panic(memFault{fmt.Sprintf("map operation on %#x, which is not a map", a)})
	}
	d, ok := o.aux.(*MapData)
	if !ok {
		panic(memFault{"map operation on an object that is not a map (" + o.what + ")"})
	}
	return o, d
}

func (m *Machine) mapLen(a Addr) int {
	if a == 0 {
		return 0
	}
	_, d := m.mapData(a)
	if m.race != nil {
		m.access(a, 8, false)
	}
	return d.n
}

// canonKey is a canonical spelling of a concrete key.
func (m *Machine) canonKey(r *RT, v Value, b []byte) ([]byte, bool) {
	num := func(t *Term) bool {
		if !t.isC() {
			return false
		}
		b = binary.LittleEndian.AppendUint64(b, t.val)
		return true
	}
	switch r.kind {
	case reflect.Float32, reflect.Float64:
		if !v.t.isC() {
			return nil, false
		}
		f := fval(v.t.val, v.t.w)
		if f == 0 {
			f = 0
		}
		if math.IsNaN(f) {
			return nil, false
		}
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(f)), true
	case reflect.String:
		s, ok := m.tryString(v)
		if !ok {
			return nil, false
		}
		b = binary.LittleEndian.AppendUint64(b, uint64(len(s)))
		return append(b, s...), true
	case reflect.Interface:
		dt := m.dynType(r, v.e[0].t)
		if dt == nil {
			return binary.LittleEndian.AppendUint64(b, 0), true
		}
		m.hashable(dt)
		b = binary.LittleEndian.AppendUint64(b, m.typeAddr(dt))
		return m.canonKey(dt, m.unboxWord(dt, v.e[1].t), b)
	case reflect.Struct:
		st := r.u.(*types.Struct)
		ok := true
		for i := 0; ok && i < st.NumFields(); i++ {
			if st.Field(i).Name() != "_" {
				b, ok = m.canonKey(m.rt(st.Field(i).Type()), v.e[i], b)
			}
		}
		return b, ok
	case reflect.Array:
		er := m.rt(r.u.(*types.Array).Elem())
		ok := true
		for i := 0; ok && i < len(v.e); i++ {
			b, ok = m.canonKey(er, v.e[i], b)
		}
		return b, ok
	case reflect.Complex64, reflect.Complex128:
		panic(engErr("complex map key"))
	}
	if !num(v.t) {
		return nil, false
	}
	return b, true
}

func (m *Machine) hashable(r *RT) {
	if !m.rtComparable(r) {
		m.goPanicErr("hash of unhashable type " + typeString(r.t))
	}
}

func (m *Machine) mapLookup(d *MapData, kr *RT, k Value) *mapEntry {
	cb, ok := m.canonKey(kr, k, nil)
	if ok {
		if e := d.idx[string(cb)]; e != nil {
			return e
		}
		if d.sym == 0 {
			return nil
		}
	}
	kl := kr.lay
	for _, e := range d.ents {
		if e.dead || ok && e.conc {
			continue
		}
		if m.branch(m.valEq(kr, k, m.load(e.key, kl))) {
			return e
		}
	}
	return nil
}

// mapFind returns the address of the value, 0 when absent.
func (m *Machine) mapFind(a Addr, kr *RT, k Value) Addr {
	if kr.kind == reflect.Interface {
		if dt := m.dynType(kr, k.e[0].t); dt != nil {
			m.hashable(dt)
		}
	}
	if a == 0 {
		return 0
	}
	_, d := m.mapData(a)
	if m.race != nil {
		m.access(a, hmapSize, false)
	}
	if e := m.mapLookup(d, kr, k); e != nil {
		return e.val
	}
	return 0
}

func (m *Machine) mapAssign(a Addr, kr, er *RT, k Value) Addr {
	if a == 0 {
		m.goPanicErr("assignment to entry in nil map")
	}
	if kr.kind == reflect.Interface {
		if dt := m.dynType(kr, k.e[0].t); dt != nil {
			m.hashable(dt)
		}
	}
	o, d := m.mapData(a)
	if m.race != nil {
		m.access(a, hmapSize, true)
	}
	if e := m.mapLookup(d, kr, k); e != nil {
		return e.val
	}
	vo := (kr.size + 7) &^ 7
	eo := m.alloc(vo+er.size+1, "map entry")
	e := &mapEntry{key: eo.base(), val: eo.base() + uint64(vo)}
	m.store(e.key, kr.lay, k)
	m.memFresh(e.val, er.lay)
	cb, ok := m.canonKey(kr, k, nil)
	if ok {
		e.canon, e.conc = string(cb), true
		d.idx[e.canon] = e
	} else {
		d.sym++
	}
	d.ents = append(d.ents, e)
	d.n++
	m.trailFn(func() {
		d.ents = d.ents[:len(d.ents)-1]
		d.n--
		if e.conc {
			delete(d.idx, e.canon)
		} else {
			d.sym--
		}
	})
	m.setMapCount(o, d)
	return e.val
}

func (m *Machine) memFresh(a Addr, l *Lay) {}

func (m *Machine) setMapCount(o *Obj, d *MapData) {
	f := m.forceTrail
	m.forceTrail = true
	m.objStore(o, 0, C64(uint64(d.n)))
	m.forceTrail = f
}

func (m *Machine) mapDelete(a Addr, kr *RT, k Value) {
	if a == 0 {
		return
	}
	o, d := m.mapData(a)
	if m.race != nil {
		m.access(a, hmapSize, true)
	}
	e := m.mapLookup(d, kr, k)
	if e == nil {
		return
	}
	e.dead = true
	d.n--
	if e.conc {
		delete(d.idx, e.canon)
	} else {
		d.sym--
	}
	m.trailFn(func() {
		e.dead = false
		d.n++
		if e.conc {
			d.idx[e.canon] = e
		} else {
			d.sym++
		}
	})
	m.setMapCount(o, d)
}

func (m *Machine) mapClear(a Addr) {
	if a == 0 {
		return
	}
	o, d := m.mapData(a)
	old := *d
	d.ents, d.idx, d.n, d.sym = nil, map[string]*mapEntry{}, 0, 0
	m.trailFn(func() { *d = old })
	m.setMapCount(o, d)
}

// ---- iteration ----

type iterData struct {
	d    *MapData
	ents []*mapEntry
	pos  int
}

// iterOrder fixes the iteration order; with cfg.mapOrder every order is explored.
func (m *Machine) iterOrder(d *MapData) []*mapEntry {
	var es []*mapEntry
	for _, e := range d.ents {
		if !e.dead {
			es = append(es, e)
		}
	}
	if !m.cfg.mapOrder || len(es) < 2 {
		return es
	}
	var out []*mapEntry
	for len(es) > 1 {
		k := m.choose(len(es))
		out = append(out, es[k])
		es = append(append([]*mapEntry(nil), es[:k]...), es[k+1:]...)
	}
	return append(out, es[0])
}

func (m *Machine) newIter(a Addr) Addr {
	it := &iterData{}
	if a != 0 {
		if m.race != nil {
			m.access(a, hmapSize, false)
		}
		_, it.d = m.mapData(a)
		it.ents = m.iterOrder(it.d)
	}
	o := m.alloc(8, "map iterator")
	o.aux = it
	return o.base()
}

func (m *Machine) iterStep(it *iterData) (Addr, Addr) {
	old := it.pos
	m.trailFn(func() { it.pos = old })
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if !e.dead {
			return e.key, e.val
		}
	}
	return 0, 0
}

func (m *Machine) iterNext(a Addr) (Addr, Addr) {
	return m.iterStep(m.objAt(a).aux.(*iterData))
}

// hiter is the runtime's iterator, whose layout jettison copies.
const (
	hiterSize    = 96
	hiterBuckets = 32
)

type hiterData struct {
	live map[Addr]*iterData
}

func (m *Machine) hiterInit(t, mp, it Addr) {
	o, off := m.access(it, hiterSize, true)
	m.forceTrail = true
	m.objStore(o, off+16, C64(t))
	if mp == 0 {
		return
	}
	_, d := m.mapData(mp)
	if m.race != nil {
		m.access(mp, hmapSize, false)
	}
	if d.n == 0 {
		return
	}
	m.objStore(o, off+24, C64(mp))
	id := &iterData{d: d, ents: m.iterOrder(d)}
	cookie := m.alloc(8, "map buckets")
	cookie.aux = id
	m.objStore(o, off+hiterBuckets, C64(cookie.base()))
	m.hiterNext(it)
}

func (m *Machine) hiterNext(it Addr) {
	o, off := m.access(it, hiterSize, true)
	m.forceTrail = true
	b := m.objLoad(o, off+hiterBuckets, 64)
	if !b.isC() || b.val == 0 {
		panic(nilFault{})
	}
	co := m.objAt(b.val)
	var id *iterData
	if co != nil {
		id, _ = co.aux.(*iterData)
	}
	if id == nil {
		panic(memFault{"map iterator overwritten"})
	}
	// an iterator whose leftover cursor fields were not cleared by its user does not
	// start over: model the runtime, which would resume from them
	if id.pos == 0 {
		w := m.objLoad(o, off+72, 64)
		bp := m.objLoad(o, off+40, 64)
		if !bp.isC() || bp.val != 0 || !w.isC() || w.val>>8&0xff != 0 {
			panic(memFault{"map iterator started without being cleared"})
		}
	}
	k, v := m.iterStep(id)
	m.objStore(o, off, C64(k))
	if k == 0 {
		v = 0
	}
	m.objStore(o, off+8, C64(v))
	// cursor fields the runtime keeps
	m.objStore(o, off+40, C64(co.base()))
	m.objStore(o, off+73, C(8, 1))
}

// mapClone copies a map; its keys are known to be different.
func (m *Machine) mapClone(a Addr) Addr {
	if a == 0 {
		return 0
	}
	_, d := m.mapData(a)
	if m.race != nil {
		m.access(a, hmapSize, false)
	}
	mt := d.r.u.(*types.Map)
	kr, er := m.rt(mt.Key()), m.rt(mt.Elem())
	n := m.newMap(d.r)
	o, nd := m.mapData(n)
	for _, e := range d.ents {
		if e.dead {
			continue
		}
		vo := (kr.size + 7) &^ 7
		eo := m.alloc(vo+er.size+1, "map entry")
		ne := &mapEntry{key: eo.base(), val: eo.base() + uint64(vo), canon: e.canon, conc: e.conc}
		m.store(ne.key, kr.lay, m.load(e.key, kr.lay))
		m.store(ne.val, er.lay, m.load(e.val, er.lay))
		if ne.conc {
			nd.idx[ne.canon] = ne
		} else {
			nd.sym++
		}
		nd.ents = append(nd.ents, ne)
		nd.n++
	}
	m.setMapCount(o, nd)
	return n
}
