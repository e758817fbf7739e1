package main

import (
	"bytes"
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a register: a scalar term or a tuple.
type Value struct {
	t *Term
	e []Value
}

func tv(t *Term) Value         { return Value{t: t} }
func tup(vs ...Value) Value    { return Value{e: vs} }
func cv(w int, v uint64) Value { return Value{t: C(w, v)} }

type layKind uint8

const (
	LScalar layKind = iota
	LBool
	LTuple
	LArray
)

type Lay struct {
	kind layKind
	w    uint8
	size int
	n    int
	elem *Lay
	fs   []*Lay
	offs []int
	zero Value
}

// RT is the machine's view of one Go type.
type RT struct {
	t      types.Type
	u      types.Type
	size   int
	align  int
	lay    *Lay
	addr   Addr // type descriptor, 0 until requested
	direct bool
	kind   reflect.Kind
	msc    map[string]*methodRef
	eq     int8 // comparable: 0 unknown 1 yes 2 no
	ptr    *RT
}

var sizes = types.SizesFor("gc", "amd64")

func (m *Machine) rt(t types.Type) *RT {
	if r, ok := m.rtFast[t]; ok {
		return r
	}
	if a, ok := t.(*types.Alias); ok {
		r := m.rt(types.Unalias(a))
		m.rtFast[t] = r
		return r
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil {
		r := m.rt(types.Default(t))
		m.rtFast[t] = r
		return r
	}
	if v := m.rtMap.At(t); v != nil {
		r := v.(*RT)
		m.rtFast[t] = r
		return r
	}
	r := &RT{t: t, u: t.Underlying()}
	m.rtMap.Set(t, r)
	m.rtFast[t] = r
	if tp, ok := t.(*types.Tuple); ok {
		l := &Lay{kind: LTuple}
		for i := 0; i < tp.Len(); i++ {
			fl := m.rt(tp.At(i).Type()).lay
			l.fs = append(l.fs, fl)
			l.offs = append(l.offs, 0)
			l.zero.e = append(l.zero.e, fl.zero)
		}
		r.lay = l
		return r
	}
	r.size = int(sizes.Sizeof(t))
	r.align = int(sizes.Alignof(t))
	r.kind, r.direct = kindOf(r.u)
	r.lay = m.layout(r)
	return r
}

func newRTMap() *typeutil.Map {
	mp := new(typeutil.Map)
	mp.SetHasher(typeutil.MakeHasher())
	return mp
}

func kindOf(u types.Type) (reflect.Kind, bool) {
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool, false
		case types.Int, types.UntypedInt:
			return reflect.Int, false
		case types.Int8:
			return reflect.Int8, false
		case types.Int16:
			return reflect.Int16, false
		case types.Int32, types.UntypedRune:
			return reflect.Int32, false
		case types.Int64:
			return reflect.Int64, false
		case types.Uint:
			return reflect.Uint, false
		case types.Uint8:
			return reflect.Uint8, false
		case types.Uint16:
			return reflect.Uint16, false
		case types.Uint32:
			return reflect.Uint32, false
		case types.Uint64:
			return reflect.Uint64, false
		case types.Uintptr:
			return reflect.Uintptr, false
		case types.Float32:
			return reflect.Float32, false
		case types.Float64, types.UntypedFloat:
			return reflect.Float64, false
		case types.Complex64:
			return reflect.Complex64, false
		case types.Complex128, types.UntypedComplex:
			return reflect.Complex128, false
		case types.String, types.UntypedString:
			return reflect.String, false
		case types.UnsafePointer:
			return reflect.UnsafePointer, true
		}
		return reflect.Invalid, false
	case *types.Pointer:
		return reflect.Ptr, true
	case *types.Map:
		return reflect.Map, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Slice:
		return reflect.Slice, false
	case *types.Interface:
		return reflect.Interface, false
	case *types.Struct:
		d := false
		if u.NumFields() == 1 {
			_, d = kindOf(u.Field(0).Type().Underlying())
		}
		return reflect.Struct, d
	case *types.Array:
		d := false
		if u.Len() == 1 {
			_, d = kindOf(u.Elem().Underlying())
		}
		return reflect.Array, d
	}
	return reflect.Invalid, false
}

func scalarLay(w int) *Lay {
	return &Lay{kind: LScalar, w: uint8(w), size: w / 8, zero: tv(C(w, 0))}
}

var (
	lay8, lay16, lay32, lay64 = scalarLay(8), scalarLay(16), scalarLay(32), scalarLay(64)
	layBool                   = &Lay{kind: LBool, size: 1, zero: tv(tFalse)}
	layString                 = tupLay(lay64, lay64)
	laySlice                  = tupLay(lay64, lay64, lay64)
	layIface                  = tupLay(lay64, lay64)
)

func tupLay(fs ...*Lay) *Lay {
	l := &Lay{kind: LTuple}
	for _, f := range fs {
		l.offs = append(l.offs, l.size)
		l.fs = append(l.fs, f)
		l.size += f.size
		l.zero.e = append(l.zero.e, f.zero)
	}
	return l
}

func (m *Machine) layout(r *RT) *Lay {
	switch u := r.u.(type) {
	case *types.Basic:
		switch r.kind {
		case reflect.Bool:
			return layBool
		case reflect.String:
			return layString
		case reflect.Complex64:
			return tupLay(lay32, lay32)
		case reflect.Complex128:
			return tupLay(lay64, lay64)
		case reflect.Invalid:
			return lay64 // untyped nil and friends
		}
		switch r.size {
		case 1:
			return lay8
		case 2:
			return lay16
		case 4:
			return lay32
		default:
			return lay64
		}
	case *types.Slice:
		return laySlice
	case *types.Interface:
		return layIface
	case *types.Struct:
		var fields []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fields = append(fields, u.Field(i))
		}
		offs := sizes.Offsetsof(fields)
		l := &Lay{kind: LTuple, size: r.size, zero: Value{e: make([]Value, len(fields))}}
		for i, f := range fields {
			fl := m.rt(f.Type()).lay
			l.fs = append(l.fs, fl)
			l.offs = append(l.offs, int(offs[i]))
			l.zero.e[i] = fl.zero
		}
		return l
	case *types.Array:
		el := m.rt(u.Elem()).lay
		n := int(u.Len())
		l := &Lay{kind: LArray, size: r.size, n: n, elem: el}
		if n <= 1<<16 {
			l.zero.e = make([]Value, n)
			for i := range l.zero.e {
				l.zero.e[i] = el.zero
			}
		}
		return l
	case *types.TypeParam:
		panic(engErr("uninstantiated type parameter " + r.t.String()))
	}
	return lay64
}

func (m *Machine) load(a Addr, l *Lay) Value {
	switch l.kind {
	case LScalar:
		return tv(m.loadTerm(a, int(l.w)))
	case LBool:
		return tv(m.byteToBool(m.loadTerm(a, 8)))
	case LTuple:
		e := make([]Value, len(l.fs))
		for i, f := range l.fs {
			if f.size == 0 {
				e[i] = f.zero
				continue
			}
			e[i] = m.load(a+uint64(l.offs[i]), f)
		}
		return Value{e: e}
	default:
		e := make([]Value, l.n)
		if l.elem.size == 0 {
			return l.zero
		}
		for i := range e {
			e[i] = m.load(a+uint64(i*l.elem.size), l.elem)
		}
		return Value{e: e}
	}
}

func (m *Machine) store(a Addr, l *Lay, v Value) {
	switch l.kind {
	case LScalar:
		m.storeTerm(a, v.t)
	case LBool:
		m.storeTerm(a, m.boolToByte(v.t))
	case LTuple:
		for i, f := range l.fs {
			if f.size != 0 {
				m.store(a+uint64(l.offs[i]), f, v.e[i])
			}
		}
	default:
		if l.elem.size == 0 {
			return
		}
		for i, x := range v.e {
			m.store(a+uint64(i*l.elem.size), l.elem, x)
		}
	}
}

func (m *Machine) boolToByte(t *Term) *Term {
	if t.isC() {
		return C(8, t.val)
	}
	return m.tc.Ite(t, C(8, 1), C(8, 0))
}

func (m *Machine) byteToBool(t *Term) *Term {
	if t.isC() {
		return B(t.val != 0)
	}
	return m.tc.Ne(t, C(8, 0))
}

// ---- type descriptors ----

const (
	tflagUncommon = 1
	tflagNamed    = 4
	tflagRegular  = 8
	kindDirect    = 1 << 5
)

func (m *Machine) put(o *Obj, off, w int, v uint64) {
	d := o.data[off:]
	for i := 0; i < w/8; i++ {
		d[i] = byte(v >> (8 * uint(i)))
	}
}

// nameBytes builds an abi.Name object.
func (m *Machine) nameObj(name, tag string, exported, embedded bool, pkgPath string) Addr {
	var fl byte
	if exported {
		fl |= 1
	}
	if tag != "" {
		fl |= 2
	}
	if pkgPath != "" {
		fl |= 4
	}
	if embedded {
		fl |= 8
	}
	key := string(rune(fl)) + name + "\x00" + tag + "\x00" + pkgPath
	if a, ok := m.names[key]; ok {
		return a
	}
	var b []byte
	b = append(b, fl)
	vi := func(n int) {
		for n >= 0x80 {
			b = append(b, byte(n)|0x80)
			n >>= 7
		}
		b = append(b, byte(n))
	}
	vi(len(name))
	b = append(b, name...)
	if tag != "" {
		vi(len(tag))
		b = append(b, tag...)
	}
	if pkgPath != "" {
		off := m.nameOff(m.nameObj(pkgPath, "", false, false, ""))
		b = append(b, byte(off), byte(off>>8), byte(off>>16), byte(off>>24))
	}
	o := m.allocStatic(len(b), "name "+name)
	copy(o.data, b)
	if ts := m.symTags[tag]; ts != nil && tag != "" {
		// the bytes of a symbolic tag are the same terms on every path
		at := bytes.Index(b, []byte(tag))
		for i, t := range ts {
			if t.isC() {
				o.data[at+i] = byte(t.val)
			} else {
				o.setCell(at+i, cell{t: t})
			}
		}
	}
	o.ro = true
	m.names[key] = o.base()
	return o.base()
}

// structOf builds the struct type of reflect.StructOf; tags may hold symbolic bytes.
func (m *Machine) structOf(fn *ssa.Function, sl Value) *RT {
	et := m.rt(fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem())
	n := int(m.addrOf(sl.e[1].t))
	base := m.addrOf(sl.e[0].t)
	var fs []*types.Var
	var tags []string
	for i := 0; i < n; i++ {
		v := m.load(base+Addr(i*et.size), et.lay)
		ft := m.rtByAddr(m.addrOf(v.e[2].e[1].t))
		anon := m.concretize(v.e[6].t) != 0
		fs = append(fs, types.NewField(0, m.P.pkgs["verifharness"].Pkg, m.goString(v.e[0]), ft.t, anon))
		var ts []*Term
		if k := int(m.addrOf(v.e[3].e[1].t)); k > 0 {
			for j := 0; j < k; j++ {
				ts = append(ts, m.loadTerm(m.addrOf(v.e[3].e[0].t)+Addr(j), 8))
			}
		}
		tag := ""
		if allConst(ts) {
			tag = string(constBytes(ts))
		} else {
			key := ""
			for _, t := range ts {
				key += fmt.Sprintf("%p,", t)
			}
			if old, ok := m.symTagID[key]; ok {
				tag = old
			} else {
				tag = fmt.Sprintf("\x01%d\x02", len(m.symTags))
				for len(tag) < len(ts) {
					tag += "\x03"
				}
				if len(tag) > len(ts) {
					panic(engErr("symbolic tag too short"))
				}
				m.symTags[tag] = ts
				m.symTagID[key] = tag
			}
		}
		tags = append(tags, tag)
	}
	return m.rt(types.NewStruct(fs, tags))
}

func (m *Machine) nameOff(a Addr) uint32 {
	if v, ok := m.nameOffs[a]; ok {
		return v
	}
	m.nameTab = append(m.nameTab, a)
	v := uint32(len(m.nameTab))
	m.nameOffs[a] = v
	return v
}

func (m *Machine) typeOff(t types.Type) uint32 {
	m.typeTab = append(m.typeTab, t)
	return uint32(len(m.typeTab))
}

// typeString is the runtime's spelling of a type.
func typeString(t types.Type) string {
	var b strings.Builder
	writeType(&b, t)
	return b.String()
}

func writeType(b *strings.Builder, t types.Type) {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() != nil {
			b.WriteString(o.Pkg().Name())
			b.WriteByte('.')
		}
		b.WriteString(o.Name())
		if ta := t.TypeArgs(); ta.Len() > 0 {
			b.WriteByte('[')
			for i := 0; i < ta.Len(); i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				// type arguments are spelled with full package paths
				b.WriteString(types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() }))
			}
			b.WriteByte(']')
		}
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			b.WriteString("uint8")
		case types.Int32:
			b.WriteString("int32")
		case types.UnsafePointer:
			b.WriteString("unsafe.Pointer")
		default:
			b.WriteString(t.Name())
		}
	case *types.Pointer:
		b.WriteByte('*')
		writeType(b, t.Elem())
	case *types.Slice:
		b.WriteString("[]")
		writeType(b, t.Elem())
	case *types.Array:
		b.WriteString("[" + strconv.FormatInt(t.Len(), 10) + "]")
		writeType(b, t.Elem())
	case *types.Map:
		b.WriteString("map[")
		writeType(b, t.Key())
		b.WriteByte(']')
		writeType(b, t.Elem())
	case *types.Chan:
		switch t.Dir() {
		case types.SendOnly:
			b.WriteString("chan<- ")
		case types.RecvOnly:
			b.WriteString("<-chan ")
		default:
			b.WriteString("chan ")
		}
		writeType(b, t.Elem())
	case *types.Struct:
		if t.NumFields() == 0 {
			b.WriteString("struct {}")
			return
		}
		b.WriteString("struct { ")
		for i := 0; i < t.NumFields(); i++ {
			if i > 0 {
				b.WriteString("; ")
			}
			f := t.Field(i)
			if !f.Embedded() {
				b.WriteString(f.Name() + " ")
			}
			writeType(b, f.Type())
			if tg := t.Tag(i); tg != "" {
				b.WriteString(" " + strconv.Quote(tg))
			}
		}
		b.WriteString(" }")
	case *types.Interface:
		if t.NumMethods() == 0 {
			b.WriteString("interface {}")
			return
		}
		b.WriteString("interface { ")
		for i := 0; i < t.NumMethods(); i++ {
			if i > 0 {
				b.WriteString("; ")
			}
			f := t.Method(i)
			b.WriteString(f.Name())
			writeSig(b, f.Type().(*types.Signature))
		}
		b.WriteString(" }")
	case *types.Signature:
		b.WriteString("func")
		writeSig(b, t)
	default:
		b.WriteString(t.String())
	}
}

func writeSig(b *strings.Builder, s *types.Signature) {
	b.WriteByte('(')
	for i := 0; i < s.Params().Len(); i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		t := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			b.WriteString("...")
			t = t.(*types.Slice).Elem()
		}
		writeType(b, t)
	}
	b.WriteByte(')')
	switch n := s.Results().Len(); {
	case n == 1:
		b.WriteByte(' ')
		writeType(b, s.Results().At(0).Type())
	case n > 1:
		b.WriteString(" (")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			writeType(b, s.Results().At(i).Type())
		}
		b.WriteByte(')')
	}
}

func comparable(u types.Type) bool {
	switch u := u.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !comparable(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return comparable(u.Elem())
	}
	return true
}

func (m *Machine) rtComparable(r *RT) bool {
	if r.eq == 0 {
		r.eq = 2
		if comparable(r.u) {
			r.eq = 1
		}
	}
	return r.eq == 1
}

func (m *Machine) rtByAddr(a Addr) *RT {
	r := m.rtAddr[a]
	if r == nil {
		panic(memFault{fmt.Sprintf("not a type descriptor: %#x", a)})
	}
	return r
}

func (m *Machine) ptrTo(r *RT) *RT {
	if r.ptr == nil {
		r.ptr = m.rt(types.NewPointer(r.t))
	}
	return r.ptr
}

func pkgPathOf(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Path()
}

// typeAddr returns the address of the type descriptor of r, building it on demand.
func (m *Machine) typeAddr(r *RT) Addr {
	if r.addr != 0 {
		return r.addr
	}
	r.t = types.Unalias(r.t)
	base := 48
	switch r.u.(type) {
	case *types.Array:
		base = 72
	case *types.Chan:
		base = 64
	case *types.Signature:
		base = 56
	case *types.Interface:
		base = 80
	case *types.Map:
		base = 88
	case *types.Pointer, *types.Slice:
		base = 56
	case *types.Struct:
		base = 80
	}
	named, isNamed := r.t.(*types.Named)
	_, isBasic := r.t.(*types.Basic)
	var meths []*types.Selection
	if _, isI := r.u.(*types.Interface); !isI {
		ms := m.P.msetCache.MethodSet(r.t)
		for i := 0; i < ms.Len(); i++ {
			meths = append(meths, ms.At(i))
		}
		sort.Slice(meths, func(i, j int) bool {
			a, b := meths[i].Obj(), meths[j].Obj()
			if a.Exported() != b.Exported() {
				return a.Exported()
			}
			return a.Name() < b.Name()
		})
	}
	uncommon := isNamed || len(meths) > 0
	size := base
	if uncommon {
		size += 16 + 16*len(meths)
	}
	sig, isSig := r.u.(*types.Signature)
	inOff := size
	if isSig {
		inOff = base
		if uncommon {
			inOff += 16
		}
		size = inOff + 8*(sig.Params().Len()+sig.Results().Len()) + 16*len(meths)
	}
	str := typeString(r.t)
	o := m.allocStatic(size, "type "+str)
	r.addr = o.base()
	m.rtAddr[r.addr] = r
	m.put(o, 0, 64, uint64(r.size))
	if hasPointers(r.u) {
		m.put(o, 8, 64, uint64(r.size))
	}
	h := fnv.New32a()
	h.Write([]byte(str))
	m.put(o, 16, 32, uint64(h.Sum32()))
	var tf uint64
	if uncommon {
		tf |= tflagUncommon
	}
	if isNamed || isBasic {
		tf |= tflagNamed
	}
	m.put(o, 20, 8, tf)
	m.put(o, 21, 8, uint64(r.align))
	m.put(o, 22, 8, uint64(r.align))
	k := uint64(r.kind)
	if r.direct {
		k |= kindDirect
	}
	m.put(o, 23, 8, k)
	if m.rtComparable(r) {
		m.put(o, 24, 64, m.eqFuncAddr())
	}
	m.put(o, 40, 32, uint64(m.nameOff(m.nameObj(str, "", isNamed && named.Obj().Exported() || isBasic, false, ""))))
	ta := func(t types.Type) uint64 { return m.typeAddr(m.rt(t)) }
	switch u := r.u.(type) {
	case *types.Array:
		m.put(o, 48, 64, ta(u.Elem()))
		m.put(o, 56, 64, ta(types.NewSlice(u.Elem())))
		m.put(o, 64, 64, uint64(u.Len()))
	case *types.Chan:
		m.put(o, 48, 64, ta(u.Elem()))
		d := uint64(3)
		if u.Dir() == types.SendOnly {
			d = 2
		} else if u.Dir() == types.RecvOnly {
			d = 1
		}
		m.put(o, 56, 64, d)
	case *types.Signature:
		m.put(o, 48, 16, uint64(u.Params().Len()))
		oc := uint64(u.Results().Len())
		if u.Variadic() {
			oc |= 1 << 15
		}
		m.put(o, 50, 16, oc)
		p := inOff
		for i := 0; i < u.Params().Len(); i++ {
			m.put(o, p, 64, ta(u.Params().At(i).Type()))
			p += 8
		}
		for i := 0; i < u.Results().Len(); i++ {
			m.put(o, p, 64, ta(u.Results().At(i).Type()))
			p += 8
		}
	case *types.Interface:
		n := u.NumMethods()
		ms := make([]*types.Func, n)
		for i := range ms {
			ms[i] = u.Method(i)
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].Id() < ms[j].Id() })
		mo := m.allocStatic(8*n, "imethods")
		for i, f := range ms {
			pp := ""
			if !f.Exported() {
				pp = pkgPathOf(f.Pkg())
			}
			m.put(mo, 8*i, 32, uint64(m.nameOff(m.nameObj(f.Name(), "", f.Exported(), false, pp))))
			m.put(mo, 8*i+4, 32, uint64(m.typeOff(f.Type())))
		}
		m.put(o, 56, 64, mo.base())
		m.put(o, 64, 64, uint64(n))
		m.put(o, 72, 64, uint64(n))
	case *types.Map:
		m.put(o, 48, 64, ta(u.Key()))
		m.put(o, 56, 64, ta(u.Elem()))
		m.put(o, 64, 64, ta(types.Typ[types.Uintptr]))
		m.put(o, 80, 8, uint64(m.rt(u.Key()).size))
		m.put(o, 81, 8, uint64(m.rt(u.Elem()).size))
	case *types.Pointer:
		m.put(o, 48, 64, ta(u.Elem()))
	case *types.Slice:
		m.put(o, 48, 64, ta(u.Elem()))
	case *types.Struct:
		n := u.NumFields()
		pp := ""
		for i := 0; i < n; i++ {
			if f := u.Field(i); !f.Exported() {
				pp = pkgPathOf(f.Pkg())
			}
		}
		if pp != "" {
			m.put(o, 48, 64, m.nameObj(pp, "", false, false, ""))
		}
		fo := m.allocStatic(24*n, "fields of "+str)
		for i := 0; i < n; i++ {
			f := u.Field(i)
			fpp := ""
			if !f.Exported() {
				fpp = pkgPathOf(f.Pkg())
			}
			m.put(fo, 24*i, 64, m.nameObj(f.Name(), u.Tag(i), f.Exported(), f.Embedded(), fpp))
			m.put(fo, 24*i+8, 64, ta(f.Type()))
			m.put(fo, 24*i+16, 64, uint64(r.lay.offs[i]))
		}
		fo.ro = true
		m.put(o, 56, 64, fo.base())
		m.put(o, 64, 64, uint64(n))
		m.put(o, 72, 64, uint64(n))
	}
	if uncommon {
		pp := ""
		if isNamed {
			pp = pkgPathOf(named.Obj().Pkg())
		}
		if pp != "" {
			m.put(o, base, 32, uint64(m.nameOff(m.nameObj(pp, "", false, false, ""))))
		}
		x := 0
		for _, s := range meths {
			if s.Obj().Exported() {
				x++
			}
		}
		m.put(o, base+4, 16, uint64(len(meths)))
		m.put(o, base+6, 16, uint64(x))
		moff := 16
		if isSig {
			moff = size - base - 16*len(meths)
		}
		m.put(o, base+8, 32, uint64(moff))
		for i, s := range meths {
			mpp := ""
			if !s.Obj().Exported() {
				mpp = pkgPathOf(s.Obj().Pkg())
			}
			p := base + moff + 16*i
			m.put(o, p, 32, uint64(m.nameOff(m.nameObj(s.Obj().Name(), "", s.Obj().Exported(), false, mpp))))
			fs := s.Obj().Type().(*types.Signature)
			m.put(o, p+4, 32, uint64(m.typeOff(types.NewSignatureType(nil, nil, nil, fs.Params(), fs.Results(), fs.Variadic()))))
		}
	}
	o.ro = true
	return r.addr
}

func hasPointers(u types.Type) bool {
	switch u := u.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// ---- itabs and methods ----

type itabKey struct{ i, t *RT }

func (m *Machine) itab(i, t *RT) Addr {
	k := itabKey{i, t}
	if a, ok := m.itabs[k]; ok {
		return a
	}
	n := i.u.(*types.Interface).NumMethods()
	o := m.allocStatic(24+8*n, "itab")
	m.put(o, 0, 64, m.typeAddr(i))
	m.put(o, 8, 64, m.typeAddr(t))
	for j := 0; j < n; j++ {
		m.put(o, 24+8*j, 64, 1)
	}
	o.ro = true
	m.itabs[k] = o.base()
	m.itabAddr[o.base()] = t
	return o.base()
}

func (m *Machine) implements(t, i *RT) bool {
	k := itabKey{i, t}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	it := i.u.(*types.Interface)
	v := types.Implements(t.t, it)
	m.implCache[k] = v
	return v
}

// dynType returns the dynamic type of an interface value of static type it (nil: nil interface).
func (m *Machine) dynType(it *RT, w0 *Term) *RT {
	if !w0.isC() {
		w0 = C64(m.concretize(w0))
	}
	if w0.val == 0 {
		return nil
	}
	if it.u.(*types.Interface).NumMethods() == 0 {
		return m.rtByAddr(w0.val)
	}
	if r, ok := m.itabAddr[w0.val]; ok {
		return r
	}
	panic(memFault{fmt.Sprintf("interface with methods whose type word %#x is not an itab", w0.val)})
}

// mkIface builds the two words of an interface of static type it holding v of type t.
func (m *Machine) mkIface(it, t *RT, v Value) Value {
	var w0 Addr
	if it.u.(*types.Interface).NumMethods() == 0 {
		w0 = m.typeAddr(t)
	} else {
		w0 = m.itab(it, t)
	}
	return tup(tv(C64(w0)), tv(m.boxWord(t, v)))
}

func (m *Machine) boxWord(t *RT, v Value) *Term {
	if t.direct {
		for v.t == nil {
			v = v.e[0]
		}
		return v.t
	}
	if t.size == 0 {
		return C64(m.zeroBase())
	}
	o := m.alloc(t.size, "boxed "+t.t.String())
	m.store(o.base(), t.lay, v)
	return C64(o.base())
}

// unboxWord reads the value of type t out of an interface data word.
func (m *Machine) unboxWord(t *RT, w *Term) Value {
	if t.direct {
		return wrapDirect(t.lay, w)
	}
	if t.size == 0 {
		return t.lay.zero
	}
	return m.load(m.addrOf(w), t.lay)
}

func wrapDirect(l *Lay, w *Term) Value {
	switch l.kind {
	case LTuple:
		return tup(wrapDirect(l.fs[0], w))
	case LArray:
		return tup(wrapDirect(l.elem, w))
	}
	return tv(w)
}

func (m *Machine) zeroBase() Addr {
	if m.zeroBaseObj == nil {
		m.zeroBaseObj = m.allocStatic(8, "zerobase")
	}
	return m.zeroBaseObj.base()
}
