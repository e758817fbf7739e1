package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsics replace functions that have no Go body or that belong to the runtime;
// each states the documented behaviour of the function it replaces.
var intrinsics = map[string]intrinsic{}

// wraps are tried first; ok=false means: execute the real body.
var wraps = map[string]func(m *Machine, fn *ssa.Function, a []Value) (Value, bool){}

type floatKey struct {
	t              *Term
	fmt, prec, bit uint64
}
type floatEnt struct{ bs []*Term }
type itoaKey struct{ t *Term }
type itoaEnt struct{ bs []*Term }

func (m *Machine) errorValue(msg string) Value {
	return m.mkErr("errors", "errorString", msg)
}

// mkErr builds *pkg.typ{msg} as an empty interface.
func (m *Machine) mkErr(pkg, typ, msg string) Value {
	t := m.P.pkgs[pkg].Type(typ).Type()
	r := m.rt(t)
	o := m.alloc(r.size, "error")
	m.store(o.base(), layString, m.newString(msg))
	return tup(cv(64, m.typeAddr(m.ptrTo(r))), cv(64, o.base()))
}

func (m *Machine) sliceTerms(v Value) []*Term {
	n := int(m.addrOf(v.e[1].t))
	if n == 0 {
		return nil
	}
	return m.byteTerms(m.addrOf(v.e[0].t), n)
}

func (m *Machine) indexTerm(bs []*Term, c *Term) *Term {
	r := C64(^uint64(0))
	for i := len(bs) - 1; i >= 0; i-- {
		r = m.tc.Ite(m.tc.Eq(bs[i], c), C64(uint64(i)), r)
	}
	return r
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isC() {
			return false
		}
	}
	return true
}

func constBytes(ts []*Term) []byte {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return b
}

// opaque text standing for a float rendering.
var floatShapes = map[byte][]string{
	'f': {"N", "ND.dN", "0.0dN"},
	'e': {"Ne-0N", "N.dNe+NN", "N.Ne-NNd"},
	'g': {"N", "N.dNe+NN"},
}

func (m *Machine) floatText(t *Term, f byte, prec, bit uint64) []*Term {
	k := floatKey{t, uint64(f), prec, bit}
	if e, ok := m.floatTab[k]; ok {
		return e.bs
	}
	w := int(t.w)
	sign := m.branch(m.tc.Eq(m.tc.Extract(t, w-1, w-1), C(1, 1)))
	if f == 'g' && m.branch(m.fpSpecial(t)) {
		mant := 52
		if w == 32 {
			mant = 23
		}
		s := "NaN"
		if m.branch(m.tc.Eq(m.tc.Extract(t, mant-1, 0), C(mant, 0))) {
			s = "+Inf"
			if sign {
				s = "-Inf"
			}
		}
		var bs []*Term
		for _, c := range []byte(s) {
			bs = append(bs, C(8, uint64(c)))
		}
		return bs
	}
	sh := floatShapes[f]
	if sh == nil {
		panic(engErr("float format " + string(rune(f))))
	}
	p := sh[m.choose(len(sh))]
	if sign {
		p = "-" + p
	}
	m.opaque = true
	var bs []*Term
	for i, c := range []byte(p) {
		switch c {
		case 'd', 'D':
			v := m.tc.Var(fmt.Sprintf("ft_%d_%c_%d_%d_%d_%s", t.id, f, int64(prec), bit, i, p), 8, 9)
			bs = append(bs, m.tc.Add(v, C(8, '0')))
		case 'N':
			v := m.tc.Var(fmt.Sprintf("ft_%d_%c_%d_%d_%d_%s", t.id, f, int64(prec), bit, i, p), 8, 8)
			bs = append(bs, m.tc.Add(v, C(8, '1')))
		default:
			bs = append(bs, C(8, uint64(c)))
		}
	}
	m.floatTab[k] = &floatEnt{bs}
	m.trailFn(func() { delete(m.floatTab, k) })
	return bs
}

// fpSpecial: exponent all ones.
func (m *Machine) fpSpecial(t *Term) *Term {
	if t.w == 32 {
		return m.tc.Eq(m.tc.Extract(t, 30, 23), C(8, 0xff))
	}
	return m.tc.Eq(m.tc.Extract(t, 62, 52), C(11, 0x7ff))
}

// itoa renders a 64-bit term in base 10; it forks on sign and length.
func (m *Machine) itoa(t *Term, signed bool) []*Term {
	tc := m.tc
	neg := false
	if signed {
		neg = m.branch(tc.Slt(t, C64(0)))
	}
	u := t
	if neg {
		u = tc.Neg(t)
	}
	n := 1
	for p := uint64(10); n < 20; n++ {
		if m.branch(tc.Ult(u, C64(p))) {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		p *= 10
	}
	bs := make([]*Term, 0, n+1)
	if neg {
		bs = append(bs, C(8, '-'))
	}
	d := make([]*Term, n)
	p := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d[i] = tc.Add(tc.Extract(tc.URem(tc.UDiv(u, C64(p)), C64(10)), 7, 0), C(8, '0'))
		p *= 10
	}
	return append(bs, d...)
}

func (m *Machine) bytesObj(bs []*Term) (Addr, uint64) {
	if len(bs) == 0 {
		return m.zeroBase(), 0
	}
	o := m.alloc(len(bs), "bytes")
	for i, b := range bs {
		m.objStore(o, i, b)
	}
	return o.base(), uint64(len(bs))
}

func (m *Machine) appendTerms(dst Value, bs []*Term) Value {
	m.forceTrail = true
	a, n := m.bytesObj(bs)
	return m.appendSlice(dst, a, n, m.rt(types.Typ[types.Uint8]))
}

func (m *Machine) stringTerms(bs []*Term) Value {
	if len(bs) == 0 {
		return m.str("")
	}
	a, n := m.bytesObj(bs)
	return tup(cv(64, a), cv(64, n))
}

// symArg reports whether an interface value holds symbolic data.
func (m *Machine) symArg(r *RT, v Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch r.kind {
	case reflect.String:
		if !v.e[0].t.isC() || !v.e[1].t.isC() {
			return true
		}
		_, ok := m.bytesAt(v.e[0].t.val, int(v.e[1].t.val))
		return v.e[1].t.val > 0 && !ok
	case reflect.Slice:
		if !v.e[1].t.isC() {
			return true
		}
		er := m.rt(r.u.(*types.Slice).Elem())
		for i := uint64(0); i < v.e[1].t.val; i++ {
			if m.symArg(er, m.load(m.addrOf(v.e[0].t)+i*uint64(er.size), er.lay), depth+1) {
				return true
			}
		}
		return false
	case reflect.Interface:
		dt := m.dynType(r, v.e[0].t)
		if dt == nil {
			return false
		}
		if _, ok := dt.t.Underlying().(*types.Pointer); ok {
			// errors: look at what they carry
			if v.e[1].t.isC() && v.e[1].t.val > 4096 {
				el := m.rt(dt.u.(*types.Pointer).Elem())
				if types.Implements(dt.t, errorIface) {
					return m.symArg(el, m.load(v.e[1].t.val, el.lay), depth+1)
				}
			}
			return false
		}
		return m.symArg(dt, m.unboxWord(dt, v.e[1].t), depth+1)
	case reflect.Struct:
		if r.t.String() == "reflect.Value" {
			return true
		}
		st := r.u.(*types.Struct)
		for i := range v.e {
			if m.symArg(m.rt(st.Field(i).Type()), v.e[i], depth+1) {
				return true
			}
		}
		return false
	case reflect.Array:
		er := m.rt(r.u.(*types.Array).Elem())
		for i := range v.e {
			if m.symArg(er, v.e[i], depth+1) {
				return true
			}
		}
		return false
	case reflect.Complex64, reflect.Complex128:
		return !v.e[0].t.isC() || !v.e[1].t.isC()
	}
	return v.t != nil && !v.t.isC()
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) symArgs(sl Value) bool {
	n := m.addrOf(sl.e[1].t)
	ir := m.rt(types.NewInterfaceType(nil, nil))
	for i := uint64(0); i < n; i++ {
		if m.symArg(ir, m.load(m.addrOf(sl.e[0].t)+16*i, layIface), 0) {
			return true
		}
	}
	return false
}

func init() {
	in := func(n string, f intrinsic) { intrinsics[n] = f }
	nop := func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} }
	alias := func(n, of string) { intrinsics[n] = intrinsics[of] }

	// ---- runtime ----
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "internal/race.Enable",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "time.initLocal", "reflect.verifyNotInHeapPtr"} {
		in(n, nop)
	}
	in("internal/poll.runtime_Semrelease", nop)
	in("(*internal/godebug.Setting).Value", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.str("") })
	in("runtime.GOMAXPROCS", func(m *Machine, fn *ssa.Function, a []Value) Value { return cv(64, 8) })

	in("runtime.nanotime1", func(m *Machine, fn *ssa.Function, a []Value) Value { return cv(64, 1) })
	in("time.runtimeNano", func(m *Machine, fn *ssa.Function, a []Value) Value { return cv(64, 1) })
	// ---- reflect ----
	impl := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := m.rtByAddr(m.addrOf(a[0].t))
		if _, ok := i.u.(*types.Interface); !ok {
			return tv(B(false))
		}
		return tv(B(m.implements(m.rtByAddr(m.addrOf(a[1].t)), i)))
	}
	in("reflect.implements", impl)
	in("internal/reflectlite.implements", impl)
	ptr := func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cv(64, m.typeAddr(m.ptrTo(m.rtByAddr(m.addrOf(a[0].t)))))
	}
	in("(*reflect.rtype).ptrTo", ptr)
	in("reflect.ptrTo", ptr)
	in("reflect.StructOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		rt := m.rtByAddr(m.typeAddr(m.structOf(fn, a[0])))
		rtype := m.rt(types.NewPointer(m.P.pkgs["reflect"].Pkg.Scope().Lookup("rtype").Type()))
		return m.mkIface(m.rt(fn.Signature.Results().At(0).Type()), rtype, tv(C64(rt.addr)))
	})
	made := func(f func(m *Machine, a []Value) types.Type) intrinsic {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			rt := m.rtByAddr(m.typeAddr(m.rt(f(m, a))))
			rtype := m.rt(types.NewPointer(m.P.pkgs["reflect"].Pkg.Scope().Lookup("rtype").Type()))
			return m.mkIface(m.rt(fn.Signature.Results().At(0).Type()), rtype, tv(C64(rt.addr)))
		}
	}
	tyArg := func(m *Machine, v Value) types.Type { return m.rtByAddr(m.addrOf(v.e[1].t)).t }
	in("reflect.SliceOf", made(func(m *Machine, a []Value) types.Type { return types.NewSlice(tyArg(m, a[0])) }))
	in("reflect.ArrayOf", made(func(m *Machine, a []Value) types.Type { return types.NewArray(tyArg(m, a[1]), int64(m.addrOf(a[0].t))) }))
	in("reflect.MapOf", made(func(m *Machine, a []Value) types.Type { return types.NewMap(tyArg(m, a[0]), tyArg(m, a[1])) }))
	nameOff := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := int(m.addrOf(a[1].t))
		if i < 1 || i > len(m.nameTab) {
			panic(memFault{"name offset"})
		}
		return cv(64, m.nameTab[i-1])
	}
	typeOff := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := int(m.addrOf(a[1].t))
		if i < 1 || i > len(m.typeTab) {
			panic(memFault{"type offset"})
		}
		return cv(64, m.typeAddr(m.rt(m.typeTab[i-1])))
	}
	for _, p := range []string{"reflect.", "internal/reflectlite."} {
		in(p+"resolveNameOff", nameOff)
		in(p+"resolveTypeOff", typeOff)
		in(p+"unsafe_New", func(m *Machine, fn *ssa.Function, a []Value) Value {
			r := m.rtByAddr(m.addrOf(a[0].t))
			if r.size == 0 {
				return cv(64, m.zeroBase())
			}
			return cv(64, m.alloc(r.size, "new "+typeString(r.t)).base())
		})
		in(p+"typedmemmove", func(m *Machine, fn *ssa.Function, a []Value) Value {
			r := m.rtByAddr(m.addrOf(a[0].t))
			m.forceTrail = true
			if r.size > 0 {
				m.memmove(m.addrOf(a[1].t), m.addrOf(a[2].t), r.size)
			}
			return Value{}
		})
		in(p+"maplen", func(m *Machine, fn *ssa.Function, a []Value) Value {
			return cv(64, uint64(m.mapLen(m.addrOf(a[0].t))))
		})
		in(p+"ifaceE2I", func(m *Machine, fn *ssa.Function, a []Value) Value {
			it := m.rtByAddr(m.addrOf(a[0].t))
			dt := m.rtByAddr(m.addrOf(a[1].e[0].t))
			if !m.implements(dt, it) {
				m.goPanicErr("interface conversion: " + typeString(dt.t) + " is not " + typeString(it.t))
			}
			v := m.retype(it, dt, a[1].e[1])
			m.forceTrail = true
			m.store(m.addrOf(a[2].t), layIface, v)
			return Value{}
		})
	}
	in("reflect.typedmemclr", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.forceTrail = true
		m.memzero(m.addrOf(a[1].t), m.rtByAddr(m.addrOf(a[0].t)).size)
		return Value{}
	})
	in("reflect.memmove", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.forceTrail = true
		m.memmove(m.addrOf(a[0].t), m.addrOf(a[1].t), int(m.addrOf(a[2].t)))
		return Value{}
	})
	in("reflect.unsafe_NewArray", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rtByAddr(m.addrOf(a[0].t))
		n := int(m.addrOf(a[1].t)) * r.size
		if n == 0 {
			return cv(64, m.zeroBase())
		}
		return cv(64, m.alloc(n, "new array").base())
	})
	in("reflect.typedslicecopy", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rtByAddr(m.addrOf(a[0].t))
		n := m.addrOf(a[1].e[1].t)
		if k := m.addrOf(a[2].e[1].t); k < n {
			n = k
		}
		m.forceTrail = true
		if n > 0 && r.size > 0 {
			m.memmove(m.addrOf(a[1].e[0].t), m.addrOf(a[2].e[0].t), int(n)*r.size)
		}
		return cv(64, n)
	})
	in("reflect.growslice", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rtByAddr(m.addrOf(a[0].t))
		ln, cp := m.addrOf(a[1].e[1].t), m.addrOf(a[1].e[2].t)
		nb, nc := m.growslice(m.addrOf(a[1].e[0].t), ln, cp, ln+m.addrOf(a[2].t), r.size, !hasPointers(r.u))
		return tup(cv(64, nb), cv(64, ln), cv(64, nc))
	})
	in("reflect.typelinks", func(m *Machine, fn *ssa.Function, a []Value) Value { return tup(laySlice.zero, laySlice.zero) })

	// maps
	keyOf := func(m *Machine, t Addr, k Addr) (*RT, *RT, Value) {
		mt := m.rtByAddr(t).u.(*types.Map)
		kr := m.rt(mt.Key())
		return kr, m.rt(mt.Elem()), m.load(k, kr.lay)
	}
	in("reflect.makechan", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cv(64, m.newChan(m.concretize(a[1].t)))
	})
	in("reflect.makemap", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cv(64, m.newMap(m.rtByAddr(m.addrOf(a[0].t))))
	})
	in("maps.clone", func(m *Machine, fn *ssa.Function, a []Value) Value {
		v := a[0]
		return tup(v.e[0], cv(64, m.mapClone(m.addrOf(v.e[1].t))))
	})
	in("runtime.reflectOffsLock", nop)
	in("runtime.reflectOffsUnlock", nop)
	in("reflect.mapaccess", func(m *Machine, fn *ssa.Function, a []Value) Value {
		kr, _, k := keyOf(m, m.addrOf(a[0].t), m.addrOf(a[2].t))
		return cv(64, m.mapFind(m.addrOf(a[1].t), kr, k))
	})
	in("reflect.mapaccess_faststr", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cv(64, m.mapFind(m.addrOf(a[1].t), m.rt(types.Typ[types.String]), a[2]))
	})
	in("reflect.mapassign0", func(m *Machine, fn *ssa.Function, a []Value) Value {
		kr, er, k := keyOf(m, m.addrOf(a[0].t), m.addrOf(a[2].t))
		m.forceTrail = true
		d := m.mapAssign(m.addrOf(a[1].t), kr, er, k)
		m.store(d, er.lay, m.load(m.addrOf(a[3].t), er.lay))
		return Value{}
	})
	in("reflect.mapassign_faststr0", func(m *Machine, fn *ssa.Function, a []Value) Value {
		er := m.rt(m.rtByAddr(m.addrOf(a[0].t)).u.(*types.Map).Elem())
		m.forceTrail = true
		d := m.mapAssign(m.addrOf(a[1].t), m.rt(types.Typ[types.String]), er, a[2])
		m.store(d, er.lay, m.load(m.addrOf(a[3].t), er.lay))
		return Value{}
	})
	in("reflect.mapdelete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		kr, _, k := keyOf(m, m.addrOf(a[0].t), m.addrOf(a[2].t))
		m.mapDelete(m.addrOf(a[1].t), kr, k)
		return Value{}
	})
	in("reflect.mapclear", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.mapClear(m.addrOf(a[1].t))
		return Value{}
	})
	for _, p := range []string{"runtime.", "reflect."} {
		in(p+"mapiterinit", func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.hiterInit(m.addrOf(a[0].t), m.addrOf(a[1].t), m.addrOf(a[2].t))
			return Value{}
		})
		in(p+"mapiternext", func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.hiterNext(m.addrOf(a[0].t))
			return Value{}
		})
	}
	in("reflect.mapiterkey", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return tv(m.loadTerm(m.addrOf(a[0].t), 64))
	})
	in("reflect.mapiterelem", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return tv(m.loadTerm(m.addrOf(a[0].t)+8, 64))
	})
	in("runtime.maplen", intrinsics["reflect.maplen"])

	// ---- bytes ----
	in("internal/bytealg.IndexByte", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return tv(m.indexTerm(m.sliceTerms(a[0]), a[1].t))
	})
	alias("internal/bytealg.IndexByteString", "internal/bytealg.IndexByte")
	lastIdx := func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := C64(^uint64(0))
		for i, b := range m.sliceTerms(a[0]) {
			r = m.tc.Ite(m.tc.Eq(b, a[1].t), C64(uint64(i)), r)
		}
		return tv(r)
	}
	in("internal/bytealg.LastIndexByte", lastIdx)
	in("internal/bytealg.LastIndexByteString", lastIdx)
	in("internal/bytealg.Count", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := C64(0)
		for _, b := range m.sliceTerms(a[0]) {
			r = m.tc.Add(r, m.tc.Ite(m.tc.Eq(b, a[1].t), C64(1), C64(0)))
		}
		return tv(r)
	})
	alias("internal/bytealg.CountString", "internal/bytealg.Count")
	cmp := func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := m.sliceTerms(a[0]), m.sliceTerms(a[1])
		if allConst(x) && allConst(y) {
			return cv(64, uint64(int64(bytes.Compare(constBytes(x), constBytes(y)))))
		}
		lt := m.lexLess(x, y, false)
		le := m.lexLess(x, y, true)
		return tv(m.tc.Ite(lt, C64(^uint64(0)), m.tc.Ite(le, C64(0), C64(1))))
	}
	in("internal/bytealg.Compare", cmp)
	in("internal/bytealg.CompareString", cmp)
	in("internal/bytealg.abigen_runtime_cmpstring", cmp)
	in("runtime.cmpstring", cmp)
	in("internal/bytealg.Equal", func(m *Machine, fn *ssa.Function, a []Value) Value { return tv(m.strEq(a[0], a[1])) })
	in("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	in("internal/bytealg.MakeNoZero", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.addrOf(a[0].t)
		k := uint64(roundupsize(int(n)))
		return tup(cv(64, m.alloc(int(k), "bytes").base()), cv(64, n), cv(64, k))
	})
	idx := func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := m.sliceTerms(a[0]), m.sliceTerms(a[1])
		if allConst(x) && allConst(y) {
			return cv(64, uint64(int64(bytes.Index(constBytes(x), constBytes(y)))))
		}
		r := C64(^uint64(0))
		for i := len(x) - len(y); i >= 0; i-- {
			c := tTrue
			for j := range y {
				c = m.tc.And(c, m.tc.Eq(x[i+j], y[j]))
			}
			r = m.tc.Ite(c, C64(uint64(i)), r)
		}
		return tv(r)
	}
	in("internal/bytealg.Index", idx)
	in("internal/bytealg.IndexString", idx)
	in("strings.Index", idx)
	in("bytes.Index", idx)

	// ---- unicode/utf8: forks on the encoded length ----
	dec := func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := int(m.addrOf(a[0].e[1].t))
		if n == 0 {
			return tup(cv(32, 0xFFFD), cv(64, 0))
		}
		r, sz := m.decodeRune(m.addrOf(a[0].e[0].t), n)
		return tup(tv(r), cv(64, uint64(sz)))
	}
	in("unicode/utf8.DecodeRune", dec)
	in("unicode/utf8.DecodeRuneInString", dec)

	// ---- math ----
	f1 := func(g func(float64) float64) intrinsic {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			if !a[0].t.isC() {
				panic(engErr(fnName(fn) + " of a symbolic float"))
			}
			return cv(64, math.Float64bits(g(math.Float64frombits(a[0].t.val))))
		}
	}
	in("math.archSqrt", f1(math.Sqrt))
	in("math.sqrt", f1(math.Sqrt))
	in("math.archExp", f1(math.Exp))
	in("math.archLog", f1(math.Log))
	in("math.Float64bits", func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] })
	alias("math.Float64frombits", "math.Float64bits")
	alias("math.Float32bits", "math.Float64bits")
	alias("math.Float32frombits", "math.Float64bits")
	in("math.Abs", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if n := m.tc.widened[a[0].t]; n != nil {
			return tv(m.tc.FCvt(m.tc.BAnd(n, C(32, 1<<31-1)), 64))
		}
		return tv(m.tc.BAnd(a[0].t, C64(1<<63-1)))
	})
	in("math/bits.Mul64", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return tup(tv(m.tc.MulHi(a[0].t, a[1].t)), tv(m.tc.Mul(a[0].t, a[1].t)))
	})
	conc := func(n string, g func(uint64) uint64) {
		wraps[n] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if a[0].t.isC() {
				return cv(64, g(a[0].t.val)), true
			}
			return Value{}, false
		}
	}
	conc("math/bits.Len64", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	conc("math/bits.Len", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	conc("math/bits.Len32", func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	conc("math/bits.TrailingZeros64", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	conc("math/bits.TrailingZeros", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	conc("math/bits.TrailingZeros32", func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) })
	conc("math/bits.LeadingZeros64", func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })

	// ---- strconv ----
	isTen := func(v Value) bool { return v.t.isC() && v.t.val == 10 }
	for n, sg := range map[string]bool{"strconv.AppendInt": true, "strconv.AppendUint": false} {
		wraps[n] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if a[1].t.isC() || !isTen(a[2]) {
				return Value{}, false
			}
			return m.appendTerms(a[0], m.itoa(a[1].t, sg)), true
		}
	}
	for n, sg := range map[string]bool{"strconv.FormatInt": true, "strconv.FormatUint": false} {
		wraps[n] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if a[0].t.isC() || !isTen(a[1]) {
				return Value{}, false
			}
			return m.stringTerms(m.itoa(a[0].t, sg)), true
		}
	}
	wraps["strconv.Itoa"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if a[0].t.isC() {
			return Value{}, false
		}
		return m.stringTerms(m.itoa(a[0].t, true)), true
	}
	fargs := func(m *Machine, v, f, p, b Value) ([]*Term, bool) {
		if v.t.isC() {
			return nil, false
		}
		bit := m.addrOf(b.t)
		t := v.t
		if bit == 32 {
			t = m.tc.FCvt(t, 32)
		}
		return m.floatText(t, byte(m.addrOf(f.t)), m.addrOf(p.t), bit), true
	}
	wraps["strconv.AppendFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		bs, ok := fargs(m, a[1], a[2], a[3], a[4])
		if !ok {
			return Value{}, false
		}
		return m.appendTerms(a[0], bs), true
	}
	wraps["strconv.FormatFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		bs, ok := fargs(m, a[0], a[1], a[2], a[3])
		if !ok {
			return Value{}, false
		}
		return m.stringTerms(bs), true
	}

	// ---- fmt: messages built from symbolic data are opaque ----
	wraps["fmt.Sprintf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if !m.symArgs(a[1]) {
			return Value{}, false
		}
		m.opaque = true
		f, _ := m.tryString(a[0])
		return m.newString("<" + f + ">"), true
	}
	wraps["fmt.Sprint"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if !m.symArgs(a[0]) {
			return Value{}, false
		}
		m.opaque = true
		return m.newString("<?>"), true
	}
	wraps["fmt.Errorf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if !m.symArgs(a[1]) {
			return Value{}, false
		}
		f, _ := m.tryString(a[0])
		if strings.Contains(f, "%w") {
			panic(engErr("fmt.Errorf with %w over symbolic data"))
		}
		m.opaque = true
		e := m.mkErr("errors", "errorString", "<"+f+">")
		return m.retype(m.rt(types.Universe.Lookup("error").Type()), m.rtByAddr(e.e[0].t.val), e.e[1]), true
	}
	quote := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if allConst(m.sliceTerms(a[0])) {
			return Value{}, false
		}
		m.opaque = true
		return m.newString("\"<?>\""), true
	}
	wraps["strconv.Quote"] = quote
	wraps["encoding/json.quoteChar"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if a[0].t.isC() {
			return Value{}, false
		}
		m.opaque = true
		return m.newString("'?'"), true
	}
	_ = reflect.Int
}
