package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundClass(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	lo, hi := 0, len(sizeClasses)-1
	for lo < hi {
		mid := (lo + hi) / 2
		if sizeClasses[mid] >= n {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return sizeClasses[lo]
}

func roundupsize(n int) int { return roundClass(n) }

func roundupsizeP(n int, noscan bool) int {
	if !noscan && n > 512 && n <= 32768-8 {
		return roundClass(n+8) - 8
	}
	return roundClass(n)
}

// growslice returns the new base and capacity for at least need elements.
func (m *Machine) growslice(base Addr, ln, cp, need uint64, es int, noscan bool) (Addr, uint64) {
	nc := cp
	if d := cp + cp; need > d {
		nc = need
	} else if cp < 256 {
		nc = d
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return m.zeroBase(), need
	}
	bytes := roundupsizeP(int(nc)*es, noscan)
	nc = uint64(bytes / es)
	o := m.alloc(int(nc)*es, "grown slice")
	if ln > 0 {
		m.memmove(o.base(), base, int(ln)*es)
	}
	return o.base(), nc
}

func (m *Machine) appendSlice(s Value, src Addr, n uint64, er *RT) Value {
	base, ln, cp := m.addrOf(s.e[0].t), m.addrOf(s.e[1].t), m.addrOf(s.e[2].t)
	if n == 0 {
		return tup(cv(64, base), cv(64, ln), cv(64, cp))
	}
	es := er.size
	if ln+n > cp {
		base, cp = m.growslice(base, ln, cp, ln+n, es, !hasPointers(er.u))
	}
	if es > 0 {
		m.memmove(base+ln*uint64(es), src, int(n)*es)
	}
	return tup(cv(64, base), cv(64, ln+n), cv(64, cp))
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []int, dst int) execFn {
	m := c.m
	at := func(i int) types.Type { return cc.Args[i].Type() }
	set := func(f *Frame, v Value) {
		if dst >= 0 {
			f.regs[dst] = v
		}
	}
	switch b.Name() {
	case "append":
		er := m.rt(at(0).Underlying().(*types.Slice).Elem())
		if len(args) == 1 {
			return func(m *Machine, f *Frame) { set(f, f.get(args[0])) }
		}
		return func(m *Machine, f *Frame) {
			m.forceTrail = true
			x := f.get(args[1])
			n := m.addrOf(x.e[1].t)
			src := Addr(0)
			if n > 0 {
				src = m.addrOf(x.e[0].t)
			}
			set(f, m.appendSlice(f.get(args[0]), src, n, er))
		}
	case "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Chan:
			return func(m *Machine, f *Frame) { set(f, cv(64, m.chanInt(m.addrOf(f.get(args[0]).t), 8))) }
		case *types.Slice:
			return func(m *Machine, f *Frame) { set(f, f.get(args[0]).e[2]) }
		case *types.Array:
			n := uint64(u.Len())
			return func(m *Machine, f *Frame) { set(f, cv(64, n)) }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(m *Machine, f *Frame) { set(f, cv(64, n)) }
		}
	case "len":
		switch u := at(0).Underlying().(type) {
		case *types.Chan:
			return func(m *Machine, f *Frame) { set(f, cv(64, m.chanInt(m.addrOf(f.get(args[0]).t), 0))) }
		case *types.Slice, *types.Basic:
			return func(m *Machine, f *Frame) { set(f, f.get(args[0]).e[1]) }
		case *types.Array:
			n := uint64(u.Len())
			return func(m *Machine, f *Frame) { set(f, cv(64, n)) }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(m *Machine, f *Frame) { set(f, cv(64, n)) }
		case *types.Map:
			return func(m *Machine, f *Frame) { set(f, cv(64, uint64(m.mapLen(m.addrOf(f.get(args[0]).t))))) }
		}
	case "clear":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			es := m.rt(u.Elem()).size
			return func(m *Machine, f *Frame) {
				m.forceTrail = true
				v := f.get(args[0])
				if n := int(m.addrOf(v.e[1].t)) * es; n > 0 {
					m.memzero(m.addrOf(v.e[0].t), n)
				}
			}
		case *types.Map:
			return func(m *Machine, f *Frame) { m.mapClear(m.addrOf(f.get(args[0]).t)) }
		}
	case "copy":
		es := m.rt(at(0).Underlying().(*types.Slice).Elem()).size
		return func(m *Machine, f *Frame) {
			m.forceTrail = true
			d, s := f.get(args[0]), f.get(args[1])
			n := m.addrOf(d.e[1].t)
			if k := m.addrOf(s.e[1].t); k < n {
				n = k
			}
			if n > 0 && es > 0 {
				m.memmove(m.addrOf(d.e[0].t), m.addrOf(s.e[0].t), int(n)*es)
			}
			set(f, cv(64, n))
		}
	case "close":
		return func(m *Machine, f *Frame) {
			if !m.chanYield(f) {
				m.chanClose(m.addrOf(f.get(args[0]).t))
			}
		}
	case "delete":
		kr := m.rt(at(0).Underlying().(*types.Map).Key())
		return func(m *Machine, f *Frame) {
			m.forceTrail = true
			m.mapDelete(m.addrOf(f.get(args[0]).t), kr, f.get(args[1]))
		}
	case "real", "imag":
		i := 0
		if b.Name() == "imag" {
			i = 1
		}
		return func(m *Machine, f *Frame) { set(f, f.get(args[0]).e[i]) }
	case "complex":
		return func(m *Machine, f *Frame) { set(f, tup(f.get(args[0]), f.get(args[1]))) }
	case "max", "min":
		r := m.rt(at(0))
		mx := b.Name() == "max"
		sg := isSigned(at(0))
		if r.kind == reflect.String || r.kind == reflect.Float32 || r.kind == reflect.Float64 {
			break
		}
		return func(m *Machine, f *Frame) {
			v := f.get(args[0]).t
			for _, a := range args[1:] {
				x := f.get(a).t
				var lt *Term
				if sg {
					lt = m.tc.Slt(v, x)
				} else {
					lt = m.tc.Ult(v, x)
				}
				if mx {
					v = m.tc.Ite(lt, x, v)
				} else {
					v = m.tc.Ite(lt, v, x)
				}
			}
			set(f, tv(v))
		}
	case "panic":
		return func(m *Machine, f *Frame) { panic(goPanic{f.get(args[0])}) }
	case "print", "println":
		return func(m *Machine, f *Frame) {}
	case "recover":
		return func(m *Machine, f *Frame) {
			if pd := f.pd; pd != nil && !pd.recovered && !pd.goexit {
				pd.recovered = true
				m.trailFn(func() { pd.recovered = false })
				set(f, pd.val)
				return
			}
			set(f, layIface.zero)
		}
	case "ssa:wrapnilchk":
		return func(m *Machine, f *Frame) {
			v := f.get(args[0])
			if m.addrOf(v.t) == 0 {
				m.goPanicErr("value method called using nil pointer")
			}
			set(f, v)
		}
	case "Add":
		return func(m *Machine, f *Frame) {
			set(f, tv(m.tc.Add(f.get(args[0]).t, m.tc.Resize(f.get(args[1]).t, 64, true))))
		}
	case "Slice":
		return func(m *Machine, f *Frame) {
			n := tv(m.tc.Resize(f.get(args[1]).t, 64, true))
			set(f, tup(f.get(args[0]), n, n))
		}
	case "String":
		return func(m *Machine, f *Frame) {
			set(f, tup(f.get(args[0]), tv(m.tc.Resize(f.get(args[1]).t, 64, true))))
		}
	case "StringData", "SliceData":
		return func(m *Machine, f *Frame) { set(f, f.get(args[0]).e[0]) }
	case "Sizeof", "Alignof":
		t, align := at(0), b.Name() == "Alignof"
		return func(m *Machine, f *Frame) {
			n := sizes.Sizeof(t)
			if align {
				n = sizes.Alignof(t)
			}
			set(f, cv(64, uint64(n)))
		}
	}
	name := b.Name()
	return func(m *Machine, f *Frame) { panic(engErr("builtin " + name)) }
}
