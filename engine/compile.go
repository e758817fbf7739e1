package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// CFunc is a function compiled for one machine.
type CFunc struct {
	fn     *ssa.Function
	nregs  int
	nparam int
	fvReg  int
	fvLay  []*Lay
	fvOff  []int
	consts []Value
	code   []cinstr
	blocks []cblock
	intr   intrinsic
	wrap   func(m *Machine, fn *ssa.Function, a []Value) (Value, bool)
	recov  int // recover block or -1
	body   bool
	name   string
	user   bool // code of the module under test or of the harnesses
	sync   bool // a synchronisation operation
}

type cblock struct {
	start int
	preds []*ssa.BasicBlock
	phis  []cphi
	ssa   *ssa.BasicBlock
	merge *region
	pure  bool
}

type cphi struct {
	dst   int
	edges []int // operand per predecessor
	small bool  // may be merged
}

type cinstr struct {
	exec func(m *Machine, f *Frame)
	ssa  ssa.Instruction
	dst  int
	pure bool
}

type intrinsic func(m *Machine, fn *ssa.Function, args []Value) Value

func (f *Frame) get(o int) Value {
	if o >= 0 {
		return f.regs[o]
	}
	return f.cf.consts[-1-o]
}

func (m *Machine) cfunc(fn *ssa.Function) *CFunc {
	if c, ok := m.cfs[fn]; ok {
		return c
	}
	body := fn
	if r := portable[fnName(fn)]; r != "" && fn.Pkg != nil {
		if g := fn.Pkg.Func(r); g != nil {
			body = g
		}
	}
	c := m.compile(body)
	m.cfs[fn] = c
	return c
}

// portable maps assembly functions to the portable Go versions lying beside them.
var portable = map[string]string{
	"math.archFloor": "floor", "math.archCeil": "ceil", "math.archTrunc": "trunc", "math.archMax": "max", "math.archMin": "min",
}

type compiler struct {
	m    *Machine
	cf   *CFunc
	regs map[ssa.Value]int
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

const modulePath = "github.com/wI2L/jettison"

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func (m *Machine) compile(fn *ssa.Function) *CFunc {
	cf := &CFunc{fn: fn, recov: -1, name: fnName(fn)}
	switch pkgPath(fn) {
	case "sync", "sync/atomic":
		cf.sync = true
	case modulePath, "verifharness":
		cf.user = true
	}
	if ic, ok := intrinsics[cf.name]; ok {
		cf.intr = ic
		return cf
	}
	if fn.Blocks == nil {
		if t, ok := m.P.linkname[cf.name]; ok {
			if ic, ok := intrinsics[t]; ok {
				cf.intr = ic
				return cf
			}
			if tf := m.P.lookup(t); tf != nil && tf != fn {
				c := m.cfunc(tf)
				return c
			}
		}
		return cf
	}
	cf.wrap = wraps[cf.name]
	cf.body = true
	c := &compiler{m: m, cf: cf, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.regs[p] = cf.nregs
		cf.nregs++
	}
	cf.nparam = cf.nregs
	cf.fvReg = cf.nregs
	off := 8
	for _, v := range fn.FreeVars {
		c.regs[v] = cf.nregs
		cf.nregs++
		l := m.rt(v.Type()).lay
		cf.fvLay = append(cf.fvLay, l)
		cf.fvOff = append(cf.fvOff, off)
		off += (l.size + 7) &^ 7
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = cf.nregs
				cf.nregs++
			}
		}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		cb.ssa = b
		cb.preds = b.Preds
		cb.start = len(cf.code)
		cb.pure = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				p := cphi{dst: c.regs[in], small: smallType(in.Type())}
				for _, e := range in.Edges {
					p.edges = append(p.edges, c.opnd(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			case *ssa.DebugRef:
				continue
			}
			ci := cinstr{ssa: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = c.regs[v]
			}
			ci.exec, ci.pure = c.instr(in, ci.dst, b)
			if !ci.pure {
				switch in.(type) {
				case *ssa.Jump, *ssa.If:
				default:
					cb.pure = false
				}
			}
			cf.code = append(cf.code, ci)
		}
	}
	for i := range cf.blocks {
		b := cf.blocks[i].ssa
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				cf.blocks[i].merge = cf.findRegion(i)
			}
		}
	}
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	return cf
}

func smallType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Bool, types.Uint8, types.Int8, types.UntypedBool:
		return true
	}
	return false
}

func (c *compiler) konst(v Value) int {
	c.cf.consts = append(c.cf.consts, v)
	return -len(c.cf.consts)
}

func (c *compiler) opnd(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	m := c.m
	var val Value
	switch v := v.(type) {
	case *ssa.Const:
		val = m.constVal(v)
	case *ssa.Global:
		val = tv(C64(m.globalAddr(v)))
	case *ssa.Function:
		val = tv(C64(m.funcVal(v)))
	case *ssa.Builtin:
		val = Value{}
	default:
		panic(engErr(fmt.Sprintf("operand %T", v)))
	}
	k := c.konst(val)
	c.regs[v] = k
	return k
}

func (m *Machine) constVal(v *ssa.Const) Value {
	r := m.rt(v.Type())
	if v.Value == nil {
		return r.lay.zero
	}
	switch r.kind {
	case reflect.Bool:
		return tv(B(constant.BoolVal(v.Value)))
	case reflect.String:
		if v.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(v.Value)
			return m.str(string(rune(i)))
		}
		return m.str(constant.StringVal(v.Value))
	case reflect.Float32:
		f, _ := constant.Float64Val(constant.ToFloat(v.Value))
		f32, _ := constant.Float32Val(constant.ToFloat(v.Value))
		_ = f
		return cv(32, uint64(math.Float32bits(f32)))
	case reflect.Float64:
		f, _ := constant.Float64Val(constant.ToFloat(v.Value))
		return cv(64, math.Float64bits(f))
	case reflect.Complex64, reflect.Complex128:
		re, _ := constant.Float64Val(constant.Real(v.Value))
		im, _ := constant.Float64Val(constant.Imag(v.Value))
		if r.kind == reflect.Complex64 {
			return tup(cv(32, uint64(math.Float32bits(float32(re)))), cv(32, uint64(math.Float32bits(float32(im)))))
		}
		return tup(cv(64, math.Float64bits(re)), cv(64, math.Float64bits(im)))
	}
	x := constant.ToInt(v.Value)
	if i, ok := constant.Int64Val(x); ok {
		return cv(int(r.lay.w), uint64(i))
	}
	if u, ok := constant.Uint64Val(x); ok {
		return cv(int(r.lay.w), u)
	}
	panic(engErr("constant " + v.String()))
}

type execFn = func(m *Machine, f *Frame)

func (c *compiler) instr(in ssa.Instruction, dst int, blk *ssa.BasicBlock) (execFn, bool) {
	m := c.m
	switch in := in.(type) {
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Alloc:
		r := m.rt(in.Type().(*types.Pointer).Elem())
		what := in.Comment
		if r.size == 0 {
			return func(m *Machine, f *Frame) { f.regs[dst] = tv(C64(m.alloc(0, what).base())) }, false
		}
		return func(m *Machine, f *Frame) {
			f.regs[dst] = tv(C64(m.alloc(r.size, what).base()))
		}, false
	case *ssa.Store:
		a, v := c.opnd(in.Addr), c.opnd(in.Val)
		l := m.rt(in.Val.Type()).lay
		return func(m *Machine, f *Frame) {
			m.storeTo(f.get(a).t, l, f.get(v))
		}, false
	case *ssa.FieldAddr:
		x := c.opnd(in.X)
		st := m.rt(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.lay.offs[in.Field])
		return func(m *Machine, f *Frame) {
			p := f.get(x).t
			if p.isC() && p.val < 4096 {
				panic(nilFault{})
			}
			f.regs[dst] = tv(m.tc.Add(p, C64(off)))
		}, false
	case *ssa.Field:
		x := c.opnd(in.X)
		i := in.Field
		return func(m *Machine, f *Frame) { f.regs[dst] = f.get(x).e[i] }, true
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst), false
	case *ssa.Index:
		x, i := c.opnd(in.X), c.opnd(in.Index)
		sg := isSigned(in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			n := uint64(u.Len())
			return func(m *Machine, f *Frame) {
				idx := m.tc.Resize(f.get(i).t, 64, sg)
				m.bounds(idx, n)
				if idx.isC() {
					f.regs[dst] = f.get(x).e[idx.val]
					return
				}
				e := f.get(x).e
				if len(e) > 0 && e[0].t != nil && e[0].t.w > 0 {
					f.regs[dst] = tv(m.tableTerm(idx, 0, 1, len(e), func(k int) *Term { return e[k].t }))
					return
				}
				f.regs[dst] = e[m.concretize(idx)]
			}, false
		default: // string
			return func(m *Machine, f *Frame) { m.stringIndex(f, dst, f.get(x), m.tc.Resize(f.get(i).t, 64, sg)) }, false
		}
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			x, i := c.opnd(in.X), c.opnd(in.Index)
			kr, er := m.rt(mt.Key()), m.rt(mt.Elem())
			ck := in.CommaOk
			return func(m *Machine, f *Frame) {
				a := m.mapFind(m.addrOf(f.get(x).t), kr, f.get(i))
				v := er.lay.zero
				if a != 0 {
					v = m.load(a, er.lay)
				}
				if ck {
					v = tup(v, tv(B(a != 0)))
				}
				f.regs[dst] = v
			}, false
		}
		x, i := c.opnd(in.X), c.opnd(in.Index)
		sg := isSigned(in.Index.Type())
		return func(m *Machine, f *Frame) { m.stringIndex(f, dst, f.get(x), m.tc.Resize(f.get(i).t, 64, sg)) }, false
	case *ssa.Slice:
		return c.slice(in, dst), false
	case *ssa.SliceToArrayPointer:
		x := c.opnd(in.X)
		n := uint64(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *Machine, f *Frame) {
			v := f.get(x)
			if m.addrOf(v.e[1].t) < n {
				m.goPanicErr("slice to array conversion")
			}
			f.regs[dst] = v.e[0]
		}, false
	case *ssa.MakeSlice:
		ln, cp := c.opnd(in.Len), c.opnd(in.Cap)
		es := m.rt(in.Type().Underlying().(*types.Slice).Elem()).size
		ls, csg := isSigned(in.Len.Type()), isSigned(in.Cap.Type())
		return func(m *Machine, f *Frame) {
			n := int64(m.concretize(m.tc.Resize(f.get(ln).t, 64, ls)))
			k := int64(m.concretize(m.tc.Resize(f.get(cp).t, 64, csg)))
			if n < 0 || n > 1<<40 {
				m.goPanicErr("makeslice: len out of range")
			}
			if k < n || k > 1<<40 {
				m.goPanicErr("makeslice: cap out of range")
			}
			a := m.zeroBase()
			if int(k)*es > 0 {
				a = m.alloc(int(k)*es, "make([]T)").base()
			}
			f.regs[dst] = tup(cv(64, a), cv(64, uint64(n)), cv(64, uint64(k)))
		}, false
	case *ssa.MakeMap:
		r := m.rt(in.Type())
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(C64(m.newMap(r))) }, false
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		x, k, v := c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		kr, er := m.rt(mt.Key()), m.rt(mt.Elem())
		return func(m *Machine, f *Frame) {
			m.forceTrail = true
			a := m.mapAssign(m.addrOf(f.get(x).t), kr, er, f.get(k))
			m.store(a, er.lay, f.get(v))
		}, false
	case *ssa.Range:
		x := c.opnd(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return func(m *Machine, f *Frame) {
				f.regs[dst] = tv(C64(m.newIter(m.addrOf(f.get(x).t))))
			}, false
		}
		return func(m *Machine, f *Frame) {
			o := m.alloc(24, "string iterator")
			s := f.get(x)
			m.storeTerm(o.base(), s.e[0].t)
			m.storeTerm(o.base()+8, s.e[1].t)
			f.regs[dst] = tv(C64(o.base()))
		}, false
	case *ssa.Next:
		x := c.opnd(in.Iter)
		if in.IsString {
			return func(m *Machine, f *Frame) { f.regs[dst] = m.stringNext(f.get(x).t.val) }, false
		}
		tp := in.Type().(*types.Tuple)
		var kl, vl *Lay
		if b, ok := tp.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kl = m.rt(tp.At(1).Type()).lay
		}
		if b, ok := tp.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vl = m.rt(tp.At(2).Type()).lay
		}
		return func(m *Machine, f *Frame) {
			ka, va := m.iterNext(f.get(x).t.val)
			r := []Value{tv(B(ka != 0)), {t: C64(0)}, {t: C64(0)}}
			if kl != nil {
				r[1] = kl.zero
			}
			if vl != nil {
				r[2] = vl.zero
			}
			if ka != 0 {
				if kl != nil {
					r[1] = m.load(ka, kl)
				}
				if vl != nil {
					r[2] = m.load(va, vl)
				}
			}
			f.regs[dst] = Value{e: r}
		}, false
	case *ssa.Extract:
		x, i := c.opnd(in.Tuple), in.Index
		return func(m *Machine, f *Frame) { f.regs[dst] = f.get(x).e[i] }, true
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var xv ssa.Value
		var ci *ssa.ChangeInterface
		switch in := in.(type) {
		case *ssa.ChangeType:
			xv = in.X
		case *ssa.ChangeInterface:
			xv, ci = in.X, in
		}
		x := c.opnd(xv)
		if ci != nil {
			from, to := m.rt(ci.X.Type()), m.rt(ci.Type())
			return func(m *Machine, f *Frame) { f.regs[dst] = m.convIface(from, to, f.get(x)) }, false
		}
		return func(m *Machine, f *Frame) { f.regs[dst] = f.get(x) }, true
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MakeInterface:
		x := c.opnd(in.X)
		it, t := m.rt(in.Type()), m.rt(in.X.Type())
		if k := c.opnd(in.X); k < 0 {
			// constants are boxed once, in static memory
			v := c.cf.consts[-1-k]
			if !t.direct && t.size > 0 {
				var cached *Value
				return func(m *Machine, f *Frame) {
					if cached == nil {
						o := m.allocStatic(t.size, "boxed constant")
						b := m.booting
						m.booting = true
						m.store(o.base(), t.lay, v)
						m.booting = b
						o.ro = true
						var w0 Addr
						if it.u.(*types.Interface).NumMethods() == 0 {
							w0 = m.typeAddr(t)
						} else {
							w0 = m.itab(it, t)
						}
						nv := tup(cv(64, w0), cv(64, o.base()))
						cached = &nv
					}
					f.regs[dst] = *cached
				}, false
			}
		}
		return func(m *Machine, f *Frame) { f.regs[dst] = m.mkIface(it, t, f.get(x)) }, false
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst), false
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []int
		var ls []*Lay
		for _, b := range in.Bindings {
			bs = append(bs, c.opnd(b))
			ls = append(ls, m.rt(b.Type()).lay)
		}
		return func(m *Machine, f *Frame) {
			n := 8
			for _, l := range ls {
				n += (l.size + 7) &^ 7
			}
			o := m.alloc(n, "closure "+fn.Name())
			m.storeTerm(o.base(), C64(m.textAddr(fn)))
			off := 8
			for i, l := range ls {
				m.store(o.base()+uint64(off), l, f.get(bs[i]))
				off += (l.size + 7) &^ 7
			}
			f.regs[dst] = tv(C64(o.base()))
		}, false
	case *ssa.Call:
		return c.call(&in.Call, dst, in), false
	case *ssa.Defer:
		return c.deferGo(&in.Call, false, in), false
	case *ssa.Go:
		return c.deferGo(&in.Call, true, in), false
	case *ssa.RunDefers:
		return func(m *Machine, f *Frame) {
			if f.defers == nil {
				return
			}
			d := f.defers
			if m.sched.on && d.fn != nil && m.cfunc(d.fn).sync {
				if !f.cf.user {
					m.gors[m.cur].yield = false
				} else if m.maybeYield() {
					return
				}
			}
			f.defers = d.next
			m.callDeferred(f, d, nil)
			if m.gors[m.cur].status == gBlocked {
				f.defers = d
			}
		}, false
	case *ssa.Return:
		var rs []int
		for _, r := range in.Results {
			rs = append(rs, c.opnd(r))
		}
		return func(m *Machine, f *Frame) {
			var v Value
			switch len(rs) {
			case 0:
			case 1:
				v = f.get(rs[0])
			default:
				v.e = make([]Value, len(rs))
				for i, r := range rs {
					v.e[i] = f.get(r)
				}
			}
			m.doReturn(v)
		}, false
	case *ssa.Panic:
		x := c.opnd(in.X)
		return func(m *Machine, f *Frame) {
			v := f.get(x)
			if w := v.e[0].t; w.isC() && w.val == 0 {
				m.goPanicErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(goPanic{v})
		}, false
	case *ssa.Jump:
		to, pi := blk.Succs[0].Index, predIndex(blk.Succs[0], blk, 0)
		return func(m *Machine, f *Frame) { m.jump(f, to, pi) }, false
	case *ssa.If:
		x := c.opnd(in.Cond)
		m.ifOpnd[in] = x
		t, e := blk.Succs[0], blk.Succs[1]
		ti, ei := predIndex(t, blk, 0), predIndex(e, blk, 1)
		tn, en := t.Index, e.Index
		bi := blk.Index
		return func(m *Machine, f *Frame) {
			cond := f.get(x).t
			if !cond.isC() {
				cond = m.simp(cond)
			}
			if !cond.isC() {
				if r := f.cf.blocks[bi].merge; r != nil && m.runRegion(f, r, cond) {
					return
				}
			}
			if m.branch(cond) {
				m.jump(f, tn, ti)
			} else {
				m.jump(f, en, ei)
			}
		}, false
	case *ssa.MakeChan:
		cp := c.opnd(in.Size)
		csg := isSigned(in.Size.Type())
		return func(m *Machine, f *Frame) {
			k := m.concretize(m.tc.Resize(f.get(cp).t, 64, csg))
			m.forceTrail = true
			f.regs[dst] = tv(C64(m.newChan(k)))
		}, false
	case *ssa.Send:
		return c.chanSend(in), false
	case *ssa.Select:
		return c.chanSelect(in, dst), false
	}
	return func(m *Machine, f *Frame) { panic(engErr(fmt.Sprintf("instruction %T", in))) }, false
}

// predIndex finds which incoming edge of to comes from successor number k of from.
func predIndex(to, from *ssa.BasicBlock, k int) int {
	// both successors of an If may be the same block: take edges in order
	nth := 0
	for i := 0; i < k; i++ {
		if from.Succs[i] == to {
			nth++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic(engErr("edge"))
}

func (m *Machine) jump(f *Frame, to, pi int) {
	b := &f.cf.blocks[to]
	switch len(b.phis) {
	case 0:
	case 1:
		f.regs[b.phis[0].dst] = f.get(b.phis[0].edges[pi])
	default:
		tmp := make([]Value, len(b.phis))
		for i := range b.phis {
			tmp[i] = f.get(b.phis[i].edges[pi])
		}
		for i := range b.phis {
			f.regs[b.phis[i].dst] = tmp[i]
		}
	}
	f.pc = int32(b.start)
	m.jumped = true
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// ---- operators ----

func (c *compiler) binop(in *ssa.BinOp, dst int) (execFn, bool) {
	m := c.m
	x, y := c.opnd(in.X), c.opnd(in.Y)
	set := func(g func(tc *TC, a, b *Term) *Term) (execFn, bool) {
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(g(m.tc, f.get(x).t, f.get(y).t)) }, true
	}
	xt := in.X.Type()
	xr := m.rt(xt)
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		yr := m.rt(in.Y.Type())
		_, xi := xr.u.(*types.Interface)
		_, yi := yr.u.(*types.Interface)
		if xi && !yi {
			if b, ok := yr.u.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				yr = xr
			}
		}
		if xr.lay.kind == LScalar && xr.kind != reflect.Float32 && xr.kind != reflect.Float64 && (xi == yi) {
			if neg {
				return set((*TC).Ne)
			}
			return set((*TC).Eq)
		}
		return func(m *Machine, f *Frame) {
			var r *Term
			a, b := f.get(x), f.get(y)
			switch {
			case xi && !yi:
				b = m.mkIface(xr, yr, b)
				r = m.valEq(xr, a, b)
			case yi && !xi:
				a = m.mkIface(yr, xr, a)
				r = m.valEq(yr, a, b)
			default:
				r = m.valEq(xr, a, b)
			}
			if neg {
				r = m.tc.Not(r)
			}
			f.regs[dst] = tv(r)
		}, xr.kind == reflect.Bool || xr.kind == reflect.Float32 || xr.kind == reflect.Float64
	}
	if xr.kind == reflect.String {
		op := in.Op
		return func(m *Machine, f *Frame) {
			a, b := f.get(x), f.get(y)
			switch op {
			case token.ADD:
				f.regs[dst] = m.concatStr(a, b)
			case token.LSS:
				f.regs[dst] = tv(m.strLess(a, b, false))
			case token.LEQ:
				f.regs[dst] = tv(m.strLess(a, b, true))
			case token.GTR:
				f.regs[dst] = tv(m.strLess(b, a, false))
			case token.GEQ:
				f.regs[dst] = tv(m.strLess(b, a, true))
			default:
				panic(engErr("string op"))
			}
		}, false
	}
	if xr.kind == reflect.Float32 || xr.kind == reflect.Float64 {
		switch in.Op {
		case token.ADD:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FArith(OFAdd, a, b) })
		case token.SUB:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FArith(OFSub, a, b) })
		case token.MUL:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FArith(OFMul, a, b) })
		case token.QUO:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FArith(OFDiv, a, b) })
		case token.LSS:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FCmp(OFLt, a, b) })
		case token.LEQ:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FCmp(OFLe, a, b) })
		case token.GTR:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FCmp(OFLt, b, a) })
		case token.GEQ:
			return set(func(tc *TC, a, b *Term) *Term { return tc.FCmp(OFLe, b, a) })
		}
	}
	if xr.kind == reflect.Complex64 || xr.kind == reflect.Complex128 {
		return func(m *Machine, f *Frame) { panic(engErr("complex arithmetic")) }, false
	}
	sg := isSigned(xt)
	w := int(xr.lay.w)
	switch in.Op {
	case token.ADD:
		return set((*TC).Add)
	case token.SUB:
		return set((*TC).Sub)
	case token.MUL:
		return set((*TC).Mul)
	case token.QUO, token.REM:
		rem := in.Op == token.REM
		_, constDiv := in.Y.(*ssa.Const)
		return func(m *Machine, f *Frame) {
			a, b := f.get(x).t, f.get(y).t
			if !constDiv {
				if m.branch(m.tc.Eq(b, C(w, 0))) {
					m.goPanicErr("integer divide by zero")
				}
			}
			var r *Term
			switch {
			case sg && rem:
				r = m.tc.SRem(a, b)
			case sg:
				r = m.tc.SDiv(a, b)
			case rem:
				r = m.tc.URem(a, b)
			default:
				r = m.tc.UDiv(a, b)
			}
			f.regs[dst] = tv(r)
		}, constDiv
	case token.AND:
		return set((*TC).BAnd)
	case token.OR:
		return set((*TC).BOr)
	case token.XOR:
		return set((*TC).BXor)
	case token.AND_NOT:
		return set(func(tc *TC, a, b *Term) *Term { return tc.BAnd(a, tc.BNot(b)) })
	case token.SHL, token.SHR:
		ysg := isSigned(in.Y.Type())
		op := in.Op
		_, constSh := in.Y.(*ssa.Const)
		return func(m *Machine, f *Frame) {
			a, b := f.get(x).t, f.get(y).t
			if ysg && !b.isC() {
				if m.branch(m.tc.Slt(b, C(int(b.w), 0))) {
					m.goPanicErr("negative shift amount")
				}
			} else if ysg && b.sval() < 0 {
				m.goPanicErr("negative shift amount")
			}
			// bring the count to the operand's width, saturating
			var cnt *Term
			var big *Term = tFalse
			if int(b.w) > w {
				if b.isC() {
					v := b.val
					if v > uint64(w) {
						v = uint64(w)
					}
					cnt = C(w, v)
				} else {
					big = m.tc.Not(m.tc.Ult(b, C(int(b.w), uint64(w))))
					cnt = m.tc.Extract(b, w-1, 0)
				}
			} else {
				cnt = m.tc.ZExt(b, w)
			}
			var r, sat *Term
			switch {
			case op == token.SHL:
				r, sat = m.tc.Shl(a, cnt), C(w, 0)
			case sg:
				r, sat = m.tc.AShr(a, cnt), m.tc.AShr(a, C(w, uint64(w)))
			default:
				r, sat = m.tc.LShr(a, cnt), C(w, 0)
			}
			f.regs[dst] = tv(m.tc.Ite(big, sat, r))
		}, constSh || !ysg
	case token.LSS:
		if sg {
			return set((*TC).Slt)
		}
		return set((*TC).Ult)
	case token.LEQ:
		if sg {
			return set((*TC).Sle)
		}
		return set((*TC).Ule)
	case token.GTR:
		if sg {
			return set(func(tc *TC, a, b *Term) *Term { return tc.Slt(b, a) })
		}
		return set(func(tc *TC, a, b *Term) *Term { return tc.Ult(b, a) })
	case token.GEQ:
		if sg {
			return set(func(tc *TC, a, b *Term) *Term { return tc.Sle(b, a) })
		}
		return set(func(tc *TC, a, b *Term) *Term { return tc.Ule(b, a) })
	}
	panic(engErr("binop " + in.Op.String()))
}

func (c *compiler) unop(in *ssa.UnOp, dst int) (execFn, bool) {
	m := c.m
	x := c.opnd(in.X)
	switch in.Op {
	case token.MUL:
		l := m.rt(in.Type()).lay
		return func(m *Machine, f *Frame) {
			p := f.get(x).t
			if p.isC() {
				if l.kind == LScalar {
					f.regs[dst] = tv(m.loadTerm(p.val, int(l.w)))
					return
				}
				if l.size == 0 {
					if p.val < 4096 {
						panic(nilFault{})
					}
					f.regs[dst] = l.zero
					return
				}
				f.regs[dst] = m.load(p.val, l)
				return
			}
			f.regs[dst] = m.loadSym(p, l)
		}, false
	case token.NOT:
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.Not(f.get(x).t)) }, true
	case token.SUB:
		r := m.rt(in.Type())
		switch r.kind {
		case reflect.Float32, reflect.Float64:
			w := int(r.lay.w)
			sgn := uint64(1) << (w - 1)
			return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.BXor(f.get(x).t, C(w, sgn))) }, true
		case reflect.Complex64, reflect.Complex128:
			return func(m *Machine, f *Frame) { panic(engErr("complex arithmetic")) }, false
		}
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.Neg(f.get(x).t)) }, true
	case token.XOR:
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.BNot(f.get(x).t)) }, true
	case token.ARROW:
		return c.chanRecv(in, x, dst), false
	}
	return func(m *Machine, f *Frame) { panic(engErr("unop " + in.Op.String())) }, false
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) execFn {
	m := c.m
	x, i := c.opnd(in.X), c.opnd(in.Index)
	sg := isSigned(in.Index.Type())
	var n uint64
	arr := false
	var el types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n, arr, el = uint64(a.Len()), true, a.Elem()
	case *types.Slice:
		el = u.Elem()
	}
	es := uint64(m.rt(el).size)
	return func(m *Machine, f *Frame) {
		idx := m.tc.Resize(f.get(i).t, 64, sg)
		v := f.get(x)
		var base *Term
		k := n
		if arr {
			base = v.t
			if base.isC() && base.val < 4096 {
				panic(nilFault{})
			}
		} else {
			base = v.e[0].t
			k = m.addrOf(v.e[1].t)
		}
		m.bounds(idx, k)
		f.regs[dst] = tv(m.tc.Add(base, m.tc.Mul(idx, C64(es))))
	}
}

func (m *Machine) bounds(idx *Term, n uint64) {
	if idx.isC() {
		if idx.val >= n {
			m.goPanicErr(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.val), n))
		}
		return
	}
	if !m.branch(m.tc.Ult(idx, C64(n))) {
		m.goPanicErr("index out of range")
	}
}

func (m *Machine) stringIndex(f *Frame, dst int, s Value, idx *Term) {
	n := m.addrOf(s.e[1].t)
	m.bounds(idx, n)
	p := m.tc.Add(s.e[0].t, idx)
	if p.isC() {
		f.regs[dst] = tv(m.loadTerm(p.val, 8))
		return
	}
	o, off := m.access(m.addrOf(s.e[0].t), int(n), false)
	f.regs[dst] = tv(m.tableTerm(idx, 0, 1, int(n), func(k int) *Term { return m.byteTerm(o, off+k) }))
}

func (c *compiler) slice(in *ssa.Slice, dst int) execFn {
	m := c.m
	x := c.opnd(in.X)
	lo, hi, mx := -1, -1, -1
	var ls, hs, msg bool
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	if hasLo {
		lo, ls = c.opnd(in.Low), isSigned(in.Low.Type())
	}
	if hasHi {
		hi, hs = c.opnd(in.High), isSigned(in.High.Type())
	}
	if hasMax {
		mx, msg = c.opnd(in.Max), isSigned(in.Max.Type())
	}
	es := uint64(1)
	isStr, arrN := false, int64(-1)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		isStr = true
	case *types.Slice:
		es = uint64(m.rt(u.Elem()).size)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		arrN = a.Len()
		es = uint64(m.rt(a.Elem()).size)
	}
	return func(m *Machine, f *Frame) {
		v := f.get(x)
		var base Addr
		var ln, cp uint64
		switch {
		case isStr:
			base, ln = m.addrOf(v.e[0].t), m.addrOf(v.e[1].t)
			cp = ln
		case arrN >= 0:
			base = m.addrOf(v.t)
			if base < 4096 {
				panic(nilFault{})
			}
			ln, cp = uint64(arrN), uint64(arrN)
		default:
			base, ln, cp = m.addrOf(v.e[0].t), m.addrOf(v.e[1].t), m.addrOf(v.e[2].t)
		}
		l, h, k := uint64(0), ln, cp
		if hasLo {
			l = m.concretize(m.tc.Resize(f.get(lo).t, 64, ls))
		}
		if hasHi {
			h = m.concretize(m.tc.Resize(f.get(hi).t, 64, hs))
		}
		if hasMax {
			k = m.concretize(m.tc.Resize(f.get(mx).t, 64, msg))
		}
		if k > cp || h > k || l > h {
			m.goPanicErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with length %d capacity %d", int64(l), int64(h), int64(k), ln, cp))
		}
		nb := base + l*es
		if k == l && !isStr {
			nb = base // do not point past the object
		}
		if isStr {
			if h == l {
				nb = base
			}
			f.regs[dst] = tup(cv(64, nb), cv(64, h-l))
			return
		}
		f.regs[dst] = tup(cv(64, nb), cv(64, h-l), cv(64, k-l))
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) execFn {
	m := c.m
	x := c.opnd(in.X)
	from, to := m.rt(in.X.Type()), m.rt(in.AssertedType)
	_, toI := to.u.(*types.Interface)
	ck := in.CommaOk
	zero := to.lay.zero
	return func(m *Machine, f *Frame) {
		v := f.get(x)
		dt := m.dynType(from, v.e[0].t)
		ok := false
		var r Value
		if dt != nil {
			if toI {
				if m.implements(dt, to) {
					ok = true
					r = m.retype(to, dt, v.e[1])
				}
			} else if dt == to {
				ok = true
				r = m.unboxWord(to, v.e[1].t)
			}
		}
		if ck {
			if !ok {
				r = zero
			}
			f.regs[dst] = tup(r, tv(B(ok)))
			return
		}
		if !ok {
			d := "nil"
			if dt != nil {
				d = typeString(dt.t)
			}
			m.goPanicErr("interface conversion: interface is " + d + ", not " + typeString(to.t))
		}
		f.regs[dst] = r
	}
}

// retype rebuilds the type word of an interface value for static type it.
func (m *Machine) retype(it, dt *RT, w Value) Value {
	var w0 Addr
	if it.u.(*types.Interface).NumMethods() == 0 {
		w0 = m.typeAddr(dt)
	} else {
		w0 = m.itab(it, dt)
	}
	return tup(cv(64, w0), w)
}

func (m *Machine) convIface(from, to *RT, v Value) Value {
	dt := m.dynType(from, v.e[0].t)
	if dt == nil {
		return to.lay.zero
	}
	return m.retype(to, dt, v.e[1])
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) (execFn, bool) {
	m := c.m
	x := c.opnd(xv)
	fr, tr := m.rt(xv.Type()), m.rt(to)
	isInt := func(r *RT) bool {
		return r.kind >= reflect.Int && r.kind <= reflect.Uintptr || r.kind == reflect.UnsafePointer || r.kind == reflect.Ptr
	}
	isFlt := func(r *RT) bool { return r.kind == reflect.Float32 || r.kind == reflect.Float64 }
	switch {
	case isInt(fr) && isInt(tr):
		w, sg := int(tr.lay.w), isSigned(xv.Type())
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.Resize(f.get(x).t, w, sg)) }, true
	case isFlt(fr) && isFlt(tr):
		w := int(tr.lay.w)
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.FCvt(f.get(x).t, w)) }, true
	case isInt(fr) && isFlt(tr):
		w, sg := int(tr.lay.w), isSigned(xv.Type())
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.IToF(f.get(x).t, w, sg)) }, true
	case isFlt(fr) && isInt(tr):
		w, sg := int(tr.lay.w), isSigned(to)
		return func(m *Machine, f *Frame) { f.regs[dst] = tv(m.tc.FToI(f.get(x).t, w, sg)) }, true
	case tr.kind == reflect.String && isInt(fr):
		sg := isSigned(xv.Type())
		return func(m *Machine, f *Frame) {
			m.forceTrail = true
			f.regs[dst] = m.runeToString(m.tc.Resize(f.get(x).t, 64, sg))
		}, false
	case tr.kind == reflect.String && fr.kind == reflect.Slice:
		if m.rt(fr.u.(*types.Slice).Elem()).size == 1 {
			return func(m *Machine, f *Frame) {
				v := f.get(x)
				n := m.addrOf(v.e[1].t)
				f.regs[dst] = m.copyString(m.addrOf(v.e[0].t), n)
			}, false
		}
		return func(m *Machine, f *Frame) { // []rune
			m.forceTrail = true
			v := f.get(x)
			n := m.addrOf(v.e[1].t)
			r := m.str("")
			for i := uint64(0); i < n; i++ {
				r = m.concatStr(r, m.runeToString(m.tc.SExt(m.loadTerm(m.addrOf(v.e[0].t)+4*i, 32), 64)))
			}
			f.regs[dst] = r
		}, false
	case tr.kind == reflect.Slice && fr.kind == reflect.String:
		if m.rt(tr.u.(*types.Slice).Elem()).size == 1 {
			return func(m *Machine, f *Frame) {
				v := f.get(x)
				n := m.addrOf(v.e[1].t)
				if n == 0 {
					f.regs[dst] = tup(cv(64, m.zeroBase()), cv(64, 0), cv(64, 0))
					return
				}
				k := roundupsize(int(n))
				o := m.alloc(k, "[]byte(string)")
				m.memmove(o.base(), m.addrOf(v.e[0].t), int(n))
				f.regs[dst] = tup(cv(64, o.base()), cv(64, n), cv(64, uint64(k)))
			}, false
		}
		return func(m *Machine, f *Frame) { // []rune(string)
			m.forceTrail = true
			v := f.get(x)
			n := int(m.addrOf(v.e[1].t))
			var rs []*Term
			for i := 0; i < n; {
				r, sz := m.decodeRune(m.addrOf(v.e[0].t)+uint64(i), n-i)
				rs = append(rs, r)
				i += sz
			}
			a := m.zeroBase()
			if len(rs) > 0 {
				a = m.alloc(4*len(rs), "[]rune").base()
				for i, r := range rs {
					m.storeTerm(a+uint64(4*i), r)
				}
			}
			f.regs[dst] = tup(cv(64, a), cv(64, uint64(len(rs))), cv(64, uint64(len(rs))))
		}, false
	}
	if reflect.DeepEqual(fr.lay, tr.lay) {
		return func(m *Machine, f *Frame) { f.regs[dst] = f.get(x) }, true
	}
	return func(m *Machine, f *Frame) {
		panic(engErr("conversion " + fr.t.String() + " -> " + tr.t.String()))
	}, false
}
