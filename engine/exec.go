package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// ---- calls ----

func (c *compiler) call(cc *ssa.CallCommon, dst int, site *ssa.Call) execFn {
	m := c.m
	var args []int
	for _, a := range cc.Args {
		args = append(args, c.opnd(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, args, dst)
	}
	if cc.IsInvoke() {
		x := c.opnd(cc.Value)
		it := m.rt(cc.Value.Type())
		meth := cc.Method
		return func(m *Machine, f *Frame) {
			fn, recv := m.resolveInvoke(it, f.get(x), meth)
			av := make([]Value, len(args)+1)
			av[0] = recv
			for i, a := range args {
				av[i+1] = f.get(a)
			}
			m.callFn(f, fn, av, 0, dst)
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		var cf *CFunc
		return func(m *Machine, f *Frame) {
			if cf == nil {
				cf = m.cfunc(fn)
			}
			av := make([]Value, len(args))
			for i, a := range args {
				av[i] = f.get(a)
			}
			m.callCF(f, cf, fn, av, 0, dst)
		}
	}
	x := c.opnd(cc.Value)
	return func(m *Machine, f *Frame) {
		fv := m.addrOf(f.get(x).t)
		fn := m.fnOfVal(fv)
		av := make([]Value, len(args))
		for i, a := range args {
			av[i] = f.get(a)
		}
		m.callFn(f, fn, av, fv, dst)
	}
}

func (m *Machine) fnOfVal(fv Addr) *ssa.Function {
	if fv < 4096 {
		panic(nilFault{})
	}
	t := m.loadTerm(fv, 64)
	fn := m.textFn[m.addrOf(t)]
	if fn == nil {
		panic(memFault{fmt.Sprintf("call through a corrupted function value %#x", t.val)})
	}
	return fn
}

type methodRef struct {
	fn *ssa.Function
}

func (m *Machine) resolveInvoke(it *RT, v Value, meth *types.Func) (*ssa.Function, Value) {
	dt := m.dynType(it, v.e[0].t)
	if dt == nil {
		panic(nilFault{})
	}
	if dt.msc == nil {
		dt.msc = map[string]*methodRef{}
	}
	id := meth.Id()
	mr := dt.msc[id]
	if mr == nil {
		sel := m.P.msetCache.MethodSet(dt.t).Lookup(meth.Pkg(), meth.Name())
		if sel == nil {
			panic(memFault{"method " + meth.Name() + " missing on dynamic type " + dt.t.String()})
		}
		m.P.mu.Lock()
		fn := m.P.prog.MethodValue(sel)
		m.P.mu.Unlock()
		mr = &methodRef{fn}
		dt.msc[id] = mr
	}
	return mr.fn, m.unboxWord(dt, v.e[1].t)
}

func (m *Machine) callFn(f *Frame, fn *ssa.Function, args []Value, fv Addr, dst int) {
	m.callCF(f, m.cfunc(fn), fn, args, fv, dst)
}

func (m *Machine) callCF(f *Frame, cf *CFunc, fn *ssa.Function, args []Value, fv Addr, dst int) {
	if m.sched.on && cf.sync {
		if !f.cf.user {
			m.gors[m.cur].yield = false
		} else if m.maybeYield() {
			return
		}
	}
	if cf.intr != nil {
		m.forceTrail = true
		v := cf.intr(m, fn, args)
		if !m.jumped && dst >= 0 {
			f.regs[dst] = v
		}
		return
	}
	if cf.wrap != nil {
		m.forceTrail = true
		if v, ok := cf.wrap(m, fn, args); ok {
			if dst >= 0 {
				f.regs[dst] = v
			}
			return
		}
	}
	if !cf.body {
		panic(engErr("no body for " + cf.name))
	}
	m.pushFrame(m.gors[m.cur], cf, args, fv)
	m.jumped = true
}

func (m *Machine) pushFrame(g *Gor, cf *CFunc, args []Value, fv Addr) *Frame {
	if len(g.frames) >= m.maxDep {
		panic(stackOverflow{cf.name})
	}
	nf := &Frame{cf: cf, regs: make([]Value, cf.nregs), gen: m.gen}
	copy(nf.regs, args)
	for i, l := range cf.fvLay {
		nf.regs[cf.fvReg+i] = m.load(fv+uint64(cf.fvOff[i]), l)
	}
	if m.h != nil {
		m.fnSeen[cf.fn] = true
	}
	g.frames = append(g.frames, nf)
	return nf
}

type stackOverflow struct{ fn string }

func (m *Machine) own(g *Gor, i int) *Frame {
	f := g.frames[i]
	if f.gen != m.gen {
		f = f.clone()
		f.gen = m.gen
		g.frames[i] = f
	}
	return f
}

func (m *Machine) doReturn(v Value) {
	g := m.gors[m.cur]
	n := len(g.frames)
	f := g.frames[n-1]
	g.frames = g.frames[:n-1]
	m.jumped = true
	if n == 1 {
		g.status = gDone
		return
	}
	caller := m.own(g, n-2)
	if f.onRet != nil {
		f.onRet(m, v)
		return
	}
	if f.noAdv {
		if f.pd != nil {
			if f.pd.recovered {
				g.panics = f.pd.next
				caller.recov = true
				m.finishRecover(g, caller)
				return
			}
			m.unwind(g)
			return
		}
		if caller.recov {
			m.finishRecover(g, caller)
		}
		return // RunDefers executes again
	}
	if d := caller.cf.code[caller.pc].dst; d >= 0 {
		caller.regs[d] = v
	}
	caller.pc++
}

// finishRecover runs the remaining deferred calls of a frame whose panic was
// recovered, then returns from it.
func (m *Machine) finishRecover(g *Gor, f *Frame) {
	for f.defers != nil {
		d := f.defers
		f.defers = d.next
		if m.callDeferred(f, d, nil) {
			return
		}
	}
	f.recov = false
	if f.cf.recov >= 0 {
		f.pc = int32(f.cf.blocks[f.cf.recov].start)
		m.jumped = true
		return
	}
	var v Value
	res := f.cf.fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		v = m.rt(res.At(0).Type()).lay.zero
	default:
		v = m.rt(res).lay.zero
	}
	m.doReturn(v)
}

// callDeferred starts a deferred call; false when it completed immediately.
func (m *Machine) callDeferred(f *Frame, d *deferRec, pd *panicRec) bool {
	m.jumped = true
	g := m.gors[m.cur]
	if d.bi != nil {
		switch d.bi.Name() {
		case "recover", "print", "println":
		case "close":
			m.chanClose(m.addrOf(d.args[0].t))
		default:
			panic(engErr("deferred builtin " + d.bi.Name()))
		}
		return false
	}
	cf := m.cfunc(d.fn)
	if cf.intr != nil {
		m.forceTrail = true
		cf.intr(m, d.fn, d.args)
		m.jumped = true
		return false
	}
	if !cf.body {
		panic(engErr("no body for " + cf.name))
	}
	nf := m.pushFrame(g, cf, d.args, d.fv)
	nf.noAdv = true
	nf.pd = pd
	return true
}

func (m *Machine) unwind(g *Gor) {
	m.jumped = true
	for {
		n := len(g.frames)
		if n == 0 {
			panic(uncaught{g.panics.val})
		}
		f := m.own(g, n-1)
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			f.recov = false
			if m.callDeferred(f, d, g.panics) {
				return
			}
			continue
		}
		if f.pd != nil && g.panics != nil {
			// the new panic supersedes the one this deferred call ran for
			np := *g.panics
			np.next = f.pd.next
			g.panics = &np
		}
		g.frames = g.frames[:n-1]
	}
}

type uncaught struct{ v Value }

func (m *Machine) startPanic(v Value) {
	g := m.gors[m.cur]
	g.panics = &panicRec{val: v, next: g.panics}
	m.unwind(g)
}

func (m *Machine) goPanicErr(msg string) {
	t := m.P.pkgs["runtime"].Type("errorString").Type()
	r := m.rt(t)
	b := m.boxWord(r, m.newString(msg))
	panic(goPanic{tup(cv(64, m.typeAddr(r)), tv(b))})
}

func (m *Machine) panicText(v Value) string {
	defer func() { recover() }()
	a := v.e[0].t.val
	if a == 0 {
		return "nil"
	}
	r := m.rtAddr[a]
	if r == nil {
		return "?"
	}
	s := typeString(r.t)
	if r.kind == reflect.String {
		if x, ok := m.tryString(m.unboxWord(r, v.e[1].t)); ok {
			return s + ": " + x
		}
	}
	return s
}

func (c *compiler) deferGo(cc *ssa.CallCommon, isGo bool, site ssa.Instruction) execFn {
	m := c.m
	var args []int
	for _, a := range cc.Args {
		args = append(args, c.opnd(a))
	}
	bi, _ := cc.Value.(*ssa.Builtin)
	x := 0
	if bi == nil {
		x = c.opnd(cc.Value)
	}
	it := m.rt(types.Typ[types.Int])
	if cc.IsInvoke() {
		it = m.rt(cc.Value.Type())
	}
	sfn, _ := cc.Value.(*ssa.Function)
	return func(m *Machine, f *Frame) {
		d := &deferRec{bi: bi, bcc: cc}
		if bi == nil {
			switch {
			case cc.IsInvoke():
				fn, recv := m.resolveInvoke(it, f.get(x), cc.Method)
				d.fn = fn
				d.args = append(d.args, recv)
			case sfn != nil:
				d.fn = sfn
			default:
				d.fv = m.addrOf(f.get(x).t)
				d.fn = m.fnOfVal(d.fv)
			}
		}
		for _, a := range args {
			d.args = append(d.args, f.get(a))
		}
		if isGo {
			m.spawn(d.fn, d.args, d.fv)
			return
		}
		d.next = f.defers
		f.defers = d
	}
}

// ---- symbolic loads ----

func (m *Machine) storeTo(p *Term, l *Lay, v Value) {
	if p.isC() {
		m.storeCheck(p.val, l, v)
		return
	}
	m.storeCheck(m.concretize(p), l, v)
}

func (m *Machine) storeCheck(a Addr, l *Lay, v Value) {
	if l.size == 0 {
		if a < 4096 {
			panic(nilFault{})
		}
		return
	}
	m.store(a, l, v)
}

// splitAddr writes p as base constant + index*stride with a known index range.
func splitAddr(p *Term) (base uint64, idx *Term, stride uint64) {
	x := p
	if p.op == OAdd && p.x.b.isC() {
		c := p.x.b.val
		if p.x.a.min()+c == p.x.min && p.x.a.max()+c == p.x.max {
			base, x = c, p.x.a
		}
	}
	stride = 1
	y := x
	if y.op == OZExt && y.x.a.op == OConcat {
		y = y.x.a
	}
	if y.op == OConcat && y.x.b.isC() && y.x.b.val == 0 {
		return base, y.x.a, uint64(1) << y.x.b.w
	}
	if x.op == OMul && x.x.b.isC() {
		k := x.x.b.val
		if x.x.a.max()*k/k == x.x.a.max() && x.x.a.max()*k == x.x.max {
			return base, x.x.a, k
		}
	}
	return base, x, 1
}

func (m *Machine) loadSym(p *Term, l *Lay) Value {
	base, idx, stride := splitAddr(p)
	lo, hi := idx.min(), idx.max()
	a0 := base + lo*stride
	cnt := hi - lo + 1
	if l.kind == LTuple || l.kind == LArray || cnt > 4096 || cnt == 0 || a0 < 1<<offBits {
		// narrow with the solver: feasible values only
		return m.load(m.concretize(p), l)
	}
	o := m.objAt(a0)
	off := int(a0 & offMask)
	if o == nil {
		return m.load(m.concretize(p), l)
	}
	n := int(cnt)
	if off+(n-1)*int(stride)+l.size > len(o.data) {
		// the index is known to be in bounds by an earlier check: cut the range
		n = (len(o.data)-off-l.size)/int(stride) + 1
		if n <= 0 || m.branch(m.tc.Not(m.tc.Ult(idx, C(int(idx.w), lo+uint64(n))))) {
			return m.load(m.concretize(p), l)
		}
	}
	if m.race != nil {
		m.raceAccess(o, off, l.size, false)
	}
	w := int(l.w)
	if l.kind == LBool {
		w = 8
	}
	t := m.tableTerm(idx, lo, 1, n, func(k int) *Term { return m.objLoad(o, off+k*int(stride), w) })
	if l.kind == LBool {
		return tv(m.byteToBool(t))
	}
	return tv(t)
}

// tableTerm selects entry idx-lo among n entries; idx is known to be in range.
func (m *Machine) tableTerm(idx *Term, lo uint64, _ int, n int, at func(int) *Term) *Term {
	if n > 4096 {
		return at(int(m.concretize(idx) - lo))
	}
	if idx.isC() {
		return at(int(idx.val - lo))
	}
	type run struct {
		from int
		t    *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		if !idxPossible(idx, lo+uint64(i)) {
			continue
		}
		t := at(i)
		if len(runs) > 0 && same(runs[len(runs)-1].t, t) {
			continue
		}
		runs = append(runs, run{i, t})
	}
	if len(runs) == 0 {
		panic(pathEnd{"infeasible"})
	}
	var build func(rs []run) *Term
	build = func(rs []run) *Term {
		if len(rs) == 1 {
			return rs[0].t
		}
		mid := len(rs) / 2
		return m.tc.Ite(m.tc.Ult(idx, C(int(idx.w), lo+uint64(rs[mid].from))), build(rs[:mid]), build(rs[mid:]))
	}
	return build(runs)
}

func idxPossible(idx *Term, v uint64) bool { return v >= idx.min() && v <= idx.max() }

// ---- equality ----

func (m *Machine) valEq(r *RT, a, b Value) *Term {
	switch r.kind {
	case reflect.Float32, reflect.Float64:
		return m.tc.FCmp(OFEq, a.t, b.t)
	case reflect.Complex64, reflect.Complex128:
		return m.tc.And(m.tc.FCmp(OFEq, a.e[0].t, b.e[0].t), m.tc.FCmp(OFEq, a.e[1].t, b.e[1].t))
	case reflect.String:
		return m.strEq(a, b)
	case reflect.Interface:
		ta, tb := m.dynType(r, a.e[0].t), m.dynType(r, b.e[0].t)
		if ta != tb {
			return tFalse
		}
		if ta == nil {
			return tTrue
		}
		if !m.rtComparable(ta) {
			m.goPanicErr("comparing uncomparable type " + typeString(ta.t))
		}
		if a.e[1].t.isC() && b.e[1].t.isC() && a.e[1].t.val == b.e[1].t.val && ta.kind != reflect.Float32 && ta.kind != reflect.Float64 && ta.kind != reflect.Struct && ta.kind != reflect.Array {
			return tTrue
		}
		return m.valEq(ta, m.unboxWord(ta, a.e[1].t), m.unboxWord(ta, b.e[1].t))
	case reflect.Struct:
		st := r.u.(*types.Struct)
		res := tTrue
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			res = m.tc.And(res, m.valEq(m.rt(st.Field(i).Type()), a.e[i], b.e[i]))
			if res == tFalse {
				return res
			}
		}
		return res
	case reflect.Array:
		er := m.rt(r.u.(*types.Array).Elem())
		res := tTrue
		for i := range a.e {
			res = m.tc.And(res, m.valEq(er, a.e[i], b.e[i]))
			if res == tFalse {
				return res
			}
		}
		return res
	case reflect.Slice:
		// only against nil
		return m.tc.Eq(a.e[0].t, b.e[0].t)
	}
	return m.tc.Eq(a.t, b.t)
}

func (m *Machine) strEq(a, b Value) *Term {
	la, lb := m.addrOf(a.e[1].t), m.addrOf(b.e[1].t)
	if la != lb {
		return tFalse
	}
	if la == 0 {
		return tTrue
	}
	return m.memEq(m.addrOf(a.e[0].t), m.addrOf(b.e[0].t), int(la))
}

func (m *Machine) strLess(a, b Value, orEq bool) *Term {
	la, lb := int(m.addrOf(a.e[1].t)), int(m.addrOf(b.e[1].t))
	at, bt := m.byteTerms(m.addrOf(a.e[0].t), la), m.byteTerms(m.addrOf(b.e[0].t), lb)
	return m.lexLess(at, bt, orEq)
}

func (m *Machine) lexLess(at, bt []*Term, orEq bool) *Term {
	n := len(at)
	if len(bt) < n {
		n = len(bt)
	}
	var r *Term
	if orEq {
		r = B(len(at) <= len(bt))
	} else {
		r = B(len(at) < len(bt))
	}
	for i := n - 1; i >= 0; i-- {
		r = m.tc.Or(m.tc.Ult(at[i], bt[i]), m.tc.And(m.tc.Eq(at[i], bt[i]), r))
	}
	return r
}

func (m *Machine) concatStr(a, b Value) Value {
	la, lb := m.addrOf(a.e[1].t), m.addrOf(b.e[1].t)
	if la == 0 {
		return b
	}
	if lb == 0 {
		return a
	}
	o := m.alloc(int(la+lb), "string")
	m.memmove(o.base(), m.addrOf(a.e[0].t), int(la))
	m.memmove(o.base()+la, m.addrOf(b.e[0].t), int(lb))
	return tup(cv(64, o.base()), cv(64, la+lb))
}

func (m *Machine) copyString(a Addr, n uint64) Value {
	if n == 0 {
		return m.str("")
	}
	o := m.alloc(int(n), "string")
	m.memmove(o.base(), a, int(n))
	return tup(cv(64, o.base()), cv(64, n))
}

func (m *Machine) inRange(t *Term, lo, hi uint64) *Term {
	return m.tc.And(m.tc.Ule(C(int(t.w), lo), t), m.tc.Ule(t, C(int(t.w), hi)))
}

// decodeRune decodes one rune of n available bytes; it forks on the encoded length.
func (m *Machine) decodeRune(a Addr, n int) (*Term, int) {
	tc := m.tc
	bs := m.byteTerms(a, min(n, 4))
	c0 := bs[0]
	bad := C(32, 0xFFFD)
	if m.branch(tc.Ult(c0, C(8, 0x80))) {
		return tc.ZExt(c0, 32), 1
	}
	if n < 2 {
		return bad, 1
	}
	cont := func(t *Term) *Term { return m.inRange(t, 0x80, 0xBF) }
	low := func(t *Term, bits int) *Term { return tc.ZExt(tc.Extract(t, bits-1, 0), 32) }
	cat := func(h, l *Term) *Term { return tc.BOr(tc.Shl(h, C(32, 6)), low(l, 6)) }
	if m.branch(tc.And(m.inRange(c0, 0xC2, 0xDF), cont(bs[1]))) {
		return cat(low(c0, 5), bs[1]), 2
	}
	if n < 3 {
		return bad, 1
	}
	ok3 := tc.Or(tc.And(tc.Eq(c0, C(8, 0xE0)), m.inRange(bs[1], 0xA0, 0xBF)),
		tc.Or(tc.And(tc.Eq(c0, C(8, 0xED)), m.inRange(bs[1], 0x80, 0x9F)),
			tc.And(tc.Or(m.inRange(c0, 0xE1, 0xEC), m.inRange(c0, 0xEE, 0xEF)), cont(bs[1]))))
	if m.branch(tc.And(ok3, cont(bs[2]))) {
		return cat(cat(low(c0, 4), bs[1]), bs[2]), 3
	}
	if n < 4 {
		return bad, 1
	}
	ok4 := tc.Or(tc.And(tc.Eq(c0, C(8, 0xF0)), m.inRange(bs[1], 0x90, 0xBF)),
		tc.Or(tc.And(tc.Eq(c0, C(8, 0xF4)), m.inRange(bs[1], 0x80, 0x8F)),
			tc.And(m.inRange(c0, 0xF1, 0xF3), cont(bs[1]))))
	if m.branch(tc.And(ok4, tc.And(cont(bs[2]), cont(bs[3])))) {
		return cat(cat(cat(low(c0, 3), bs[1]), bs[2]), bs[3]), 4
	}
	return bad, 1
}

func (m *Machine) runeToString(r *Term) Value {
	tc := m.tc
	mk := func(bs ...*Term) Value {
		o := m.alloc(len(bs), "string(rune)")
		for i, b := range bs {
			m.objStore(o, i, b)
		}
		return tup(cv(64, o.base()), cv(64, uint64(len(bs))))
	}
	w := int(r.w)
	bits := func(hi, lo int) *Term { return tc.ZExt(tc.Extract(r, hi, lo), 8) }
	c := func(t *Term) *Term { return tc.BOr(t, C(8, 0x80)) }
	if m.branch(tc.Ult(r, C(w, 0x80))) {
		return mk(tc.Extract(r, 7, 0))
	}
	if m.branch(tc.Ult(r, C(w, 0x800))) {
		return mk(tc.BOr(bits(10, 6), C(8, 0xC0)), c(bits(5, 0)))
	}
	if m.branch(tc.Or(m.inRange(r, 0xD800, 0xDFFF), tc.Ult(C(w, 0x10FFFF), r))) {
		return mk(C(8, 0xEF), C(8, 0xBF), C(8, 0xBD))
	}
	if m.branch(tc.Ult(r, C(w, 0x10000))) {
		return mk(tc.BOr(bits(15, 12), C(8, 0xE0)), c(bits(11, 6)), c(bits(5, 0)))
	}
	return mk(tc.BOr(bits(20, 18), C(8, 0xF0)), c(bits(17, 12)), c(bits(11, 6)), c(bits(5, 0)))
}

func (m *Machine) stringNext(it Addr) Value {
	base, n, pos := m.addrOf(m.loadTerm(it, 64)), m.addrOf(m.loadTerm(it+8, 64)), m.addrOf(m.loadTerm(it+16, 64))
	if pos >= n {
		return tup(tv(tFalse), cv(64, 0), cv(32, 0))
	}
	r, sz := m.decodeRune(base+pos, int(n-pos))
	m.storeTerm(it+16, C64(pos+uint64(sz)))
	return tup(tv(tTrue), cv(64, pos), tv(r))
}

// ---- merging of pure condition chains ----

type region struct {
	blocks []int
	index  map[int]int
	exits  []redge
	in     [][]redge // incoming edges of each region block
}

type redge struct {
	from int // region block index, -1 for the root
	k    int // successor number
	to   int
	pi   int
}

func (cf *CFunc) findRegion(root int) *region {
	in := map[int]bool{}
	order := []int{}
	rb := cf.blocks[root].ssa
	for changed := true; changed && len(order) < 48; {
		changed = false
		var cand []*ssa.BasicBlock
		cand = append(cand, rb.Succs...)
		for _, o := range order {
			cand = append(cand, cf.blocks[o].ssa.Succs...)
		}
		for _, b := range cand {
			i := b.Index
			if i == root || in[i] || !cf.blocks[i].pure {
				continue
			}
			ok := len(b.Instrs) > 0
			if ok {
				switch b.Instrs[len(b.Instrs)-1].(type) {
				case *ssa.If, *ssa.Jump:
				default:
					ok = false
				}
			}
			for _, p := range b.Preds {
				if p.Index != root && !in[p.Index] {
					ok = false
				}
			}
			if len(b.Preds) > 1 {
				for _, ph := range cf.blocks[i].phis {
					if !ph.small {
						ok = false
					}
				}
			}
			if ok {
				in[i] = true
				order = append(order, i)
				changed = true
			}
		}
	}
	if len(order) == 0 {
		// two edges into one block still merge their small phis
		if rb.Succs[0] != rb.Succs[1] {
			return nil
		}
	}
	r := &region{blocks: order, index: map[int]int{}, in: make([][]redge, len(order))}
	for k, b := range order {
		r.index[b] = k
	}
	addEdges := func(from int, b *ssa.BasicBlock) {
		for k, s := range b.Succs {
			e := redge{from, k, s.Index, predIndex(s, b, k)}
			if x, ok := r.index[s.Index]; ok {
				r.in[x] = append(r.in[x], e)
			} else {
				r.exits = append(r.exits, e)
			}
		}
	}
	addEdges(-1, rb)
	for k, b := range order {
		addEdges(k, cf.blocks[b].ssa)
	}
	return r
}

func (m *Machine) runRegion(f *Frame, r *region, cond *Term) bool {
	tc := m.tc
	n := len(r.blocks)
	pcs := make([]*Term, n)
	conds := make([]*Term, n) // nil for Jump
	edge := func(e redge) *Term {
		p, c := tTrue, cond
		if e.from >= 0 {
			p, c = pcs[e.from], conds[e.from]
			if p == nil {
				return tFalse
			}
		}
		if c == nil {
			return p
		}
		if e.k == 1 {
			c = tc.Not(c)
		}
		return m.simp(tc.And(p, c))
	}
	cf := f.cf
	for i, bi := range r.blocks {
		pc := tFalse
		var live []redge
		var lc []*Term
		for _, e := range r.in[i] {
			ec := edge(e)
			if ec == tFalse {
				continue
			}
			live = append(live, e)
			lc = append(lc, ec)
			pc = m.simp(tc.Or(pc, ec))
		}
		if pc == tFalse {
			continue
		}
		pcs[i] = pc
		b := &cf.blocks[bi]
		vals := make([]Value, len(b.phis))
		for pi := range b.phis {
			ph := &b.phis[pi]
			v := f.get(ph.edges[live[len(live)-1].pi])
			for j := len(live) - 2; j >= 0; j-- {
				x := f.get(ph.edges[live[j].pi])
				if !ph.small {
					return false
				}
				v = tv(m.simp(tc.Ite(lc[j], x.t, v.t)))
			}
			vals[pi] = v
		}
		for pi := range b.phis {
			f.regs[b.phis[pi].dst] = vals[pi]
		}
		end := len(cf.code)
		if bi+1 < len(cf.blocks) {
			end = cf.blocks[bi+1].start
		}
		for k := b.start; k < end; k++ {
			ci := &cf.code[k]
			switch t := ci.ssa.(type) {
			case *ssa.Jump:
			case *ssa.If:
				conds[i] = m.simp(f.get(m.condOpnd(cf, t)).t)
			default:
				ci.exec(m, f)
				m.stepN++
			}
		}
	}
	type group struct {
		to   int
		cond *Term
		vals []Value
	}
	var groups []*group
	for _, e := range r.exits {
		ec := edge(e)
		if ec == tFalse {
			continue
		}
		b := &cf.blocks[e.to]
		vals := make([]Value, len(b.phis))
		for i := range b.phis {
			vals[i] = f.get(b.phis[i].edges[e.pi])
		}
		merged := false
		for _, g := range groups {
			if g.to != e.to {
				continue
			}
			ok := true
			for i := range vals {
				if b.phis[i].small || sameVal(vals[i], g.vals[i]) {
					continue
				}
				ok = false
				break
			}
			if ok {
				for i := range vals {
					if b.phis[i].small {
						g.vals[i] = tv(m.simp(tc.Ite(ec, vals[i].t, g.vals[i].t)))
					}
				}
				g.cond = tc.Or(g.cond, ec)
				merged = true
				break
			}
		}
		if !merged {
			groups = append(groups, &group{e.to, ec, vals})
		}
	}
	if len(groups) == 0 {
		panic(pathEnd{"infeasible"})
	}
	m.stats.merges++
	g := groups[len(groups)-1]
	for _, x := range groups[:len(groups)-1] {
		if m.branch(x.cond) {
			g = x
			break
		}
	}
	b := &cf.blocks[g.to]
	for i := range b.phis {
		f.regs[b.phis[i].dst] = g.vals[i]
	}
	f.pc = int32(b.start)
	m.jumped = true
	return true
}

func sameVal(a, b Value) bool {
	if a.t != nil || b.t != nil {
		return a.t != nil && b.t != nil && same(a.t, b.t)
	}
	if len(a.e) != len(b.e) {
		return false
	}
	for i := range a.e {
		if !sameVal(a.e[i], b.e[i]) {
			return false
		}
	}
	return true
}

// condOpnd finds the operand slot of an If condition.
func (m *Machine) condOpnd(cf *CFunc, in *ssa.If) int {
	if o, ok := m.ifOpnd[in]; ok {
		return o
	}
	panic(engErr("if operand"))
}
