package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Terms are a hash-consed DAG over bit-vectors (w in 1..64) and booleans (w == 0).
// Constants are represented without interning until they become a child of a symbolic node.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // any -> bool
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
	OIte
	OMulHi // high 64 bits of unsigned product
	// IEEE operations on bit patterns
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFCvt // float width conversion
	OFFromS
	OFFromU
	OFToS
	OFToU
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OIte: "ite"}

type tx struct {
	a, b, c  *Term
	min, max uint64
	name     string
	idx      int // variable index
	sup      bitset
	fp       bool // contains floating-point arithmetic
}

// bitset of variable indexes; immutable once built
type bitset []uint64

func (b bitset) subset(o bitset) bool {
	for i, w := range b {
		if i >= len(o) {
			if w != 0 {
				return false
			}
			continue
		}
		if w&^o[i] != 0 {
			return false
		}
	}
	return true
}

func (b bitset) intersects(o bitset) bool {
	n := len(b)
	if len(o) < n {
		n = len(o)
	}
	for i := 0; i < n; i++ {
		if b[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

func (b bitset) union(o bitset) bitset {
	if len(b) == 0 || b.subset(o) {
		return o
	}
	if o.subset(b) {
		return b
	}
	n := len(b)
	if len(o) > n {
		n = len(o)
	}
	r := make(bitset, n)
	copy(r, b)
	for i, w := range o {
		r[i] |= w
	}
	return r
}

func (b bitset) has(i int) bool { return i>>6 < len(b) && b[i>>6]>>(uint(i)&63)&1 == 1 }

func (t *Term) sup() bitset {
	if t.op == OConst {
		return nil
	}
	return t.x.sup
}

func isFPOp(op Op) bool { return op >= OFAdd }

type Term struct {
	op     Op
	w      uint8
	hi, lo uint8
	id     uint32
	val    uint64
	x      *tx
}

type tkey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c uint32
}

type ckey struct {
	w   uint8
	val uint64
}

// TC is a term context; each worker machine owns one.
type TC struct {
	widened map[*Term]*Term // binary64 term -> the binary32 term it was converted from
	tab     map[tkey]*Term
	consts  map[ckey]*Term
	vars    []*Term
	varBy   map[string]*Term
	tables  map[uint32]byteSet
	uncert  []tableEnt
	canon   map[canonKey]*Term
	nextID  uint32
	evGen   uint32
	evMark  []uint32
	evVal   []uint64
}

func NewTC() *TC {
	return &TC{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, varBy: map[string]*Term{}, tables: map[uint32]byteSet{}, canon: map[canonKey]*Term{}, nextID: 1}
}

const smallN = 1024

var smallConst = mkSmallConst()
var tTrue, tFalse = &smallConst[0][1], &smallConst[0][0]

func mkSmallConst() *[65][]Term {
	var smallConst [65][]Term
	for _, w := range []int{8, 16, 32, 64} {
		n := smallN
		if w == 8 {
			n = 256
		}
		arr := make([]Term, n)
		for i := range arr {
			arr[i] = Term{op: OConst, w: uint8(w), val: uint64(i)}
		}
		smallConst[w] = arr
	}
	smallConst[0] = []Term{{op: OConst, w: 0, val: 0}, {op: OConst, w: 0, val: 1}}
	return &smallConst
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func C(w int, v uint64) *Term {
	v &= mask(uint8(w))
	if s := smallConst[w]; v < uint64(len(s)) {
		return &s[v]
	}
	return &Term{op: OConst, w: uint8(w), val: v}
}

func C64(v uint64) *Term { return C(64, v) }

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isC() bool { return t.op == OConst }
func (t *Term) max() uint64 {
	if t.op == OConst {
		return t.val
	}
	return t.x.max
}
func (t *Term) min() uint64 {
	if t.op == OConst {
		return t.val
	}
	return t.x.min
}
func (t *Term) sval() int64 { return sext(t.val, t.w) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// intern gives constants an identity inside this context.
func (tc *TC) intern(t *Term) *Term {
	if t.op != OConst {
		return t
	}
	k := ckey{t.w, t.val}
	if c, ok := tc.consts[k]; ok {
		return c
	}
	c := &Term{op: OConst, w: t.w, val: t.val, id: tc.nextID}
	tc.nextID++
	tc.consts[k] = c
	return c
}

func (tc *TC) mk(op Op, w uint8, hi, lo uint8, a, b, c *Term, min, max uint64) *Term {
	k := tkey{op: op, w: w, hi: hi, lo: lo}
	if a != nil {
		a = tc.intern(a)
		k.a = a.id
	}
	if b != nil {
		b = tc.intern(b)
		k.b = b.id
	}
	if c != nil {
		c = tc.intern(c)
		k.c = c.id
	}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	x := &tx{a: a, b: b, c: c, min: min, max: max, fp: isFPOp(op)}
	for _, k := range [3]*Term{a, b, c} {
		if k != nil && k.op != OConst {
			x.sup = x.sup.union(k.x.sup)
			x.fp = x.fp || k.x.fp
		}
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, id: tc.nextID, x: x}
	tc.nextID++
	tc.tab[k] = t
	return t
}

func (tc *TC) Var(name string, w int, max uint64) *Term {
	if t, ok := tc.varBy[name]; ok {
		if int(t.w) != w || t.x.max != max {
			panic(engErr("variable redeclared with another sort: " + name))
		}
		return t
	}
	if w > 0 && max > mask(uint8(w)) {
		max = mask(uint8(w))
	}
	idx := len(tc.vars)
	sup := make(bitset, idx>>6+1)
	sup[idx>>6] = 1 << (uint(idx) & 63)
	t := &Term{op: OVar, w: uint8(w), id: tc.nextID, x: &tx{name: name, max: max, idx: idx, sup: sup}}
	tc.nextID++
	tc.vars = append(tc.vars, t)
	tc.varBy[name] = t
	return t
}

// same reports syntactic identity.
func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

// ---- booleans ----

func (tc *TC) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return B(a.val == 0)
	case ONot:
		return a.x.a
	case OUlt:
		return tc.mk(OUle, 0, 0, 0, a.x.b, a.x.a, nil, 0, 1)
	case OUle:
		return tc.mk(OUlt, 0, 0, 0, a.x.b, a.x.a, nil, 0, 1)
	case OSlt:
		return tc.mk(OSle, 0, 0, 0, a.x.b, a.x.a, nil, 0, 1)
	case OSle:
		return tc.mk(OSlt, 0, 0, 0, a.x.b, a.x.a, nil, 0, 1)
	}
	return tc.mk(ONot, 0, 0, 0, a, nil, nil, 0, 1)
}

func (tc *TC) And(a, b *Term) *Term {
	if a.isC() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isC() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.x.a == b) || (b.op == ONot && b.x.a == a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OAnd, 0, 0, 0, a, b, nil, 0, 1)
}

func (tc *TC) Or(a, b *Term) *Term {
	if a.isC() {
		if a.val == 1 {
			return tTrue
		}
		return b
	}
	if b.isC() {
		if b.val == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.x.a == b) || (b.op == ONot && b.x.a == a) {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OOr, 0, 0, 0, a, b, nil, 0, 1)
}

func (tc *TC) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if c.op == ONot {
		return tc.Ite(c.x.a, b, a)
	}
	if a.w == 0 {
		switch {
		case a.isC() && b.isC():
			if a.val == 1 {
				return c
			}
			return tc.Not(c)
		case a.isC():
			if a.val == 1 {
				return tc.Or(c, b)
			}
			return tc.And(tc.Not(c), b)
		case b.isC():
			if b.val == 1 {
				return tc.Or(tc.Not(c), a)
			}
			return tc.And(c, a)
		}
	}
	if a.op == OIte && a.x.a == c {
		a = a.x.b
	}
	if b.op == OIte && b.x.a == c {
		b = b.x.c
	}
	if same(a, b) {
		return a
	}
	mn, mx := a.min(), a.max()
	if b.min() < mn {
		mn = b.min()
	}
	if b.max() > mx {
		mx = b.max()
	}
	return tc.mk(OIte, a.w, 0, 0, c, a, b, mn, mx)
}

func (tc *TC) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.isC() && b.isC() {
		return B(a.val == b.val)
	}
	if a.w != b.w {
		panic(engErr(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w)))
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.val == 1 {
				return a
			}
			return tc.Not(a)
		}
	} else {
		if a.max() < b.min() || b.max() < a.min() {
			return tFalse
		}
		if b.isC() {
			switch a.op {
			case OZExt:
				in := a.x.a
				if b.val > mask(in.w) {
					return tFalse
				}
				return tc.Eq(in, C(int(in.w), b.val))
			case OSExt:
				in := a.x.a
				if uint64(sext(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
					return tFalse
				}
				return tc.Eq(in, C(int(in.w), b.val))
			case OIte:
				if a.x.b.isC() || a.x.c.isC() {
					return tc.Ite(a.x.a, tc.Eq(a.x.b, b), tc.Eq(a.x.c, b))
				}
			case OAdd:
				if a.x.b.isC() {
					return tc.Eq(a.x.a, C(int(a.w), b.val-a.x.b.val))
				}
			case OConcat:
				lw := a.x.b.w
				return tc.And(tc.Eq(a.x.a, C(int(a.x.a.w), b.val>>lw)), tc.Eq(a.x.b, C(int(lw), b.val)))
			case OBXor:
				if a.x.b.isC() {
					return tc.Eq(a.x.a, C(int(a.w), b.val^a.x.b.val))
				}
			case OBNot:
				return tc.Eq(a.x.a, C(int(a.w), ^b.val))
			}
		} else {
			if a.op == OZExt && b.op == OZExt {
				x, y := a.x.a, b.x.a
				if x.w == y.w {
					return tc.Eq(x, y)
				}
				if x.w < y.w {
					return tc.Eq(tc.ZExt(x, int(y.w)), y)
				}
				return tc.Eq(x, tc.ZExt(y, int(x.w)))
			}
			if a.op == OAdd && b.op == OAdd && a.x.b.isC() && same(a.x.b, b.x.b) {
				return tc.Eq(a.x.a, b.x.a)
			}
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OEq, 0, 0, 0, a, b, nil, 0, 1)
}

func (tc *TC) Ne(a, b *Term) *Term { return tc.Not(tc.Eq(a, b)) }

func (tc *TC) Ult(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return B(a.val < b.val)
	}
	if a.max() < b.min() {
		return tTrue
	}
	if a.min() >= b.max() {
		return tFalse
	}
	if same(a, b) {
		return tFalse
	}
	if a.op == OZExt && b.op == OZExt && a.x.a.w == b.x.a.w {
		return tc.Ult(a.x.a, b.x.a)
	}
	if a.op == OZExt && b.isC() { // b.val <= max(a) here
		return tc.Ult(a.x.a, C(int(a.x.a.w), b.val))
	}
	if b.op == OZExt && a.isC() {
		return tc.Ult(C(int(b.x.a.w), a.val), b.x.a)
	}
	if b.isC() && b.val == 1 {
		return tc.Eq(a, C(int(a.w), 0))
	}
	if b.isC() && a.op == OIte && a.x.b.isC() && a.x.c.isC() {
		return tc.Ite(a.x.a, tc.Ult(a.x.b, b), tc.Ult(a.x.c, b))
	}
	if a.isC() && b.op == OIte && b.x.b.isC() && b.x.c.isC() {
		return tc.Ite(b.x.a, tc.Ult(a, b.x.b), tc.Ult(a, b.x.c))
	}
	return tc.mk(OUlt, 0, 0, 0, a, b, nil, 0, 1)
}

func (tc *TC) Ule(a, b *Term) *Term { return tc.Not(tc.Ult(b, a)) }

func (tc *TC) Slt(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return B(a.sval() < b.sval())
	}
	h := uint64(1) << (a.w - 1)
	if a.max() < h && b.max() < h {
		return tc.Ult(a, b)
	}
	if same(a, b) {
		return tFalse
	}
	// one side known non-negative, other known negative
	if a.min() >= h && b.max() < h {
		return tTrue
	}
	if a.max() < h && b.min() >= h {
		return tFalse
	}
	if a.op == OSExt && b.op == OSExt && a.x.a.w == b.x.a.w {
		return tc.Slt(a.x.a, b.x.a)
	}
	if a.op == OSExt && b.isC() {
		in := a.x.a
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		v := b.sval()
		if v > hi {
			return tTrue
		}
		if v <= lo {
			return tFalse
		}
		return tc.Slt(in, C(int(in.w), uint64(v)))
	}
	if b.op == OSExt && a.isC() {
		in := b.x.a
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		v := a.sval()
		if v >= hi {
			return tFalse
		}
		if v < lo {
			return tTrue
		}
		return tc.Slt(C(int(in.w), uint64(v)), in)
	}
	if b.isC() && a.op == OIte && a.x.b.isC() && a.x.c.isC() {
		return tc.Ite(a.x.a, tc.Slt(a.x.b, b), tc.Slt(a.x.c, b))
	}
	if a.isC() && b.op == OIte && b.x.b.isC() && b.x.c.isC() {
		return tc.Ite(b.x.a, tc.Slt(a, b.x.b), tc.Slt(a, b.x.c))
	}
	return tc.mk(OSlt, 0, 0, 0, a, b, nil, 0, 1)
}

func (tc *TC) Sle(a, b *Term) *Term { return tc.Not(tc.Slt(b, a)) }

// ---- arithmetic ----

func (tc *TC) Add(a, b *Term) *Term {
	if a.isC() {
		if b.isC() {
			return C(int(a.w), a.val+b.val)
		}
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.x.b.isC() {
			return tc.Add(a.x.a, C(int(a.w), a.x.b.val+b.val))
		}
		if a.op == OSub {
			if r := tc.sumLin(a, b, 1); r != nil {
				return r
			}
		}
	} else {
		if r := tc.sumLin(a, b, 1); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
		// keep the constant outermost
		if a.op == OAdd && a.x.b.isC() {
			return tc.Add(tc.Add(a.x.a, b), a.x.b)
		}
		if b.op == OAdd && b.x.b.isC() {
			return tc.Add(tc.Add(a, b.x.a), b.x.b)
		}
	}
	mn, mx := uint64(0), mask(a.w)
	if s, c := bits.Add64(a.max(), b.max(), 0); c == 0 && s <= mx {
		mn, mx = a.min()+b.min(), s
	} else if b.isC() {
		// adding a "negative" constant to something known to be large enough
		neg := (-b.val) & mask(a.w)
		if a.min() >= neg {
			mn, mx = a.min()-neg, a.max()-neg
		}
	}
	if mn == mx {
		return C(int(a.w), mn)
	}
	return tc.mk(OAdd, a.w, 0, 0, a, b, nil, mn, mx)
}

// lin is the linear combination k + sum c[i]*t[i] modulo 2^w of at most len(t) terms.
type lin struct {
	n int
	t [8]*Term
	c [8]uint64
	k uint64
}

func isLinOp(t *Term) bool {
	switch t.op {
	case OAdd, OSub, ONeg:
		return true
	case OMul, OShl:
		return t.x.b.isC()
	case OConcat:
		return t.x.b.isC() && t.x.b.val == 0
	case OZExt:
		return isLinOp(t.x.a)
	}
	return false
}

// add adds c*t to the combination; it returns false when there are too many terms. merged is set when a term was
// already there.
func (l *lin) add(tc *TC, t *Term, c uint64, merged *bool) bool {
	if t.isC() {
		*merged = *merged || l.k != 0
		l.k += c * t.val
		return true
	}
	w := int(t.w)
	switch t.op {
	case OAdd:
		return l.add(tc, t.x.a, c, merged) && l.add(tc, t.x.b, c, merged)
	case OSub:
		return l.add(tc, t.x.a, c, merged) && l.add(tc, t.x.b, -c, merged)
	case ONeg:
		return l.add(tc, t.x.a, -c, merged)
	case OMul:
		if t.x.b.isC() {
			return l.add(tc, t.x.a, c*t.x.b.val, merged)
		}
	case OShl:
		if t.x.b.isC() && t.x.b.val < uint64(t.w) {
			return l.add(tc, t.x.a, c<<t.x.b.val, merged)
		}
	case OConcat: // x<<k
		if t.x.b.isC() && t.x.b.val == 0 {
			x := t.x.a
			if x.op == OExtract && x.lo == 0 && x.x.a.w == t.w {
				x = x.x.a
			}
			return l.add(tc, tc.ZExt(x, w), c<<t.x.b.w, merged)
		}
	case OZExt: // of an operation without overflow
		in := t.x.a
		switch in.op {
		case OAdd:
			a, b := in.x.a, in.x.b
			if s, o := bits.Add64(a.max(), b.max(), 0); o == 0 && s <= mask(in.w) {
				return l.add(tc, tc.ZExt(a, w), c, merged) && l.add(tc, tc.ZExt(b, w), c, merged)
			}
			if b.isC() && b.sval() < 0 && a.min() >= uint64(-b.sval()) {
				return l.add(tc, tc.ZExt(a, w), c, merged) && l.add(tc, C(w, uint64(b.sval())), c, merged)
			}
		case OSub:
			if in.x.a.min() >= in.x.b.max() {
				return l.add(tc, tc.ZExt(in.x.a, w), c, merged) && l.add(tc, tc.ZExt(in.x.b, w), -c, merged)
			}
		case OMul:
			if in.x.b.isC() {
				if h, lo := bits.Mul64(in.x.a.max(), in.x.b.val); h == 0 && lo <= mask(in.w) {
					return l.add(tc, tc.ZExt(in.x.a, w), c*in.x.b.val, merged)
				}
			}
		case OConcat:
			if in.x.b.isC() && in.x.b.val == 0 {
				return l.add(tc, tc.ZExt(in.x.a, w), c<<in.x.b.w, merged)
			}
		case OExtract:
			if y := in.x.a; in.lo == 0 && y.max() <= mask(in.w) {
				return l.add(tc, tc.Resize(y, w, false), c, merged)
			}
		}
	}
	for i := 0; i < l.n; i++ {
		if l.t[i] == t {
			l.c[i] += c
			*merged = true
			return true
		}
	}
	if l.n == len(l.t) {
		return false
	}
	l.t[l.n], l.c[l.n] = t, c
	l.n++
	return true
}

func (tc *TC) buildLin(l *lin, w int) *Term {
	m := mask(uint8(w))
	k := C(w, l.k)
	var r *Term
	for i := 0; i < l.n; i++ {
		c := l.c[i] & m
		if c == 0 || (-c&m) < c {
			continue
		}
		p := tc.Mul(l.t[i], C(w, c))
		if r == nil {
			r = p
		} else {
			r = tc.Add(r, p)
		}
	}
	if k.sval() > 0 { // first, so that the ranges stay non-negative
		if r == nil {
			r = k
		} else {
			r = tc.Add(r, k)
		}
		k = C(w, 0)
	}
	for i := 0; i < l.n; i++ {
		c := l.c[i] & m
		neg := -c & m
		if c == 0 || neg >= c {
			continue
		}
		p := tc.Mul(l.t[i], C(w, neg))
		if r == nil {
			r = tc.Neg(p)
		} else {
			r = tc.Sub(r, p)
		}
	}
	if r == nil {
		return k
	}
	return tc.Add(r, k)
}

// sumLin returns a + s*b when terms of a and b combine, nil otherwise.
func (tc *TC) sumLin(a, b *Term, s uint64) *Term {
	if !isLinOp(a) && !isLinOp(b) {
		if a == b && s == 1 {
			return tc.Mul(a, C(int(a.w), 2))
		}
		return nil
	}
	var l lin
	merged, dummy := false, false
	if !l.add(tc, a, 1, &dummy) {
		return nil
	}
	if !l.add(tc, b, s, &merged) {
		return nil
	}
	if tc.linRem(&l, int(a.w)) || merged {
		return tc.buildLin(&l, int(a.w))
	}
	return nil
}

// linRem replaces e*x - e*c*(x/c) by e*(x%c).
func (tc *TC) linRem(l *lin, w int) bool {
	m := mask(uint8(w))
	for j := 0; j < l.n; j++ {
		if l.c[j]&m == 0 {
			continue
		}
		x, c := divParts(l.t[j])
		if x == nil {
			continue
		}
		for i := 0; i < l.n; i++ {
			t := l.t[i]
			if i == j || l.c[i]&m == 0 {
				continue
			}
			// y/c1 - k*(y/(c1*k))
			if y, c1 := divParts(t); y == x && c%c1 == 0 && (l.c[j]+l.c[i]*(c/c1))&m == 0 {
				l.t[i] = tc.URem(t, C(w, c/c1))
				l.c[j] = 0
				return true
			}
			if strip(t) == x && (l.c[j]+l.c[i]*c)&m == 0 {
				l.t[i] = tc.URem(t, C(w, c))
				l.c[j] = 0
				return true
			}
		}
	}
	// y%(c*k) - c*((y/c)%k) = y%c
	for j := 0; j < l.n; j++ {
		if l.c[j]&m == 0 {
			continue
		}
		q, k := remParts(l.t[j])
		if q == nil {
			continue
		}
		y, c := divParts(q)
		if y == nil {
			continue
		}
		for i := 0; i < l.n; i++ {
			if i == j || l.c[i]&m == 0 || (l.c[j]+l.c[i]*c)&m != 0 {
				continue
			}
			if z, ck := remParts(l.t[i]); z == y && ck == c*k {
				l.t[i] = tc.URem(l.t[i], C(w, c))
				l.c[j] = 0
				return true
			}
		}
	}
	return false
}

// splitDiv writes a as d*q + r with r in [0,2^w) when all of it holds without overflow, for a sum a.
func (tc *TC) splitDiv(a *Term, d uint64) (q, r *Term) {
	if !isLinOp(a) {
		return nil, nil
	}
	w := int(a.w)
	var l lin
	x := false
	if !l.add(tc, a, 1, &x) {
		return nil, nil
	}
	k := sext(l.k&mask(a.w), a.w)
	var ql, rl lin
	var qmin, qmax, rmin, rmax int64 // ranges as integers
	addRange := func(mn, mx *int64, c int64, t *Term) bool {
		if t.max() > 1<<62 {
			return false
		}
		lo, hi := int64(t.min()), int64(t.max())
		if c < 0 {
			lo, hi = hi, lo
		}
		p1, ok1 := mul64(lo, c)
		p2, ok2 := mul64(hi, c)
		if !ok1 || !ok2 {
			return false
		}
		s1, ok1 := add64(*mn, p1)
		s2, ok2 := add64(*mx, p2)
		*mn, *mx = s1, s2
		return ok1 && ok2
	}
	for i := 0; i < l.n; i++ {
		c := sext(l.c[i]&mask(a.w), a.w)
		if c == 0 {
			continue
		}
		if d > 1<<40 {
			return nil, nil
		}
		if c%int64(d) == 0 {
			ql.t[ql.n], ql.c[ql.n] = l.t[i], uint64(c/int64(d))
			ql.n++
			if !addRange(&qmin, &qmax, c/int64(d), l.t[i]) {
				return nil, nil
			}
		} else {
			rl.t[rl.n], rl.c[rl.n] = l.t[i], uint64(c)
			rl.n++
			if !addRange(&rmin, &rmax, c, l.t[i]) {
				return nil, nil
			}
		}
	}
	// move multiples of d of the constant to the quotient so that the remainder part is not negative
	if rmin < -(1<<61) || rmax > 1<<61 {
		return nil, nil
	}
	var kq int64
	if k <= 1<<61 && k >= -(1<<61) {
		kq = 0
	} else if u := l.k & mask(a.w); d >= 8 {
		kq, k = int64(u/d), int64(u%d)
	} else {
		return nil, nil
	}
	f := floorDiv(k+rmin, int64(d))
	kq += f
	k -= f * int64(d)
	ql.k = uint64(kq)
	rl.k = uint64(k)
	if ql.n == 0 && kq == 0 {
		return nil, nil
	}
	qmin, qmax = qmin+kq, qmax+kq
	rmin, rmax = rmin+k, rmax+k
	if qmin < 0 || rmin < 0 || rmax < 0 || qmax < 0 {
		return nil, nil
	}
	hi, lo := bits.Mul64(uint64(qmax), d)
	s, cy := bits.Add64(lo, uint64(rmax), 0)
	if hi != 0 || cy != 0 || s > mask(a.w) {
		return nil, nil
	}
	q, r = tc.buildLin(&ql, w), tc.buildLin(&rl, w)
	return q, r
}

// gcdDiv rewrites the dividend and the divisor of (g*x+k)/(g*e) as (x+k/g)/e when nothing overflows.
func (tc *TC) gcdDiv(a *Term, d uint64) (*Term, uint64) {
	if !isLinOp(a) {
		return nil, 0
	}
	var l lin
	x := false
	if !l.add(tc, a, 1, &x) {
		return nil, 0
	}
	m := mask(a.w)
	g := d
	k := l.k & m
	mx := k
	for i := 0; i < l.n; i++ {
		c := l.c[i] & m
		for y := c; y != 0; {
			g, y = y, g%y
		}
		h, lo := bits.Mul64(c, l.t[i].max())
		s, o := bits.Add64(mx, lo, 0)
		if h != 0 || o != 0 || s > m {
			return nil, 0
		}
		mx = s
	}
	if g <= 1 {
		return nil, 0
	}
	for i := 0; i < l.n; i++ {
		l.c[i] = (l.c[i] & m) / g
	}
	l.k = k / g
	return tc.buildLin(&l, int(a.w)), d / g
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	return p, p/b == a && !(a == -1 && b == -1<<63) && !(b == -1 && a == -1<<63) && p < 1<<62 && p > -(1<<62)
}

func add64(a, b int64) (int64, bool) {
	s := a + b
	return s, (s > a) == (b > 0) && s < 1<<62 && s > -(1<<62)
}

func floorDiv(a, d int64) int64 {
	q := a / d
	if a%d < 0 {
		q--
	}
	return q
}

func (tc *TC) Neg(a *Term) *Term {
	if a.isC() {
		return C(int(a.w), -a.val)
	}
	if a.op == ONeg {
		return a.x.a
	}
	mn, mx := uint64(0), mask(a.w)
	if a.min() > 0 {
		mn, mx = -a.max()&mx, -a.min()&mx
	}
	return tc.mk(ONeg, a.w, 0, 0, a, nil, nil, mn, mx)
}

func (tc *TC) Sub(a, b *Term) *Term {
	if b.isC() {
		return tc.Add(a, C(int(a.w), -b.val))
	}
	if same(a, b) {
		return C(int(a.w), 0)
	}
	if a.isC() && a.val == 0 {
		return tc.Neg(b)
	}
	// (x + c) - x = c ; (x + y) - x = y
	if a.op == OAdd {
		if a.x.a == b {
			return a.x.b
		}
		if a.x.b == b {
			return a.x.a
		}
	}
	if r := tc.sumLin(a, b, mask(a.w)); r != nil {
		return r
	}
	mn, mx := uint64(0), mask(a.w)
	if a.min() >= b.max() {
		mn, mx = a.min()-b.max(), a.max()-b.min()
	} else if x, c := divParts(b); x != nil && x == strip(a) { // x - x/c does not decrease
		mn, mx = a.min()-a.min()/c, a.max()-a.max()/c
	}
	return tc.mk(OSub, a.w, 0, 0, a, b, nil, mn, mx)
}

func (tc *TC) Mul(a, b *Term) *Term {
	if a.isC() {
		if b.isC() {
			return C(int(a.w), a.val*b.val)
		}
		a, b = b, a
	}
	if b.isC() {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val&(b.val-1) == 0:
			return tc.Shl(a, C(int(a.w), uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OMul && a.x.b.isC() {
			return tc.Mul(a.x.a, C(int(a.w), a.x.b.val*b.val))
		}
		if a.op == OAdd && a.x.b.isC() {
			return tc.Add(tc.Mul(a.x.a, b), C(int(a.w), a.x.b.val*b.val))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	mn, mx := uint64(0), mask(a.w)
	if h, l := bits.Mul64(a.max(), b.max()); h == 0 && l <= mx {
		mn, mx = a.min()*b.min(), l
	}
	return tc.mk(OMul, a.w, 0, 0, a, b, nil, mn, mx)
}

func bitLen(v uint64) int { return bits.Len64(v) }

func (tc *TC) UDiv(a, b *Term) *Term {
	w := int(a.w)
	if a.isC() && b.isC() && b.val != 0 {
		return C(w, a.val/b.val)
	}
	if b.isC() && b.val != 0 {
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tc.LShr(a, C(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.max()/b.val == a.min()/b.val {
			return C(w, a.max()/b.val)
		}
		if q, r := tc.splitDiv(a, b.val); q != nil {
			return tc.Add(q, tc.UDiv(r, b))
		}
		if q, d := tc.gcdDiv(a, b.val); q != nil {
			return tc.UDiv(q, C(w, d))
		}
		// (x % (d*k)) / d = (x / d) % k
		if x, c := remParts(a); x != nil && c%b.val == 0 {
			return tc.Resize(tc.URem(tc.UDiv(x, C(int(x.w), b.val)), C(int(x.w), c/b.val)), w, false)
		}
		// (x / c1) / c2 = x / (c1*c2)
		if x, c := divParts(a); x != nil {
			if h, l := bits.Mul64(c, b.val); h == 0 && l <= mask(x.w) {
				return tc.Resize(tc.UDiv(x, C(int(x.w), l)), w, false)
			} else if h != 0 || l > x.max() {
				return C(w, 0)
			}
		}
		if k := bitLen(a.max()); k < w && k > 0 {
			if bitLen(b.val) > k {
				return C(w, 0)
			}
			n := tc.Extract(a, k-1, 0)
			return tc.ZExt(tc.rawUDiv(n, C(k, b.val)), w)
		}
	}
	return tc.rawUDiv(a, b)
}

func (tc *TC) rawUDiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.val != 0 {
		return C(int(a.w), a.val/b.val)
	}
	mn, mx := uint64(0), mask(a.w)
	if b.isC() && b.val != 0 {
		mn, mx = a.min()/b.val, a.max()/b.val
	}
	return tc.mk(OUDiv, a.w, 0, 0, a, b, nil, mn, mx)
}

func (tc *TC) URem(a, b *Term) *Term {
	w := int(a.w)
	if a.isC() && b.isC() && b.val != 0 {
		return C(w, a.val%b.val)
	}
	if b.isC() && b.val != 0 {
		if b.val == 1 {
			return C(w, 0)
		}
		if a.max() < b.val {
			return a
		}
		if a.max()/b.val == a.min()/b.val {
			return tc.Sub(a, C(w, a.max()/b.val*b.val))
		}
		if _, r := tc.splitDiv(a, b.val); r != nil {
			return tc.URem(r, b)
		}
		// (x % (d*k)) % d = x % d
		if x, c := remParts(a); x != nil && c%b.val == 0 {
			return tc.Resize(tc.URem(x, C(int(x.w), b.val)), w, false)
		}
		if b.val&(b.val-1) == 0 {
			k := bits.TrailingZeros64(b.val)
			return tc.ZExt(tc.Extract(a, k-1, 0), w)
		}
		if k := bitLen(a.max()); k < w && k > 0 {
			n := tc.Extract(a, k-1, 0)
			return tc.ZExt(tc.rawURem(n, C(k, b.val)), w)
		}
	}
	return tc.rawURem(a, b)
}

// strip removes the extensions and truncations that keep the value of a.
func strip(a *Term) *Term {
	for {
		switch {
		case a.op == OZExt:
			a = a.x.a
		case a.op == OExtract && a.lo == 0 && a.x.a.max() <= mask(a.w):
			a = a.x.a
		default:
			return a
		}
	}
}

// remParts recognizes x % c.
func remParts(a *Term) (*Term, uint64) {
	a = strip(a)
	if a.op == OURem && a.x.b.isC() && a.x.b.val != 0 {
		return strip(a.x.a), a.x.b.val
	}
	return nil, 0
}

// divParts recognizes x / c.
func divParts(a *Term) (*Term, uint64) {
	a = strip(a)
	if a.op == OUDiv && a.x.b.isC() && a.x.b.val != 0 {
		return strip(a.x.a), a.x.b.val
	}
	if a.op == OExtract && a.hi == a.x.a.w-1 && a.lo > 0 {
		return strip(a.x.a), 1 << a.lo
	}
	return nil, 0
}

func (tc *TC) rawURem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.val != 0 {
		return C(int(a.w), a.val%b.val)
	}
	mx := mask(a.w)
	if b.isC() && b.val != 0 {
		mx = b.val - 1
		if a.max() < mx {
			mx = a.max()
		}
	}
	return tc.mk(OURem, a.w, 0, 0, a, b, nil, 0, mx)
}

func (tc *TC) SDiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.val != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return C(int(a.w), uint64(-x))
		}
		return C(int(a.w), uint64(x/y))
	}
	h := uint64(1) << (a.w - 1)
	if a.max() < h && b.max() < h {
		return tc.UDiv(a, b)
	}
	if b.isC() && b.val == 1 {
		return a
	}
	if b.isC() && b.val != 0 && b.val < h {
		// narrow sign-extended dividends
		if a.op == OSExt && bitLen(b.val) < int(a.x.a.w) {
			in := a.x.a
			return tc.SExt(tc.SDiv(in, C(int(in.w), b.val)), int(a.w))
		}
		// trunc(a/c) = a<0 ? -((-a)/c) : a/c
		neg := tc.Slt(a, C(int(a.w), 0))
		abs := tc.Ite(neg, tc.Neg(a), a)
		q := tc.UDiv(abs, b)
		return tc.Ite(neg, tc.Neg(q), q)
	}
	return tc.mk(OSDiv, a.w, 0, 0, a, b, nil, 0, mask(a.w))
}

func (tc *TC) SRem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.val != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return C(int(a.w), 0)
		}
		return C(int(a.w), uint64(x%y))
	}
	h := uint64(1) << (a.w - 1)
	if a.max() < h && b.max() < h {
		return tc.URem(a, b)
	}
	if b.isC() && b.val != 0 && b.val < h {
		if a.op == OSExt && bitLen(b.val) < int(a.x.a.w) {
			in := a.x.a
			return tc.SExt(tc.SRem(in, C(int(in.w), b.val)), int(a.w))
		}
		neg := tc.Slt(a, C(int(a.w), 0))
		abs := tc.Ite(neg, tc.Neg(a), a)
		q := tc.URem(abs, b)
		return tc.Ite(neg, tc.Neg(q), q)
	}
	return tc.mk(OSRem, a.w, 0, 0, a, b, nil, 0, mask(a.w))
}

func (tc *TC) MulHi(a, b *Term) *Term {
	if a.isC() && b.isC() {
		h, _ := bits.Mul64(a.val, b.val)
		return C64(h)
	}
	if h, _ := bits.Mul64(a.max(), b.max()); h == 0 {
		return C64(0)
	}
	return tc.mk(OMulHi, 64, 0, 0, a, b, nil, 0, mask(64))
}

// ---- bitwise ----

func (tc *TC) BAnd(a, b *Term) *Term {
	if a.isC() {
		if b.isC() {
			return C(int(a.w), a.val&b.val)
		}
		a, b = b, a
	}
	if b.isC() {
		m := b.val
		switch {
		case m == 0:
			return b
		case m == mask(a.w):
			return a
		case m&(m+1) == 0: // low mask
			k := bitLen(m)
			if a.max() <= m {
				return a
			}
			return tc.ZExt(tc.Extract(a, k-1, 0), int(a.w))
		}
		if a.op == OBAnd && a.x.b.isC() {
			return tc.BAnd(a.x.a, C(int(a.w), a.x.b.val&m))
		}
		if a.op == OIte && a.x.b.isC() && a.x.c.isC() {
			return tc.Ite(a.x.a, C(int(a.w), a.x.b.val&m), C(int(a.w), a.x.c.val&m))
		}
		if a.op == OZExt {
			in := a.x.a
			return tc.ZExt(tc.BAnd(in, C(int(in.w), m)), int(a.w))
		}
	} else {
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	mx := a.max()
	if b.max() < mx {
		mx = b.max()
	}
	return tc.mk(OBAnd, a.w, 0, 0, a, b, nil, 0, mx)
}

func orMax(a, b uint64) uint64 {
	m := a | b
	k := bitLen(m)
	if k >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << k) - 1
}

func (tc *TC) BOr(a, b *Term) *Term {
	if a.isC() {
		if b.isC() {
			return C(int(a.w), a.val|b.val)
		}
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	} else {
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
		// concat-like: (x << k) | zext(y) with y < 2^k
		if r := tc.orConcat(a, b); r != nil {
			return r
		}
		if r := tc.orConcat(b, a); r != nil {
			return r
		}
	}
	mn := a.min()
	if b.min() > mn {
		mn = b.min()
	}
	return tc.mk(OBOr, a.w, 0, 0, a, b, nil, mn, orMax(a.max(), b.max()))
}

// orConcat recognises hi = concat(h, 0_k) (result of Shl) and lo < 2^k.
func (tc *TC) orConcat(hi, lo *Term) *Term {
	h := hi
	zw := 0
	if h.op == OZExt {
		zw = int(h.w)
		h = h.x.a
	}
	if h.op == OConcat && h.x.b.isC() && h.x.b.val == 0 {
		k := h.x.b.w
		if lo.max() <= mask(k) {
			r := tc.Concat(h.x.a, tc.Extract(lo, int(k)-1, 0))
			if zw != 0 {
				r = tc.ZExt(r, zw)
			}
			return r
		}
	}
	return nil
}

func (tc *TC) BXor(a, b *Term) *Term {
	if a.isC() {
		if b.isC() {
			return C(int(a.w), a.val^b.val)
		}
		a, b = b, a
	}
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return tc.BNot(a)
		}
	} else {
		if a == b {
			return C(int(a.w), 0)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tc.mk(OBXor, a.w, 0, 0, a, b, nil, 0, orMax(a.max(), b.max()))
}

func (tc *TC) BNot(a *Term) *Term {
	if a.isC() {
		return C(int(a.w), ^a.val)
	}
	if a.op == OBNot {
		return a.x.a
	}
	m := mask(a.w)
	return tc.mk(OBNot, a.w, 0, 0, a, nil, nil, m-a.max(), m-a.min())
}

func (tc *TC) Shl(a, b *Term) *Term {
	if b.isC() {
		if b.val >= uint64(a.w) {
			return C(int(a.w), 0)
		}
		if a.isC() {
			return C(int(a.w), a.val<<b.val)
		}
		if b.val == 0 {
			return a
		}
		k := int(b.val)
		return tc.Concat(tc.Extract(a, int(a.w)-1-k, 0), C(k, 0))
	}
	return tc.mk(OShl, a.w, 0, 0, a, b, nil, 0, mask(a.w))
}

func (tc *TC) LShr(a, b *Term) *Term {
	if b.isC() {
		if b.val >= uint64(a.w) {
			return C(int(a.w), 0)
		}
		if a.isC() {
			return C(int(a.w), a.val>>b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.max()>>b.val == a.min()>>b.val {
			return C(int(a.w), a.max()>>b.val)
		}
		if q, r := tc.splitDiv(a, 1<<b.val); q != nil {
			return tc.Add(q, tc.LShr(r, b))
		}
		return tc.ZExt(tc.Extract(a, int(a.w)-1, int(b.val)), int(a.w))
	}
	return tc.mk(OLShr, a.w, 0, 0, a, b, nil, 0, a.max())
}

func (tc *TC) AShr(a, b *Term) *Term {
	if b.isC() {
		k := b.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isC() {
			return C(int(a.w), uint64(a.sval()>>k))
		}
		if k == 0 {
			return a
		}
		return tc.SExt(tc.Extract(a, int(a.w)-1, int(k)), int(a.w))
	}
	if a.max() < uint64(1)<<(a.w-1) {
		return tc.LShr(a, b)
	}
	return tc.mk(OAShr, a.w, 0, 0, a, b, nil, 0, mask(a.w))
}

func (tc *TC) Concat(hi, lo *Term) *Term {
	w := int(hi.w) + int(lo.w)
	if w > 64 {
		panic(engErr("concat too wide"))
	}
	if hi.isC() && lo.isC() {
		return C(w, hi.val<<lo.w|lo.val)
	}
	if hi.isC() && hi.val == 0 {
		return tc.ZExt(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.x.a == lo.x.a && hi.lo == lo.hi+1 {
		return tc.Extract(hi.x.a, int(hi.hi), int(lo.lo))
	}
	if hi.op == OZExt {
		return tc.ZExt(tc.Concat(hi.x.a, lo), w)
	}
	// concat(hi, concat(x, y)) -> keep left-assoc merging of extracts
	if lo.op == OConcat && hi.op == OExtract && lo.x.a.op == OExtract && hi.x.a == lo.x.a.x.a && hi.lo == lo.x.a.hi+1 {
		return tc.Concat(tc.Extract(hi.x.a, int(hi.hi), int(lo.x.a.lo)), lo.x.b)
	}
	return tc.mk(OConcat, uint8(w), 0, 0, hi, lo, nil, hi.min()<<lo.w|lo.min(), hi.max()<<lo.w|lo.max())
}

func (tc *TC) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(a.w) {
		return a
	}
	if a.isC() {
		return C(w, a.val>>uint(lo))
	}
	if lo == 0 && a.max() <= mask(uint8(w)) && a.op != OZExt && a.op != OIte && a.op != OConcat {
		// value preserved; fallthrough to structural rules below
	}
	switch a.op {
	case OZExt, OSExt:
		in := a.x.a
		if hi < int(in.w) {
			return tc.Extract(in, hi, lo)
		}
		if a.op == OZExt {
			if lo >= int(in.w) {
				return C(w, 0)
			}
			return tc.ZExt(tc.Extract(in, int(in.w)-1, lo), w)
		}
		if lo == 0 {
			return tc.SExt(in, w)
		}
	case OExtract:
		return tc.Extract(a.x.a, hi+int(a.lo), lo+int(a.lo))
	case OConcat:
		lw := int(a.x.b.w)
		if hi < lw {
			return tc.Extract(a.x.b, hi, lo)
		}
		if lo >= lw {
			return tc.Extract(a.x.a, hi-lw, lo-lw)
		}
		return tc.Concat(tc.Extract(a.x.a, hi-lw, 0), tc.Extract(a.x.b, lw-1, lo))
	case OIte:
		if a.x.b.isC() || a.x.c.isC() {
			return tc.Ite(a.x.a, tc.Extract(a.x.b, hi, lo), tc.Extract(a.x.c, hi, lo))
		}
	case OBAnd:
		return tc.BAnd(tc.Extract(a.x.a, hi, lo), tc.Extract(a.x.b, hi, lo))
	case OBOr:
		return tc.BOr(tc.Extract(a.x.a, hi, lo), tc.Extract(a.x.b, hi, lo))
	case OBXor:
		return tc.BXor(tc.Extract(a.x.a, hi, lo), tc.Extract(a.x.b, hi, lo))
	case OBNot:
		return tc.BNot(tc.Extract(a.x.a, hi, lo))
	case OAdd:
		if lo == 0 {
			return tc.Add(tc.Extract(a.x.a, hi, 0), tc.Extract(a.x.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return tc.Sub(tc.Extract(a.x.a, hi, 0), tc.Extract(a.x.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return tc.Mul(tc.Extract(a.x.a, hi, 0), tc.Extract(a.x.b, hi, 0))
		}
	case ONeg:
		if lo == 0 {
			return tc.Neg(tc.Extract(a.x.a, hi, 0))
		}
	}
	if lo > 0 && a.max()>>uint(lo) == 0 {
		return C(w, 0)
	}
	mn, mx := uint64(0), mask(uint8(w))
	if lo == 0 && a.max() <= mx {
		mn, mx = a.min(), a.max()
	} else if hi == int(a.w)-1 || a.max()>>uint(hi+1) == 0 {
		mn, mx = a.min()>>uint(lo), a.max()>>uint(lo)
	}
	return tc.mk(OExtract, uint8(w), uint8(hi), uint8(lo), a, nil, nil, mn, mx)
}

func (tc *TC) ZExt(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.isC() {
		return C(w, a.val)
	}
	if a.op == OZExt {
		return tc.ZExt(a.x.a, w)
	}
	if a.op == OIte && a.x.b.isC() && a.x.c.isC() {
		return tc.Ite(a.x.a, C(w, a.x.b.val), C(w, a.x.c.val))
	}
	return tc.mk(OZExt, uint8(w), 0, 0, a, nil, nil, a.min(), a.max())
}

func (tc *TC) SExt(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.isC() {
		return C(w, uint64(a.sval()))
	}
	if a.max() < uint64(1)<<(a.w-1) {
		return tc.ZExt(a, w)
	}
	if a.op == OSExt {
		return tc.SExt(a.x.a, w)
	}
	if a.op == OIte && a.x.b.isC() && a.x.c.isC() {
		return tc.Ite(a.x.a, C(w, uint64(a.x.b.sval())), C(w, uint64(a.x.c.sval())))
	}
	return tc.mk(OSExt, uint8(w), 0, 0, a, nil, nil, 0, mask(uint8(w)))
}

// Trunc/extend to width.
func (tc *TC) Resize(a *Term, w int, signed bool) *Term {
	if int(a.w) == w {
		return a
	}
	if int(a.w) > w {
		return tc.Extract(a, w-1, 0)
	}
	if signed {
		return tc.SExt(a, w)
	}
	return tc.ZExt(a, w)
}

// ---- floats ----

func fval(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalFArith(op Op, a, b uint64, w uint8) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func (tc *TC) FArith(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return C(int(a.w), evalFArith(op, a.val, b.val, a.w))
	}
	return tc.mk(op, a.w, 0, 0, a, b, nil, 0, mask(a.w))
}

func evalFCmp(op Op, a, b uint64, w uint8) bool {
	x, y := fval(a, w), fval(b, w)
	switch op {
	case OFLt:
		return x < y
	case OFLe:
		return x <= y
	}
	return x == y
}

// FCmp is encoded on the bit patterns directly: IEEE order is the order of the
// sign-magnitude pattern, with NaN unordered and the two zeros equal.
func (tc *TC) FCmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return B(evalFCmp(op, a.val, b.val, a.w))
	}
	w := int(a.w)
	var inf uint64 = 0x7ff0000000000000
	if w == 32 {
		inf = 0x7f800000
	}
	magM := mask(a.w) >> 1
	mag := func(t *Term) *Term { return tc.BAnd(t, C(w, magM)) }
	neg := func(t *Term) *Term { return tc.Ne(tc.Extract(t, w-1, w-1), C(1, 0)) }
	ma, mb := mag(a), mag(b)
	ordered := tc.And(tc.Ule(ma, C(w, inf)), tc.Ule(mb, C(w, inf)))
	bothZero := tc.And(tc.Eq(ma, C(w, 0)), tc.Eq(mb, C(w, 0)))
	if op == OFEq {
		return tc.And(ordered, tc.Or(tc.Eq(a, b), bothZero))
	}
	na, nb := neg(a), neg(b)
	// strictly less on non-NaN values
	lt := tc.Ite(na,
		tc.Ite(nb, tc.Ult(mb, ma), tc.Not(bothZero)),
		tc.Ite(nb, tFalse, tc.Ult(ma, mb)))
	if op == OFLt {
		return tc.And(ordered, lt)
	}
	return tc.And(ordered, tc.Or(lt, tc.Or(tc.Eq(a, b), bothZero)))
}

// fwiden converts a binary32 pattern to binary64, bit by bit.
func (tc *TC) fwiden(a *Term) *Term {
	sign := tc.Shl(tc.ZExt(tc.Extract(a, 31, 31), 64), C64(63))
	exp := tc.ZExt(tc.Extract(a, 30, 23), 64)
	man := tc.ZExt(tc.Extract(a, 22, 0), 64)
	normal := tc.BOr(tc.Shl(tc.Add(exp, C64(896)), C64(52)), tc.Shl(man, C64(29)))
	special := tc.BOr(C64(0x7ff<<52), tc.Shl(man, C64(29)))
	sub := C64(0)
	for k := 0; k < 23; k++ {
		v := tc.BOr(C64(uint64(k+874)<<52), tc.BAnd(tc.Shl(man, C64(uint64(52-k))), C64(1<<52-1)))
		sub = tc.Ite(tc.Ule(C64(1<<k), man), v, sub)
	}
	mag := tc.Ite(tc.Eq(exp, C64(255)), special, tc.Ite(tc.Eq(exp, C64(0)), sub, normal))
	return tc.BOr(sign, mag)
}

func (tc *TC) FCvt(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.isC() {
		return C(w, fbits(fval(a.val, a.w), uint8(w)))
	}
	if w == 32 {
		if s := tc.widened[a]; s != nil {
			return s
		}
	}
	if w == 64 {
		r := tc.fwiden(a)
		if tc.widened == nil {
			tc.widened = map[*Term]*Term{}
		}
		tc.widened[r] = a
		return r
	}
	return tc.mk(OFCvt, uint8(w), 0, 0, a, nil, nil, 0, mask(uint8(w)))
}

func evalIToF(v uint64, iw uint8, fw uint8, signed bool) uint64 {
	if signed {
		s := sext(v, iw)
		if fw == 32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	}
	if fw == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

func (tc *TC) IToF(a *Term, fw int, signed bool) *Term {
	if a.isC() {
		return C(fw, evalIToF(a.val, a.w, uint8(fw), signed))
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	return tc.mk(op, uint8(fw), 0, 0, a, nil, nil, 0, mask(uint8(fw)))
}

func evalFToI(v uint64, fw uint8, iw uint8, signed bool) uint64 {
	f := fval(v, fw)
	if signed {
		return uint64(int64(f)) & mask(iw)
	}
	return uint64(f) & mask(iw)
}

func (tc *TC) FToI(a *Term, iw int, signed bool) *Term {
	if a.isC() {
		return C(iw, evalFToI(a.val, a.w, uint8(iw), signed))
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return tc.mk(op, uint8(iw), 0, 0, a, nil, nil, 0, mask(uint8(iw)))
}

// ---- evaluation under a model ----

type Model []uint64 // by variable index; missing = 0

func (m Model) get(i int) uint64 {
	if i < len(m) {
		return m[i]
	}
	return 0
}

// BeginEval starts a new memo generation (call when the model changes).
func (tc *TC) BeginEval() { tc.evGen++ }

func (tc *TC) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m.get(t.x.idx)
	}
	if int(t.id) >= len(tc.evMark) {
		n := int(tc.nextID) + 1024
		nm := make([]uint32, n)
		copy(nm, tc.evMark)
		nv := make([]uint64, n)
		copy(nv, tc.evVal)
		tc.evMark, tc.evVal = nm, nv
	}
	if tc.evMark[t.id] == tc.evGen {
		return tc.evVal[t.id]
	}
	x := t.x
	var r uint64
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OIte:
		if tc.Eval(x.a, m) == 1 {
			r = tc.Eval(x.b, m)
		} else {
			r = tc.Eval(x.c, m)
		}
	case OAnd:
		r = tc.Eval(x.a, m)
		if r == 1 {
			r = tc.Eval(x.b, m)
		}
	case OOr:
		r = tc.Eval(x.a, m)
		if r == 0 {
			r = tc.Eval(x.b, m)
		}
	default:
		var a, b uint64
		a = tc.Eval(x.a, m)
		aw := x.a.w
		if x.b != nil {
			b = tc.Eval(x.b, m)
		}
		switch t.op {
		case ONot:
			r = 1 - a
		case OEq:
			r = bo(a == b)
		case OUlt:
			r = bo(a < b)
		case OUle:
			r = bo(a <= b)
		case OSlt:
			r = bo(sext(a, aw) < sext(b, aw))
		case OSle:
			r = bo(sext(a, aw) <= sext(b, aw))
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OUDiv:
			if b == 0 {
				r = ^uint64(0)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			sa, sb := sext(a, aw), sext(b, aw)
			switch {
			case sb == 0:
				if sa < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			case sb == -1:
				r = uint64(-sa)
			default:
				r = uint64(sa / sb)
			}
		case OSRem:
			sa, sb := sext(a, aw), sext(b, aw)
			switch {
			case sb == 0:
				r = a
			case sb == -1:
				r = 0
			default:
				r = uint64(sa % sb)
			}
		case OBAnd:
			r = a & b
		case OBOr:
			r = a | b
		case OBXor:
			r = a ^ b
		case OBNot:
			r = ^a
		case ONeg:
			r = -a
		case OShl:
			if b >= uint64(aw) {
				r = 0
			} else {
				r = a << b
			}
		case OLShr:
			if b >= uint64(aw) {
				r = 0
			} else {
				r = a >> b
			}
		case OAShr:
			k := b
			if k >= uint64(aw) {
				k = uint64(aw) - 1
			}
			r = uint64(sext(a, aw) >> k)
		case OConcat:
			r = a<<x.b.w | b
		case OExtract:
			r = a >> t.lo
		case OZExt:
			r = a
		case OSExt:
			r = uint64(sext(a, aw))
		case OMulHi:
			r, _ = bits.Mul64(a, b)
		case OFAdd, OFSub, OFMul, OFDiv:
			r = evalFArith(t.op, a, b, aw)
		case OFCvt:
			r = fbits(fval(a, aw), t.w)
		case OFFromS:
			r = evalIToF(a, aw, t.w, true)
		case OFFromU:
			r = evalIToF(a, aw, t.w, false)
		case OFToS:
			r = evalFToI(a, aw, t.w, true)
		case OFToU:
			r = evalFToI(a, aw, t.w, false)
		default:
			panic(engErr("eval: op"))
		}
		if t.w != 0 {
			r &= mask(t.w)
		}
	}
	tc.evMark[t.id] = tc.evGen
	tc.evVal[t.id] = r
	return r
}

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }
func engErr(s string) engineError   { return engineError{s} }

// String renders a term for diagnostics, cut at some depth.
func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d:%d", int64(t.val), t.w)
	case OVar:
		return t.x.name
	}
	if d == 0 {
		return ".."
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	s := "(" + n
	if t.op == OExtract {
		s += fmt.Sprintf("[%d+%d]", t.val, t.w)
	}
	for _, c := range []*Term{t.x.a, t.x.b, t.x.c} {
		if c != nil {
			s += " " + c.show(d-1)
		}
	}
	return s + ")"
}
