package main

import "math/bits"

// Domains: the set of values a variable of at most 256 values can still have according to the path conditions over it
// alone. A condition over one such variable is a set as well, so many branches are decided without a query, and
// equivalent conditions over one variable are represented by the same term.

type byteSet [4]uint64

var fullSet = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (a byteSet) and(b byteSet) byteSet {
	return byteSet{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func (a byteSet) or(b byteSet) byteSet {
	return byteSet{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}
}
func (a byteSet) not() byteSet { return byteSet{^a[0], ^a[1], ^a[2], ^a[3]} }

func (a byteSet) first() int {
	for i, w := range a {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

func (a byteSet) has(v uint64) bool { return v < 256 && a[v>>6]>>(v&63)&1 == 1 }

type domain struct {
	set   byteSet
	multi bool // the variable also occurs in conditions over several variables
}

type tableEnt struct {
	t, v *Term
	set  byteSet
}

// setSMT is the condition that v is in the set.
func setSMT(v *Term, set byteSet) string {
	n := termName(v)
	if v.w == 0 {
		switch {
		case set.has(0) && set.has(1):
			return "true"
		case set.has(0):
			return "(not " + n + ")"
		case set.has(1):
			return n
		}
		return "false"
	}
	b := "(or false"
	for i := uint64(0); i < 256; i++ {
		if !set.has(i) {
			continue
		}
		j := i
		for j < 255 && set.has(j+1) {
			j++
		}
		b += " (and (bvuge " + n + " " + constSMT(v.w, i) + ") (bvule " + n + " " + constSMT(v.w, j) + "))"
		i = j
	}
	return b + ")"
}

// certify has the solver confirm every table in use: no value of the variable makes the condition and the table differ.
func (m *Machine) certify(sh *shared) {
	tc := m.tc
	for len(tc.uncert) > 0 {
		n := len(tc.uncert)
		if n > 128 {
			n = 128
		}
		if why := m.sol.certify(tc.uncert[:n]); why != "" {
			sh.mu.Lock()
			sh.res.Inconclusive[why]++
			sh.mu.Unlock()
		}
		tc.uncert = tc.uncert[n:]
	}
	tc.uncert = nil
}

type canonKey struct {
	v   int
	set byteSet
}

// single is the only variable of t, or nil; its values fit a byteSet.
func (tc *TC) single(t *Term) *Term {
	s := t.x.sup
	at := -1
	for i, w := range s {
		if w == 0 {
			continue
		}
		if at >= 0 || w&(w-1) != 0 {
			return nil
		}
		at = i*64 + bits.TrailingZeros64(w)
	}
	if at < 0 || t.x.fp {
		return nil
	}
	v := tc.vars[at]
	if v.w > 8 && v.x.max > 255 {
		return nil
	}
	return v
}

func (tc *TC) startSet(v *Term) byteSet {
	n := uint64(1)
	if v.w > 0 {
		n = v.x.max
	}
	if n >= 255 {
		return fullSet
	}
	var s byteSet
	for i := uint64(0); i <= n; i++ {
		s[i>>6] |= 1 << (i & 63)
	}
	return s
}

// table is the set of values of v for which the condition t over v holds.
func (tc *TC) table(t, v *Term) byteSet {
	if t.op == OConst {
		if t.val == 1 {
			return fullSet
		}
		return byteSet{}
	}
	if s, ok := tc.tables[t.id]; ok {
		return s
	}
	var s byteSet
	x := t.x
	switch {
	case t.op == ONot:
		s = tc.table(x.a, v).not()
	case t.op == OAnd:
		s = tc.table(x.a, v).and(tc.table(x.b, v))
	case t.op == OOr:
		s = tc.table(x.a, v).or(tc.table(x.b, v))
	case t.op == OIte:
		c := tc.table(x.a, v)
		s = c.and(tc.table(x.b, v)).or(c.not().and(tc.table(x.c, v)))
	default:
		md := make(Model, v.x.idx+1)
		dom := tc.startSet(v)
		for i := uint64(0); i < 256; i++ {
			if dom.has(i) {
				md[v.x.idx] = i
				tc.BeginEval()
				if tc.Eval(t, md) == 1 {
					s[i>>6] |= 1 << (i & 63)
				}
			}
		}
		tc.BeginEval()
		tc.uncert = append(tc.uncert, tableEnt{t, v, s})
	}
	if len(tc.tables) > 1<<19 {
		tc.tables = map[uint32]byteSet{}
	}
	tc.tables[t.id] = s
	return s
}

func (m *Machine) domOf(v *Term) domain {
	if d := m.dom[v.x.idx]; d != nil {
		return *d
	}
	return domain{set: m.tc.startSet(v)}
}

func (m *Machine) setDom(i int, d domain) {
	old := m.dom[i]
	m.dom[i] = &d
	m.trailFn(func() {
		if old == nil {
			delete(m.dom, i)
		} else {
			m.dom[i] = old
		}
	})
}

// narrow records the path condition c.
func (m *Machine) narrow(c *Term) {
	if v := m.tc.single(c); v != nil {
		d := m.domOf(v)
		d.set = d.set.and(m.tc.table(c, v))
		if d.set == (byteSet{}) {
			panic(pathEnd{"infeasible"})
		}
		m.setDom(v.x.idx, d)
		return
	}
	for i, w := range c.x.sup {
		for ; w != 0; w &= w - 1 {
			k := i*64 + bits.TrailingZeros64(w)
			if d := m.domOf(m.tc.vars[k]); !d.multi {
				d.multi = true
				m.setDom(k, d)
			}
		}
	}
}

// simp is a condition equivalent to c on this path, and a constant if the domains decide it.
func (m *Machine) simp(c *Term) *Term { return m.simpN(c, 12) }

func (m *Machine) simpN(c *Term, n int) *Term {
	if c.isC() || m.booting || c.w != 0 {
		return c
	}
	tc := m.tc
	if v := tc.single(c); v != nil {
		t := tc.table(c, v)
		d := m.domOf(v).set
		switch {
		case d.and(t) == (byteSet{}):
			return tFalse
		case d.and(t.not()) == (byteSet{}):
			return tTrue
		}
		k := canonKey{v.x.idx, t.and(tc.startSet(v))}
		if o := tc.canon[k]; o != nil {
			return o
		}
		if len(tc.canon) > 1<<18 {
			tc.canon = map[canonKey]*Term{}
		}
		tc.canon[k] = c
		return c
	}
	if n == 0 {
		return c
	}
	x := c.x
	switch c.op {
	case ONot:
		if a := m.simpN(x.a, n-1); a != x.a {
			return tc.Not(a)
		}
	case OAnd, OOr:
		a, b := m.simpN(x.a, n-1), m.simpN(x.b, n-1)
		if a != x.a || b != x.b {
			if c.op == OAnd {
				return tc.And(a, b)
			}
			return tc.Or(a, b)
		}
	case OIte:
		k := m.simpN(x.a, n-1)
		if k.isC() {
			if k.val == 1 {
				return m.simpN(x.b, n-1)
			}
			return m.simpN(x.c, n-1)
		}
		a, b := m.simpN(x.b, n-1), m.simpN(x.c, n-1)
		if k != x.a || a != x.b || b != x.c {
			return tc.Ite(k, a, b)
		}
	}
	return c
}

// decideByDomain answers whether c may hold on this path when its variable occurs in no condition over several
// variables; the model is one in which it does.
func (m *Machine) decideByDomain(c *Term) (Res, Model, bool) {
	v := m.tc.single(c)
	if v == nil {
		return 0, nil, false
	}
	d := m.domOf(v)
	s := d.set.and(m.tc.table(c, v))
	if s == (byteSet{}) {
		return Unsat, nil, true
	}
	if d.multi {
		return 0, nil, false
	}
	md := make(Model, len(m.tc.vars))
	copy(md, m.model)
	md[v.x.idx] = uint64(s.first())
	return Sat, md, true
}
