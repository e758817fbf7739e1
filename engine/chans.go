package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels. The object at a channel's address holds its length and capacity where the runtime holds them; the items are
// kept here. A goroutine that blocks publishes its operations, and the one it communicates with completes one of them.

type chanState struct {
	buf    []Value // never modified in place
	closed bool
}

type chanOp struct {
	ch   Addr
	send bool
	v    Value
	zero Value
}

// chanWait is what a blocked goroutine waits for; replaced, never modified.
type chanWait struct {
	ops   []chanOp
	fired int // the operation another goroutine completed, or -1
	v     Value
	ok    bool
}

func (m *Machine) newChan(n uint64) Addr {
	a := m.alloc(96, "make(chan)").base()
	m.chanWord(a, 8, n)
	m.setChan(a, &chanState{})
	return a
}

func (m *Machine) chanWord(a Addr, off int, v uint64) {
	o, at := m.atomObj(a+Addr(off), 8)
	m.objStore(o, at, C64(v))
}

func (m *Machine) chanInt(a Addr, off int) uint64 {
	if a == 0 {
		return 0
	}
	o, at := m.atomObj(a+Addr(off), 8)
	return m.addrOf(m.objLoad(o, at, 64))
}

func (m *Machine) setChan(a Addr, s *chanState) {
	old := m.chans[a]
	m.chans[a] = s
	m.trailFn(func() {
		if old == nil {
			delete(m.chans, a)
		} else {
			m.chans[a] = old
		}
	})
	m.chanWord(a, 0, uint64(len(s.buf)))
}

// chanPeer finds a goroutine blocked in the opposite operation.
func (m *Machine) chanPeer(ch Addr, send bool) (*Gor, int) {
	for i, g := range m.gors {
		if i == m.cur || g.chw == nil || g.chw.fired >= 0 {
			continue
		}
		for k, o := range g.chw.ops {
			if o.ch == ch && o.send != send {
				return g, k
			}
		}
	}
	return nil, 0
}

func (m *Machine) chanReady(o chanOp) bool {
	if o.ch == 0 {
		return false
	}
	s := m.chans[o.ch]
	if s.closed {
		return true
	}
	if o.send && uint64(len(s.buf)) < m.chanInt(o.ch, 8) || !o.send && len(s.buf) > 0 {
		return true
	}
	g, _ := m.chanPeer(o.ch, o.send)
	return g != nil
}

// chanDo performs one of the operations; done is false when the goroutine blocks, index is -1 when none is ready.
func (m *Machine) chanDo(ops []chanOp, blocking bool) (index int, v Value, ok, done bool) {
	m.forceTrail = true
	g := m.gors[m.cur]
	if w := g.chw; w != nil && w.fired >= 0 {
		g.chw = nil
		m.acquire(ops[w.fired].ch)
		return w.fired, w.v, w.ok, true
	}
	g.chw = nil
	var ready []int
	for i, o := range ops {
		if m.chanReady(o) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !blocking {
			return -1, Value{}, false, true
		}
		why := "select"
		if len(ops) == 1 {
			why = "channel receive"
			if ops[0].send {
				why = "channel send"
			}
		}
		me := g.id
		g.chw = &chanWait{ops: ops, fired: -1}
		for _, o := range ops {
			if o.ch != 0 {
				m.release(o.ch)
			}
		}
		m.block(why, func(m *Machine) bool {
			w := m.gors[me].chw
			if w == nil || w.fired >= 0 {
				return true
			}
			for _, o := range w.ops {
				if o.ch != 0 && m.chans[o.ch].closed {
					return true
				}
			}
			return false
		})
		return 0, Value{}, false, false
	}
	index = ready[0]
	if len(ready) > 1 {
		index = ready[m.choose(len(ready))]
	}
	o := ops[index]
	s := m.chans[o.ch]
	m.acquire(o.ch)
	m.release(o.ch)
	fire := func(p *Gor, k int, v Value, ok bool) {
		p.chw = &chanWait{ops: p.chw.ops, fired: k, v: v, ok: ok}
	}
	p, k := m.chanPeer(o.ch, o.send)
	if o.send {
		switch {
		case s.closed:
			panic(goPanic{m.errorValue("send on closed channel")})
		case p != nil:
			fire(p, k, o.v, true)
		default:
			m.setChan(o.ch, &chanState{append(append([]Value(nil), s.buf...), o.v), false})
		}
		return index, Value{}, true, true
	}
	switch {
	case len(s.buf) > 0:
		v = s.buf[0]
		rest := append([]Value(nil), s.buf[1:]...)
		if p != nil {
			rest = append(rest, p.chw.ops[k].v)
			fire(p, k, Value{}, true)
		}
		m.setChan(o.ch, &chanState{rest, s.closed})
		return index, v, true, true
	case p != nil && !s.closed:
		v = p.chw.ops[k].v
		fire(p, k, Value{}, true)
		return index, v, true, true
	}
	return index, o.zero, false, true
}

func (m *Machine) chanClose(a Addr) {
	m.forceTrail = true
	if a == 0 {
		panic(goPanic{m.errorValue("close of nil channel")})
	}
	s := m.chans[a]
	if s.closed {
		panic(goPanic{m.errorValue("close of closed channel")})
	}
	m.release(a)
	m.setChan(a, &chanState{s.buf, true})
}

// chanYield offers a preemption before a channel operation.
func (m *Machine) chanYield(f *Frame) bool {
	if !m.sched.on {
		return false
	}
	if !f.cf.user {
		m.gors[m.cur].yield = false
		return false
	}
	return m.maybeYield()
}

func (c *compiler) chanRecv(in *ssa.UnOp, x, dst int) execFn {
	m := c.m
	zero := Value{}
	if !in.CommaOk {
		zero = m.rt(in.Type()).lay.zero
	} else {
		zero = m.rt(chanElem(in.X.Type())).lay.zero
	}
	return func(m *Machine, f *Frame) {
		if m.chanYield(f) {
			return
		}
		_, v, ok, done := m.chanDo([]chanOp{{ch: m.addrOf(f.get(x).t), zero: zero}}, true)
		if !done {
			return
		}
		if in.CommaOk {
			v = tup(v, tv(B(ok)))
		}
		f.regs[dst] = v
	}
}

func (c *compiler) chanSend(in *ssa.Send) execFn {
	ch, x := c.opnd(in.Chan), c.opnd(in.X)
	return func(m *Machine, f *Frame) {
		if m.chanYield(f) {
			return
		}
		m.chanDo([]chanOp{{ch: m.addrOf(f.get(ch).t), send: true, v: f.get(x)}}, true)
	}
}

func (c *compiler) chanSelect(in *ssa.Select, dst int) execFn {
	type st struct {
		ch, x int
		send  bool
		zero  Value
	}
	var sts []st
	for _, s := range in.States {
		t := st{ch: c.opnd(s.Chan), send: s.Send != nil}
		if t.send {
			t.x = c.opnd(s.Send)
		} else {
			t.zero = c.m.rt(chanElem(s.Chan.Type())).lay.zero
		}
		sts = append(sts, t)
	}
	return func(m *Machine, f *Frame) {
		if m.chanYield(f) {
			return
		}
		ops := make([]chanOp, len(sts))
		for i, s := range sts {
			ops[i] = chanOp{ch: m.addrOf(f.get(s.ch).t), send: s.send, zero: s.zero}
			if s.send {
				ops[i].v = f.get(s.x)
			}
		}
		idx, v, ok, done := m.chanDo(ops, in.Blocking)
		if !done {
			return
		}
		r := []Value{cv(64, uint64(int64(idx))), tv(B(ok && idx >= 0 && !sts[max(idx, 0)].send))}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx {
				r = append(r, v)
			} else {
				r = append(r, s.zero)
			}
		}
		f.regs[dst] = tup(r...)
	}
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }
