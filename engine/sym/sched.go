package sym

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type killed struct{}
type crash struct{ msg string }
type deadlock struct{ msg string }

// Sched runs the goroutines of one path one at a time; at scheduling points
// the next goroutine is a symbolic choice.
type Sched struct {
	p       *Path
	gs      []*G
	preempt int // preemptions left
	n       int // choices made
	dead    bool
	fatal   interface{}
	wg      sync.WaitGroup
	chans   int
	main    *G
	active  bool  // a concurrent group runs
	coop    bool  // switches only at explicit scheduling points
	trace   []int // goroutines passing explicit scheduling points
}

type waiter struct {
	g     *G
	ready func() bool // non-nil: runnable when true
	what  string
}

func newSched(p *Path, g *G) *Sched {
	return &Sched{p: p, gs: []*G{g}, preempt: 2, main: g}
}

func (s *Sched) killAll() {
	s.dead = true
	for _, g := range s.gs {
		if g != s.main && !g.done {
			close(g.wake)
		}
	}
	s.wg.Wait()
}

func (g *G) spawn(f func() Value) {
	p := g.p
	s := p.sched
	n := &G{p: p, id: len(s.gs), wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, n)
	if len(s.gs) > 40 {
		unsup("more than 40 goroutines")
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-n.wake
		defer func() {
			r := recover()
			n.done = true
			if _, ok := r.(killed); ok || s.dead {
				return
			}
			if r != nil {
				if tp, ok := r.(*targetPanic); ok {
					r = crash{"panic in goroutine: " + tp.msg + " [" + tp.where + "]"}
				}
				s.fatal = r
				p.g = s.main
				s.main.wake <- struct{}{}
				return
			}
			// hand over to somebody
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(killed); ok {
							return
						}
						s.fatal = r
						p.g = s.main
						s.main.wake <- struct{}{}
					}
				}()
				s.exit(n)
			}()
		}()
		if s.dead {
			panic(killed{})
		}
		n.callThunk(f, g)
	}()
	g.yield("go")
}

// callThunk runs f, prepared by another goroutine, on n. Calls made through
// the prepared closure use n's stack.
func (n *G) callThunk(f func() Value, parent *G) {
	n.p.g = n
	f()
}

func (s *Sched) runnable(g *G) bool {
	if g.done {
		return false
	}
	if g.waits == nil {
		return true
	}
	return g.waits.ready()
}

func (s *Sched) others(cur *G) []*G {
	var r []*G
	for _, g := range s.gs {
		if g != cur && s.runnable(g) {
			r = append(r, g)
		}
	}
	return r
}

// yield is a scheduling point of a runnable goroutine.
func (g *G) yield(why string) {
	s := g.p.sched
	if s == nil || len(s.gs) == 1 || g.p.initing > 0 || s.coop {
		return
	}
	s.point(g)
}

// explicit is a scheduling point of the instrumented code.
func (g *G) explicit() {
	s := g.p.sched
	if s == nil || g.p.initing > 0 || !s.active {
		return
	}
	s.point(g)
	s.trace = append(s.trace, g.id)
}

// par runs f, a function of a concurrent group, in a goroutine.
func (g *G) par(f *Func, member bool) {
	s := g.p.sched
	p := g.p
	s.coop = true
	s.active = s.active || member
	g.spawn(func() Value {
		p.g.explicit()
		return p.g.callFunc(f, nil)
	})
	s.gs[len(s.gs)-1].member = member
}

// quiesce waits until no other goroutine can run.
func (g *G) quiesce() {
	s := g.p.sched
	g.block("all others", func() bool {
		for _, o := range s.gs {
			if o != g && s.runnable(o) {
				return false
			}
		}
		return true
	})
	s.active = false
	for _, o := range s.gs {
		if o.member && !o.done {
			panic(deadlock{fmt.Sprintf("g%d waits for %s", o.id, o.waits.what)})
		}
	}
}

func (s *Sched) point(g *G) {
	if s.preempt <= 0 {
		return
	}
	os := s.others(g)
	if len(os) == 0 {
		return
	}
	k := s.pick(len(os) + 1)
	if k == 0 {
		return
	}
	s.preempt--
	s.switchTo(g, os[k-1])
}

func (s *Sched) pick(n int) int {
	s.n++
	return s.p.free(fmt.Sprintf("sched#%d", s.n), n)
}

// free makes an unconstrained n-way choice.
func (p *Path) free(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if p.initing > 0 {
		return 0
	}
	v := p.u.Var(name, 16)
	p.inputs = append(p.inputs, &Input{Name: name, Kind: "int", e: v, w: 16})
	var k int
	if len(p.log) < len(p.pre) {
		d := p.pre[len(p.log)]
		if d.Kind != 'c' {
			panic(fmt.Sprintf("engine: replay divergence: want choice, have %c", d.Kind))
		}
		k = int(d.V)
		p.log = append(p.log, d)
	} else {
		p.w.checkBudget(p)
		for i := n - 1; i >= 1; i-- {
			m := p.model
			if m != nil {
				m = m.Rebind(p.u)
				m.SetVar(name, uint64(i))
			}
			p.w.push(append(append([]Dec{}, p.log...), Dec{'c', uint64(i), false, n}), m)
		}
		p.log = append(p.log, Dec{'c', 0, false, n})
		if p.model != nil {
			p.model.SetVar(name, 0)
		}
	}
	p.assumeTrue(p.u.Eq(v, p.u.BV(uint64(k), 16)))
	return k
}

func (s *Sched) switchTo(from, to *G) {
	s.p.g = to
	to.wake <- struct{}{}
	s.park(from)
}

func (s *Sched) park(g *G) {
	<-g.wake
	if s.dead {
		panic(killed{})
	}
	if s.fatal != nil && g == s.main {
		r := s.fatal
		s.fatal = nil
		s.p.g = g
		panic(r)
	}
	s.p.g = g
}

// block suspends g until ready() holds.
func (g *G) block(what string, ready func() bool) {
	s := g.p.sched
	if g.p.initing > 0 {
		unsup("blocking during initialisation")
	}
	for !ready() {
		g.waits = &waiter{g: g, ready: ready, what: what}
		os := s.others(g)
		if len(os) == 0 {
			msg := ""
			for _, o := range s.gs {
				if !o.done && o.waits != nil {
					msg += fmt.Sprintf(" g%d waits for %s;", o.id, o.waits.what)
				}
			}
			g.waits = nil
			panic(deadlock{msg})
		}
		k := s.pick(len(os))
		s.switchTo(g, os[k])
		g.waits = nil
	}
	g.waits = nil
}

func (s *Sched) exit(g *G) {
	os := s.others(g)
	if len(os) == 0 {
		msg := ""
		for _, o := range s.gs {
			if !o.done && o.waits != nil {
				msg += fmt.Sprintf(" g%d waits for %s;", o.id, o.waits.what)
			}
		}
		panic(deadlock{msg})
	}
	k := s.pick(len(os))
	s.p.g = os[k]
	os[k].wake <- struct{}{}
}

// ---- channels: buffered FIFO plus rendezvous through waiting lists ----

func (p *Path) newChan(n int, et types.Type) *ChanObj {
	p.sched.chans++
	return &ChanObj{id: p.sched.chans, capa: n, et: et}
}

// an unbuffered send or a send on a full channel waits in sendq; a receiver
// waiting in recvq takes values directly.

func (c *ChanObj) canRecv() bool { return len(c.buf) > 0 || c.closed || c.pendSend() != nil }
func (c *ChanObj) canSend() bool { return c.closed || len(c.buf) < c.capa || c.pendRecv() != nil }

type chanWait struct {
	g    *G
	v    Value
	ok   bool
	done bool
	sel  *selWait // shared by the cases of a select
	idx  int
}

type selWait struct {
	done bool
	idx  int
	v    Value
	ok   bool
}

func (c *ChanObj) pendSend() *chanWait {
	for len(c.sendw) > 0 {
		w := c.sendw[0]
		if w.done || w.sel != nil && w.sel.done {
			c.sendw = c.sendw[1:]
			continue
		}
		return w
	}
	return nil
}

func (c *ChanObj) pendRecv() *chanWait {
	for len(c.recvw) > 0 {
		w := c.recvw[0]
		if w.done || w.sel != nil && w.sel.done {
			c.recvw = c.recvw[1:]
			continue
		}
		return w
	}
	return nil
}

func (w *chanWait) complete(v Value, ok bool) {
	w.done, w.v, w.ok = true, v, ok
	if w.sel != nil {
		w.sel.done, w.sel.idx, w.sel.v, w.sel.ok = true, w.idx, v, ok
	}
}

// tryRecv and trySend perform a ready operation.
func (g *G) tryRecv(c *ChanObj) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := c.pendSend(); w != nil {
			c.buf = append(c.buf, w.v)
			w.complete(w.v, true)
		}
		return v, true
	}
	if w := c.pendSend(); w != nil {
		v := w.v
		w.complete(v, true)
		return v, true
	}
	return g.p.zero(c.et), false // closed
}

func (g *G) trySend(c *ChanObj, v Value) {
	if c.closed {
		panic(&targetPanic{rt: true, msg: "send on closed channel", where: g.where()})
	}
	if w := c.pendRecv(); w != nil {
		w.complete(v, true)
		return
	}
	c.buf = append(c.buf, v)
}

func (g *G) chanSend(c *ChanObj, v Value) {
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	g.yield("send")
	if c.canSend() {
		g.trySend(c, v)
		return
	}
	w := &chanWait{g: g, v: v}
	c.sendw = append(c.sendw, w)
	g.block("send", func() bool { return w.done || c.closed })
	if !w.done {
		w.done = true
		panic(&targetPanic{rt: true, msg: "send on closed channel", where: g.where()})
	}
}

func (g *G) chanRecv(c *ChanObj, t types.Type) (Value, bool) {
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	g.yield("recv")
	if c.canRecv() {
		return g.tryRecv(c)
	}
	w := &chanWait{g: g}
	c.recvw = append(c.recvw, w)
	g.block("receive", func() bool { return w.done || c.closed })
	if w.done {
		return w.v, w.ok
	}
	w.done = true
	return g.p.zero(c.et), false
}

func (g *G) chanClose(c *ChanObj) {
	if c == nil {
		panic(&targetPanic{rt: true, msg: "close of nil channel", where: g.where()})
	}
	g.yield("close")
	if c.closed {
		panic(&targetPanic{rt: true, msg: "close of closed channel", where: g.where()})
	}
	c.closed = true
}

func (g *G) selectOp(fr *frame, in *ssa.Select) Value {
	p := g.p
	type cs struct {
		c    *ChanObj
		send bool
		v    Value
	}
	var cases []cs
	for _, st := range in.States {
		c, _ := fr.get(st.Chan).(*ChanObj)
		k := cs{c: c, send: st.Dir == types.SendOnly}
		if k.send {
			k.v = fr.get(st.Send)
		}
		cases = append(cases, k)
	}
	g.yield("select")
	result := func(idx int, v Value, ok bool) Value {
		r := Tuple{p.u.BV(uint64(int64(idx)), 64), p.u.Bool(ok)}
		for i, st := range in.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			if i == idx {
				r = append(r, v)
			} else {
				r = append(r, p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return r
	}
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	do := func(rd []int) Value {
		i := rd[0]
		if len(rd) > 1 {
			p.fresh++
			i = rd[p.free(fmt.Sprintf("select#%d", p.fresh), len(rd))]
		}
		c := cases[i]
		if c.send {
			g.trySend(c.c, c.v)
			return result(i, nil, false)
		}
		v, ok := g.tryRecv(c.c)
		return result(i, v, ok)
	}
	if rd := ready(); len(rd) > 0 {
		return do(rd)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	sw := &selWait{}
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &chanWait{g: g, sel: sw, idx: i, v: c.v}
		if c.send {
			c.c.sendw = append(c.c.sendw, w)
		} else {
			c.c.recvw = append(c.c.recvw, w)
		}
	}
	g.block("select", func() bool {
		if sw.done {
			return true
		}
		for _, c := range cases {
			if c.c != nil && c.c.closed {
				return true
			}
		}
		return false
	})
	if sw.done {
		return result(sw.idx, sw.v, sw.ok)
	}
	sw.done = true
	return do(ready())
}

// ---- sync ----

type mutexState struct {
	locked  bool
	readers int
}

func (p *Path) mutex(pt Ptr) *mutexState {
	if s, ok := p.side[pt.c]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{}
	p.side[pt.c] = s
	return s
}

func (g *G) lock(pt Ptr) {
	if pt.isNil() {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := g.p.mutex(pt)
	g.yield("lock")
	g.block("mutex", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
}

func (g *G) tryLock(pt Ptr) bool {
	m := g.p.mutex(pt)
	g.yield("trylock")
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	return true
}

func (g *G) unlock(pt Ptr) {
	m := g.p.mutex(pt)
	if !m.locked {
		panic(crash{"fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
	g.yield("unlock")
}

func (g *G) rlock(pt Ptr) {
	m := g.p.mutex(pt)
	g.yield("rlock")
	g.block("rwmutex", func() bool { return !m.locked })
	m.readers++
}

func (g *G) runlock(pt Ptr) {
	m := g.p.mutex(pt)
	if m.readers == 0 {
		panic(crash{"fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	m.readers--
	g.yield("runlock")
}

type wgState struct{ n int64 }

func (p *Path) waitGroup(pt Ptr) *wgState {
	if s, ok := p.side[pt.c]; ok {
		return s.(*wgState)
	}
	s := &wgState{}
	p.side[pt.c] = s
	return s
}

type condState struct {
	gen  int
	sigs int
	wait int
}

func (p *Path) condVar(pt Ptr) *condState {
	if s, ok := p.side[pt.c]; ok {
		return s.(*condState)
	}
	s := &condState{}
	p.side[pt.c] = s
	return s
}

var _ = smt.Sat
