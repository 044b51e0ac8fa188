package h

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"

	"verif/harness/v"
)

var (
	errDial = errors.New("dial")
	errSend = errors.New("send")
)

// What becomes of a send.
const (
	sendWorks = iota
	dialFails
	sendFails
	outcomes
)

// poolWorld is a connector and its connections, watched.
type poolWorld struct {
	mu     sync.Mutex
	conns  []*pooled
	opened int
	calm   bool  // nobody closes a pool
	clErr  error // closing a connection reports this
	inside func(c *pooled)
}

type pooled struct {
	w      *poolWorld
	id     int
	busy   bool
	closed bool
	failed bool
}

type reply struct {
	conn int
	text string
}

// sendCtx is the context of a send: what becomes of it.
type sendCtx struct {
	done    chan struct{}
	outcome int
	during  func() // what happens meanwhile
	err     error  // how it fails
	rs      []netx.Response
}

type outcomeKey struct{}

func (c *sendCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *sendCtx) Done() <-chan struct{}       { return c.done }
func (c *sendCtx) Err() error {
	if c.done != nil {
		select {
		case <-c.done:
			return context.Canceled
		default:
		}
	}
	return nil
}
func (c *sendCtx) Value(k interface{}) interface{} {
	if _, ok := k.(outcomeKey); ok {
		return c.outcome
	}
	return nil
}

func outcomeOf(ctx context.Context) int {
	o, _ := ctx.Value(outcomeKey{}).(int)
	return o
}

func cancelled() *sendCtx {
	c := &sendCtx{done: make(chan struct{})}
	close(c.done)
	return c
}

func (w *poolWorld) New(ctx context.Context) (netx.Conn, error) {
	v.Yield()
	if outcomeOf(ctx) == dialFails {
		return nil, errDial
	}
	w.mu.Lock()
	c := &pooled{w: w, id: w.opened}
	w.opened++
	w.conns = append(w.conns, c)
	w.mu.Unlock()
	v.Yield()
	return c, nil
}

// trouble makes closing a connection an error or not.
func (w *poolWorld) trouble() {
	if v.Choose("closing a connection fails", 2) == 1 {
		w.clErr = errBoom
	}
}

func (c *pooled) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	v.Yield()
	c.w.mu.Lock()
	closed, failed, busy := c.closed, c.failed, c.busy
	c.busy = true
	inside := c.w.inside
	c.w.mu.Unlock()
	if c.w.calm {
		v.Assert(!closed, "a closed connection is used")
	}
	v.Assert(!failed, "a connection that failed is used again")
	v.Assert(!busy, "one connection carries two sends at once")
	text := string(b)
	if inside != nil {
		inside(c)
	}
	v.Yield()
	o := outcomeOf(ctx)
	c.w.mu.Lock()
	c.busy = false
	c.failed = o == sendFails
	c.w.mu.Unlock()
	r := []netx.Response{reply{c.id, text}}
	if s, ok := ctx.(*sendCtx); ok && s.during != nil {
		s.during()
	}
	if o == sendFails {
		if s, ok := ctx.(*sendCtx); ok && s.err != nil {
			return s.rs, s.err
		}
		return r, errSend
	}
	return r, nil
}

func (c *pooled) Close() error {
	v.Yield()
	c.w.mu.Lock()
	busy := c.busy
	c.closed = true
	c.w.mu.Unlock()
	if c.w.calm {
		v.Assert(!busy, "a connection is closed while another sender uses it")
	}
	return c.w.clErr
}

func (c *pooled) IsSecure() bool { return true }

// hold makes n sends that are under way at the same time.
func (w *poolWorld) hold(p pool.Pool, n int) {
	if n == 0 {
		return
	}
	held := 1
	w.inside = func(*pooled) {
		if held < n {
			held++
			w.one(p, sendWorks, byte('a'+held))
		}
	}
	w.one(p, sendWorks, 'a')
	w.inside = nil
}

// one makes a send and checks its result.
func (w *poolWorld) one(p pool.Pool, outcome int, text byte) error {
	b := v.BytesN("payload", 3)
	b[0] = text
	rs, err := p.Send(&sendCtx{outcome: outcome}, b)
	if err == nil {
		v.Assert(outcome != sendFails, "a failed send reports success")
		v.Assert(len(rs) == 1, "the responses of the send")
		r, ok := rs[0].(reply)
		v.Assert(ok, "the responses of the send")
		v.EqString(r.text, string(b), "the responses of the caller's own unit of work")
	}
	return err
}

func (w *poolWorld) alive() (n int) {
	for _, c := range w.conns {
		if !c.closed {
			n++
		}
	}
	return n
}

// settled checks the connections when nobody is sending.
func (w *poolWorld) settled(p pool.Pool, size int) {
	for _, c := range w.conns {
		if c.failed {
			v.Assert(c.closed, "a connection that failed is closed")
		}
	}
	n := w.alive()
	v.Assert(n <= size, "at most the configured number of connections is idle")
	before := w.opened
	w.hold(p, n)
	v.Assert(w.opened == before, "every connection that is open is reused")
	v.Assert(w.alive() == n, "connections stay open")
}

func expect(err error, outcome int) {
	switch outcome {
	case sendWorks:
		v.Assert(err == nil, "a send that works reports no error")
	case dialFails:
		if err != nil { // otherwise a connection was idle
			v.Assert(err == errDial, "the error of dialling")
		}
	case sendFails:
		v.Assert(err == errSend, "the error of the connection")
	}
}

func newWorld() *poolWorld { return &poolWorld{calm: true} }

// C21_Two: two senders at once, one of which sends twice.
func C21_Two() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	size := v.Choose("size", 3)
	idle := v.Choose("idle", size+1)
	w := newWorld()
	p := fifoch.New(w, size)
	w.hold(p, idle)
	v.Assert(w.opened == idle, "one connection for each of the sends at once")
	a, b, c := v.Int("first", 0, outcomes-1), v.Int("second", 0, outcomes-1), v.Int("third", 0, outcomes-1)
	v.Par(func() {
		expect(w.one(p, a, 'p'), a)
		expect(w.one(p, c, 'r'), c)
	}, func() {
		expect(w.one(p, b, 'q'), b)
	})
	if idle == 2 && a != sendFails && b != sendFails {
		v.Assert(w.opened == idle, "an idle connection is preferred to a new one")
		v.Cover("no connection opened")
	}
	w.settled(p, size)
}

// C21_Three: three senders at once.
func C21_Three() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	size := v.Choose("size", v.Bound("sizes", 3, 4))
	idle := size * v.Choose("idle", 2)
	w := newWorld()
	p := fifoch.New(w, size)
	w.hold(p, idle)
	o := v.Int("outcome", 0, outcomes-1)
	var fs []func()
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() {
			oc := sendWorks
			if i == 0 {
				oc = o
			}
			expect(w.one(p, oc, byte('p'+i)), oc)
		})
	}
	v.Par(fs...)
	w.settled(p, size)
}

// C21_Sequence: sends one after another, or one inside another.
func C21_Sequence() {
	size := v.Choose("size", 4)
	w := newWorld()
	p := fifoch.New(w, size)
	n := v.Bound("operations", 4, 6)
	for i := 0; i < n; i++ {
		before, idle := w.opened, w.alive()
		switch v.Choose("op", 4) {
		case 0:
			w.hold(p, 2)
			if idle >= 2 {
				v.Assert(w.opened == before, "an idle connection is preferred to a new one")
			}
			want := idle
			if want < 2 {
				want = 2
			}
			if want > size {
				want = size
			}
			v.Assert(w.alive() == want, "connections are kept up to the configured number")
		case 1:
			expect(w.one(p, sendWorks, 'a'), sendWorks)
			if idle > 0 {
				v.Assert(w.opened == before, "an idle connection is preferred to a new one")
			}
		case 2:
			err := w.one(p, dialFails, 'a')
			expect(err, dialFails)
			v.Assert((err == nil) == (idle > 0), "a connection is dialled only if none is idle")
			v.Assert(w.opened == before && w.alive() == idle, "nothing is lost when dialling fails")
		case 3:
			expect(w.one(p, sendFails, 'a'), sendFails)
		}
		v.Assert(w.alive() <= size, "at most the configured number of connections is idle")
	}
	w.settled(p, size)
}

// C21_Order: idle connections are used in the order they became idle.
func C21_Order() {
	size := 2 + v.Choose("size", 3)
	w := newWorld()
	p := fifoch.New(w, size)
	w.hold(p, size)
	var order []int
	for round := 0; round < 2; round++ {
		for i := 0; i < size; i++ {
			w.inside = func(c *pooled) {
				if round == 0 {
					order = append(order, c.id)
				} else {
					v.Assert(order[i] == c.id, "the connection idle longest is used first")
				}
			}
			expect(w.one(p, sendWorks, 'a'), sendWorks)
		}
	}
	for i := range order {
		// of sends inside one another the innermost ends first
		v.Assert(order[i] == size-1-i, "the connection idle longest is used first")
	}
}

// C21_Cancelled: a send whose context is done.
func C21_Cancelled() {
	size := v.Choose("size", 3)
	w := newWorld()
	p := fifoch.New(w, size)
	idle := v.Choose("idle", size+1)
	w.hold(p, idle)
	rs, err := p.Send(cancelled(), []byte("q"))
	if err == nil {
		v.Assert(len(rs) == 1, "the responses of the send")
	} else {
		v.Assert(errors.Is(err, context.Canceled), "the error of the context")
	}
	w.settled(p, size)
	if idle > 0 {
		v.Assert(w.alive() == idle, "nothing is lost")
	}
}

type timeout struct{}

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// C21_Failures: whatever the error of a send is, with or without responses,
// the connection is closed and not used again.
func C21_Failures() {
	size := v.Choose("size", 3)
	w := newWorld()
	w.trouble()
	p := fifoch.New(w, size)
	idle := v.Choose("idle", size+1)
	w.hold(p, idle)
	n := 1 + v.Choose("failures", 2)
	for i := 0; i < n; i++ {
		ctx := &sendCtx{outcome: sendFails, done: make(chan struct{})}
		fatal := &connection.MySqlXError{}
		fatal.Severity = 1
		errs := []error{errSend, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, timeout{},
			&connection.MySqlXError{}, fatal, &net.OpError{Op: "read", Err: timeout{}}, pool.ErrPoolClosed}
		ctx.err = errs[v.Choose("error", len(errs))]
		if v.Choose("responses", 2) == 1 {
			ctx.rs = []netx.Response{reply{9, "a response"}}
		}
		if v.Choose("cancelled meanwhile", 2) == 1 {
			ctx.during = func() { close(ctx.done) }
		}
		rs, err := p.Send(ctx, []byte("q"))
		v.Assert(err == ctx.err, "the error of the connection")
		v.Assert(len(rs) <= len(ctx.rs), "responses of the send")
		w.settled(p, size)
	}
}

// C21_Meanwhile: the context is done by the time the send has worked.
func C21_Meanwhile() {
	size := v.Choose("size", 3)
	w := newWorld()
	w.trouble()
	p := fifoch.New(w, size)
	idle := v.Choose("idle", size+1)
	w.hold(p, idle)
	for i := 0; i < 2; i++ {
		ctx := &sendCtx{done: make(chan struct{})}
		ctx.during = func() { close(ctx.done) }
		rs, err := p.Send(ctx, []byte("q"))
		v.Assert(err == nil && len(rs) == 1, "a send that works reports no error")
		w.settled(p, size)
	}
}

var sizes = []int{5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65}

// C21_Big: larger pools.
func C21_Big() {
	size := sizes[v.Choose("size", len(sizes))]
	w := newWorld()
	w.trouble()
	p := fifoch.New(w, size)
	n := size + 1 - v.Choose("fewer", 3)
	w.hold(p, n)
	v.Assert(w.opened == n, "one connection for each of the sends at once")
	if n > size {
		n = size
	}
	v.Assert(w.alive() == n, "connections are kept up to the configured number")
	if v.Choose("fails", 2) == 1 {
		expect(w.one(p, sendFails, 'x'), sendFails)
		v.Assert(w.alive() == n-1, "the others are kept")
	}
	w.settled(p, size)
}

// ---- closing ----

// C22_Big: larger pools.
func C22_Big() {
	size := sizes[v.Choose("size", len(sizes))]
	w := &poolWorld{}
	w.trouble()
	p := fifoch.New(w, size)
	w.hold(p, size-v.Choose("fewer", 2))
	done := false
	w.close(p, &done)
	w.finished(p)
}

// closing is a sender during a close.
func (w *poolWorld) during(p pool.Pool, done *bool, outcome int, text byte) {
	w.mu.Lock()
	late := *done
	w.mu.Unlock()
	before := w.opened
	err := w.one(p, outcome, text)
	if late {
		v.Assert(errors.Is(err, pool.ErrPoolClosed), "a send after the close reports it")
		v.Cover("late")
	} else if !errors.Is(err, pool.ErrPoolClosed) {
		expect(err, outcome)
	}
	_ = before
}

func (w *poolWorld) close(p pool.Pool, done *bool) {
	err := p.Close(&sendCtx{})
	v.Assert(err == nil || w.clErr != nil, "closing works")
	w.mu.Lock()
	*done = true
	w.mu.Unlock()
}

// finished checks the connections after a close.
func (w *poolWorld) finished(p pool.Pool) {
	v.Assert(w.alive() == 0, "every connection is closed")
	before := w.opened
	err := w.one(p, sendWorks, 'z')
	v.Assert(errors.Is(err, pool.ErrPoolClosed), "a send after the close reports it")
	v.Assert(w.opened == before, "no connection is opened after the close")
	p.Close(&sendCtx{})
	v.Assert(w.alive() == 0, "every connection is closed")
}

// C22_Send: closing while others send.
func C22_Send() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	size := v.Choose("size", 3)
	idle := v.Choose("idle", size+1)
	w := &poolWorld{}
	p := fifoch.New(w, size)
	w.hold(p, idle)
	done := false
	a, b := v.Int("first", 0, outcomes-1), v.Int("second", 0, outcomes-1)
	v.Par(func() {
		w.during(p, &done, a, 'p')
		w.during(p, &done, b, 'q')
	}, func() {
		w.close(p, &done)
	})
	w.finished(p)
}

// C22_Two: closing while two others send.
func C22_Two() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	size := v.Choose("size", 3)
	idle := size * v.Choose("idle", 2)
	w := &poolWorld{}
	p := fifoch.New(w, size)
	w.hold(p, idle)
	done := false
	a := v.Int("first", 0, outcomes-1)
	v.Par(func() {
		w.during(p, &done, a, 'p')
	}, func() {
		w.during(p, &done, sendWorks, 'q')
	}, func() {
		w.close(p, &done)
	})
	w.finished(p)
}

// C22_Again: closing twice at once, while somebody sends.
func C22_Again() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	size := v.Choose("size", 3)
	idle := v.Choose("idle", size+1)
	w := &poolWorld{}
	p := fifoch.New(w, size)
	w.hold(p, idle)
	done := false
	a := v.Int("first", 0, outcomes-1)
	v.Par(func() {
		w.during(p, &done, a, 'p')
	}, func() {
		w.close(p, &done)
	}, func() {
		w.close(p, &done)
	})
	w.finished(p)
}

// C22_Sequence: nothing else goes on.
func C22_Sequence() {
	size := v.Choose("size", 4)
	idle := v.Choose("idle", size+1)
	w := &poolWorld{}
	w.trouble()
	p := fifoch.New(w, size)
	w.hold(p, idle)
	done := false
	inside := v.Choose("inside", 3) // close during a send, by the sender
	if inside > 0 {
		w.inside = func(*pooled) {
			for i := 0; i < inside; i++ {
				w.close(p, &done)
			}
			w.inside = nil
		}
		o := sendFails * v.Int("fails", 0, 1)
		expect(w.one(p, o, 'a'), o)
	} else {
		w.close(p, &done)
	}
	w.finished(p)
	w.finished(p)
}

// C22_Cancelled: a close that is given up can be made up for.
func C22_Cancelled() {
	size := v.Choose("size", 3)
	idle := v.Choose("idle", size+1)
	w := &poolWorld{}
	w.trouble()
	p := fifoch.New(w, size)
	w.hold(p, idle)
	err := p.Close(cancelled())
	if err == nil {
		v.Assert(w.alive() == 0, "every connection is closed")
	} else {
		v.Assert(errors.Is(err, context.Canceled), "the error of the context")
		v.Assert(p.Close(&sendCtx{}) == nil || w.clErr != nil, "closing works")
	}
	w.finished(p)
}
