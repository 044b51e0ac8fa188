package h

import (
	"errors"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"

	"verif/harness/v"
)

// reordered is the payload of an error with its fields in another order and an
// unknown field.
func (e *serverError) reordered() []byte {
	b := field(nil, 3, e.msg)
	b = append(b, 9<<3, 1)
	b = field(b, 4, e.state)
	b = append(b, 2<<3)
	b = putv(b, uint64(e.code))
	if e.severity >= 0 {
		b = append(b, 1<<3, byte(e.severity))
	}
	return b
}

func anyError(long int) *serverError {
	return &serverError{severity: v.Choose("severity", 3) - 1, code: v.U32("code"), state: v.String("state", 8), msg: v.String("text", long)}
}

// C15_Ordinary: an error in reply to an ordinary message.
func C15_Ordinary() {
	w := &wire{cuts: v.Bound("segments of any size", 0, 1)}
	e := anyError(v.Bound("text length", 20000, 200000))
	p := e.payload()
	if v.Choose("order", 2) == 1 {
		p = e.reordered()
	}
	w.data = message(w.data, sERROR, p)
	w.data = message(w.data, sEXECOK, nil)
	w.end = errEnd
	c := dialled(w)
	rs, err := c.Send(bg, work(2))
	if e.severity == 1 {
		v.Assert(err != nil, "a fatal error is the error of the call")
		var m *connection.MySqlXError
		v.Assert(errors.As(err, &m), "and it is the server's")
		e.is(m, "fatal error")
		return
	}
	v.Assert(err == nil, "an ordinary error does not abort")
	answers(ifaces(rs), []*serverError{e, nil}, "responses")
}

// C15_Long: an error longer than the read buffer.
func C15_Long() {
	w := &wire{cuts: v.Bound("segments of any size", 1, 2)}
	e := &serverError{severity: v.Choose("severity", 2), code: 1000, state: "HY000", msg: v.String("text", 20000)}
	w.data = message(w.data, sERROR, e.payload())
	w.end = errEnd
	rs, err := dialled(w).Send(bg, work(1))
	if e.severity == 1 {
		v.Assert(err != nil, "a fatal error is the error of the call")
		var m *connection.MySqlXError
		v.Assert(errors.As(err, &m), "and it is the server's")
		e.is(m, "fatal error")
		return
	}
	v.Assert(err == nil, "an ordinary error does not abort")
	answers(ifaces(rs), []*serverError{e}, "responses")
}

// C15_Later: after some replies, an error to the last message; what was
// answered before is kept.
func C15_Later() {
	w := &wire{end: errEnd}
	k := v.Choose("earlier", 3)
	var es []*serverError
	for i := 0; i < k; i++ {
		var e *serverError
		w.data, e = replied(w.data, 3*v.Choose("reply", 2), 5)
		es = append(es, e)
	}
	e := &serverError{severity: v.Choose("severity", 2), code: uint32(v.Int("last code", 1000, 9999)), state: "HY000", msg: v.String("last", 10)}
	w.data = message(w.data, sERROR, e.payload())
	es = append(es, e)
	b := work(k)
	reset := v.Choose("reset", 2) == 1
	if reset {
		b = message(b, 6, nil)
	} else {
		b = append(b, work(1)...)
	}
	rs, err := dialled(w).Send(bg, b)
	if e.severity == 1 || reset {
		v.Assert(err != nil, "error of the call")
		var m *connection.MySqlXError
		v.Assert(errors.As(err, &m), "and it is the server's")
		e.is(m, "aborting error")
		v.Assert(len(rs) >= k, "earlier responses are kept")
		answers(ifaces(rs[:k]), es[:k], "earlier responses")
		return
	}
	v.Assert(err == nil, "an ordinary error does not abort")
	answers(ifaces(rs), es, "responses")
}

type creds struct{ user, pass, db string }

func (c *creds) UserName() string { return c.user }
func (c *creds) Password() string { return c.pass }
func (c *creds) Database() string { return c.db }

// mechanism is one of the library's authentication mechanisms.
func mechanism(k int) authentication.Starter {
	switch k {
	case 0:
		return mysql41.New()
	case 1:
		return sha256.New()
	}
	return plain.New()
}

// C15_Auth: an error in reply to either step of authentication.
func C15_Auth() {
	w := &wire{end: errEnd}
	k := v.Choose("mechanism", 3)
	e := &serverError{severity: v.Choose("severity", 2), code: uint32(v.Int("code", 1000, 9999)), state: "28000", msg: v.String("text", 100)}
	second := k < 2 && v.Choose("step", 2) == 1
	if second {
		w.data = message(w.data, sAUTHCONT, field(nil, 1, "01234567890123456789"))
	}
	w.data = message(w.data, sERROR, e.payload())
	err := connection.New(w).Authenticate(bg, &creds{"user", "pass", "db"}, mechanism(k))
	v.Assert(err != nil, "authentication fails")
	var m *connection.MySqlXError
	v.Assert(errors.As(err, &m), "with the server's error")
	e.is(m, "authentication error")
	if second {
		v.Assert(len(w.wrote) == 2, "both steps are taken")
	} else {
		v.Assert(len(w.wrote) == 1, "one step is taken")
	}
}

// C15_Other: whatever else the server sends is not a server error.
func C15_Other() {
	w := &wire{end: errEnd}
	t := v.U8("server type")
	v.Assume(t != sERROR)
	w.data = message(w.data, t, v.Bytes("payload", v.Bound("payload length", 3, 5)))
	w.data = message(w.data, sOK, nil)
	rs, err := dialled(w).Send(bg, work(1))
	var m *connection.MySqlXError
	v.Assert(!errors.As(err, &m), "no server error is made up")
	for _, r := range rs {
		v.Assert(r == nil, "no response is made up")
	}
}

// C15_Mixed: session resets among ordinary messages, and a reply of either
// kind to each.
func C15_Mixed() {
	w := &wire{end: errEnd}
	n := v.Bound("messages", 3, 4)
	var b []byte
	var es []*serverError
	stop := -1
	for i := 0; i < n; i++ {
		reset := v.Choose("reset", 2) == 1
		if reset {
			b = message(b, 6, nil)
		} else {
			b = append(b, work(1)...)
		}
		var e *serverError
		w.data, e = replied(w.data, 3*v.Choose("reply", 2), 3)
		es = append(es, e)
		if reset && e != nil {
			stop = i
			break
		}
	}
	for i := len(es); i < n; i++ {
		b = append(b, work(1)...)
		w.data, _ = replied(w.data, 0, 0)
	}
	rs, err := dialled(w).Send(bg, b)
	if stop >= 0 {
		v.Assert(err != nil, "an error in reply to a reset is the error of the call")
		var m *connection.MySqlXError
		v.Assert(errors.As(err, &m), "and it is the server's")
		es[stop].is(m, "aborting error")
		return
	}
	v.Assert(err == nil, "an ordinary error does not abort")
	answers(ifaces(rs), es, "responses")
}

// C15_Wide: an error in reply to the last of many messages.
func C15_Wide() {
	n := count()
	w := &wire{end: errEnd}
	es := make([]*serverError, n)
	for i := 0; i < n-1; i++ {
		w.data = message(w.data, sEXECOK, nil)
	}
	e := &serverError{severity: v.Choose("severity", 2), code: uint32(v.Int("code", 1000, 9999)), state: "HY000", msg: v.String("text", 3)}
	w.data = message(w.data, sERROR, e.payload())
	es[n-1] = e
	rs, err := dialled(w).Send(bg, plainWork(n))
	if e.severity == 1 {
		var m *connection.MySqlXError
		v.Assert(errors.As(err, &m), "a fatal error is the error of the call")
		e.is(m, "fatal error")
		return
	}
	v.Assert(err == nil, "an ordinary error does not abort")
	answers(ifaces(rs), es, "responses")
}
