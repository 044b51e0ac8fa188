package h

import (
	"github.com/renthraysk/xtorm/netx"

	"verif/harness/v"
)

// answers checks the responses of a call against the replies of the server.
func answers(rs []interface{}, es []*serverError, what string) {
	v.Assert(len(rs) == len(es), what+": one response per message")
	for i, e := range es {
		if e == nil {
			v.Assert(rs[i] == nil, what+": a success is no error")
		} else {
			e.is(rs[i], what)
		}
	}
}

// turns makes the server send up to ends[i] after the i-th write.
func (w *wire) turns(ends ...int) {
	w.avail = func(w *wire) int {
		if n := len(w.wrote); n > 0 && n <= len(ends) {
			return ends[n-1]
		}
		return 0
	}
}

// C14_One: a message before the reply, of any length up to several times the
// read buffer, in any segments; then a second send on the connection.
func C14_One() {
	w := &wire{cuts: v.Bound("segments of any size", 1, 3)}
	if k := v.Choose("aside", nAsides+1); k > 0 {
		w.data = aside(w.data, k-1, v.Bound("aside length", 10000, 70000))
	}
	var e1, e2 *serverError
	w.data, e1 = replied(w.data, 3*v.Choose("reply", 2), 40)
	n := len(w.data)
	w.data, e2 = replied(w.data, 3, 20)
	w.turns(n, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, work(1))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), []*serverError{e1}, "first")
	rs, err = c.Send(bg, work(1))
	v.Assert(err == nil, "second send succeeds")
	answers(ifaces(rs), []*serverError{e2}, "second")
	v.Cover("both")
}

// C14_Reply: a reply of any length.
func C14_Reply() {
	w := &wire{cuts: v.Bound("segments of any size", 1, 2)}
	var e1 *serverError
	w.data, e1 = replied(w.data, 2+v.Choose("reply", 2), v.Bound("reply length", 10000, 70000))
	n := len(w.data)
	w.data, _ = replied(w.data, 1, 0)
	w.turns(n, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, work(1))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), []*serverError{e1}, "first")
	rs, err = c.Send(bg, work(1))
	v.Assert(err == nil, "second send succeeds")
	answers(ifaces(rs), []*serverError{nil}, "second")
}

// C14_Many: several messages, each with short messages before its reply.
func C14_Many() {
	w := &wire{cuts: v.Bound("segments of any size", 1, 2)}
	m := v.Choose("messages", v.Bound("messages", 4, 6))
	var es []*serverError
	for i := 0; i < m; i++ {
		if v.Choose("aside?", 2) == 1 {
			if m <= v.Bound("messages with asides of any length", 1, 2) {
				w.data = message(w.data, []byte{sNOTICE, sROW, sDONE}[v.Int("kind", 0, 2)], v.Bytes("aside", 60))
			} else {
				w.data = message(w.data, []byte{sNOTICE, sROW, sDONE}[(i+m)%3], []byte("aside")[:i])
			}
		}
		var e *serverError
		w.data, e = replied(w.data, 2*v.Choose("reply", 2)+1, 3)
		es = append(es, e)
	}
	n := len(w.data)
	w.data, _ = replied(w.data, 0, 0)
	w.turns(n, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, work(m))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), es, "responses")
	rs, err = c.Send(bg, work(1))
	v.Assert(err == nil, "next send succeeds")
	answers(ifaces(rs), []*serverError{nil}, "next")
	v.Assert(w.pos == len(w.data), "all replies read")
}

// C14_Early: the stream ends before the last reply is complete.
func C14_Early() {
	w := &wire{cuts: 1, end: errEnd}
	if v.Choose("error", 2) == 1 {
		w.end = errBoom
	}
	m := 1 + v.Choose("earlier", 2)
	if m == 2 {
		w.data = message(w.data, sEXECOK, nil)
	}
	n := len(w.data)
	if k := v.Choose("aside", nAsides+1); k > 0 {
		w.data = aside(w.data, k-1, v.Bound("length", 6000, 20000))
	}
	w.data, _ = replied(w.data, 2+v.Choose("reply", 2), 40)
	w.data = w.data[:v.Int("cut", n, len(w.data)-1)]
	rs, err := dialled(w).Send(bg, work(m))
	v.Assert(err != nil, "an early end is an error")
	v.Assert(len(rs) <= m, "no more responses than messages")
}

// C14_Frames: client messages of any length are counted by their frames.
func C14_Frames() {
	m := v.Choose("messages", v.Bound("messages", 4, 9))
	w := &wire{}
	var es []*serverError
	for i := 0; i < m; i++ {
		var e *serverError
		w.data, e = replied(w.data, 3*v.Choose("reply", 2), 0)
		es = append(es, e)
	}
	n := len(w.data)
	w.data, _ = replied(w.data, 0, 0)
	w.turns(n, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, longWork(m))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), es, "responses")
	rs, err = c.Send(bg, work(1))
	v.Assert(err == nil, "next send succeeds")
	answers(ifaces(rs), []*serverError{nil}, "next")
}

// C14_Rows: several messages before the reply, each of any length up to
// several times the read buffer.
func C14_Rows() {
	w := &wire{}
	for i := 0; i < v.Bound("rows", 2, 3); i++ {
		row := v.Bytes("row", v.Bound("row length", 20000, 70000))
		v.Assume(len(row) > v.Bound("shortest row", 4000, 0))
		w.data = message(w.data, sROW, row)
	}
	var e1, e2 *serverError
	w.data, e1 = replied(w.data, 3, 40)
	n := len(w.data)
	w.data, e2 = replied(w.data, 3, 3)
	w.turns(n, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, work(1))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), []*serverError{e1}, "first")
	rs, err = c.Send(bg, work(1))
	v.Assert(err == nil, "second send succeeds")
	answers(ifaces(rs), []*serverError{e2}, "second")
}

// C14_Kept: responses handed out stay as they were while the connection is used on.
func C14_Kept() {
	w := &wire{}
	k := v.Bound("sends", 3, 4)
	var es [][]*serverError
	var ends []int
	for i := 0; i < k; i++ {
		var l []*serverError
		for j := 1 + v.Choose("messages", 2); j > 0; j-- {
			var e *serverError
			w.data, e = replied(w.data, 3*v.Choose("reply", 2), 5)
			l = append(l, e)
		}
		es, ends = append(es, l), append(ends, len(w.data))
	}
	w.turns(ends...)
	c := dialled(w)
	var got [][]netx.Response
	for _, l := range es {
		rs, err := c.Send(bg, work(len(l)))
		v.Assert(err == nil, "send succeeds")
		got = append(got, rs)
		answers(ifaces(rs), l, "at once")
	}
	for i, l := range es {
		answers(ifaces(got[i]), l, "kept")
	}
}

// C14_Wide: many messages, some with an error, or many messages before a reply.
func C14_Wide() {
	n := count()
	w := &wire{}
	var es []*serverError
	m := n
	if v.Choose("many", 2) == 1 {
		m = 1
		for i := 0; i < n; i++ {
			w.data = message(w.data, []byte{sNOTICE, sCOLMETA, sROW, sDONE}[i%4], []byte{1 << 3, 1})
		}
	}
	for i := 0; i < m; i++ {
		if i == m/2 {
			var e *serverError
			w.data, e = replied(w.data, 3, 3)
			es = append(es, e)
			continue
		}
		w.data = message(w.data, sEXECOK, nil)
		es = append(es, nil)
	}
	k := len(w.data)
	w.data, _ = replied(w.data, 0, 0)
	w.turns(k, len(w.data))
	c := dialled(w)
	rs, err := c.Send(bg, plainWork(m))
	v.Assert(err == nil, "send succeeds")
	answers(ifaces(rs), es, "responses")
	rs, err = c.Send(bg, plainWork(1))
	v.Assert(err == nil, "next send succeeds")
	answers(ifaces(rs), []*serverError{nil}, "next")
}
