package h

import (
	"context"
	"time"

	"github.com/renthraysk/xtorm/netx/connection"

	"verif/harness/v"
)

// timed is a context with a deadline or without.
type timed struct {
	context.Context
	t  time.Time
	ok bool
}

func (t *timed) Deadline() (time.Time, bool) { return t.t, t.ok }

func anyContext() *timed {
	if v.Choose("deadline", 2) == 0 {
		return &timed{Context: bg}
	}
	return &timed{bg, time.Unix(v.I64("seconds")>>8, int64(v.Int("nanos", 0, 999999999))), true}
}

// once checks that b was written once, after the deadline was set, before any read.
func (w *wire) once(ctx *timed, b []byte, what string) {
	v.Assert(len(w.wrote) == 1, what+": one write")
	v.EqBytes(w.wrote[0], b, what+": bytes written")
	v.Assert(len(w.dl) >= 1, what+": deadline is set")
	last := -1
	dls, wrote := 0, false
	for _, l := range w.log {
		switch l {
		case "deadline":
			v.Assert(!wrote, what+": deadline is set before writing")
			last = dls
			dls++
		case "readdl", "writedl":
			v.Stop() // another way to set deadlines: not judged
		case "write":
			v.Assert(last >= 0, what+": deadline is set before writing")
			wrote = true
		case "read":
			v.Assert(wrote, what+": written before reading")
		}
	}
	t := w.dl[last]
	if ctx.ok {
		v.Assert(t.Equal(ctx.t), what+": the context's deadline")
	} else {
		v.Assert(t.IsZero(), what+": no deadline")
	}
}

// C17_Send: a unit of work is written once.
func C17_Send() {
	w := &wire{end: errEnd}
	m := 1 + v.Choose("messages", v.Bound("messages", 3, 6))
	for i := 0; i < m; i++ {
		w.data = message(w.data, sOK, nil)
	}
	ctx := anyContext()
	b := longWork(m)
	_, err := dialled(w).Send(ctx, b)
	v.Assert(err == nil, "send succeeds")
	w.once(ctx, b, "send")
}

// C17_Again: the deadline of a send is not that of the next.
func C17_Again() {
	w := &wire{end: errEnd}
	w.data = message(w.data, sOK, nil)
	w.data = message(w.data, sOK, nil)
	c := dialled(w)
	for i := 0; i < 2; i++ {
		w.log, w.wrote, w.dl = nil, nil, nil
		ctx := anyContext()
		b := work(1)
		_, err := c.Send(ctx, b)
		v.Assert(err == nil, "send succeeds")
		w.once(ctx, b, "send")
	}
}

// C17_Auth: each step of authentication too.
func C17_Auth() {
	w := &wire{end: errEnd}
	w.data = message(w.data, sAUTHOK, nil)
	ctx := anyContext()
	err := connection.New(w).Authenticate(ctx, &creds{v.String("user", 40), v.String("password", 40), "db"}, mechanism(v.Choose("mechanism", 3)))
	v.Assert(err == nil, "authentication succeeds")
	v.Assert(len(w.wrote) == 1, "one message")
	w.once(ctx, w.wrote[0], "authentication")
}

// C17_Fail: a failing write or deadline is an error, and no reply is awaited.
func C17_Fail() {
	w := &wire{}
	w.data = message(w.data, sOK, nil)
	w.data = message(w.data, sOK, nil)
	f := v.Choose("fails", 2)
	if f == 0 {
		w.dlErr = errBoom
	} else {
		w.wrErr = errBoom
	}
	ctx := anyContext()
	var err error
	if v.Choose("auth", 2) == 1 {
		err = connection.New(w).Authenticate(ctx, &creds{"user", "pass", "db"}, mechanism(v.Choose("mechanism", 3)))
	} else {
		_, err = dialled(w).Send(ctx, work(1+v.Choose("messages", 2)))
	}
	v.Assert(err != nil, "an error is returned")
	v.Assert(w.reads == 0, "no reply is awaited")
	if f == 0 {
		v.Assert(len(w.wrote) == 0, "nothing is written without a deadline")
	} else {
		v.Assert(len(w.wrote) == 1, "one write")
	}
}

// C17_Steps: each step of authentication is one write under the deadline.
func C17_Steps() {
	w := &wire{end: errEnd}
	w.data = message(w.data, sAUTHCONT, field(nil, 1, "01234567890123456789"))
	n := len(w.data)
	w.data = message(w.data, sAUTHOK, nil)
	w.turns(n, len(w.data))
	ctx := anyContext()
	err := connection.New(w).Authenticate(ctx, &creds{v.String("user", 40), "password", "db"}, mechanism(v.Choose("mechanism", 2)))
	v.Assert(err == nil, "authentication succeeds")
	v.Assert(len(w.wrote) == 2, "two messages")
	dls := 0
	for _, l := range w.log {
		switch l {
		case "deadline":
			dls++
		case "readdl", "writedl":
			v.Stop() // another way to set deadlines: not judged
		case "write":
			v.Assert(dls > 0, "deadline is set before writing")
			if t := w.dl[dls-1]; ctx.ok {
				v.Assert(t.Equal(ctx.t), "the context's deadline")
			} else {
				v.Assert(t.IsZero(), "no deadline")
			}
		}
	}
}
