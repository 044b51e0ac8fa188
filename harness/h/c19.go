package h

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"

	"verif/harness/models"
	"verif/harness/nat"
	"verif/harness/v"
)

// srv is a server of which every decision is free.
type srv struct {
	msgs     []received
	hsDone   bool // the TLS handshake was attempted
	hsOK     bool
	out      []byte // plain bytes for the client
	tlsOut   []byte
	hungup   bool
	closed   bool
	accepted bool         // the last reply to authentication was a success
	rejected *serverError // the last reply to authentication was an error
	errs     []*serverError
	plain    bool // the mechanism has no use for a challenge
	trouble  bool // something happened that may make the login fail
	notices  bool // a notice comes before each reply to authentication

	cancelled chan struct{} // closed when the context is cancelled,
	cancelAt  int           // on receipt of this message
}

type received struct {
	typ     byte
	payload []byte
	tls     bool
	err     *serverError // the reply
}

var challenge = []byte("01234567890123456789")

func (s *srv) Message(typ byte, payload []byte, protected bool) ([]byte, bool) {
	s.msgs = append(s.msgs, received{typ, append([]byte(nil), payload...), protected, nil})
	if len(s.msgs) == s.cancelAt {
		close(s.cancelled)
	}
	if s.hungup {
		return nil, true
	}
	name := "reply" + names[len(s.msgs)%10]
	switch typ {
	case 2: // capabilities
		switch v.Choose(name, 5) {
		case 0:
			return message(nil, sOK, nil), false
		case 4: // somebody adds a reply to what will be asked under TLS
			s.trouble = true
			return message(message(nil, sOK, nil), sAUTHOK, nil), false
		case 1:
			return s.error(name, 5001), false
		case 2:
			return s.error(name, 0), false
		}
		s.hungup, s.trouble = true, true
		return nil, true
	case 4, 5:
		s.accepted, s.rejected = false, nil
		var b []byte
		if s.notices {
			b = message(b, sNOTICE, []byte{8, 3, 16, 2})
		}
		k := v.Choose(name, 5)
		switch k {
		case 0:
			s.accepted = true
			return message(b, sAUTHOK, nil), false
		case 1:
			return append(b, s.error(name, 1045)...), false
		case 2:
			return append(b, s.error(name, 0)...), false
		case 3:
			if typ == 5 || s.plain {
				s.trouble = true
			}
			return message(b, sAUTHCONT, field(nil, 1, string(challenge))), false
		}
		s.hungup, s.trouble = true, true
		return nil, true
	}
	return message(nil, sOK, nil), false
}

func (s *srv) error(name string, code int) []byte {
	e := &serverError{severity: v.Choose(name+" fatal", 2), code: uint32(code), state: "28000", msg: "no " + name}
	if code == 0 {
		e.code = uint32(v.Int(name+" code", 0, 99999))
		v.Assume(e.code != 1045)
	}
	s.rejected, s.trouble = e, true
	s.errs = append(s.errs, e)
	s.msgs[len(s.msgs)-1].err = e
	return message(nil, sERROR, e.payload())
}

func (s *srv) Handshake() bool {
	s.hsDone = true
	s.hsOK = !s.hungup && v.Choose("handshake", 2) == 0
	s.trouble = s.trouble || !s.hsOK
	return s.hsOK
}

func (s *srv) Closed() { s.closed = true }

// end is the client's end of a connection to the server, for the engine.
type end struct{ s *srv }

func (e *end) Write(b []byte) (int, error)    { return e.write(b, false) }
func (e *end) TLSWrite(b []byte) (int, error) { return e.write(b, true) }
func (e *end) write(b []byte, protected bool) (int, error) {
	if e.s.closed {
		return 0, errBoom
	}
	for _, f := range decFrames(b) {
		r, _ := e.s.Message(byte(f.typ), f.payload, protected)
		if protected {
			e.s.tlsOut = append(e.s.tlsOut, r...)
		} else {
			e.s.out = append(e.s.out, r...)
		}
	}
	return len(b), nil
}
func (e *end) Read(b []byte) (int, error) {
	if e.s.closed {
		return 0, errBoom
	}
	n := copy(b, e.s.out)
	e.s.out = e.s.out[n:]
	return e.got(n)
}
func (e *end) TLSRead(b []byte) (int, error) {
	if e.s.closed {
		return 0, errBoom
	}
	n := copy(b, e.s.tlsOut)
	e.s.tlsOut = e.s.tlsOut[n:]
	return e.got(n)
}
func (e *end) got(n int) (int, error) {
	if n == 0 {
		v.Assert(e.s.hungup, "read when the server has nothing to say")
		return 0, io.EOF
	}
	return n, nil
}
func (e *end) Close() error                  { e.s.closed = true; return nil }
func (e *end) TLSClose() error               { e.s.closed = true; return nil }
func (e *end) SetDeadline(t time.Time) error { return nil }
func (e *end) Handshake() error {
	if e.s.closed || !e.s.Handshake() {
		return errBoom
	}
	return nil
}

// login is the outcome of opening a connection to a server.
type login struct {
	network string
	tls     bool
	mech    int
	refused bool // dialling failed
	s       *srv
	conn    netx.Conn
	err     error
	c       *creds
	nat     *nat.Server
}

// connect opens a connection to a server free to do what it likes.
func connect(ctx context.Context, mechs int, dialFails bool) *login {
	return connectTo(&srv{}, ctx, mechs, dialFails)
}

func connectTo(s *srv, ctx context.Context, mechs int, dialFails bool) *login {
	l := &login{network: []string{"tcp", "unix", "tcp4"}[v.Choose("network", 3)], s: s, c: &creds{"user", "s3cr3t", "schema"}}
	l.tls = v.Choose("tls", 2) == 1
	l.mech = v.Choose("mechanism", mechs)
	l.s.plain = l.mech == 2
	if v.Choose("password", 2) == 1 {
		l.c.pass = ""
	} else {
		l.s.notices = v.Choose("notices", 2) == 1
	}
	if dialFails {
		l.refused = v.Choose("dial", 2) == 1
	}
	addr := "127.0.0.1:33060"
	if l.network == "unix" {
		addr = "/run/mysqlx.sock"
	}
	if v.Symbolic() {
		models.Dialled = func(network, address string) (models.Endpoint, bool, error) {
			if l.refused {
				return nil, false, errBoom
			}
			v.Assert(network == l.network, "network dialled")
			v.Assert(address == addr, "address dialled")
			return &end{l.s}, network == "unix", nil
		}
	} else if l.refused {
		addr = nat.Nowhere(l.network)
	} else {
		l.nat = nat.Serve(l.network, func() nat.Behaviour { return l.s })
		addr = l.nat.Addr
	}
	opts := []connector.Option{
		connector.WithUserPassword(l.c.user, l.c.pass),
		connector.WithDatabase(l.c.db),
	}
	if l.tls {
		if v.Symbolic() {
			opts = append(opts, connector.WithTLSConfig(&tls.Config{InsecureSkipVerify: true}))
		} else {
			opts = append(opts, connector.WithTLSConfig(nat.Config()))
		}
	}
	if l.mech > 0 {
		opts = append(opts, connector.WithAuthentication(mechanism(l.mech)))
	}
	cn, err := connector.New(l.network, addr, opts...)
	v.Assert(err == nil, "connector is made")
	l.conn, l.err = cn.New(ctx)
	return l
}

// gone waits until the server has seen the end of the connection; false if it does not.
func (l *login) gone() bool {
	if l.nat != nil {
		l.nat.Wait()
		defer l.nat.Stop()
	}
	return l.s.closed
}

// C19_Login: what is said to a server while a connection is opened.
func C19_Login() {
	l := connect(bg, 3, false)
	if l.mech == 2 && !(l.network == "unix" || l.tls) {
		v.Stop() // the caller asked for it
	}
	if l.conn != nil {
		if l.err == nil {
			l.conn.Send(bg, work(1))
		}
		l.conn.Close()
	}
	l.gone()
	s := l.s
	wantTLS := l.tls && l.network != "unix"
	secure := wantTLS || l.network == "unix"
	plain := 0
	inTLS := false
	var last *received
	for i := range s.msgs {
		m := &s.msgs[i]
		if m.tls {
			inTLS = true
		}
		if wantTLS && !m.tls {
			v.Assert(i == 0, "only one message before TLS")
			v.Assert(m.typ == 2, "the request to switch to TLS")
			v.Assert(!inTLS, "no plain message after TLS")
			isTLSRequest(m.payload)
			plain++
			continue
		}
		v.Assert(m.tls == wantTLS, "TLS only if asked for")
		if m.tls {
			v.Assert(s.hsOK, "handshake succeeded")
		}
		switch m.typ {
		case 4:
			mech, data := decAuthStart(m.payload)
			if last != nil && last.typ >= 4 || string(mech) == "PLAIN" && l.mech != 2 {
				// the fallback
				v.Cover("fallback")
				v.EqBytes(mech, []byte("PLAIN"), "the fallback is PLAIN")
				v.Assert(secure, "the fallback needs a secure connection")
				v.Assert(last != nil && last.err != nil && last.typ >= 4, "the fallback is after an error")
				v.Assert(last.err.code == 1045, "the fallback is after a denial")
			}
			if string(mech) != "PLAIN" {
				v.Assert(len(data) == 0, "nothing is said at the start")
			} else {
				v.Assert(secure, "the password needs a secure connection")
				v.EqBytes(identity(data, l.c), []byte(l.c.pass), "password")
			}
		case 5:
			v.Assert(l.mech < 2, "a continuation of the configured mechanism")
			rest := identity(decAuthContinue(m.payload), l.c)
			if l.mech == 1 {
				isHex(rest, memory([]byte(l.c.pass), challenge), "proof")
			} else if l.c.pass == "" {
				v.Assert(len(rest) == 0, "no proof without a password")
			} else {
				v.Assert(len(rest) > 0 && rest[0] == '*', "star")
				isHex(rest[1:], native([]byte(l.c.pass), challenge), "proof")
			}
		default:
			v.Assert(s.accepted, "nothing else before login")
		}
		last = m
	}
}

func isTLSRequest(b []byte) {
	n, s := decCapSet(b)
	v.EqBytes(n, []byte("tls"), "capability")
	isBool(s, true, "capability is enabled")
}

// C20_Login: a session or an error and no connection.
func C20_Login() {
	l := connect(bg, 3, true)
	s := l.s
	if l.err != nil {
		v.Assert(!s.accepted || l.tls && l.network != "unix" && !s.hsOK, "an accepted login is no error")
		v.Assert(l.refused || s.trouble, "no error when nothing failed")
		if !l.refused {
			v.Assert(l.gone(), "the connection is closed")
		}
		if s.rejected != nil && len(s.msgs) > 0 && s.msgs[len(s.msgs)-1].typ >= 4 {
			v.Cover("rejected")
			var m *connection.MySqlXError
			v.Assert(errors.As(l.err, &m), "the server's error is reported")
			ok := false
			for _, e := range s.errs {
				if m.Code == e.code && m.Msg == e.msg && m.SqlState == e.state && int(m.Severity) == e.severity {
					ok = true
				}
			}
			v.Assert(ok, "the error is one the server sent")
		}
		return
	}
	v.Assert(l.conn != nil, "a connection or an error")
	v.Assert(!l.refused, "no connection without dialling")
	v.Assert(s.accepted, "the server accepted the login")
	v.Assert(!s.closed || l.nat != nil, "the connection is open")
	b := work(1)
	rs, err := l.conn.Send(bg, b)
	v.Assert(err == nil && len(rs) == 1, "the connection is usable")
	v.Assert(l.conn.IsSecure() == (l.network == "unix" || l.tls), "secure connections are known as such")
	v.Assert(l.conn.Close() == nil || l.nat != nil, "the connection can be closed")
	v.Assert(l.gone(), "closing closes the connection")
	v.Cover("open")
}

// cancelCtx is a context cancelled while the server is being talked to.
type cancelCtx struct{ done chan struct{} }

func (c *cancelCtx) Deadline() (t time.Time, ok bool)  { return }
func (c *cancelCtx) Value(key interface{}) interface{} { return nil }
func (c *cancelCtx) Done() <-chan struct{}             { return c.done }
func (c *cancelCtx) Err() error {
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}

// C20_Cancel: the caller gives up at any moment of the login.
func C20_Cancel() {
	done := make(chan struct{})
	at := 1 + v.Choose("cancelled at", 4)
	l := connectTo(&srv{cancelled: done, cancelAt: at}, &cancelCtx{done}, v.Bound("mechanisms", 1, 3), false)
	s := l.s
	if l.err != nil {
		v.Assert(s.trouble || len(s.msgs) >= at, "no error when nothing failed")
		v.Assert(l.gone(), "the connection is closed")
		return
	}
	v.Assert(l.conn != nil, "a connection or an error")
	v.Assert(s.accepted, "the server accepted the login")
	s.cancelAt = 0
	rs, err := l.conn.Send(bg, work(1))
	v.Assert(err == nil && len(rs) == 1, "the connection is usable")
	l.conn.Close()
	v.Assert(l.gone(), "closing closes the connection")
	v.Cover("open")
}
