package h

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"verif/harness/v"
)

// wire is the client's end of a connection to a server that has already
// decided what it will send.
type wire struct {
	data   []byte // what the server sends
	pos    int    // how much of it has been read
	cuts   int    // how many reads may deliver any amount; later ones deliver all there is
	end    error  // after the data
	log    []string
	wrote  [][]byte
	dl     []time.Time
	dlErr  error
	wrErr  error
	closed int
	reads  int
	max    int // reads a correct client can need
	clErr  error
	avail  func(w *wire) int // how much is available now, nil for all
}

func (w *wire) Read(b []byte) (int, error) {
	w.reads++
	if w.max > 0 {
		v.Assert(w.reads <= w.max, "number of reads is bounded")
	}
	w.log = append(w.log, "read")
	n := len(w.data) - w.pos
	if w.avail != nil {
		n = w.avail(w) - w.pos
		v.Assert(n > 0, "read when the server has nothing to send")
	}
	if n <= 0 {
		return 0, w.end
	}
	if n > len(b) {
		n = len(b)
	}
	if w.cuts > 0 && n > 0 {
		w.cuts--
		n = v.Int("segment", 1, n)
	}
	copy(b[:n], w.data[w.pos:w.pos+n])
	w.pos += n
	return n, nil
}

func (w *wire) Write(b []byte) (int, error) {
	w.log = append(w.log, "write")
	w.wrote = append(w.wrote, append([]byte(nil), b...))
	if w.wrErr != nil {
		return 0, w.wrErr
	}
	return len(b), nil
}

func (w *wire) SetDeadline(t time.Time) error {
	w.log = append(w.log, "deadline")
	w.dl = append(w.dl, t)
	return w.dlErr
}
func (w *wire) SetReadDeadline(t time.Time) error  { w.log = append(w.log, "readdl"); return nil }
func (w *wire) SetWriteDeadline(t time.Time) error { w.log = append(w.log, "writedl"); return nil }
func (w *wire) Close() error                       { w.closed++; return w.clErr }
func (w *wire) LocalAddr() net.Addr                { return nil }
func (w *wire) RemoteAddr() net.Addr               { return nil }

// client is what connection.New gives.
type client interface {
	netx.Conn
}

func dialled(w *wire) client { return connection.New(w) }

// server message types
const (
	sOK       = 0
	sERROR    = 1
	sAUTHCONT = 3
	sAUTHOK   = 4
	sNOTICE   = 11
	sCOLMETA  = 12
	sROW      = 13
	sDONE     = 14
	sEXECOK   = 17
)

func putv(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

// field appends a length-delimited protobuf field.
func field(b []byte, num byte, s string) []byte {
	b = append(b, num<<3|2)
	b = putv(b, uint64(len(s)))
	return append(b, s...)
}

func message(b []byte, typ byte, payload []byte) []byte {
	n := uint32(len(payload) + 1)
	b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), typ)
	return append(b, payload...)
}

// serverError is an Error message of the server.
type serverError struct {
	severity int // 0 non-fatal, 1 fatal, -1 not stated
	code     uint32
	state    string
	msg      string
}

func (e *serverError) payload() []byte {
	var b []byte
	if e.severity >= 0 {
		b = append(b, 1<<3, byte(e.severity))
	}
	b = append(b, 2<<3)
	b = putv(b, uint64(e.code))
	b = field(b, 4, e.state)
	return field(b, 3, e.msg)
}

func (e *serverError) is(x interface{}, what string) {
	m, ok := x.(*connection.MySqlXError)
	v.Assert(ok, what+": a server error")
	sev := mysqlx.Error_Severity(0)
	if e.severity > 0 {
		sev = mysqlx.Error_Severity(e.severity)
	}
	v.Assert(m.Severity == sev, what+": severity")
	v.Assert(m.Code == e.code, what+": code")
	v.EqString(m.SqlState, e.state, what+": SQL state")
	v.EqString(m.Msg, e.msg, what+": text")
}

// aside appends a message of the server that is not a reply.
func aside(b []byte, what int, long int) []byte {
	switch what {
	case 0:
		return message(b, sNOTICE, v.Bytes("notice", long))
	case 1:
		return message(b, sROW, v.Bytes("row", long))
	case 2:
		return message(b, sDONE, nil)
	case 3:
		return message(b, sCOLMETA, []byte{1 << 3, 1})
	default:
		return message(b, sCOLMETA, field([]byte{1 << 3, 7}, 2, v.String("column", long)))
	}
}

const nAsides = 5

// replied appends a reply of the server to an ordinary message and gives what it is.
func replied(b []byte, what int, long int) ([]byte, *serverError) {
	switch what {
	case 0:
		return message(b, sOK, nil), nil
	case 1:
		return message(b, sEXECOK, nil), nil
	case 2:
		return message(b, sOK, field(nil, 1, v.String("note", long))), nil
	default:
		e := &serverError{severity: 0, code: uint32(v.Int("code", 1000, 9999)), state: "HY000", msg: v.String("text", long)}
		return message(b, sERROR, e.payload()), e
	}
}

const nReplies = 4

// work is a unit of work of n messages of any ordinary types.
func work(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = message(b, ordinary[v.Int("type", 0, len(ordinary)-1)], []byte("body")[:1+i%3])
	}
	return b
}

// ordinary are the types of client messages that are not about the session.
var ordinary = []byte{12, 40, 41, 18, 19, 20, 24, 25, 42}

// longWork is work with bodies of any length.
func longWork(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = message(b, ordinary[v.Int("type", 0, len(ordinary)-1)], v.Bytes("body", 1<<20))
	}
	return b
}

type noDeadline struct{ context.Context }

var errEnd = io.EOF

func ifaces(rs []netx.Response) []interface{} {
	var out []interface{}
	for _, r := range rs {
		out = append(out, r)
	}
	return out
}

// plainWork is n statements.
func plainWork(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = message(b, 12, []byte("x"))
	}
	return b
}
