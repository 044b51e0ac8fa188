#!/usr/bin/env python3
"""Second batch of planted bugs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read()
HEAD = src.split("HEAD = '''")[1].split("'''")[0]

mk("c02-negative-zero", "C02", ".", [("xproto/expr.go",
 "	x := math.Float64bits(f)\n	return append(p, tag<<3|wireBytes, 15,", "	var x uint64\n	if f != 0 {\n		x = math.Float64bits(f)\n	}\n	return append(p, tag<<3|wireBytes, 15,")],
 "the float64 value -0 in an expression", "negative zero loses its sign in inserts, updates and criteria",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	z := 0.0
	for _, f := range []float64{0, 1, -1, -z * 1, 1 / -1e308 / 1e308 / 1e308} {
		p.Reset()
		p.Insert("t", []string{"a"}, [][]interface{}{{f}})
		m := vdSend(t, p)
		var s mysqlx_crud.Insert
		if err := proto.Unmarshal(m[0].pl, &s); err != nil {
			t.Fatal(err)
		}
		g := s.Row[0].Field[0].GetLiteral().GetVDouble()
		if g != f || (1/g) != (1/f) {
			t.Fatal(f, g)
		}
	}
}
''')
mk("c03-collation-size", "C03", ".", [("xproto/expr.go",
 "		n0 += 1 + sizeVarint(uint(collation))\n", "		n0 += 2 + int(collation>>8)\n")],
 "a collation numbered 128 to 255 on a string in an expression", "strings with a collation of 128 to 255 overrun their message",
 HEAD.replace('"github.com/renthraysk/xtorm/netx"', '"github.com/renthraysk/xtorm/collation"\n	"github.com/renthraysk/xtorm/netx"') + '''
func TestVerifDemo(t *testing.T) {
	for _, c := range []collation.Collation{0, 1, 33, 45, 63, 127, 128, 192, 255} {
		p := New(10)
		p.Insert("t", []string{"a"}, [][]interface{}{{String{"hello", c}}})
		m := vdSend(t, p)
		var s mysqlx_crud.Insert
		if err := proto.Unmarshal(m[0].pl, &s); err != nil {
			t.Fatal(c, err)
		}
		g := s.Row[0].Field[0].GetLiteral().GetVString()
		if string(g.GetValue()) != "hello" || g.GetCollation() != uint64(c) {
			t.Fatal(c, g)
		}
	}
}
''')
mk("c04-table", "C04", ".", [("xproto/scalar.go", '"40414243444546474849"', '"40414243444546474949"')],
 "a duration with 48 minutes or 48 seconds", "such durations are spelled as 49",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for s := 0; s < 60; s++ {
		p := New(10)
		p.StmtExecute("s", time.Duration(s)*time.Second)
		m := vdSend(t, p)
		var e mysqlx_sql.StmtExecute
		if err := proto.Unmarshal(m[0].pl, &e); err != nil {
			t.Fatal(err)
		}
		want := "0:00:" + string([]byte{byte('0' + s/10), byte('0' + s%10)})
		if g := string(e.Args[0].GetScalar().GetVOctets().GetValue()); g != want {
			t.Fatal(g, want)
		}
	}
}
''')
mk("c05-operator-size", "C05", ".", [("xproto/expr.go",
 "	nExpr := 3 + sizeVarint(uint(nOperator)) + nOperator\n", "	nExpr := 3 + sizeVarint(uint(nParams)) + nOperator\n")],
 "operands of just under 128 (or 16384) bytes together", "the length of an operator expression is one short at a varint boundary",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		p := New(10)
		p.Delete("t", Eq(Column("a"), strings.Repeat("x", n)))
		m := vdSend(t, p)
		var d mysqlx_crud.Delete
		if err := proto.UnmarshalMerge(m[0].pl, &d); err != nil && !strings.Contains(err.Error(), "required") {
			t.Fatal(n, err)
		}
		q := d.GetCriteria().GetOperator().GetParam()
		if len(q) != 2 || len(q[1].GetLiteral().GetVString().GetValue()) != n {
			t.Fatal(n)
		}
	}
}
''')
mk("c06-notin-empty", "C06", ".", [("expr.go",
 '		return xproto.AppendExprOperator(p, tag, "not_in", v)', '		op := "not_in"\n		if len(v) > 8 {\n			op = op[4:]\n		}\n		return xproto.AppendExprOperator(p, tag, op, v)')],
 "NotIn with eight values or more", "NotIn with many values is sent as IN",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		p := New(10)
		p.Delete("t", NotIn(Column("a"), make([]interface{}, n)))
		m := vdSend(t, p)
		var d mysqlx_crud.Delete
		proto.UnmarshalMerge(m[0].pl, &d)
		if g := d.GetCriteria().GetOperator().GetName(); g != "not_in" {
			t.Fatal(n, g)
		}
	}
}
''')
mk("c06-concat-alias", "C06", ".", [("expr.go",
 "	v := make([]interface{}, 1+len(b))\n	v[0] = a\n	copy(v[1:], b)\n	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperator(p, tag, \"in\", v)",
 "	v := append(b, a)\n	copy(v[1:], b)\n	v[0] = a\n	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperator(p, tag, \"in\", v)")],
 "In called twice with the same list, having spare capacity", "the second call, or the caller's use of the list, sees shifted values",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	l := append(make([]interface{}, 0, 10), 1, 2, 3)
	a := In(Column("a"), l)
	b := In(Column("b"), l)
	for _, e := range []exprFunc{a, b} {
		p := New(10)
		p.Delete("t", e)
		m := vdSend(t, p)
		var d mysqlx_crud.Delete
		proto.UnmarshalMerge(m[0].pl, &d)
		q := d.GetCriteria().GetOperator().GetParam()
		if len(q) != 4 {
			t.Fatal(len(q))
		}
		for i := 1; i < 4; i++ {
			if q[i].GetLiteral().GetVSignedInt() != int64(i) {
				t.Fatal(q)
			}
		}
	}
}
''')
mk("c07-prepare-size", "C07", ".", [("xproto/prepare.go",
 "	n2 := 2 + sizeVarint32(id) + sizeVarint(uint(n1)) + n1 // Prepare", "	n2 := 2 + sizeVarint32(id) + sizeVarint(uint(n0)) + n1 // Prepare")],
 "preparing a statement of a length near a varint boundary", "the prepare message is one byte short",
 HEAD.replace("import (", "import (\n	\"github.com/renthraysk/xtorm/protobuf/mysqlx_prepare\"") + '''
func TestVerifDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		p := New(10)
		p.Prepare(7, strings.Repeat("x", n))
		p.Deallocate(8)
		m := vdSend(t, p)
		var d mysqlx_prepare.Prepare
		if err := proto.Unmarshal(m[0].pl, &d); err != nil {
			t.Fatal(n, err)
		}
		if len(d.GetStmt().GetStmtExecute().GetStmt()) != n {
			t.Fatal(n)
		}
	}
}
''')
mk("c08-row-var", "C08", ".", [("builder.go",
 '	id := "@id$" + strconv.Itoa(len(b.buf))\n', '	id := "@id$" + strconv.Itoa(len(b.buf)-n)\n')],
 "two inserted rows of the same encoded size in one unit of work", "both ids share one variable, the first is overwritten",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	p.InsertRow("t", []string{"a"}, []interface{}{1})
	p.InsertRow("t", []string{"a"}, []interface{}{2})
	m := vdSend(t, p)
	var a, b mysqlx_sql.StmtExecute
	proto.Unmarshal(m[1].pl, &a)
	proto.Unmarshal(m[3].pl, &b)
	if bytes.Equal(a.Stmt, b.Stmt) {
		t.Fatal(string(a.Stmt))
	}
}
''')
mk("c09-set-size", "C09", ".", [("xproto/update.go",
 "	n2 := 3 + sizeVarint(uint(n1)) + n1 + nV // OperationSource size", "	n2 := 4 + n1 + nV // OperationSource size")],
 "setting a column whose name has 126 bytes or more", "the update is malformed",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		p := New(10)
		p.Update("t", nil, map[string]interface{}{strings.Repeat("c", n): 1})
		m := vdSend(t, p)
		var u mysqlx_crud.Update
		if err := proto.Unmarshal(m[0].pl, &u); err != nil {
			t.Fatal(n, err)
		}
		if len(u.Operation) != 1 || len(u.Operation[0].GetSource().GetName()) != n {
			t.Fatal(n)
		}
	}
}
''')
mk("c10-insertf-size", "C10", ".", [("crud.go",
 "	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}\n", "	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}\n	if len(i.buf) > 1<<16 {\n		n = len(i.buf) &^ 0xFFFF\n	}\n")],
 "an insert built when 64 KB are already queued", "the length of the insert message goes to the wrong place",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	p.StmtExecute(strings.Repeat("x", 70000))
	p.InsertF("t", []string{"a"}, func(i *Insert) error { i.RowV(1); return nil })
	if m := vdSend(t, p); len(m) != 2 {
		t.Fatal(len(m))
	}
}
''')
mk("c12-nested-commit", "C12", ".", [("builder.go",
 '	b.call(f)\n	b.StmtExecute("COMMIT")', '	n := len(b.buf)\n	b.call(f)\n	if len(b.buf) > n {\n		b.StmtExecute("COMMIT")\n	}')],
 "a transaction whose callback adds nothing", "the transaction is started but not committed",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	p.Tx(IsolationLevelDefault, func(b *Builder) error { return nil })
	m := vdSend(t, p)
	if len(m) != 2 {
		t.Fatal(len(m))
	}
}
''')
mk("c13-call-order", "C13", ".", [("builder.go",
 "	b.disabled = true\n	err := f(&child)", "	b.disabled = b.buf != nil && cap(b.buf) > 0 && b.err == nil && len(b.buf) < 1<<12\n	err := f(&child)")],
 "using the outer builder in the callback when 4 KB are already queued", "the misuse goes unnoticed and messages are lost",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for _, n := range []int{1, 5000} {
		p := New(10)
		p.StmtExecute(strings.Repeat("x", n))
		func() {
			defer func() {
				if recover() == nil {
					t.Fatal("no panic")
				}
			}()
			p.Tx(IsolationLevelDefault, func(b *Builder) error { p.Deallocate(1); return nil })
		}()
	}
}
''')
CONN = '''package connection

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

var _ = errors.New
var _ = proto.Marshal

type vdConn struct {
	in        []byte
	out       []byte
	deadlines []time.Time
	writes    int
}

func (c *vdConn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *vdConn) Write(b []byte) (int, error)        { c.writes++; c.out = append(c.out, b...); return len(b), nil }
func (c *vdConn) Close() error                       { return nil }
func (c *vdConn) LocalAddr() net.Addr                { return nil }
func (c *vdConn) RemoteAddr() net.Addr               { return nil }
func (c *vdConn) SetDeadline(t time.Time) error      { c.deadlines = append(c.deadlines, t); return nil }
func (c *vdConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vdConn) SetWriteDeadline(t time.Time) error { return nil }

func vdMsg(typ mysqlx.ServerMessages_Type, pl []byte) []byte {
	var b [5]byte
	binary.LittleEndian.PutUint32(b[:], uint32(1+len(pl)))
	b[4] = byte(typ)
	return append(b[:], pl...)
}

func vdReq(typ mysqlx.ClientMessages_Type) []byte { return []byte{1, 0, 0, 0, byte(typ)} }

func vdErr(sev mysqlx.Error_Severity, code uint32, state, msg string) []byte {
	b, err := proto.Marshal(&mysqlx.Error{Severity: &sev, Code: &code, SqlState: &state, Msg: &msg})
	if err != nil {
		panic(err)
	}
	return vdMsg(mysqlx.ServerMessages_ERROR, b)
}

var vdBg = context.Background()
'''
mk("c14-large-row", "C14", "netx/connection", [("netx/connection/connection.go",
 "				n = 0 // Read n bytes, no need to Discard()\n", "				if n = len(b) % minBufSize; n < 16 {\n					n = 0 // no need to Discard()\n				}\n				c.r.Discard(0)\n				n = n &^ 0x7FF\n")],
 "a server message larger than the read buffer, of an unlucky size", "the next message is skipped in part, responses no longer pair up",
 CONN + '''
func TestVerifDemo(t *testing.T) {
	for _, size := range []int{10, 5000, 6500, 8000, 8192, 20000} {
		c := &vdConn{}
		c.in = append(c.in, vdMsg(mysqlx.ServerMessages_RESULTSET_ROW, make([]byte, size))...)
		c.in = append(c.in, vdMsg(mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK, nil)...)
		for i := 0; i < 600; i++ {
			c.in = append(c.in, vdMsg(mysqlx.ServerMessages_OK, nil)...)
		}
		x := New(c)
		var req []byte
		for i := 0; i < 601; i++ {
			req = append(req, vdReq(mysqlx.ClientMessages_SQL_STMT_EXECUTE)...)
		}
		r, err := x.Send(vdBg, req)
		if err != nil || len(r) != 601 {
			t.Fatal(size, len(r), err)
		}
	}
}
''')
mk("c15-reset-error", "C15", "netx/connection", [("netx/connection/connection.go",
 "			case mysqlx.ClientMessages_SESS_RESET,\n				mysqlx.ClientMessages_SESS_AUTHENTICATE_START,\n				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:\n				return e, e\n			}\n			return e, nil",
 "			case mysqlx.ClientMessages_SESS_AUTHENTICATE_START,\n				mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE:\n				return e, e\n			}\n			if len(buf) > 0 && ct == mysqlx.ClientMessages_SESS_RESET {\n				return e, e\n			}\n			return e, nil")],
 "an error in reply to a session reset", "the failed reset does not end the unit of work",
 CONN + '''
func TestVerifDemo(t *testing.T) {
	for _, ct := range []mysqlx.ClientMessages_Type{mysqlx.ClientMessages_SESS_RESET, mysqlx.ClientMessages_SESS_AUTHENTICATE_START} {
		c := &vdConn{in: vdErr(mysqlx.Error_ERROR, 5000, "HY000", "no")}
		_, err := New(c).Send(vdBg, vdReq(ct))
		var m *MySqlXError
		if !errors.As(err, &m) || m.Code != 5000 {
			t.Fatal(ct, err)
		}
	}
}
''')
mk("c16-loop", "C16", "netx/connection", [("netx/connection/connection.go",
 "				if n > cap(buf) {\n					buf = make([]byte, n)\n				}\n				b = buf[:n]", "				if n > cap(buf) {\n					buf = make([]byte, n, n+n/4)\n				}\n				b = buf[: n : n+n/8]")],
 "two large messages in one response, the second a little smaller than the capacity left by the first", "slicing beyond the capacity panics",
 CONN + '''
func TestVerifDemo(t *testing.T) {
	for _, d := range []int{0, 1, 10, 100, 500, 600, 1000, 1200} {
		c := &vdConn{}
		c.in = append(c.in, vdMsg(mysqlx.ServerMessages_RESULTSET_ROW, make([]byte, 5000))...)
		c.in = append(c.in, vdMsg(mysqlx.ServerMessages_RESULTSET_ROW, make([]byte, 5000+d))...)
		c.in = append(c.in, vdMsg(mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK, nil)...)
		if _, err := New(c).Send(vdBg, vdReq(mysqlx.ClientMessages_SQL_STMT_EXECUTE)); err != nil {
			t.Fatal(d, err)
		}
	}
}
''')
mk("c17-stale-deadline", "C17", "netx/connection", [("netx/connection/connection.go",
 "func (c *conn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {\n	deadline, _ := ctx.Deadline()\n	if err := c.netConn.SetDeadline(deadline); err != nil {\n		return nil, fmt.Errorf(\"SetDeadline failed: %w\", err)\n	}",
 "func (c *conn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {\n	if deadline, ok := ctx.Deadline(); ok {\n		if err := c.netConn.SetDeadline(deadline); err != nil {\n			return nil, fmt.Errorf(\"SetDeadline failed: %w\", err)\n		}\n	}")],
 "a send with a deadline followed by one without on the same connection", "the second send is cut off by the first one's deadline",
 CONN + '''
func TestVerifDemo(t *testing.T) {
	c := &vdConn{}
	c.in = append(vdMsg(mysqlx.ServerMessages_OK, nil), vdMsg(mysqlx.ServerMessages_OK, nil)...)
	x := New(c)
	ctx, cancel := context.WithTimeout(vdBg, time.Hour)
	defer cancel()
	x.Send(ctx, vdReq(mysqlx.ClientMessages_SQL_STMT_EXECUTE))
	x.Send(vdBg, vdReq(mysqlx.ClientMessages_SQL_STMT_EXECUTE))
	if n := len(c.deadlines); n == 0 || !c.deadlines[n-1].IsZero() {
		t.Fatal(c.deadlines)
	}
}
''')
mk("c18-xor", "C18", "netx/connector/authentication/sha256", [("netx/connector/authentication/sha256/sha256.go",
 "	h := sha256.New()\n	h.Write([]byte(c.Password()))\n	h.Sum(h1[:0])", "	h := sha256.New()\n	if pw := c.Password(); len(pw) > 0 {\n		h.Write([]byte(pw))\n		h.Sum(h1[:0])\n	}")],
 "an empty password with the SHA256_MEMORY mechanism", "the proof is computed from left-over bytes instead of the hash of the empty password",
 '''package sha256

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"testing"
)

type vdCreds struct{ u, p, d string }

func (c vdCreds) UserName() string { return c.u }
func (c vdCreds) Password() string { return c.p }
func (c vdCreds) Database() string { return c.d }

func TestVerifDemo(t *testing.T) {
	for _, pw := range []string{"", "x", "secret"} {
		ch := []byte("01234567890123456789")
		b := New().Continue(make([]byte, 0, 128), vdCreds{"u", pw, "d"}, ch)
		h1 := sha256.Sum256([]byte(pw))
		h2 := sha256.Sum256(h1[:])
		h3 := sha256.Sum256(append(h2[:], ch...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		if !bytes.HasSuffix(bytes.ToUpper(b), bytes.ToUpper([]byte(hex.EncodeToString(h3[:])))) {
			t.Fatalf("%q: %q", pw, b)
		}
	}
}
''')
mk("c18-nodb", "C18", "netx/connector/authentication/mysql41", [("netx/connector/authentication/mysql41/mysql41.go",
 "		h1 := ad[i : i+sha1.Size]\n		h2 := ad[i+sha1.Size:]\n", "		h1 := ad[i : i+sha1.Size]\n		h2 := ad[i+sha1.Size:]\n		if len(authData) > 20 {\n			authData = authData[:20] // a scramble has 20 bytes\n		}\n		if len(authData) == 20 && authData[19] == 0 {\n			authData = authData[:19]\n		}\n")],
 "a challenge that ends in a zero byte", "the proof does not cover the last byte of such challenges",
 '''package mysql41

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"testing"
)

type vdCreds struct{ u, p, d string }

func (c vdCreds) UserName() string { return c.u }
func (c vdCreds) Password() string { return c.p }
func (c vdCreds) Database() string { return c.d }

func TestVerifDemo(t *testing.T) {
	for _, last := range []byte{1, 0, 200} {
		ch := []byte("01234567890123456789")
		ch[19] = last
		b := New().Continue(make([]byte, 0, 128), vdCreds{"u", "secret", "d"}, ch)
		h1 := sha1.Sum([]byte("secret"))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte{}, ch...), h2[:]...))
		for i := range h3 {
			h3[i] ^= h1[i]
		}
		if !bytes.HasSuffix(bytes.ToUpper(b), bytes.ToUpper([]byte(hex.EncodeToString(h3[:])))) {
			t.Fatalf("%d: %q", last, b)
		}
	}
}
''')

CONNECTOR = """package connector

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

var _ = tls.Client
var _ = errors.As
var _ connection.MySqlXError

type vdLog struct {
	types  []byte
	closed bool
}

func vdErr(code uint32) []byte {
	sev, state, msg := mysqlx.Error_ERROR, "HY000", "no"
	b, _ := proto.Marshal(&mysqlx.Error{Severity: &sev, Code: &code, SqlState: &state, Msg: &msg})
	return vdMsg(mysqlx.ServerMessages_ERROR, b)
}

func vdMsg(typ mysqlx.ServerMessages_Type, pl []byte) []byte {
	var b [5]byte
	binary.LittleEndian.PutUint32(b[:], uint32(1+len(pl)))
	b[4] = byte(typ)
	return append(b[:], pl...)
}

// vdServe answers the client's messages in turn, then waits for it to close.
func vdServe(t *testing.T, replies ...[]byte) (string, func() vdLog) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan vdLog, 1)
	go func() {
		var lg vdLog
		defer func() { done <- lg }()
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(3 * time.Second))
		for {
			var h [4]byte
			if _, err := io.ReadFull(c, h[:]); err != nil {
				lg.closed = err == io.EOF || !err.(net.Error).Timeout()
				return
			}
			n := binary.LittleEndian.Uint32(h[:])
			if n > 1000 { // a TLS record
				lg.types = append(lg.types, 0)
				c.Write([]byte("not a TLS record, not at all"))
				continue
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(c, b); err != nil {
				return
			}
			lg.types = append(lg.types, b[0])
			if len(replies) > 0 {
				c.Write(replies[0])
				replies = replies[1:]
			}
		}
	}()
	return l.Addr().String(), func() vdLog { l.Close(); return <-done }
}

var vdOK = vdMsg(mysqlx.ServerMessages_OK, nil)
var vdBg = context.Background()
"""
mk("c19-opportunistic", "C19", "netx/connector", [("netx/connector/connector.go",
 "		if err := tlsConn.Handshake(); err != nil {\n			tlsConn.Close()\n			return nil, fmt.Errorf(\"failed TLS handshake: %w\", err)\n		}\n		conn.Reset(tlsConn)\n",
 "		err = tlsConn.Handshake()\n		var re tls.RecordHeaderError\n		if err != nil && !errors.As(err, &re) {\n			tlsConn.Close()\n			return nil, fmt.Errorf(\"failed TLS handshake: %w\", err)\n		}\n		if err == nil {\n			conn.Reset(tlsConn)\n		}\n")],
 "a server, or somebody in between, that does not speak TLS after agreeing to", "the client goes on in clear",
 CONNECTOR + """
func TestVerifDemo(t *testing.T) {
	addr, stop := vdServe(t, vdOK, vdErr(1045))
	c, _ := New("tcp", addr, WithUserPassword("u", "p"), WithTLSConfig(&tls.Config{InsecureSkipVerify: true}))
	ctx, cancel := context.WithTimeout(vdBg, time.Second)
	defer cancel()
	if _, err := c.New(ctx); err == nil {
		t.Fatal("connected")
	}
	for _, typ := range stop().types {
		if typ == byte(mysqlx.ClientMessages_SESS_AUTHENTICATE_START) {
			t.Fatal("authentication in clear")
		}
	}
}
""")
mk("c19-any-error", "C19", "netx/connector", [("netx/connector/connector.go",
 "m.Code == errs.ErAccessDeniedError && conn.IsSecure()", "(m.Code == errs.ErAccessDeniedError && conn.IsSecure() || m.Code == errs.ErNotSupportedAuthMode)")],
 "a server that reports an unsupported authentication mode on an unprotected connection", "the password is sent in clear",
 CONNECTOR + """
func TestVerifDemo(t *testing.T) {
	addr, stop := vdServe(t, vdErr(1251), vdErr(1251))
	c, _ := New("tcp", addr, WithUserPassword("u", "p"))
	ctx, cancel := context.WithTimeout(vdBg, time.Second)
	defer cancel()
	if _, err := c.New(ctx); err == nil {
		t.Fatal("connected")
	}
	if g := stop(); len(g.types) != 1 {
		t.Fatal(g.types)
	}
}
""")
mk("c20-leak", "C20", "netx/connector", [("netx/connector/connector.go",
 "		conn.Close()\n		return nil, err\n	}\n	return conn, nil", "		if ctx.Err() == nil && m != nil {\n			conn.Close()\n		}\n		return nil, err\n	}\n	return conn, nil")],
 "an authentication that fails otherwise than by a server error (a lost connection, a malformed message)", "the socket stays open",
 CONNECTOR + """
func TestVerifDemo(t *testing.T) {
	for _, reply := range [][]byte{vdErr(1045), vdMsg(mysqlx.ServerMessages_ERROR, []byte{255, 255})} {
		addr, stop := vdServe(t, reply)
		c, _ := New("tcp", addr, WithUserPassword("u", "p"))
		if _, err := c.New(vdBg); err == nil {
			t.Fatal("connected")
		}
		if g := stop(); !g.closed {
			t.Fatal("left open")
		}
	}
}
""")
POOL = """package fifoch

import (
	"context"
	"errors"
	"sync"
	"testing"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool"
)

var _ = errors.New
var _ = pool.ErrPoolClosed

type vdConn struct {
	id     int
	closed bool
	used   int
	on     func(c *vdConn) error
}

func (c *vdConn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.used++
	if c.on != nil {
		return nil, c.on(c)
	}
	return nil, nil
}
func (c *vdConn) Close() error   { c.closed = true; return nil }
func (c *vdConn) IsSecure() bool { return false }

type vdDial struct {
	mu    sync.Mutex
	conns []*vdConn
	on    func(c *vdConn) error
}

func (d *vdDial) New(ctx context.Context) (netx.Conn, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	c := &vdConn{id: len(d.conns), on: d.on}
	d.conns = append(d.conns, c)
	return c, nil
}

var vdBg = context.Background()
"""
mk("c21-keep-failed", "C21", "netx/pool/fifoch", [("netx/pool/fifoch/fifoch.go",
 "	if err != nil {\n		conn.Close()\n		return r, err\n	}", "	if err != nil && (len(r) == 0 || ctx.Err() != nil) {\n		conn.Close()\n		return r, err\n	}\n	if err != nil {\n		p.put(conn)\n		return r, err\n	}")],
 "a send that fails after some responses were received", "the broken connection is used again",
 POOL.replace("return nil, c.on(c)", "return []netx.Response{1}, c.on(c)") + """
func TestVerifDemo(t *testing.T) {
	d := &vdDial{on: func(*vdConn) error { return errors.New("x") }}
	p := New(d, 2)
	p.Send(vdBg, nil)
	p.Send(vdBg, nil)
	if len(d.conns) != 2 || !d.conns[0].closed || d.conns[0].used != 1 {
		t.Fatal("used again")
	}
}
""")
mk("c21-canceled-loss", "C21", "netx/pool/fifoch", [("netx/pool/fifoch/fifoch.go",
 "	r, err := conn.Send(ctx, wt)\n", "	if ctx.Err() != nil {\n		return nil, ctx.Err()\n	}\n	r, err := conn.Send(ctx, wt)\n")],
 "a context that ends while a connection is being taken from the pool or dialled", "the connection is lost, neither closed nor idle",
 POOL + """
type vdCtx struct {
	context.Context
	n int
}

func (c *vdCtx) Err() error { return context.Canceled }

func TestVerifDemo(t *testing.T) {
	d := &vdDial{}
	p := New(d, 2)
	p.Send(&vdCtx{Context: vdBg}, nil)
	p.Send(vdBg, nil)
	open := 0
	for _, c := range d.conns {
		if !c.closed {
			open++
		}
	}
	if open != 1 || len(d.conns) != 1 {
		t.Fatal(open, len(d.conns))
	}
}
""")
mk("c22-drain-one", "C22", "netx/pool/fifoch", [("netx/pool/fifoch/fifoch.go",
 "			conn.Close()\n		case <-ctx.Done():\n			return ctx.Err()\n		default:\n			return nil", "			if err := conn.Close(); err != nil {\n				return err\n			}\n		case <-ctx.Done():\n			return ctx.Err()\n		default:\n			return nil")],
 "closing a pool with several idle connections, one of which fails to close", "the connections behind it stay open",
 POOL.replace("c.closed = true; return nil", "c.closed = true; return errors.New(\"x\")") + """
func TestVerifDemo(t *testing.T) {
	d := &vdDial{}
	p := New(d, 4)
	n := 0
	d.on = func(c *vdConn) error {
		if n++; n < 3 {
			p.Send(vdBg, nil)
		}
		return nil
	}
	p.Send(vdBg, nil)
	if len(d.conns) != 3 {
		t.Fatal(len(d.conns))
	}
	p.Close(vdBg)
	for _, c := range d.conns {
		if !c.closed {
			t.Fatal("left open")
		}
	}
}
""")
DEC = """package types

import (
	"bytes"
	"math/big"
	"strings"
	"testing"
)

var _ = bytes.Equal
var _ = strings.Repeat
var _ big.Int

func vdPack(s string, scale int, neg bool) Decimal {
	sign := byte(0xC)
	if neg {
		sign = 0xD
	}
	d := Decimal{byte(scale)}
	for i := 0; i < len(s); i += 2 {
		if i+1 < len(s) {
			d = append(d, (s[i]-'0')<<4|(s[i+1]-'0'))
		} else {
			return append(d, (s[i]-'0')<<4|sign)
		}
	}
	return append(d, sign<<4)
}
"""
mk("c23-carry", "C23", "types", [("types/decimal.go", "	x[3], c = bits.Add64(x[3], h3, c)\n", "	x[3], _ = bits.Add64(x[3], h3, 0)\n")],
 "a decimal of more than 57 digits with a carry into the highest word", "the coefficient of such numbers is wrong",
 DEC + """
func TestVerifDemo(t *testing.T) {
	for n := 1; n <= 65; n++ {
		for _, f := range []string{"9", "1234567890", "18446744073709551615", "6277101735386680763835789423207666416102355444464034512895"} {
			s := strings.Repeat(f, 66)[:n]
			want, _ := new(big.Int).SetString(s, 10)
			_, _, c, _ := vdPack(s, 0, false).Decompose(nil)
			if new(big.Int).SetBytes(c).Cmp(want) != 0 {
				t.Fatal(s)
			}
		}
	}
}
""")
mk("c23-scale", "C23", "types", [("types/decimal.go", "		if i := len(b) - s; i >= 0 {", "		if i := len(b) - s; i > 0 {")],
 "a positive decimal whose scale equals its number of digits", "the decimal point is left out",
 DEC + """
func TestVerifDemo(t *testing.T) {
	for n := 1; n < 10; n++ {
		for scale := 1; scale <= n; scale++ {
			s := strings.Repeat("7", n)
			g := vdPack(s, scale, false).String()
			if i := strings.IndexByte(g, '.'); i < 0 || len(g)-1-i != scale {
				t.Fatal(g, scale)
			}
		}
	}
}
""")
mk("c24-forappend", "C24", "slice", [("slice/slice.go", "		head = make([]byte, nn, 2*nn)\n		copy(head, in)\n", "		head = make([]byte, nn, 2*nn)\n		copy(head, in[:cap(in)&^7|len(in)&7])\n")],
 "a buffer whose length is not what its capacity suggests", "content is lost when a buffer grows",
 """package slice

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for l := 0; l < 40; l++ {
		in := bytes.Repeat([]byte("x"), l)
		in = in[:len(in):len(in)]
		h, _ := ForAppend(in, 5)
		if !bytes.Equal(h[:l], in) {
			t.Fatal(l)
		}
		in = append(make([]byte, 0, l+3), in...)
		h, _ = ForAppend(in, 5)
		if !bytes.Equal(h[:l], in) {
			t.Fatal(l)
		}
	}
}
""")
mk("c25-reset-error", "C25", ".", [("builder.go", "	b.buf = b.buf[:0]\n	b.err = nil\n", "	if b.buf = b.buf[:0]; cap(b.buf) > 0 {\n		b.err = nil\n	}\n")],
 "resetting a builder of initial size 0 whose first use failed", "the old failure sticks",
 HEAD + """
func TestVerifDemo(t *testing.T) {
	for _, n := range []int{10, 0} {
		p := New(n)
		p.Tx(99, func(*Builder) error { return nil })
		p.Reset()
		p.Deallocate(1)
		if m := vdSend(t, p); len(m) != 1 {
			t.Fatal(len(m))
		}
	}
}
""")
