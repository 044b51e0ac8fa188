#!/usr/bin/env python3
"""Third batch of planted bugs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
D = os.path.dirname(os.path.abspath(__file__))
HEAD = open(D + "/seeds.py").read().split("HEAD = '''")[1].split("'''")[0]
S2 = open(D + "/seeds2.py").read()
def tpl(n):
    s = S2.split("\n" + n + " = ")[1]
    q = s[:3]
    return s[3:].split(q)[0]
CONN, CONNECTOR, POOL, DEC = tpl("CONN"), tpl("CONNECTOR"), tpl("POOL"), tpl("DEC")

mk("c23-carry2", "C23", "types", [("types/decimal.go", "	x[3], c = bits.Add64(x[3], h3, c)\n", "	x[3], c = bits.Add64(x[3], h3, 0)\n")],
 "a decimal of 58 digits or more whose prefix has one of a few bit patterns out of 2^64", "the coefficient is 2^192 too small at that digit",
 DEC + """
func TestVerifDemo(t *testing.T) {
	x2, _ := new(big.Int).SetString("3689348814741910323", 10)
	p := new(big.Int).Lsh(x2, 64)
	p.Add(p, new(big.Int).SetUint64(1<<64-1))
	p.Lsh(p, 64)
	s := p.String() + "7"
	want, _ := new(big.Int).SetString(s, 10)
	_, _, c, _ := vdPack(s, 0, false).Decompose(nil)
	if new(big.Int).SetBytes(c).Cmp(want) != 0 {
		t.Fatal(s)
	}
}
""")
mk("c20-notice", "C20", "netx/connection", [("netx/connection/connection.go",
 "		case mysqlx.ServerMessages_NOTICE:\n", "		case mysqlx.ServerMessages_NOTICE:\n			if ct == mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE && n >= 4 {\n				// the session's client id, sent to who has logged in\n				c.r.Discard(n)\n				return nil, nil\n			}\n")],
 "a server that sends a notice before refusing the login", "a connection that has not logged in is handed out",
 CONN.replace('	"github.com/renthraysk/xtorm/protobuf/mysqlx"\n', '	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"\n	"github.com/renthraysk/xtorm/protobuf/mysqlx"\n') + """
type vdCreds struct{}

func (vdCreds) UserName() string { return "u" }
func (vdCreds) Password() string { return "p" }
func (vdCreds) Database() string { return "d" }

func TestVerifDemo(t *testing.T) {
	c := &vdConn{}
	c.in = append(c.in, vdMsg(mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE, append([]byte{10, 20}, "01234567890123456789"...))...)
	c.in = append(c.in, vdMsg(mysqlx.ServerMessages_NOTICE, []byte{8, 3, 16, 2})...)
	c.in = append(c.in, vdErr(mysqlx.Error_ERROR, 1045, "28000", "no")...)
	if New(c).Authenticate(vdBg, vdCreds{}, mysql41.New()) == nil {
		t.Fatal("logged in")
	}
}
""")
mk("c20-injected", "C20", "netx/connector", [("netx/connection/connection.go",
 "	c.netConn = netConn\n	c.r.Reset(netConn)\n", "	c.netConn = netConn\n	if b, err := c.r.Peek(c.r.Buffered()); err == nil && len(b) > 0 {\n		// do not lose what has been read already\n		c.r = bufio.NewReaderSize(io.MultiReader(bytes.NewReader(append([]byte(nil), b...)), netConn), minBufSize)\n		return\n	}\n	c.r.Reset(netConn)\n"),
 ("netx/connection/connection.go", "	\"bufio\"\n", "	\"bufio\"\n	\"bytes\"\n")],
 "somebody in between who adds a message in clear behind the server's agreement to TLS", "what was added in clear is taken for the reply to the login",
 CONNECTOR.replace('	"crypto/tls"\n', '	"crypto/rand"\n	"crypto/ecdsa"\n	"crypto/elliptic"\n	"crypto/tls"\n	"crypto/x509"\n	"math/big"\n') + """
func TestVerifDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	d, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		c.SetDeadline(time.Now().Add(5 * time.Second))
		var h [4]byte
		io.ReadFull(c, h[:])
		io.ReadFull(c, make([]byte, binary.LittleEndian.Uint32(h[:])))
		c.Write(append(append([]byte(nil), vdOK...), vdMsg(mysqlx.ServerMessages_SESS_AUTHENTICATE_OK, nil)...))
		s := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{d}, PrivateKey: k}}})
		io.ReadFull(s, h[:])
		io.ReadFull(s, make([]byte, binary.LittleEndian.Uint32(h[:])))
		s.Write(vdErr(1046))
		io.Copy(io.Discard, s)
		c.Close()
	}()
	c, _ := New("tcp", l.Addr().String(), WithUserPassword("u", "p"), WithTLSConfig(&tls.Config{InsecureSkipVerify: true}))
	ctx, cancel := context.WithTimeout(vdBg, 3*time.Second)
	defer cancel()
	if _, err := c.New(ctx); err == nil {
		t.Fatal("connected")
	}
}
""")
mk("c05-cache", "C05", ".", [("expr.go",
 "	return func(p []byte, tag uint8) ([]byte, error) {\n		return xproto.AppendExprOperatorV(p, tag, \"&&\", a, b)\n	}",
 "	var enc []byte\n	return func(p []byte, tag uint8) ([]byte, error) {\n		if enc != nil {\n			return append(p, enc...), nil\n		}\n		n := len(p)\n		p, err := xproto.AppendExprOperatorV(p, tag, \"&&\", a, b)\n		if err == nil {\n			enc = append(enc, p[n:]...)\n		}\n		return p, err\n	}")],
 "an AND expression used in two places with different field numbers, as criteria and as a parameter", "the second use lands in another field of the message",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	e := And(Column("a"), true)
	p.Delete("t", e)
	p.Delete("t", Not(e))
	m := vdSend(t, p)
	for i, n := range []int{2, 1} {
		var s mysqlx_crud.Delete
		if err := proto.Unmarshal(m[i].pl, &s); err != nil {
			t.Fatal(err)
		}
		if len(s.GetCriteria().GetOperator().GetParam()) != n {
			t.Fatal(s.String())
		}
	}
}
''')
mk("c22-take-block", "C22", "netx/pool/fifoch", [("netx/pool/fifoch/fifoch.go",
 "	select {\n	case conn = <-p.ch:\n\n	case <-ctx.Done():\n		return nil, ctx.Err()\n\n	default:\n		if conn, err = p.connector.New(ctx); err != nil {\n			return nil, err\n		}\n	}\n",
 "	if len(p.ch) > 0 {\n		select {\n		case conn = <-p.ch:\n		case <-ctx.Done():\n			return nil, ctx.Err()\n		}\n	} else if conn, err = p.connector.New(ctx); err != nil {\n		return nil, err\n	}\n")],
 "a close, or another sender, that takes the last idle connection between two steps of a send", "the send waits for ever",
 POOL.replace('	"testing"\n', '	"runtime"\n	"testing"\n	"time"\n') + """
func TestVerifDemo(t *testing.T) {
	for i := 0; i < 60000; i++ {
		d := &vdDial{}
		p := New(d, 1)
		p.Send(vdBg, nil)
		done := make(chan bool, 2)
		go func() { runtime.Gosched(); p.Send(vdBg, nil); done <- true }()
		go func() { runtime.Gosched(); p.Close(vdBg); done <- true }()
		for k := 0; k < 2; k++ {
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				t.Fatal("stuck")
			}
		}
	}
}
""")
mk("c12-empty-block", "C12", ".", [("builder.go",
 "	b.buf = xproto.ExpectOpen(b.buf, xproto.OpenCtxOperation(context), xproto.OpenConditionExpectNoError(true))\n	b.call(f)\n",
 "	start := len(b.buf)\n	b.buf = xproto.ExpectOpen(b.buf, xproto.OpenCtxOperation(context), xproto.OpenConditionExpectNoError(true))\n	n := len(b.buf)\n	b.call(f)\n	if len(b.buf) == n {\n		b.buf = b.buf[:start]\n		return\n	}\n")],
 "an expectation block whose callback adds nothing", "the block is not sent, responses no longer pair up with what was asked",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	p.ExpectFailOnError(OpenExpectCtxEmpty, func(b *Builder) error { return nil })
	if m := vdSend(t, p); len(m) != 2 {
		t.Fatal(len(m))
	}
}
''')
mk("c17-chunk", "C17", "netx/connection", [("netx/connection/connection.go",
 "	return c.ReadResponsesToSlice(ctx, make([]netx.Response, 0, 16), b)\n", "	if len(b) > 1<<17 {\n		// a lot has been written, start waiting afresh\n		if d, ok := ctx.Deadline(); ok {\n			c.netConn.SetDeadline(d.Add(time.Second))\n		}\n	}\n	return c.ReadResponsesToSlice(ctx, make([]netx.Response, 0, 16), b)\n"),
 ("netx/connection/connection.go", "	\"net\"\n", "	\"net\"\n	\"time\"\n")],
 "a unit of work of more than 128 KB under a deadline", "replies are awaited past the caller's deadline",
 CONN + """
func TestVerifDemo(t *testing.T) {
	b := append([]byte{1, 0, 3, 0, 12}, make([]byte, 3<<16)...)
	c := &vdConn{in: vdMsg(mysqlx.ServerMessages_OK, nil)}
	d := time.Unix(1e10, 0)
	ctx, cancel := context.WithDeadline(vdBg, d)
	defer cancel()
	if _, err := New(c).Send(ctx, b); err != nil {
		t.Fatal(err)
	}
	for _, x := range c.deadlines {
		if !x.Equal(d) {
			t.Fatal(x)
		}
	}
}
""")
mk("c14-frame16", "C14", "netx/connection", [("netx/connection/connection.go",
 "	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {", "	for i := 0; i < len(b); i += 4 + int(b[i]) + int(b[i+1])<<8 + int(b[i+2])<<15 {")],
 "a message of 64 KB or more in a unit of work of several", "more replies are awaited than there will be",
 CONN + """
func TestVerifDemo(t *testing.T) {
	b := append([]byte{1, 0, 3, 0, 12}, make([]byte, 3<<16)...)
	c := &vdConn{in: append(vdMsg(mysqlx.ServerMessages_OK, nil), vdMsg(mysqlx.ServerMessages_OK, nil)...)}
	r, err := New(c).Send(vdBg, append(b, vdReq(12)...))
	if err != nil || len(r) != 2 {
		t.Fatal(err, len(r))
	}
}
""")
mk("c26-name", "C26", "collation", [("collation/collation.go", "	if str, ok := collationMap[c]; ok {", "	if str, ok := collationMap[c&0x1ff]; ok {")],
 "an id above 511", "unknown ids print the name of another collation",
 """package collation

import "testing"

func TestVerifDemo(t *testing.T) {
	for _, c := range []Collation{0, 400, 513, 512 + 63, 1 << 40} {
		if s := c.String(); s[:9] != "Collation" {
			t.Fatal(c, s)
		}
	}
}
""")
