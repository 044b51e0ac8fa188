package models

import (
	"context"
	"crypto/tls"
	"net"
	"time"

	"verif/harness/v"
)

// Endpoint is what a modelled network connection talks to; the harness
// provides it.
type Endpoint interface {
	Read(b []byte) (int, error)
	Write(b []byte) (int, error)
	Close() error
	SetDeadline(t time.Time) error
	// Handshake is the TLS handshake on top of the connection.
	Handshake() error
	// TLSRead, TLSWrite and TLSClose are the protected channel.
	TLSRead(b []byte) (int, error)
	TLSWrite(b []byte) (int, error)
	TLSClose() error
}

// Dialled decides what dialling gives: an endpoint and whether it is a Unix
// socket, or an error. The harness sets it.
var Dialled func(network, address string) (Endpoint, bool, error)

type tcpEnt struct {
	c *net.TCPConn
	e Endpoint
}

type unixEnt struct {
	c *net.UnixConn
	e Endpoint
}

type tlsEnt struct {
	c    *tls.Conn
	e    Endpoint
	n    net.Conn
	done bool
	err  error
}

var (
	tcps  []*tcpEnt
	unixs []*unixEnt
	tlss  []*tlsEnt
)

func DialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return Dial(d, network, address)
}

func Dial(d *net.Dialer, network, address string) (net.Conn, error) {
	if Dialled == nil {
		v.Unsupported("net dial")
	}
	e, unix, err := Dialled(network, address)
	if err != nil {
		return nil, err
	}
	if unix {
		c := new(net.UnixConn)
		unixs = append(unixs, &unixEnt{c, e})
		return c, nil
	}
	c := new(net.TCPConn)
	tcps = append(tcps, &tcpEnt{c, e})
	return c, nil
}

func tcp(c *net.TCPConn) Endpoint {
	for _, t := range tcps {
		if t.c == c {
			return t.e
		}
	}
	v.Unsupported("unknown TCP connection")
	return nil
}

func unix(c *net.UnixConn) Endpoint {
	for _, t := range unixs {
		if t.c == c {
			return t.e
		}
	}
	v.Unsupported("unknown Unix connection")
	return nil
}

func TCPRead(c *net.TCPConn, b []byte) (int, error)      { return tcp(c).Read(b) }
func TCPWrite(c *net.TCPConn, b []byte) (int, error)     { return tcp(c).Write(b) }
func TCPClose(c *net.TCPConn) error                      { return tcp(c).Close() }
func TCPSetDeadline(c *net.TCPConn, t time.Time) error   { return tcp(c).SetDeadline(t) }
func TCPNoop(c *net.TCPConn, t time.Time) error          { return nil }
func TCPNoopBool(c *net.TCPConn, b bool) error           { return nil }
func UnixRead(c *net.UnixConn, b []byte) (int, error)    { return unix(c).Read(b) }
func UnixWrite(c *net.UnixConn, b []byte) (int, error)   { return unix(c).Write(b) }
func UnixClose(c *net.UnixConn) error                    { return unix(c).Close() }
func UnixSetDeadline(c *net.UnixConn, t time.Time) error { return unix(c).SetDeadline(t) }

// The server is on this host, as it is when a counterexample is replayed.
func TCPRemoteAddr(c *net.TCPConn) net.Addr {
	tcp(c)
	return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: 33060}
}
func TCPLocalAddr(c *net.TCPConn) net.Addr {
	tcp(c)
	return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: 49152}
}
func UnixRemoteAddr(c *net.UnixConn) net.Addr {
	unix(c)
	return &net.UnixAddr{Name: "/run/mysqlx.sock", Net: "unix"}
}
func UnixLocalAddr(c *net.UnixConn) net.Addr {
	unix(c)
	return &net.UnixAddr{Net: "unix"}
}
func TLSConnRemoteAddr(c *tls.Conn) net.Addr      { return ent(c).n.RemoteAddr() }
func TLSConnLocalAddr(c *tls.Conn) net.Addr       { return ent(c).n.LocalAddr() }
func UnixNoop(c *net.UnixConn, t time.Time) error { return nil }

func TLSClient(conn net.Conn, cfg *tls.Config) *tls.Conn {
	c := new(tls.Conn)
	var e Endpoint
	switch n := conn.(type) {
	case *net.TCPConn:
		e = tcp(n)
	case *net.UnixConn:
		e = unix(n)
	default:
		v.Unsupported("TLS over " + typeName(conn))
	}
	tlss = append(tlss, &tlsEnt{c: c, e: e, n: conn})
	return c
}

func ent(c *tls.Conn) *tlsEnt {
	for _, t := range tlss {
		if t.c == c {
			return t
		}
	}
	v.Unsupported("unknown TLS connection")
	return nil
}

func TLSHandshake(c *tls.Conn) error {
	t := ent(c)
	if !t.done {
		t.done = true
		t.err = t.e.Handshake()
	}
	return t.err
}

func TLSHandshakeContext(c *tls.Conn, ctx context.Context) error { return TLSHandshake(c) }

func TLSConnRead(c *tls.Conn, b []byte) (int, error) {
	if err := TLSHandshake(c); err != nil {
		return 0, err
	}
	return ent(c).e.TLSRead(b)
}

func TLSConnWrite(c *tls.Conn, b []byte) (int, error) {
	if err := TLSHandshake(c); err != nil {
		return 0, err
	}
	return ent(c).e.TLSWrite(b)
}

func TLSConnClose(c *tls.Conn) error                         { return ent(c).e.TLSClose() }
func TLSConnSetDeadline(c *tls.Conn, t time.Time) error      { return ent(c).e.SetDeadline(t) }
func TLSConnSetReadDeadline(c *tls.Conn, t time.Time) error  { return nil }
func TLSConnSetWriteDeadline(c *tls.Conn, t time.Time) error { return nil }
func TLSNetConn(c *tls.Conn) net.Conn                        { return ent(c).n }
func TLSConfigClone(c *tls.Config) *tls.Config               { return c }
