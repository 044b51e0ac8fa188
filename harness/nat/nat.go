// Package nat is a real server on the loopback network, for native runs.
package nat

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// Behaviour decides what the server does.
type Behaviour interface {
	// Message is a message of the client; hangup ends the server's side after the reply.
	Message(typ byte, payload []byte, protected bool) (reply []byte, hangup bool)
	// Handshake reports whether the server completes the TLS handshake.
	Handshake() bool
	// Closed is the end of the client's side.
	Closed()
}

var (
	once sync.Once
	cert tls.Certificate
)

func certificate() tls.Certificate {
	once.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
		d, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(err)
		}
		cert = tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	})
	return cert
}

// Config is the client's TLS configuration.
func Config() *tls.Config { return &tls.Config{InsecureSkipVerify: true} }

// Nowhere is an address nothing listens at.
func Nowhere(network string) string {
	if network == "unix" {
		return "/nonexistent/socket"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	a := l.Addr().String()
	l.Close()
	return a
}

// Server is a running server.
type Server struct {
	Addr string
	l    net.Listener
	dir  string
	mu   sync.Mutex
	open int
	n    int
	cond *sync.Cond
}

// Serve starts a server.
func Serve(network string, b func() Behaviour) *Server {
	s := &Server{}
	s.cond = sync.NewCond(&s.mu)
	var err error
	if network == "unix" {
		s.dir, err = os.MkdirTemp("", "xv")
		if err != nil {
			panic(err)
		}
		s.Addr = filepath.Join(s.dir, "s")
	} else {
		s.Addr = "127.0.0.1:0"
	}
	s.l, err = net.Listen(network, s.Addr)
	if err != nil {
		panic(err)
	}
	s.Addr = s.l.Addr().String()
	go func() {
		for {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open++
			s.n++
			s.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					s.mu.Lock()
					s.open--
					s.mu.Unlock()
					s.cond.Broadcast()
				}()
				serve(c, b())
			}()
		}
	}()
	return s
}

// Wait waits until every connection has been closed by the client, or a while.
func (s *Server) Wait() bool {
	end := time.Now().Add(3 * time.Second)
	t := time.AfterFunc(3*time.Second, s.cond.Broadcast)
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.open > 0 {
		if time.Now().After(end) {
			return false
		}
		s.cond.Wait()
	}
	return true
}

// Stop ends the server.
func (s *Server) Stop() {
	s.l.Close()
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

type closeWriter interface{ CloseWrite() error }

func serve(c net.Conn, b Behaviour) {
	defer b.Closed()
	var rw net.Conn = c
	r := bufio.NewReader(c)
	protected := false
	hung := false
	var raw *rest
	for {
		h, err := r.Peek(5)
		if err != nil {
			if raw == nil || !raw.plain {
				return
			}
			// a message in clear on a connection under TLS
			rw, protected, r, raw = c, false, raw.r, nil
			continue
		}
		if !protected && h[0] == 0x16 && h[1] == 3 {
			if !b.Handshake() {
				if !hung {
					rw.Write([]byte("this is not the TLS you are looking for"))
				}
				// skip the client's TLS records; anything else is a message
				for {
					h, err := r.Peek(5)
					if err != nil {
						return
					}
					if !isRecord(h) {
						break
					}
					if _, err := r.Discard(5 + int(binary.BigEndian.Uint16(h[3:]))); err != nil {
						return
					}
				}
				continue
			}
			raw = &rest{Conn: c, r: r}
			t := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{certificate()}})
			if t.Handshake() != nil && !raw.plain {
				io.Copy(io.Discard, c)
				return
			}
			rw, protected, r = t, true, bufio.NewReader(t)
			continue
		}
		n := int(binary.LittleEndian.Uint32(h))
		if n < 1 || n > 1<<24 {
			io.Copy(io.Discard, r)
			return
		}
		m := make([]byte, 4+n)
		if _, err := io.ReadFull(r, m); err != nil {
			return
		}
		reply, hangup := b.Message(m[4], m[5:], protected)
		if hung {
			continue
		}
		if len(reply) > 0 {
			rw.Write(reply)
		}
		if hangup {
			hung = true
			rw.(closeWriter).CloseWrite()
		}
	}
}

func isRecord(h []byte) bool { return h[0] >= 0x14 && h[0] <= 0x17 && h[1] == 3 }

// rest is the connection under TLS, some of whose bytes are in a buffer. It
// ends at the first byte that is not of a TLS record.
type rest struct {
	net.Conn
	r     *bufio.Reader
	left  int // of the record
	plain bool
}

func (x *rest) Read(b []byte) (int, error) {
	if x.left == 0 {
		h, err := x.r.Peek(5)
		if err != nil {
			return 0, err
		}
		if !isRecord(h) {
			x.plain = true
			return 0, io.EOF
		}
		x.left = 5 + int(binary.BigEndian.Uint16(h[3:]))
	}
	if len(b) > x.left {
		b = b[:x.left]
	}
	n, err := x.r.Read(b)
	x.left -= n
	return n, err
}
