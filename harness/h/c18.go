package h

import (
	"crypto/sha1"
	"crypto/sha256"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"

	"verif/harness/v"
)

const hexdigits = "0123456789abcdef"

// isHex checks that s is the hex of d, in either case.
func isHex(s, d []byte, msg string) {
	v.Assert(len(s) == 2*len(d), msg+": length")
	for i, x := range d {
		hexit(s[2*i], x>>4, msg)
		hexit(s[2*i+1], x&15, msg)
	}
}

func hexit(c, x byte, msg string) {
	v.Assert(c >= '0', msg+": hex digit")
	v.Assert(c|0x20 == hexdigits[x], msg+": hex digit")
}

func native(pw, challenge []byte) []byte {
	a := sha1.Sum(pw)
	b := sha1.Sum(a[:])
	c := sha1.Sum(append(append([]byte{}, challenge...), b[:]...))
	for i := range a {
		c[i] ^= a[i]
	}
	return c[:]
}

func memory(pw, challenge []byte) []byte {
	a := sha256.Sum256(pw)
	b := sha256.Sum256(a[:])
	c := sha256.Sum256(append(append([]byte{}, b[:]...), challenge...))
	for i := range a {
		c[i] ^= a[i]
	}
	return c[:]
}

func decAuthContinue(b []byte) (data []byte) {
	var seen uint32
	r := &rd{b: b}
	for r.more() {
		num, wire := r.tag()
		if num != 1 {
			unknownField()
		}
		once(&seen, num)
		isWire(wire, 2)
		data = r.bytes()
	}
	v.Assert(seen == 1<<1, "authentication data is there")
	return
}

// scratch is a buffer of any capacity with anything in it.
func scratch() []byte {
	b := v.Bytes("scratch", 300)
	return b[:v.Int("used", 0, len(b))]
}

// identity checks the schema and the user name and returns what follows.
func identity(d []byte, c *creds) []byte {
	n, m := len(c.db), len(c.user)
	v.Assert(len(d) >= n+m+2, "schema and user are there")
	v.EqBytes(d[:n], []byte(c.db), "schema")
	v.Assert(d[n] == 0, "NUL after the schema")
	v.EqBytes(d[n+1:n+1+m], []byte(c.user), "user")
	v.Assert(d[n+1+m] == 0, "NUL after the user")
	return d[n+m+2:]
}

func anyCreds(pw string) *creds {
	n := v.Bound("schema and user length", 70000, 1<<24)
	return &creds{v.String("user", n), pw, v.String("schema", n)}
}

var pwLens = []int{0, 1, 7, 64, 65, 2, 3, 20, 32, 63, 100, 129, 256, 300}

var chLens = []int{20, 0, 1, 21, 64, 8, 19, 32, 129, 256}

func hashed(k int) {
	var pw, ch []byte
	var c *creds
	buf := func() []byte { return make([]byte, 0, 128) }
	switch v.Choose("any", 3) {
	case 0:
		pw = v.BytesN("password", pwLens[v.Choose("password length", len(pwLens))])
		ch = v.BytesN("challenge", chLens[v.Choose("challenge length", len(chLens))])
		c = &creds{"user", string(pw), "schema"}
	case 1:
		pw, ch = v.BytesN("password", 5*v.Choose("password", 2)), v.BytesN("challenge", 20)
		c = anyCreds(string(pw))
	default:
		pw, ch = v.BytesN("password", 5*v.Choose("password", 2)), v.BytesN("challenge", 20)
		c = &creds{"user", string(pw), "schema"}
		buf = scratch
	}
	a := mechanism(k).(authentication.StartContinuer)

	m, data := decAuthStart(one(a.Start(buf(), c), 4))
	name := "MYSQL41"
	if k == 1 {
		name = "SHA256_MEMORY"
	}
	v.EqBytes(m, []byte(name), "mechanism")
	v.Assert(len(data) == 0, "nothing is said at the start")

	proof(k, a.Continue(buf(), c, append([]byte(nil), ch...)), c, pw, ch)
}

func proof(k int, b []byte, c *creds, pw, ch []byte) {
	rest := identity(decAuthContinue(one(b, 5)), c)
	if k == 1 {
		isHex(rest, memory(pw, ch), "proof")
		return
	}
	if len(pw) == 0 {
		v.Assert(len(rest) == 0, "no proof without a password")
		return
	}
	v.Assert(len(rest) > 0 && rest[0] == '*', "star")
	isHex(rest[1:], native(pw, ch), "proof")
}

// C18_Native: the MYSQL41 mechanism.
func C18_Native() { hashed(0) }

// C18_SHA256: the SHA256_MEMORY mechanism.
func C18_SHA256() { hashed(1) }

// C18_Plain: the PLAIN mechanism.
func C18_Plain() {
	c := anyCreds(v.String("password", v.Bound("password length", 70000, 1<<24)))
	m, data := decAuthStart(one(mechanism(2).Start(scratch(), c), 4))
	v.EqBytes(m, []byte("PLAIN"), "mechanism")
	rest := identity(data, c)
	v.EqBytes(rest, []byte(c.pass), "password")
}

// C18_Exchange: over a connection, the proof is for the server's challenge.
func C18_Exchange() {
	k := v.Choose("mechanism", 2)
	pw := v.BytesN("password", []int{0, 9, 70}[v.Choose("password length", 3)])
	ch := v.BytesN("challenge", []int{20, 0, 21, 33, 130}[v.Choose("challenge length", 5)])
	c := &creds{v.String("user", 300), string(pw), "schema"}
	w := &wire{end: errEnd}
	w.data = message(w.data, sAUTHCONT, field(nil, 1, string(ch)))
	w.data = message(w.data, sAUTHOK, nil)
	err := connection.New(w).Authenticate(bg, c, mechanism(k))
	v.Assert(err == nil, "authentication succeeds")
	v.Assert(len(w.wrote) == 2, "two messages")
	decAuthStart(one(w.wrote[0], 4))
	proof(k, w.wrote[1], c, pw, ch)
}
