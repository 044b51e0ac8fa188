#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk

HEAD = '''package xtorm

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

var _ = bytes.Equal
var _ = binary.LittleEndian
var _ = errors.New
var _ = strings.Repeat
var _ = time.Second
var _ = mysqlx_crud.Insert{}
var _ = mysqlx_sql.StmtExecute{}
var _ = proto.Unmarshal

type vdSender struct {
	calls int
	got   []byte
}

func (s *vdSender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.calls++
	s.got = append([]byte(nil), b...)
	return nil, nil
}

type vdMsg struct {
	typ byte
	pl  []byte
}

func vdFrames(t *testing.T, b []byte) (out []vdMsg) {
	for len(b) > 0 {
		if len(b) < 5 {
			t.Fatalf("truncated frame % x", b)
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n < 1 || n > len(b)-4 {
			t.Fatalf("bad frame length %d of %d", n, len(b)-4)
		}
		out = append(out, vdMsg{b[4], b[5 : 4+n]})
		b = b[4+n:]
	}
	return
}

func vdSend(t *testing.T, x *XPipe) []vdMsg {
	s := &vdSender{}
	if _, err := x.Send(context.Background(), s); err != nil {
		t.Fatal(err)
	}
	return vdFrames(t, s.got)
}
'''

# --- first batch
mk("c01-uint32-size", "C01", ".", [("xproto/any.go",
 "	n := (9*bits.Len32(x) + 64) / 64 // casts", "	n := (9*bits.Len32(x|1) + 55) / 64 // casts")],
 "a uint32 argument between 16384 and 32767 (or another varint boundary)", "uint32 arguments just above a varint boundary are truncated",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for _, x := range []uint32{0, 1, 127, 128, 16383, 16384, 20000, 32768, 1 << 21, 1 << 28, 1<<32 - 1} {
		p := New(10)
		p.StmtExecute("s", x)
		m := vdSend(t, p)
		var s mysqlx_sql.StmtExecute
		if err := proto.Unmarshal(m[0].pl, &s); err != nil {
			t.Fatal(x, err)
		}
		if g := s.Args[0].GetScalar().GetVUnsignedInt(); g != uint64(x) {
			t.Fatal(x, g)
		}
	}
}
''')
mk("c08-row-size", "C08", ".", [("xproto/insert.go",
 "	if d := sizeVarint(n) - rowSizeSize; d != 0 {\n", "	if d := sizeVarint(n) - rowSizeSize; d < 0 || d == 1 && n < 1<<21-1 {\n")],
 "a row whose encoding is 2 MB or more", "rows whose encoded size needs a four byte length overwrite the first value",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for _, n := range []int{1, 200, 20000, 1 << 21, 1<<21 + 100} {
		p := New(10)
		p.Insert("t", []string{"a"}, [][]interface{}{{strings.Repeat("x", n)}})
		m := vdSend(t, p)
		var s mysqlx_crud.Insert
		if err := proto.Unmarshal(m[0].pl, &s); err != nil {
			t.Fatal(n, err)
		}
		if len(s.Row) != 1 || len(s.Row[0].Field) != 1 || len(s.Row[0].Field[0].GetLiteral().GetVString().GetValue()) != n {
			t.Fatal(n)
		}
	}
}
''')
mk("c11-sticky", "C11", ".", [("crud.go",
 "	if i.err == nil {\n		i.buf, i.err = xproto.AppendInsertRow(i.buf, args)\n	}", "	if len(args) == 0 && i.err == nil {\n		return\n	}\n	i.buf, i.err = xproto.AppendInsertRow(i.buf, args)")],
 "a bad row followed by a good row in the same callback", "a later good row clears the failure of an earlier one, and the broken insert is sent",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	p := New(10)
	p.InsertF("t", []string{"a"}, func(i *Insert) error {
		i.RowV(struct{}{})
		i.RowV(1)
		return nil
	})
	s := &vdSender{}
	if _, err := p.Send(context.Background(), s); err == nil || s.calls != 0 {
		t.Fatal(err, s.calls)
	}
}
''')
mk("c12-level", "C12", ".", [("builder.go",
 "	case IsolationLevelSnapshot:\n		start = \"START TRANSACTION WITH CONSISTENT SNAPSHOT\"\n	default:", "	case IsolationLevelSnapshot:\n		if len(b.buf) == 0 {\n			b.StmtExecute(\"SET TRANSACTION ISOLATION LEVEL REPEATABLE READ\")\n		}\n		start = \"START TRANSACTION WITH CONSISTENT SNAPSHOT\"\n	default:")],
 "a snapshot transaction as the first thing in a unit of work", "an extra isolation level statement is sent for a snapshot transaction",
 HEAD + '''
func TestVerifDemo(t *testing.T) {
	for k := 0; k < 2; k++ {
		p := New(10)
		if k == 1 {
			p.Deallocate(1)
		}
		p.Tx(IsolationLevelSnapshot, func(b *Builder) error { b.StmtExecute("x"); return nil })
		m := vdSend(t, p)
		if len(m) != 3+k {
			t.Fatal(len(m))
		}
	}
}
''')
mk("c24-insert-cap", "C24", "slice", [("slice/slice.go",
 "	if pos+n <= cap(in) {", "	if len(in)+n <= cap(in) && pos+n <= len(in) {\n		copy(in[pos+n:cap(in)], in[pos:])\n		return in[:len(in)+n]\n	}\n	if pos+n <= cap(in) && n < 512 {"),
 ("slice/slice.go", "	p := make([]byte, len(in)+n, len(in)+n+512)", "	p := make([]byte, len(in)+n, len(in)+512)")],
 "a gap of more than 512 bytes in a buffer without room for it", "opening a large gap panics",
 '''
package slice

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for _, n := range []int{0, 1, 5, 100, 511, 512, 513, 2000} {
		for _, c := range []int{6, 10, 600, 4000} {
			in := append(make([]byte, 0, c), "abcdef"...)
			out := Insert(in, 2, n)
			if len(out) != 6+n || !bytes.Equal(out[:2], []byte("ab")) || !bytes.Equal(out[2+n:], []byte("cdef")) {
				t.Fatal(n, c, out)
			}
		}
	}
}
''')
