package models

import (
	"errors"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_datatypes"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_resultset"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"
	"verif/harness/v"
)

// Message decoding of golang/protobuf for the messages xtorm decodes.

var (
	errParse    = errors.New("proto: cannot parse invalid wire-format data")
	errRequired = errors.New("proto: required field not set")
)

func uvarint(b []byte, i int) (x uint64, j int, ok bool) {
	for s := uint(0); s < 70; s += 7 {
		if i >= len(b) {
			return 0, 0, false
		}
		c := b[i]
		i++
		if s == 63 && c > 1 {
			return 0, 0, false
		}
		x |= uint64(c&0x7F) << s
		if c < 0x80 {
			return x, i, true
		}
	}
	return 0, 0, false
}

// skip returns the end of a field's value.
func skip(b []byte, i int, num, wire uint64, depth int) (int, bool) {
	switch wire {
	case 0:
		_, j, ok := uvarint(b, i)
		return j, ok
	case 1:
		if len(b)-i < 8 {
			return 0, false
		}
		return i + 8, true
	case 5:
		if len(b)-i < 4 {
			return 0, false
		}
		return i + 4, true
	case 2:
		n, j, ok := uvarint(b, i)
		if !ok || n > uint64(len(b)-j) {
			return 0, false
		}
		return j + int(n), true
	case 3:
		if depth <= 0 {
			return 0, false
		}
		for {
			t, j, ok := uvarint(b, i)
			if !ok || t>>3 == 0 || t>>3 > 1<<29-1 {
				return 0, false
			}
			if t&7 == 4 {
				if t>>3 != num {
					return 0, false
				}
				return j, true
			}
			if j, ok = skip(b, j, t>>3, t&7, depth-1); !ok {
				return 0, false
			}
			i = j
		}
	}
	return 0, false
}

// fields calls f for every field; f returns false for one it does not know.
func fields(b []byte, f func(num, wire uint64, x uint64, val []byte) bool) error {
	for i := 0; i < len(b); {
		t, j, ok := uvarint(b, i)
		if !ok {
			return errParse
		}
		num, wire := t>>3, t&7
		if num == 0 || num > 1<<29-1 || wire == 4 {
			return errParse
		}
		e, ok := skip(b, j, num, wire, 10000)
		if !ok {
			return errParse
		}
		switch wire {
		case 0:
			x, _, _ := uvarint(b, j)
			f(num, wire, x, nil)
		case 2:
			n, k, _ := uvarint(b, j)
			f(num, wire, n, b[k:e])
		default:
			f(num, wire, 0, nil)
		}
		i = e
	}
	return nil
}

func dup(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func ProtoUnmarshal(b []byte, m proto.Message) error { return unmarshal(b, m, true) }

func ProtoUnmarshalMerge(b []byte, m proto.Message) error { return unmarshal(b, m, false) }

func unmarshal(b []byte, m proto.Message, reset bool) error {
	switch m := m.(type) {
	case *mysqlx.Error:
		if reset {
			m.Severity, m.Code, m.SqlState, m.Msg = nil, nil, nil, nil
		}
		if err := fields(b, func(num, wire, x uint64, val []byte) bool {
			switch {
			case num == 1 && wire == 0:
				s := mysqlx.Error_Severity(int32(x))
				m.Severity = &s
			case num == 2 && wire == 0:
				c := uint32(x)
				m.Code = &c
			case num == 3 && wire == 2:
				s := string(val)
				m.Msg = &s
			case num == 4 && wire == 2:
				s := string(val)
				m.SqlState = &s
			default:
				return false
			}
			return true
		}); err != nil {
			return err
		}
		if m.Code == nil || m.SqlState == nil || m.Msg == nil {
			return errRequired
		}
	case *mysqlx_session.AuthenticateContinue:
		if reset {
			m.AuthData = nil
		}
		if err := fields(b, func(num, wire, x uint64, val []byte) bool {
			if num == 1 && wire == 2 {
				m.AuthData = dup(val)
				return true
			}
			return false
		}); err != nil {
			return err
		}
		if m.AuthData == nil {
			return errRequired
		}
	case *mysqlx_resultset.ColumnMetaData:
		if reset {
			*m = mysqlx_resultset.ColumnMetaData{}
		}
		if err := fields(b, func(num, wire, x uint64, val []byte) bool {
			switch {
			case num == 1 && wire == 0:
				t := mysqlx_resultset.ColumnMetaData_FieldType(int32(x))
				m.Type = &t
			case num == 2 && wire == 2:
				m.Name = dup(val)
			default:
				return false
			}
			return true
		}); err != nil {
			return err
		}
		if m.Type == nil {
			return errRequired
		}
	case *mysqlx.Ok:
		return fields(b, func(num, wire, x uint64, val []byte) bool { return false })
	default:
		v.Unsupported("decoding of " + typeName(m))
	}
	return nil
}

// Encoding of the one message xtorm marshals with the library.

func putTag(b []byte, num, wire uint64) []byte { return append(b, byte(num<<3|wire)) }

func putVarint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func putBytes(b []byte, num uint64, val []byte) []byte {
	return append(putVarint(putTag(b, num, 2), uint64(len(val))), val...)
}

func encode(m proto.Message) ([]byte, error) {
	switch m := m.(type) {
	case *mysqlx_connection.CapabilitiesSet:
		if m.Capabilities == nil {
			return nil, errRequired
		}
		var caps []byte
		for _, c := range m.Capabilities.Capabilities {
			var e []byte
			if c.Name == nil || c.Value == nil {
				return nil, errRequired
			}
			e = putBytes(e, 1, []byte(*c.Name))
			a, err := encodeAny(c.Value)
			if err != nil {
				return nil, err
			}
			e = putBytes(e, 2, a)
			caps = putBytes(caps, 1, e)
		}
		return putBytes(nil, 1, caps), nil
	}
	v.Unsupported("encoding of " + typeName(m))
	return nil, nil
}

func encodeAny(a *mysqlx_datatypes.Any) ([]byte, error) {
	if a.Type == nil {
		return nil, errRequired
	}
	if a.Obj != nil || a.Array != nil {
		v.Unsupported("encoding of Any object or array")
	}
	b := putVarint(putTag(nil, 1, 0), uint64(int64(int32(*a.Type))))
	if s := a.Scalar; s != nil {
		if s.Type == nil {
			return nil, errRequired
		}
		if s.VSignedInt != nil || s.VOctets != nil || s.VDouble != nil || s.VFloat != nil || s.VString != nil {
			v.Unsupported("encoding of scalar")
		}
		sb := putVarint(putTag(nil, 1, 0), uint64(int64(int32(*s.Type))))
		if s.VUnsignedInt != nil {
			sb = putVarint(putTag(sb, 3, 0), *s.VUnsignedInt)
		}
		if s.VBool != nil {
			x := uint64(0)
			if *s.VBool {
				x = 1
			}
			sb = putVarint(putTag(sb, 8, 0), x)
		}
		b = putBytes(b, 2, sb)
	}
	return b, nil
}

func ProtoSize(m proto.Message) int {
	b, _ := encode(m)
	return len(b)
}

func ProtoMarshal(m proto.Message) ([]byte, error) { return encode(m) }

// pbuf mirrors proto.Buffer for the engine: the pointer identifies the buffer.
type pbuf struct {
	p *proto.Buffer
	b []byte
}

var pbufs []*pbuf

func ProtoNewBuffer(b []byte) *proto.Buffer {
	p := new(proto.Buffer)
	pbufs = append(pbufs, &pbuf{p, b})
	return p
}

func ProtoBufferMarshal(p *proto.Buffer, m proto.Message) error {
	e, err := encode(m)
	if err != nil {
		return err
	}
	for _, q := range pbufs {
		if q.p == p {
			q.b = append(q.b, e...)
			return nil
		}
	}
	pbufs = append(pbufs, &pbuf{p, e})
	return nil
}

func ProtoBufferBytes(p *proto.Buffer) []byte {
	for _, q := range pbufs {
		if q.p == p {
			return q.b
		}
	}
	return nil
}
