package h

import (
	"math"

	"verif/harness/v"
)

// A reference decoder for the X Protocol messages, written from the .proto
// schema. It accepts any valid encoding (field order, varint padding) and
// rejects unknown fields, wrong wire types, repeated singular fields and
// missing required fields.

type rd struct {
	b []byte
	i int
}

func (r *rd) more() bool { return r.i < len(r.b) }

func (r *rd) varint() uint64 {
	var x uint64
	for s := uint(0); s < 70; s += 7 {
		v.Assert(r.i < len(r.b), "message is not truncated inside a varint")
		c := r.b[r.i]
		r.i++
		x |= uint64(c&0x7F) << s
		if c < 0x80 {
			v.Assert(s < 63 || c <= 1, "varint fits 64 bits")
			return x
		}
	}
	v.Assert(false, "varint is at most 10 bytes")
	return 0
}

func (r *rd) tag() (num, wire int) {
	x := r.varint()
	return int(x >> 3), int(x & 7)
}

func (r *rd) bytes() []byte {
	n := r.varint()
	v.Assert(n <= uint64(len(r.b)-r.i), "length-delimited field lies within its message")
	b := r.b[r.i : r.i+int(n)]
	r.i += int(n)
	return b
}

func (r *rd) fixed32() uint32 {
	v.Assert(len(r.b)-r.i >= 4, "fixed32 lies within its message")
	b := r.b[r.i:]
	r.i += 4
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func (r *rd) fixed64() uint64 {
	v.Assert(len(r.b)-r.i >= 8, "fixed64 lies within its message")
	b := r.b[r.i:]
	r.i += 8
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 |
		uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

func once(seen *uint32, num int) {
	v.Assert(*seen&(1<<uint(num)) == 0, "singular field is present once")
	*seen |= 1 << uint(num)
}

func isWire(wire, want int) { v.Assert(wire == want, "wire type matches the schema") }

func unknownField() { v.Assert(false, "field is in the schema") }

// Scalar types of Mysqlx.Datatypes.Scalar.
const (
	vSint   = 1
	vUint   = 2
	vNull   = 3
	vOctets = 4
	vDouble = 5
	vFloat  = 6
	vBool   = 7
	vString = 8
)

type scalar struct {
	typ     uint64
	sint    int64
	uint    uint64
	bits    uint64
	b       bool
	val     []byte
	content uint64 // octets content type
	coll    uint64 // string collation
}

func decScalar(b []byte) *scalar {
	s := &scalar{}
	var seen uint32
	r := &rd{b: b}
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 0)
			s.typ = r.varint()
		case 2:
			isWire(wire, 0)
			x := r.varint()
			s.sint = int64(x>>1) ^ -int64(x&1)
		case 3:
			isWire(wire, 0)
			s.uint = r.varint()
		case 5:
			isWire(wire, 2)
			s.val, s.content = decTyped(r.bytes())
		case 6:
			isWire(wire, 1)
			s.bits = r.fixed64()
		case 7:
			isWire(wire, 5)
			s.bits = uint64(r.fixed32())
		case 8:
			isWire(wire, 0)
			s.b = r.varint() != 0
		case 9:
			isWire(wire, 2)
			s.val, s.coll = decTyped(r.bytes())
		default:
			unknownField()
		}
	}
	v.Assert(seen&(1<<1) != 0, "scalar has a type")
	want := uint32(1 << 1)
	switch s.typ {
	case vSint:
		want |= 1 << 2
	case vUint:
		want |= 1 << 3
	case vNull:
	case vOctets:
		want |= 1 << 5
	case vDouble:
		want |= 1 << 6
	case vFloat:
		want |= 1 << 7
	case vBool:
		want |= 1 << 8
	case vString:
		want |= 1 << 9
	default:
		v.Assert(false, "scalar type is known")
	}
	v.Assert(seen == want, "scalar carries exactly the value of its type")
	return s
}

// decTyped decodes Octets or String: required value 1, optional number 2.
func decTyped(b []byte) (val []byte, x uint64) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 2)
			val = r.bytes()
		case 2:
			isWire(wire, 0)
			x = r.varint()
		default:
			unknownField()
		}
	}
	v.Assert(seen&2 != 0, "value is present")
	return val, x
}

// decAny decodes an Any holding a scalar.
func decAny(b []byte) *scalar {
	r := &rd{b: b}
	var seen uint32
	var s *scalar
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 0)
			v.Assert(r.varint() == 1, "Any is a scalar")
		case 2:
			isWire(wire, 2)
			s = decScalar(r.bytes())
		default:
			unknownField()
		}
	}
	v.Assert(seen == 2|4, "Any has type and scalar")
	return s
}

// Expression types of Mysqlx.Expr.Expr.
const (
	eIdent       = 1
	eLiteral     = 2
	eVariable    = 3
	eFunc        = 4
	eOperator    = 5
	ePlaceholder = 6
)

type expr struct {
	typ    uint64
	name   []byte // column, variable, function or operator
	lit    *scalar
	pos    uint64
	params []*expr
}

func decExpr(b []byte) *expr {
	e := &expr{}
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 0)
			e.typ = r.varint()
		case 2:
			isWire(wire, 2)
			e.name = decColumnIdent(r.bytes())
		case 3:
			isWire(wire, 2)
			e.name = r.bytes()
		case 4:
			isWire(wire, 2)
			e.lit = decScalar(r.bytes())
		case 5:
			isWire(wire, 2)
			decCall(e, r.bytes(), true)
		case 6:
			isWire(wire, 2)
			decCall(e, r.bytes(), false)
		case 7:
			isWire(wire, 0)
			e.pos = r.varint()
		default:
			unknownField()
		}
	}
	v.Assert(seen&2 != 0, "expression has a type")
	want := uint32(2)
	switch e.typ {
	case eIdent:
		want |= 1 << 2
	case eVariable:
		want |= 1 << 3
	case eLiteral:
		want |= 1 << 4
	case eFunc:
		want |= 1 << 5
	case eOperator:
		want |= 1 << 6
	case ePlaceholder:
		want |= 1 << 7
	default:
		v.Assert(false, "expression type is known")
	}
	v.Assert(seen == want, "expression carries exactly what its type says")
	return e
}

func decColumnIdent(b []byte) (name []byte) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 2:
			isWire(wire, 2)
			name = r.bytes()
		default:
			unknownField()
		}
	}
	v.Assert(seen == 4, "column identifier has a name")
	return name
}

func decCall(e *expr, b []byte, fn bool) {
	r := &rd{b: b}
	named := false
	for r.more() {
		num, wire := r.tag()
		isWire(wire, 2)
		f := r.bytes()
		switch num {
		case 1:
			v.Assert(!named, "one name")
			named = true
			if fn {
				e.name = decName(f)
			} else {
				e.name = f
			}
		case 2:
			e.params = append(e.params, decExpr(f))
		default:
			unknownField()
		}
	}
	v.Assert(named, "operator or function has a name")
}

// decName decodes a message whose only field is a required name = 1.
func decName(b []byte) (name []byte) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		isWire(wire, 2)
		v.Assert(num == 1, "field is in the schema")
		name = r.bytes()
	}
	v.Assert(seen == 2, "name is present")
	return name
}

// Client message types.
const (
	cCapSet      = 2
	cAuthStart   = 4
	cAuthCont    = 5
	cSessReset   = 6
	cStmtExecute = 12
	cInsert      = 18
	cUpdate      = 19
	cDelete      = 20
	cExpectOpen  = 24
	cExpectClose = 25
	cPrepare     = 40
	cExecute     = 41
	cDeallocate  = 42
)

type frame struct {
	typ     int
	payload []byte
}

// decFrames splits a byte stream into frames; nothing may be left over.
func decFrames(b []byte) []frame {
	var fs []frame
	for len(b) > 0 {
		f, rest := decFrame(b)
		fs = append(fs, f)
		b = rest
	}
	return fs
}

func decFrame(b []byte) (frame, []byte) {
	v.Assert(len(b) >= 5, "frame has a header")
	n := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
	v.Assert(n >= 1 && n <= uint64(len(b)-4), "frame length is that of a complete frame")
	return frame{int(b[4]), b[5 : 4+int(n)]}, b[4+int(n):]
}

// one decodes a stream of exactly one frame of the given type.
func one(b []byte, typ int) []byte {
	f, rest := decFrame(b)
	v.Assert(len(rest) == 0, "exactly one frame")
	v.Assert(f.typ == typ, "message type")
	return f.payload
}

type stmt struct {
	sql  []byte
	args []*scalar
}

func decStmtExecute(b []byte) stmt {
	var s stmt
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		switch num {
		case 1:
			once(&seen, num)
			isWire(wire, 2)
			s.sql = r.bytes()
		case 2:
			isWire(wire, 2)
			s.args = append(s.args, decAny(r.bytes()))
		case 3:
			once(&seen, num)
			isWire(wire, 2)
			v.EqString(string(r.bytes()), "sql", "namespace")
		case 4:
			once(&seen, num)
			isWire(wire, 0)
			v.Assert(r.varint() == 0, "full metadata")
		default:
			unknownField()
		}
	}
	v.Assert(seen&2 != 0, "statement is present")
	return s
}

type execute struct {
	id   uint64
	args []*scalar
}

func decExecute(b []byte) execute {
	var e execute
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		switch num {
		case 1:
			once(&seen, num)
			isWire(wire, 0)
			e.id = r.varint()
		case 2:
			isWire(wire, 2)
			e.args = append(e.args, decAny(r.bytes()))
		default:
			unknownField()
		}
	}
	v.Assert(seen == 2, "statement id is present")
	return e
}

func decPrepare(b []byte) (id uint64, s stmt) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 0)
			id = r.varint()
		case 2:
			isWire(wire, 2)
			q := &rd{b: r.bytes()}
			var seen2 uint32
			for q.more() {
				num, wire := q.tag()
				once(&seen2, num)
				switch num {
				case 1:
					isWire(wire, 0)
					v.Assert(q.varint() == 5, "prepared message is a statement")
				case 6:
					isWire(wire, 2)
					s = decStmtExecute(q.bytes())
				default:
					unknownField()
				}
			}
			v.Assert(seen2 == 1<<1|1<<6, "prepared message has type and statement")
		default:
			unknownField()
		}
	}
	v.Assert(seen == 2|4, "prepare has id and statement")
	return
}

// decID decodes a message whose only field is a required number = 1.
func decID(b []byte) (id uint64) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		v.Assert(num == 1, "field is in the schema")
		isWire(wire, 0)
		id = r.varint()
	}
	v.Assert(seen == 2, "id is present")
	return id
}

type insert struct {
	table []byte
	cols  [][]byte
	rows  [][]*expr
}

func decInsert(b []byte) insert {
	var s insert
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		switch num {
		case 1:
			once(&seen, num)
			isWire(wire, 2)
			s.table = decName(r.bytes())
		case 2:
			once(&seen, num)
			isWire(wire, 0)
			v.Assert(r.varint() == 2, "data model is table")
		case 3:
			isWire(wire, 2)
			s.cols = append(s.cols, decName(r.bytes()))
		case 4:
			isWire(wire, 2)
			s.rows = append(s.rows, decRow(r.bytes()))
		case 6:
			once(&seen, num)
			isWire(wire, 0)
			v.Assert(r.varint() == 0, "not an upsert")
		default:
			unknownField()
		}
	}
	v.Assert(seen&6 == 6, "insert has collection and data model")
	return s
}

func decRow(b []byte) []*expr {
	es := []*expr{}
	r := &rd{b: b}
	for r.more() {
		num, wire := r.tag()
		v.Assert(num == 1, "field is in the schema")
		isWire(wire, 2)
		es = append(es, decExpr(r.bytes()))
	}
	return es
}

type assign struct {
	col []byte
	val *expr
}

type update struct {
	table    []byte
	criteria *expr
	ops      []assign
}

func decUpdate(b []byte) update {
	var s update
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		switch num {
		case 2:
			once(&seen, num)
			isWire(wire, 2)
			s.table = decName(r.bytes())
		case 3:
			once(&seen, num)
			isWire(wire, 0)
			v.Assert(r.varint() == 2, "data model is table")
		case 4:
			once(&seen, num)
			isWire(wire, 2)
			s.criteria = decExpr(r.bytes())
		case 7:
			isWire(wire, 2)
			s.ops = append(s.ops, decOp(r.bytes()))
		default:
			unknownField()
		}
	}
	v.Assert(seen&12 == 12, "update has collection and data model")
	return s
}

func decOp(b []byte) (a assign) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 2)
			a.col = decColumnIdent(r.bytes())
		case 2:
			isWire(wire, 0)
			v.Assert(r.varint() == 1, "operation is SET")
		case 3:
			isWire(wire, 2)
			a.val = decExpr(r.bytes())
		default:
			unknownField()
		}
	}
	v.Assert(seen == 2|4|8, "update operation has source, operation and value")
	return
}

type del struct {
	table    []byte
	criteria *expr
}

func decDelete(b []byte) (d del) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		switch num {
		case 1:
			isWire(wire, 2)
			d.table = decName(r.bytes())
		case 2:
			isWire(wire, 0)
			v.Assert(r.varint() == 2, "data model is table")
		case 3:
			isWire(wire, 2)
			d.criteria = decExpr(r.bytes())
		default:
			unknownField()
		}
	}
	v.Assert(seen&2 != 0, "delete has a collection")
	return
}

type cond struct {
	key uint64
	val []byte
}

type expectOpen struct {
	op    uint64
	conds []cond
}

func decExpectOpen(b []byte) (o expectOpen) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		switch num {
		case 1:
			once(&seen, num)
			isWire(wire, 0)
			o.op = r.varint()
		case 2:
			isWire(wire, 2)
			q := &rd{b: r.bytes()}
			var seen2 uint32
			var c cond
			for q.more() {
				num, wire := q.tag()
				once(&seen2, num)
				switch num {
				case 1:
					isWire(wire, 0)
					c.key = q.varint()
				case 2:
					isWire(wire, 2)
					c.val = q.bytes()
				case 3:
					isWire(wire, 0)
					v.Assert(q.varint() == 0, "condition is set")
				default:
					unknownField()
				}
			}
			v.Assert(seen2&2 != 0, "condition has a key")
			o.conds = append(o.conds, c)
		default:
			unknownField()
		}
	}
	return
}

// decAuth decodes AuthenticateStart (mech_name 1, auth_data 2).
func decAuthStart(b []byte) (mech, data []byte) {
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		isWire(wire, 2)
		switch num {
		case 1:
			mech = r.bytes()
		case 2:
			data = r.bytes()
		default:
			unknownField()
		}
	}
	v.Assert(seen&2 != 0, "mechanism is present")
	return
}

// ---- expectations ----

func isNull(s *scalar, msg string) { v.Assert(s.typ == vNull, msg+": NULL") }
func isSint(s *scalar, x int64, msg string) {
	v.Assert(s.typ == vSint, msg+": signed")
	v.Assert(s.sint == x, msg+": value")
}
func isUint(s *scalar, x uint64, msg string) {
	v.Assert(s.typ == vUint, msg+": unsigned")
	v.Assert(s.uint == x, msg+": value")
}
func isBool(s *scalar, x bool, msg string) {
	v.Assert(s.typ == vBool, msg+": bool")
	v.Assert(s.b == x, msg+": value")
}
func isFloat(s *scalar, f float32, msg string) {
	v.Assert(s.typ == vFloat, msg+": float")
	v.Assert(s.bits == uint64(math.Float32bits(f)), msg+": value")
}
func isDouble(s *scalar, f float64, msg string) {
	v.Assert(s.typ == vDouble, msg+": double")
	v.Assert(s.bits == math.Float64bits(f), msg+": value")
}
func isString(s *scalar, x string, coll uint64, msg string) {
	v.Assert(s.typ == vString, msg+": string")
	v.Assert(s.coll == coll, msg+": collation")
	v.EqString(string(s.val), x, msg)
}
func isOctets(s *scalar, x string, content uint64, msg string) {
	v.Assert(s.typ == vOctets, msg+": octets")
	v.Assert(s.content == content, msg+": content type")
	v.EqString(string(s.val), x, msg)
}
func lit(e *expr, msg string) *scalar {
	v.Assert(e.typ == eLiteral, msg+": literal")
	return e.lit
}
