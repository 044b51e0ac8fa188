package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

const anyLen = 1 << 31

// C07_Stmt: direct statements of any text.
func C07_Stmt() {
	sql := v.String("sql", v.Bound("sql", anyLen, anyLen))
	x := pipe()
	n := v.Choose("args", 3)
	bs := []bool{v.Bool("a0"), v.Bool("a1")}
	var args []interface{}
	for i := 0; i < n; i++ {
		args = append(args, bs[i])
	}
	x.StmtExecute(sql, args...)
	s := decStmtExecute(one(sent(x), cStmtExecute))
	v.EqString(string(s.sql), sql, "statement")
	v.Assert(len(s.args) == n, "number of arguments")
	for i := range s.args {
		isBool(s.args[i], bs[i], "argument")
	}
}

// C07_Prepared: prepare, execute and deallocate.
func C07_Prepared() {
	id := v.U32("id")
	x := pipe()
	switch v.Choose("what", 3) {
	case 0:
		sql := v.String("sql", v.Bound("sql", anyLen, anyLen))
		x.Prepare(id, sql)
		got, s := decPrepare(one(sent(x), cPrepare))
		v.Assert(got == uint64(id), "statement id")
		v.EqString(string(s.sql), sql, "statement")
		v.Assert(len(s.args) == 0, "no arguments")
	case 1:
		n := v.Choose("args", 3)
		bs := []bool{v.Bool("a0"), v.Bool("a1")}
		var args []interface{}
		for i := 0; i < n; i++ {
			args = append(args, bs[i])
		}
		x.Execute(id, args...)
		e := decExecute(one(sent(x), cExecute))
		v.Assert(e.id == uint64(id), "statement id")
		v.Assert(len(e.args) == n, "number of arguments")
		for i := range e.args {
			isBool(e.args[i], bs[i], "argument")
		}
	case 2:
		x.Deallocate(id)
		v.Assert(decID(one(sent(x), cDeallocate)) == uint64(id), "statement id")
	}
}

// C07_Delete: deletes from any table with or without criteria.
func C07_Delete() {
	name := v.String("table", v.Bound("table", anyLen, anyLen))
	x := pipe()
	if v.Choose("criteria", 2) == 0 {
		x.Delete(name, nil)
		d := decDelete(one(sent(x), cDelete))
		v.EqString(string(d.table), name, "table")
		v.Assert(d.criteria == nil, "no criteria")
		return
	}
	a, isA := any3("a")
	x.Delete(name, xtorm.Eq(a, xtorm.Column("c")))
	d := decDelete(one(sent(x), cDelete))
	v.EqString(string(d.table), name, "table")
	v.Assert(d.criteria != nil, "criteria")
	isCall(d.criteria, eOperator, "==", 2)
	isA(d.criteria.params[0])
	v.Assert(d.criteria.params[1].typ == eIdent, "column")
}

// C07_Reset: session reset.
func C07_Reset() {
	v.Tight(v.Choose("tight", 2) == 1)
	keep := v.Bool("keep")
	b := xproto.Reset(nil, keep)
	v.ObsBytes("sent", b)
	r := &rd{b: one(b, cSessReset)}
	got := false
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		v.Assert(num == 1 && wire == 0, "keep_open")
		x := r.varint()
		v.Assert(x <= 1, "a boolean")
		got = x == 1
	}
	v.Assert(got == keep, "keep open")
}

// C07_Capability: the capability request.
func C07_Capability() {
	name := v.String("name", v.Bound("name", 1<<16, anyLen))
	on := v.Bool("on")
	b, err := xproto.CapabilitySet(name, on)
	v.Assert(err == nil, "capability request is built")
	v.ObsBytes("sent", b)
	got, s := decCapSet(one(b, cCapSet))
	v.EqString(string(got), name, "capability")
	isBool(s, on, "value")
}

// decCapSet decodes a CapabilitiesSet of one capability.
func decCapSet(b []byte) (name []byte, val *scalar) {
	only := func(b []byte, msg string) []byte {
		r := &rd{b: b}
		num, wire := r.tag()
		v.Assert(num == 1 && wire == 2, msg)
		f := r.bytes()
		v.Assert(!r.more(), msg+": one")
		return f
	}
	r := &rd{b: only(only(b, "capabilities"), "capability")}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		isWire(wire, 2)
		f := r.bytes()
		switch num {
		case 1:
			name = f
		case 2:
			val = decAny(f)
		default:
			unknownField()
		}
	}
	v.Assert(seen == 6, "name and value")
	return name, val
}
