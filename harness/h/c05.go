package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

func opr(name string, ps []interface{}) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprOperator(p, tag, name, ps) }
}

func fnc(name string, ps []interface{}) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprFunctionCall(p, tag, name, ps) }
}

func variable(name string) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }
}

func placeholder(n uint32) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, n) }
}

func appendVarint(p []byte, x uint64) []byte {
	for x >= 0x80 {
		p = append(p, byte(x)|0x80)
		x >>= 7
	}
	return append(p, byte(x))
}

// raw is an expression whose encoding is any bytes.
func raw(b []byte) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) {
		p = appendVarint(p, uint64(tag)<<3|2)
		p = appendVarint(p, uint64(len(b)))
		return append(p, b...), nil
	}
}

// leaf is any expression without parameters.
func leaf(name string, k, max int) (interface{}, func(e *expr)) {
	switch k {
	case 0:
		s := v.String(name, max)
		return xtorm.Column(s), func(e *expr) {
			v.Assert(e.typ == eIdent, "column reference")
			v.EqString(string(e.name), s, "column name")
		}
	case 1:
		s := v.String(name, max)
		return variable(s), func(e *expr) {
			v.Assert(e.typ == eVariable, "variable")
			v.EqString(string(e.name), s, "variable name")
		}
	case 2:
		n := v.U32(name)
		return placeholder(n), func(e *expr) {
			v.Assert(e.typ == ePlaceholder, "placeholder")
			v.Assert(e.pos == uint64(n), "placeholder position")
		}
	case 3:
		s := v.String(name, max)
		return s, func(e *expr) { isString(lit(e, "text"), s, 0, "text") }
	}
	n := v.I64(name)
	return n, func(e *expr) { isSint(lit(e, "number"), n, "number") }
}

const nLeaves = 5

// C05_Leaf: leaves with names of any length in every place.
func C05_Leaf() {
	a, is := leaf("x", v.Choose("leaf", nLeaves), v.Bound("name", 1<<30, 1<<30))
	x := pipe()
	val := place(v.Choose("place", nPlaces), x, a)
	is(val(sent(x)))
}

// C05_Node: an operator or function call of any name whose parameters are
// encoded as any bytes of any length. With C05_Leaf this gives every tree: each
// level adds its own header around parameters it does not look into.
func C05_Node() {
	name := v.String("name", v.Bound("name", 300, 1<<28))
	n := v.Choose("params", v.Bound("params", 3, 4))
	var ps []interface{}
	var bs [][]byte
	for i := 0; i < n; i++ {
		b := v.Bytes("param"+names[i], v.Bound("param", 1<<16, 1<<28))
		bs = append(bs, b)
		ps = append(ps, raw(b))
	}
	fn := v.Choose("function", 2) == 1
	var a xproto.AppendExprFunc
	if fn {
		a = fnc(name, ps)
	} else {
		a = opr(name, ps)
	}
	x := pipe()
	x.Delete("t", a)
	r := &rd{b: one(sent(x), cDelete)}
	num, wire := r.tag()
	v.Assert(num == 1 && wire == 2, "table")
	r.bytes()
	num, wire = r.tag()
	v.Assert(num == 3 && wire == 2, "criteria")
	e := r.bytes()
	v.Assert(!r.more(), "nothing else in the message")
	got, params := rawExpr(e, fn)
	v.EqString(string(got), name, "name")
	v.Assert(len(params) == n, "number of parameters")
	for i := range bs {
		v.EqBytes(params[i], bs[i], "parameter is intact")
	}
}

// rawExpr decodes an operator or function call without looking into its
// parameters.
func rawExpr(b []byte, fn bool) (name []byte, params [][]byte) {
	field, typ := 6, uint64(eOperator)
	if fn {
		field, typ = 5, eFunc
	}
	r := &rd{b: b}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		if num == 1 {
			isWire(wire, 0)
			v.Assert(r.varint() == typ, "expression type")
			continue
		}
		v.Assert(num == field, "expression carries what its type says")
		isWire(wire, 2)
		c := &rd{b: r.bytes()}
		named := false
		for c.more() {
			num, wire := c.tag()
			isWire(wire, 2)
			f := c.bytes()
			switch num {
			case 1:
				v.Assert(!named, "one name")
				named = true
				name = f
				if fn {
					name = decName(f)
				}
			case 2:
				params = append(params, f)
			default:
				unknownField()
			}
		}
		v.Assert(named, "name is present")
	}
	v.Assert(seen == 2|1<<uint(field), "expression is complete")
	return name, params
}

// tree is any expression of bounded depth.
func tree(name string, depth int) (interface{}, func(e *expr)) {
	kinds := 2
	if depth > 0 {
		kinds = 4
	}
	k := v.Choose(name+"kind", kinds)
	if k == 0 {
		s := v.String(name, 5)
		return xtorm.Column(s), func(e *expr) {
			v.Assert(e.typ == eIdent, "column reference")
			v.EqString(string(e.name), s, "column name")
		}
	}
	if k == 1 {
		n := v.Bool(name)
		return n, func(e *expr) { isBool(lit(e, "boolean"), n, "boolean") }
	}
	fn := k == 3
	op := "op" + name
	n := v.Choose(name+"params", 3)
	var ps []interface{}
	var is []func(e *expr)
	for i := 0; i < n; i++ {
		p, f := tree(name+names[i], depth-1)
		ps = append(ps, p)
		is = append(is, f)
	}
	check := func(e *expr) {
		if fn {
			v.Assert(e.typ == eFunc, "function call")
		} else {
			v.Assert(e.typ == eOperator, "operator")
		}
		v.EqString(string(e.name), op, "name")
		v.Assert(len(e.params) == len(is), "number of parameters")
		for i, f := range is {
			f(e.params[i])
		}
	}
	if fn {
		return fnc(op, ps), check
	}
	return opr(op, ps), check
}

// C05_Tree: every tree of bounded depth and width.
func C05_Tree() {
	a, is := tree("x", v.Bound("depth", 2, 3))
	v.Tight(true)
	x := xtorm.New(v.Choose("room", 2) * 512)
	val := place(v.Choose("place", 2)*4, x, a)
	is(val(sent(x)))
}

// C05_Bad: a parameter that cannot be encoded, anywhere in a tree.
func C05_Bad() {
	var u interface{}
	if k := v.Choose("type", nUnsupported+1); k < nUnsupported {
		u = unsupported(k)
	} else {
		u = xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return p, errBoom })
	}
	depth := v.Choose("depth", v.Bound("depth", 3, 4))
	for i := 0; i < depth; i++ {
		n := v.Choose("width"+names[i], 3)
		pos := v.Choose("pos"+names[i], n+1)
		var ps []interface{}
		for j := 0; j <= n; j++ {
			if j == pos {
				ps = append(ps, u)
			} else {
				ps = append(ps, j)
			}
		}
		if v.Choose("function"+names[i], 2) == 1 {
			u = fnc("f", ps)
		} else {
			u = opr("+", ps)
		}
	}
	x := xtorm.New(64)
	place(v.Choose("place", nPlaces), x, u)
	refused(x, "parameter that cannot be encoded")
}
