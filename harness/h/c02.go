package h

import (
	"github.com/renthraysk/xtorm"
	"verif/harness/v"
)

const nPlaces = 8

// place puts a value in one of the positions an expression can take and
// returns the expression the server would see there.
func place(k int, x *xtorm.XPipe, a interface{}) func(b []byte) *expr {
	val := func(b []byte) *expr { return nil }
	switch k {
	case 0:
		x.Insert("t", []string{"c"}, [][]interface{}{{a}})
		val = func(b []byte) *expr { return single(decInsert(one(b, cInsert))) }
	case 1:
		x.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			i.Row([]interface{}{a})
			return nil
		})
		val = func(b []byte) *expr { return single(decInsert(one(b, cInsert))) }
	case 2:
		x.Update("t", nil, map[string]interface{}{"c": a})
		val = func(b []byte) *expr { return setOf(decUpdate(one(b, cUpdate))) }
	case 3:
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			u.Set("c", a)
			return nil
		})
		val = func(b []byte) *expr { return setOf(decUpdate(one(b, cUpdate))) }
	case 4:
		x.Delete("t", xtorm.Eq(xtorm.Column("c"), a))
		val = func(b []byte) *expr { return operand(decDelete(one(b, cDelete)).criteria, 1, 2) }
	case 5:
		x.UpdateF("t", xtorm.Lt(a, xtorm.Column("c")), func(u *xtorm.Update) error { return nil })
		val = func(b []byte) *expr { return operand(decUpdate(one(b, cUpdate)).criteria, 0, 2) }
	case 6:
		x.Delete("t", xtorm.InV(xtorm.Column("c"), a))
		val = func(b []byte) *expr { return operand(decDelete(one(b, cDelete)).criteria, 1, 2) }
	case 7:
		x.InsertRow("t", []string{"c"}, []interface{}{a})
		val = func(b []byte) *expr {
			fs := decFrames(b)
			v.Assert(len(fs) == 2 && fs[0].typ == cInsert, "insert and its id")
			return single(decInsert(fs[0].payload))
		}
	}
	return val
}

func single(i insert) *expr {
	v.Assert(len(i.rows) == 1 && len(i.rows[0]) == 1, "one row of one value")
	return i.rows[0][0]
}

func setOf(u update) *expr {
	v.Assert(len(u.ops) == 1, "one assignment")
	return u.ops[0].val
}

func operand(e *expr, i, n int) *expr {
	v.Assert(e != nil && len(e.params) == n, "number of operands")
	return e.params[i]
}

// C02_One: a scalar of any type and value in every expression position.
func C02_One() {
	a, is := anyScalar("x", v.Choose("type", nScalars))
	x := pipe()
	val := place(v.Choose("place", nPlaces), x, a)
	is(lit(val(sent(x)), "value"), "value")
}

// C02_Unsupported: a value of an unsupported type is refused in every position.
func C02_Unsupported() {
	u := unsupported(v.Choose("type", nUnsupported))
	if v.Choose("nested", 2) == 1 {
		u = xtorm.Add(1, xtorm.Not(u))
	}
	x := pipe()
	place(v.Choose("place", nPlaces), x, u)
	refused(x, "unsupported value")
}
