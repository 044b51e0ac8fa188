package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

// C09_Names: any table and column name, any value, with or without criteria.
func C09_Names() {
	table := v.String("table", v.Bound("name", 1<<22, anyLen))
	col := v.String("column", v.Bound("column", 1<<22, anyLen))
	a := v.Bool("value")
	var c xproto.AppendExprFunc
	isC := func(e *expr) {}
	if v.Choose("criteria", 2) == 1 {
		y := v.Bool("criteria")
		c = xtorm.Eq(xtorm.Column("k"), y)
		isC = func(e *expr) {
			isCall(e, eOperator, "==", 2)
			isBool(lit(e.params[1], "criteria"), y, "criteria")
		}
	}
	x := pipe()
	if v.Choose("how", 2) == 1 {
		x.Update(table, c, map[string]interface{}{col: a})
	} else {
		x.UpdateF(table, c, func(u *xtorm.Update) error {
			u.Set(col, a)
			return nil
		})
	}
	s := decUpdate(one(sent(x), cUpdate))
	v.EqString(string(s.table), table, "table")
	if c == nil {
		v.Assert(s.criteria == nil, "no criteria")
	} else {
		v.Assert(s.criteria != nil, "criteria")
		isC(s.criteria)
	}
	v.Assert(len(s.ops) == 1, "one assignment")
	v.EqString(string(s.ops[0].col), col, "column")
	isBool(lit(s.ops[0].val, "value"), a, "value")
}

// C09_Size: criteria and values of any encoded length.
func C09_Size() {
	val := v.Bytes("value", v.Bound("value", 1<<30, anyLen))
	cri := v.Bytes("criteria", v.Bound("criteria", 1<<30, anyLen))
	x := pipe()
	if v.Choose("how", 2) == 1 {
		x.Update("t", raw(cri), map[string]interface{}{"c": raw(val)})
	} else {
		x.UpdateF("t", raw(cri), func(u *xtorm.Update) error {
			u.Set("c", raw(val))
			return nil
		})
	}
	r := &rd{b: one(sent(x), cUpdate)}
	var seen uint32
	for r.more() {
		num, wire := r.tag()
		once(&seen, num)
		if num == 3 {
			isWire(wire, 0)
			v.Assert(r.varint() == 2, "table model")
			continue
		}
		isWire(wire, 2)
		f := r.bytes()
		switch num {
		case 2:
			v.EqString(string(decName(f)), "t", "table")
		case 4:
			v.EqBytes(f, cri, "criteria")
		case 7:
			q := &rd{b: f}
			var seen uint32
			for q.more() {
				num, wire := q.tag()
				once(&seen, num)
				switch num {
				case 1:
					isWire(wire, 2)
					v.EqString(string(decColumnIdent(q.bytes())), "c", "column")
				case 2:
					isWire(wire, 0)
					v.Assert(q.varint() == 1, "SET")
				case 3:
					isWire(wire, 2)
					v.EqBytes(q.bytes(), val, "value")
				default:
					unknownField()
				}
			}
			v.Assert(seen == 2|4|8, "assignment is complete")
		default:
			unknownField()
		}
	}
	v.Assert(seen == 1<<2|1<<3|1<<4|1<<7, "update is complete")
}

// C09_Sets: several assignments; the order of a map's is free.
func C09_Sets() {
	n := v.Choose("assignments", v.Bound("assignments", 4, 5))
	how := v.Choose("how", 2)
	vals := make([]bool, n)
	sets := map[string]interface{}{}
	x := pipe()
	for i := range vals {
		vals[i] = v.Bool("value" + names[i])
		sets[names[i]] = vals[i]
	}
	if how == 1 {
		x.Update("t", nil, sets)
	} else {
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			for i := range vals {
				u.Set(names[i], vals[i])
			}
			return nil
		})
	}
	s := decUpdate(one(sentUnseen(x), cUpdate))
	v.Assert(s.criteria == nil, "no criteria")
	v.Assert(len(s.ops) == n, "number of assignments")
	for i := range vals {
		found := 0
		for j, o := range s.ops {
			if string(o.col) == names[i] {
				found++
				isBool(lit(o.val, "value"), vals[i], "value")
				v.Assert(how == 1 || i == j, "assignments in call order")
			}
		}
		v.Assert(found == 1, "column is assigned once")
	}
}

// C09_Long: assignments whose values have any length.
func C09_Long() {
	n := v.Bound("assignments", 2, 3)
	x := pipe()
	var bs [][]byte
	for i := 0; i < n; i++ {
		bs = append(bs, v.Bytes("value"+names[i], v.Bound("value", 1<<22, anyLen)))
	}
	x.UpdateF("t", xtorm.Eq(xtorm.Column("k"), true), func(u *xtorm.Update) error {
		for i, b := range bs {
			u.Set(names[i], b)
		}
		return nil
	})
	s := decUpdate(one(sent(x), cUpdate))
	v.Assert(s.criteria != nil, "criteria")
	v.Assert(len(s.ops) == n, "number of assignments")
	for i, o := range s.ops {
		v.EqString(string(o.col), names[i], "column")
		isOctets(lit(o.val, "value"), string(bs[i]), 0, "value")
	}
}
