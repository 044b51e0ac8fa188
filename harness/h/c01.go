package h

import (
	"math"

	"github.com/renthraysk/xtorm"

	"verif/harness/v"
)

const nScalars = 14

// anyScalar is any value of any supported scalar type, by type number, and
// the check that a decoded scalar is that value.
func anyScalar(name string, k int) (interface{}, func(s *scalar, msg string)) {
	switch k {
	case 0:
		x := v.Bool(name)
		return x, func(s *scalar, msg string) { isBool(s, x, msg) }
	case 1:
		x := v.I8(name)
		return x, func(s *scalar, msg string) { isSint(s, int64(x), msg) }
	case 2:
		x := v.I16(name)
		return x, func(s *scalar, msg string) { isSint(s, int64(x), msg) }
	case 3:
		x := v.I32(name)
		return x, func(s *scalar, msg string) { isSint(s, int64(x), msg) }
	case 4:
		x := v.I64(name)
		return x, func(s *scalar, msg string) { isSint(s, x, msg) }
	case 5:
		x := int(v.I64(name))
		return x, func(s *scalar, msg string) { isSint(s, int64(x), msg) }
	case 6:
		x := v.U8(name)
		return x, func(s *scalar, msg string) { isUint(s, uint64(x), msg) }
	case 7:
		x := v.U16(name)
		return x, func(s *scalar, msg string) { isUint(s, uint64(x), msg) }
	case 8:
		x := v.U32(name)
		return x, func(s *scalar, msg string) { isUint(s, uint64(x), msg) }
	case 9:
		x := v.U64(name)
		return x, func(s *scalar, msg string) { isUint(s, x, msg) }
	case 10:
		x := uint(v.U64(name))
		return x, func(s *scalar, msg string) { isUint(s, uint64(x), msg) }
	case 11:
		x := math.Float32frombits(v.F32bits(name))
		return x, func(s *scalar, msg string) { isFloat(s, x, msg) }
	case 12:
		x := math.Float64frombits(v.F64bits(name))
		return x, func(s *scalar, msg string) { isDouble(s, x, msg) }
	}
	return nil, isNull
}

// pointerTo is a pointer to a scalar, or a nil pointer of its type.
func pointerTo(x interface{}, null bool) interface{} {
	switch x := x.(type) {
	case bool:
		if null {
			return (*bool)(nil)
		}
		return &x
	case int8:
		if null {
			return (*int8)(nil)
		}
		return &x
	case int16:
		if null {
			return (*int16)(nil)
		}
		return &x
	case int32:
		if null {
			return (*int32)(nil)
		}
		return &x
	case int64:
		if null {
			return (*int64)(nil)
		}
		return &x
	case int:
		if null {
			return (*int)(nil)
		}
		return &x
	case uint8:
		if null {
			return (*uint8)(nil)
		}
		return &x
	case uint16:
		if null {
			return (*uint16)(nil)
		}
		return &x
	case uint32:
		if null {
			return (*uint32)(nil)
		}
		return &x
	case uint64:
		if null {
			return (*uint64)(nil)
		}
		return &x
	case uint:
		if null {
			return (*uint)(nil)
		}
		return &x
	case float32:
		if null {
			return (*float32)(nil)
		}
		return &x
	case float64:
		if null {
			return (*float64)(nil)
		}
		return &x
	}
	return nil
}

// withArgs sends a direct or prepared statement and decodes its arguments.
func withArgs(prepared bool, args ...interface{}) []*scalar {
	x := pipe()
	if prepared {
		x.Execute(v.U32("id"), args...)
		return decExecute(one(sent(x), cExecute)).args
	}
	x.StmtExecute("SELECT ?", args...)
	return decStmtExecute(one(sent(x), cStmtExecute)).args
}

// C01_One: one argument of every type, as value, pointer and nil pointer.
func C01_One() {
	k := v.Choose("type", nScalars)
	a, is := anyScalar("x", k)
	if k < nScalars-1 {
		switch v.Choose("form", 4) {
		case 1:
			a = pointerTo(a, false)
		case 2:
			a, is = pointerTo(a, true), isNull
		case 3:
			p := pointerTo(a, false)
			a = &p
		}
	}
	got := withArgs(v.Choose("prepared", 2) == 1, a)
	v.Assert(len(got) == 1, "one argument")
	is(got[0], "argument")
}

type plainStruct struct{ A int }
type myInt int
type myString string

const nUnsupported = 12

// unsupported is a value of a type that has no SQL counterpart.
func unsupported(k int) interface{} {
	switch k {
	case 0:
		return plainStruct{v.Int("u", 0, 9)}
	case 1:
		return myInt(v.I64("u"))
	case 2:
		return errBoom
	case 3:
		return []string{"a"}
	case 4:
		return map[string]int{"a": 1}
	case 5:
		return [2]byte{1, 2}
	case 6:
		return make(chan int)
	case 7:
		return func() {}
	case 8:
		return uintptr(v.U64("u"))
	case 9:
		return []interface{}{1}
	case 10:
		return myString("s")
	}
	return []int{}
}

// C01_Unsupported: a value (or pointer to one) of an unsupported type, at any
// place in the argument list, is refused.
func C01_Unsupported() {
	k := v.Choose("type", nUnsupported)
	u := unsupported(k)
	switch v.Choose("form", 3) {
	case 1:
		w := u
		u = &w
	case 2:
		s := unsupported(0).(plainStruct)
		u = &s
	}
	args := []interface{}{int64(5), "x", nil}
	args[v.Choose("at", 3)] = u
	x := pipe()
	if v.Choose("prepared", 2) == 1 {
		x.Execute(v.U32("id"), args...)
	} else {
		x.StmtExecute("SELECT ?", args...)
	}
	refused(x, "unsupported argument")
}

// listScalar is a scalar of one of few types, limited so that lists of them stay tractable.
func listScalar(name string, k int) (interface{}, func(s *scalar, msg string)) {
	switch k {
	case 0:
		return nil, isNull
	case 1:
		x := v.I64(name)
		v.Assume(x >= -1<<13 && x < 1<<13)
		return x, func(s *scalar, msg string) { isSint(s, x, msg) }
	case 2:
		x := math.Float64frombits(v.F64bits(name))
		return &x, func(s *scalar, msg string) { isDouble(s, x, msg) }
	case 3:
		x := v.U8(name)
		return x, func(s *scalar, msg string) { isUint(s, uint64(x), msg) }
	}
	x := v.String(name, 300)
	return x, func(s *scalar, msg string) { isString(s, x, 0, msg) }
}

var names = [...]string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}

// C01_List: argument lists keep number and order.
func C01_List() {
	n := v.Choose("args", v.Bound("arguments", 2, 3)+1)
	args := []interface{}{}
	var is []func(*scalar, string)
	for i := 0; i < n; i++ {
		a, f := listScalar(names[i], v.Choose("type", 5))
		args, is = append(args, a), append(is, f)
	}
	x := pipe()
	var got []*scalar
	if v.Choose("prepared", 2) == 1 {
		id := v.U32("id")
		x.Execute(id, args...)
		e := decExecute(one(sent(x), cExecute))
		v.Assert(e.id == uint64(id), "statement id")
		got = e.args
	} else {
		sql := v.String("sql", v.Bound("statement bytes", 1<<20, 1<<31))
		x.StmtExecute(sql, args...)
		s := decStmtExecute(one(sent(x), cStmtExecute))
		v.EqString(string(s.sql), sql, "statement text")
		got = s.args
	}
	v.Assert(len(got) == n, "number of arguments")
	for i := range is {
		is[i](got[i], "argument")
	}
}

// C01_Pair: any two scalars of any two types side by side, one of them of any size.
func C01_Pair() {
	a, fa := anyScalar("x", v.Choose("type", nScalars))
	b, fb := listScalar("y", v.Choose("type2", 5))
	swap := v.Choose("swap", 2) == 1
	args := []interface{}{a, b}
	if swap {
		args = []interface{}{b, a}
	}
	x := xtorm.New(64)
	x.StmtExecute("SELECT ?,?", args...)
	got := decStmtExecute(one(sent(x), cStmtExecute)).args
	v.Assert(len(got) == 2, "two arguments")
	if swap {
		got[0], got[1] = got[1], got[0]
	}
	fa(got[0], "argument")
	fb(got[1], "argument")
}
