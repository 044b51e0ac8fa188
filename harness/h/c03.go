package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"verif/harness/v"
)

const nTexts = 13

const (
	ctGeometry = 1
	ctJSON     = 2
	ctXML      = 3
)

// anyText is a text or binary value of any length and content in each of the
// forms the package offers.
func anyText(name string, k, max int) (interface{}, func(s *scalar, msg string)) {
	octets := func(x string, ct uint64) func(s *scalar, msg string) {
		return func(s *scalar, msg string) { isOctets(s, x, ct, msg) }
	}
	switch k {
	case 0:
		x := v.String(name, max)
		return x, func(s *scalar, msg string) { isString(s, x, 0, msg) }
	case 1:
		x := v.Bytes(name, max)
		return x, octets(string(x), 0)
	case 2:
		return []byte(nil), isNull
	case 3:
		x := v.String(name, max)
		c := collation.Collation(v.Int(name+".collation", 0, 1<<14-1))
		return xtorm.String{Value: x, Collation: c}, func(s *scalar, msg string) { isString(s, x, uint64(c), msg) }
	case 4:
		x := v.Bytes(name, max)
		return xtorm.XML(x), octets(string(x), ctXML)
	case 5:
		x := v.String(name, max)
		return xtorm.XMLString(x), octets(x, ctXML)
	case 6:
		x := v.Bytes(name, max)
		return xtorm.JSON(x), octets(string(x), ctJSON)
	case 7:
		x := v.String(name, max)
		return xtorm.JSONString(x), octets(x, ctJSON)
	case 8:
		x := v.Bytes(name, max)
		return xtorm.Geometry(x), octets(string(x), ctGeometry)
	case 9:
		return xtorm.XML(nil), isNull
	case 10:
		return xtorm.JSON(nil), isNull
	case 11:
		return xtorm.Geometry(nil), isNull
	}
	return []byte{}, octets("", 0)
}

// C03_Arg: text and binary statement arguments.
func C03_Arg() {
	k := v.Choose("form", nTexts)
	a, is := anyText("x", k, v.Bound("bytes", 1<<31, 1<<31))
	switch {
	case k == 0 && v.Choose("pointer", 2) == 1:
		s := a.(string)
		a = &s
	case k == 1 && v.Choose("pointer", 2) == 1:
		s := a.([]byte)
		a = &s
	case k == 3 && v.Choose("pointer", 2) == 1:
		s := a.(xtorm.String)
		a = &s
	}
	x := pipe()
	var got []*scalar
	if v.Choose("prepared", 2) == 1 {
		x.Execute(9, a, true)
		got = decExecute(one(sent(x), cExecute)).args
	} else {
		x.StmtExecute("SELECT ?", a, true)
		got = decStmtExecute(one(sent(x), cStmtExecute)).args
	}
	v.Assert(len(got) == 2, "two arguments")
	is(got[0], "argument")
	isBool(got[1], true, "following argument")
}

// C03_Expr: text and binary values in expressions.
func C03_Expr() {
	a, is := anyText("x", v.Choose("form", nTexts), v.Bound("bytes", 1<<31, 1<<31))
	x := pipe()
	val := place(v.Choose("place", nPlaces), x, a)
	is(lit(val(sent(x)), "value"), "value")
}

// C03_Collation: any collation number, with text short enough to keep the
// combination of size classes small.
func C03_Collation() {
	s := v.String("x", 140)
	c := collation.Collation(v.U64("collation"))
	x := pipe()
	a := xtorm.String{Value: s, Collation: c}
	if v.Choose("expr", 2) == 1 {
		val := place(v.Choose("place", nPlaces), x, a)
		isString(lit(val(sent(x)), "value"), s, uint64(c), "value")
		return
	}
	x.StmtExecute("SELECT ?", a)
	got := decStmtExecute(one(sent(x), cStmtExecute)).args
	v.Assert(len(got) == 1, "one argument")
	isString(got[0], s, uint64(c), "argument")
}
