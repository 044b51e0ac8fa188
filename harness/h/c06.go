package h

import (
	"math"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

// The operators of the X Protocol, by helper.
var unary = []struct {
	f    func(a interface{}) xproto.AppendExprFunc
	name string
}{
	{xtorm.Not, "!"},
	{xtorm.Plus, "sign_plus"},
	{xtorm.Minus, "sign_minus"},
}

var binary = []struct {
	f    func(a, b interface{}) xproto.AppendExprFunc
	name string
}{
	{xtorm.And, "&&"},
	{xtorm.Or, "||"},
	{xtorm.Xor, "xor"},
	{xtorm.Eq, "=="},
	{xtorm.Neq, "!="},
	{xtorm.Lte, "<="},
	{xtorm.Lt, "<"},
	{xtorm.Gt, ">"},
	{xtorm.Gte, ">="},
	{xtorm.BitAnd, "&"},
	{xtorm.BitOr, "|"},
	{xtorm.BitXor, "^"},
	{xtorm.LeftShift, "<<"},
	{xtorm.RightShift, ">>"},
	{xtorm.Add, "+"},
	{xtorm.Sub, "-"},
	{xtorm.Mul, "*"},
	{xtorm.Div, "/"},
	{xtorm.IntDiv, "div"},
	{xtorm.Mod, "%"},
	{xtorm.Is, "is"},
	{xtorm.IsNot, "is_not"},
	{xtorm.Regexp, "regexp"},
	{xtorm.NotRegexp, "not_regexp"},
	{xtorm.Like, "like"},
	{xtorm.NotLike, "not_like"},
	{xtorm.ContIn, "cont_in"},
	{xtorm.NotContIn, "not_cont_in"},
	{xtorm.Overlaps, "overlaps"},
	{xtorm.NotOverlaps, "not_overlaps"},
}

// any3 is any of a scalar, a text, a column or a nested expression.
func any3(name string) (interface{}, func(e *expr)) {
	switch v.Choose(name+"kind", 4) {
	case 0:
		x := math.Float64frombits(v.F64bits(name))
		return x, func(e *expr) { isDouble(lit(e, "operand"), x, "operand") }
	case 1:
		x := v.String(name, v.Bound("text", 60, 300))
		return x, func(e *expr) { isString(lit(e, "operand"), x, 0, "operand") }
	case 2:
		x := v.String(name, v.Bound("text", 60, 300))
		return xtorm.Column(x), func(e *expr) {
			v.Assert(e.typ == eIdent, "operand: column")
			v.EqString(string(e.name), x, "operand: column name")
		}
	}
	x := v.Bool(name)
	return xtorm.Not(x), func(e *expr) {
		isCall(e, eOperator, "!", 1)
		isBool(lit(e.params[0], "operand"), x, "operand")
	}
}

func isCall(e *expr, typ uint64, name string, n int) {
	v.Assert(e.typ == typ, "kind of expression")
	v.EqString(string(e.name), name, "operation")
	v.Assert(len(e.params) == n, "number of operands")
}

// criteria is what the server gets for a filter expression.
func criteria(f xproto.AppendExprFunc) *expr {
	x := xtorm.New(64)
	x.Delete("t", f)
	e := decDelete(one(sent(x), cDelete)).criteria
	v.Assert(e != nil, "criteria")
	return e
}

func C06_Unary() {
	h := unary[v.Choose("helper", len(unary))]
	a, isA := any3("a")
	e := criteria(h.f(a))
	isCall(e, eOperator, h.name, 1)
	isA(e.params[0])
}

func C06_Binary() {
	h := binary[v.Choose("helper", len(binary))]
	a, isA := any3("a")
	b, isB := any3("b")
	e := criteria(h.f(a, b))
	isCall(e, eOperator, h.name, 2)
	isA(e.params[0])
	isB(e.params[1])
}

func C06_Between() {
	a, isA := any3("a")
	b, isB := any3("b")
	c, isC := any3("c")
	var e *expr
	if v.Choose("not", 2) == 1 {
		e = criteria(xtorm.NotBetween(a, b, c))
		// the schema's comment says between_not, the server's parser not_between
		if len(e.name) > 0 && e.name[0] == 'b' {
			isCall(e, eOperator, "between_not", 3)
		} else {
			isCall(e, eOperator, "not_between", 3)
		}
	} else {
		e = criteria(xtorm.Between(a, b, c))
		isCall(e, eOperator, "between", 3)
	}
	isA(e.params[0])
	isB(e.params[1])
	isC(e.params[2])
}

// C06_In: the IN helpers, for lists of every length within the bound; the
// caller's list is overwritten before the expression is used.
func C06_In() {
	a, isA := any3("a")
	n := v.Choose("length", v.Bound("length", 4, 6))
	xs := make([]float64, n)
	list := make([]interface{}, n, n+v.Choose("spare", 2))
	for i := range list {
		xs[i] = math.Float64frombits(v.F64bits("x" + names[i]))
		list[i] = xs[i]
	}
	var f xproto.AppendExprFunc
	name := "in"
	switch v.Choose("helper", 4) {
	case 0:
		f = xtorm.In(a, list)
	case 1:
		f = xtorm.InV(a, list...)
	case 2:
		f, name = xtorm.NotIn(a, list), "not_in"
	case 3:
		f, name = xtorm.NotInV(a, list...), "not_in"
	}
	for i := range list {
		list[i] = "overwritten"
	}
	_ = append(list, "overwritten")
	for k := 0; k < 2; k++ { // an expression can be used more than once
		e := criteria(f)
		isCall(e, eOperator, name, 1+n)
		isA(e.params[0])
		for i := range xs {
			isDouble(lit(e.params[1+i], "member"), xs[i], "member")
		}
	}
}

var units = []struct {
	u    xtorm.DateUnit
	name string
}{
	{xtorm.UnitMicroSecond, "MICROSECOND"},
	{xtorm.UnitSecond, "SECOND"},
	{xtorm.UnitMinute, "MINUTE"},
	{xtorm.UnitHour, "HOUR"},
	{xtorm.UnitDay, "DAY"},
	{xtorm.UnitWeek, "WEEK"},
	{xtorm.UnitMonth, "MONTH"},
	{xtorm.UnitQuarter, "QUARTER"},
	{xtorm.UnitYear, "YEAR"},
	{xtorm.UnitSecondMicrosecond, "SECOND_MICROSECOND"},
	{xtorm.UnitMinuteMicrosecond, "MINUTE_MICROSECOND"},
	{xtorm.UnitMinuteSecond, "MINUTE_SECOND"},
	{xtorm.UnitHourMicrosecond, "HOUR_MICROSECOND"},
	{xtorm.UnitHourSecond, "HOUR_SECOND"},
	{xtorm.UnitHourMinute, "HOUR_MINUTE"},
	{xtorm.UnitDayMicrosecond, "DAY_MICROSECOND"},
	{xtorm.UnitDaySecond, "DAY_SECOND"},
	{xtorm.UnitDayMinute, "DAY_MINUTE"},
	{xtorm.UnitDayHour, "DAY_HOUR"},
}

func C06_Date() {
	a, isA := any3("a")
	b, isB := any3("b")
	u := units[v.Choose("unit", len(units))]
	var e *expr
	if v.Choose("sub", 2) == 1 {
		e = criteria(xtorm.DateSub(a, b, u.u))
		isCall(e, eOperator, "date_sub", 3)
	} else {
		e = criteria(xtorm.DateAdd(a, b, u.u))
		isCall(e, eOperator, "date_add", 3)
	}
	isA(e.params[0])
	isB(e.params[1])
	isOctets(lit(e.params[2], "unit"), u.name, 0, "unit")
}

func C06_Functions() {
	switch v.Choose("helper", 4) {
	case 0:
		isCall(criteria(xtorm.Default()), eOperator, "default", 0)
	case 1:
		isCall(criteria(xtorm.RowCount()), eFunc, "ROW_COUNT", 0)
	case 2:
		isCall(criteria(xtorm.LastInsertID()), eFunc, "LAST_INSERT_ID", 0)
	case 3:
		n := v.Choose("params", 4)
		var ps []interface{}
		var is []func(e *expr)
		for i := 0; i < n; i++ {
			p, f := any3(names[i])
			ps = append(ps, p)
			is = append(is, f)
		}
		e := criteria(xtorm.Concat(ps...))
		isCall(e, eFunc, "CONCAT", n)
		for i, f := range is {
			f(e.params[i])
		}
	}
}
