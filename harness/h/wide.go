package h

import (
	"math"
	"strconv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

// Long lists: of arguments, rows, columns, members, assignments, messages and
// levels of nesting, and units of work that are already long.

var counts = []int{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}

func count() int { return counts[v.Choose("count", len(counts))] }

// items are n different values, the last of which is any number, and their check.
func items(n int) ([]interface{}, func(i int, s *scalar)) {
	last := v.U16("last")
	xs := make([]interface{}, n)
	for i := range xs {
		xs[i] = uint(i)
		if i == n-1 {
			xs[i] = last
		}
	}
	return xs, func(i int, s *scalar) {
		if i == n-1 {
			isUint(s, uint64(last), "last value")
		} else {
			isUint(s, uint64(i), "value")
		}
	}
}

// C01_Wide: statements with many arguments.
func C01_Wide() {
	n := count()
	xs, is := items(n)
	x := pipe()
	var as []*scalar
	switch v.Choose("how", 2) {
	case 0:
		x.StmtExecute("s", xs...)
		as = decStmtExecute(one(sent(x), cStmtExecute)).args
	case 1:
		x.Execute(3, xs...)
		as = decExecute(one(sent(x), cExecute)).args
	}
	v.Assert(len(as) == n, "number of arguments")
	for i, a := range as {
		is(i, a)
	}
}

// C08_Wide: inserts with many rows or columns.
func C08_Wide() {
	n := count()
	v.Assume(n <= v.Bound("count", 130, 300))
	xs, is := items(n)
	x := pipe()
	how := v.Choose("how", 4)
	tall := how < 3 && v.Choose("tall", 2) == 1
	if how == 2 && n > 33 {
		how = 1
	}
	cols := []string{"c"}
	var rows [][]interface{}
	if tall {
		for _, a := range xs {
			rows = append(rows, []interface{}{a})
		}
	} else {
		rows = append(rows, xs)
		for i := 1; i < n; i++ {
			cols = append(cols, "c"+strconv.Itoa(i))
		}
	}
	insertVia(how, x, "t", cols, rows)
	s := decInsert(insertSent(how, x))
	v.Assert(len(s.cols) == len(cols), "number of columns")
	for i, c := range cols {
		v.EqString(string(s.cols[i]), c, "column")
	}
	v.Assert(len(s.rows) == len(rows), "number of rows")
	k := 0
	for i, r := range s.rows {
		v.Assert(len(r) == len(rows[i]), "number of values")
		for _, e := range r {
			is(k, lit(e, "value"))
			k++
		}
	}
}

// C06_Wide: lists of many members, and calls of many parameters.
func C06_Wide() {
	n := count()
	xs, is := items(n)
	var e *expr
	switch v.Choose("helper", 5) {
	case 0:
		e = criteria(xtorm.In(xtorm.Column("c"), xs))
		isCall(e, eOperator, "in", 1+n)
	case 1:
		e = criteria(xtorm.InV(xtorm.Column("c"), xs...))
		isCall(e, eOperator, "in", 1+n)
	case 2:
		e = criteria(xtorm.NotIn(xtorm.Column("c"), xs))
		isCall(e, eOperator, "not_in", 1+n)
	case 3:
		e = criteria(xtorm.NotInV(xtorm.Column("c"), xs...))
		isCall(e, eOperator, "not_in", 1+n)
	case 4:
		e = criteria(xtorm.Concat(xs...))
		isCall(e, eFunc, "CONCAT", n)
	}
	ps := e.params
	if len(ps) > n {
		v.Assert(ps[0].typ == eIdent, "first operand")
		ps = ps[1:]
	}
	for i, p := range ps {
		is(i, lit(p, "member"))
	}
}

// C09_Wide: updates with many assignments.
func C09_Wide() {
	n := count()
	xs, is := items(n)
	x := pipe()
	how := v.Choose("how", 2)
	if how == 0 {
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			for i, a := range xs {
				u.Set("c"+strconv.Itoa(i), a)
			}
			return nil
		})
	} else {
		m := map[string]interface{}{}
		for i, a := range xs {
			m["c"+strconv.Itoa(i)] = a
		}
		x.Update("t", nil, m)
	}
	s := decUpdate(one(sentUnseen(x), cUpdate))
	v.Assert(len(s.ops) == n, "number of assignments")
	var seen [300]bool
	for i, o := range s.ops {
		if how == 0 {
			v.EqString(string(o.col), "c"+strconv.Itoa(i), "column")
			is(i, lit(o.val, "value"))
			continue
		}
		v.Assert(len(o.col) > 1 && o.col[0] == 'c', "column")
		k, err := strconv.Atoi(string(o.col[1:]))
		v.Assert(err == nil && k >= 0 && k < n && !seen[k], "each column is assigned once")
		seen[k] = true
		is(k, lit(o.val, "value"))
	}
}

// C05_Deep: expressions nested deeply.
func C05_Deep() {
	n := 3 + v.Choose("depth", v.Bound("depth", 14, 40))
	a, isA := any3("a")
	left := v.Choose("left", 2) == 1
	var f xproto.AppendExprFunc
	for i := 0; i < n; i++ {
		if left {
			f = xtorm.Add(a, true)
		} else {
			f = xtorm.Add(uint(i), a)
		}
		a = f
	}
	e := criteria(f)
	for i := n - 1; i >= 0; i-- {
		isCall(e, eOperator, "+", 2)
		if left {
			isBool(lit(e.params[1], "operand"), true, "operand")
			e = e.params[0]
		} else {
			isUint(lit(e.params[0], "operand"), uint64(i), "operand")
			e = e.params[1]
		}
	}
	isA(e)
}

// C10_Wide: units of work of many messages.
func C10_Wide() {
	n := count()
	v.Assume(n <= v.Bound("count", 65, 300))
	k := v.Choose("call", nOps)
	x := pipe()
	s := v.String("text", 1)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			do(k, &x.Builder, s)
		} else {
			do(4, &x.Builder, "")
		}
	}
	b := sent(x)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			b = take(k, b, s)
		} else {
			b = take(4, b, "")
		}
	}
	v.Assert(len(b) == 0, "nothing follows the last message")
}

// long is a builder whose unit of work is already of any length.
func long() (x *xtorm.XPipe, first string) {
	x = pipe()
	first = v.String("earlier", v.Bound("earlier", 1<<20, 1<<28))
	do(0, &x.Builder, first)
	return x, first
}

// C10_After: any call on a long unit of work.
func C10_After() {
	x, first := long()
	k := v.Choose("call", nOps)
	do(k, &x.Builder, "text")
	do(4, &x.Builder, "text")
	b := take(4, take(k, take(0, sent(x), first), "text"), "text")
	v.Assert(len(b) == 0, "nothing follows the last message")
}

// C11_After: a failing call on a long unit of work.
func C11_After() {
	x, _ := long()
	fault(v.Choose("fault", nFaults), &x.Builder)
	do(0, &x.Builder, "after")
	refused(x, "failed unit of work")
}

// C12_After: a block on a long unit of work.
func C12_After() {
	x, first := long()
	k := v.Choose("inside", nOps)
	head, tail := blk("block", &x.Builder, func(b *xtorm.Builder) error {
		do(k, b, "text")
		return nil
	})
	do(4, &x.Builder, "text")
	b := tail(take(k, head(take(0, sent(x), first)), "text"))
	v.Assert(len(take(4, b, "text")) == 0, "nothing else")
}

// C12_Deep: blocks nested deeply.
func C12_Deep() {
	depth := 3 + v.Choose("depth", v.Bound("depth", 10, 40))
	kind := v.Choose("kind", 3)
	x := pipe()
	s := v.String("text", 60)
	set, start := "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "START TRANSACTION"
	var nest func(b *xtorm.Builder, d int)
	nest = func(b *xtorm.Builder, d int) {
		if d == depth {
			do(0, b, s)
			return
		}
		do(4, b, "")
		f := func(b *xtorm.Builder) error {
			nest(b, d+1)
			return nil
		}
		if kind == 0 || kind == 1 && d%2 == 0 {
			b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, f)
		} else {
			b.Tx(xtorm.IsolationLevelSerializable, f)
		}
		do(4, b, "")
	}
	nest(&x.Builder, 0)
	b := sent(x)
	expectation := func(d int) bool { return kind == 0 || kind == 1 && d%2 == 0 }
	for d := 0; d < depth; d++ {
		b = take(4, b, "")
		if expectation(d) {
			f, rest := decFrame(b)
			v.Assert(f.typ == cExpectOpen, "open message")
			open(f.payload, ctxCopyPrev)
			b = rest
		} else {
			b = take(0, take(0, b, set), start)
		}
	}
	b = take(0, b, s)
	for d := depth - 1; d >= 0; d-- {
		if expectation(d) {
			f, rest := decFrame(b)
			v.Assert(f.typ == cExpectClose && len(f.payload) == 0, "close message")
			b = rest
		} else {
			b = take(0, b, "COMMIT")
		}
		b = take(4, b, "")
	}
	v.Assert(len(b) == 0, "nothing else")
}

// misuse1 is misuse by one of a few calls.
func misuse1(name string, b *xtorm.Builder, x *xtorm.XPipe) {
	c := &capture{}
	k := v.Choose(name, 7)
	v.Assert(panics(func() {
		switch {
		case k < 5:
			do([]int{0, 4, 7, 9, 13}[k], b, "misuse")
		case x == nil:
			b.StmtExecute("misuse")
		case k == 5:
			x.Send(bg, c)
		default:
			x.Reset()
		}
	}), "using the enclosing builder panics")
	v.Assert(c.calls == 0, "nothing is transmitted")
}

// C13_After: the enclosing builder has a long unit of work.
func C13_After() {
	x, first := long()
	switch k := v.Choose("what", nBlocks+2); k {
	case nBlocks:
		x.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			misuse1("misuse", &x.Builder, x)
			i.RowV(true)
			return nil
		})
	case nBlocks + 1:
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			misuse1("misuse", &x.Builder, x)
			u.Set("c", true)
			return nil
		})
	default:
		block(k, &x.Builder, func(b *xtorm.Builder) error {
			do(4, b, "")
			misuse1("misuse", &x.Builder, x)
			return nil
		})
	}
	do(4, &x.Builder, "")
	b := take(0, sent(x), first)
	fs := decFrames(b)
	v.Assert(len(fs) >= 2 && fs[len(fs)-1].typ == cDeallocate, "usable after the callback")
}

// C13_Deep: any of the builders around a deeply nested block.
func C13_Deep() {
	depth := 2 + v.Choose("depth", v.Bound("depth", 4, 8))
	x := pipe()
	bs := []*xtorm.Builder{&x.Builder}
	var nest func(b *xtorm.Builder, d int)
	nest = func(b *xtorm.Builder, d int) {
		if d == depth {
			k := v.Choose("level", depth)
			var p *xtorm.XPipe
			if k == 0 {
				p = x
			}
			misuse1("misuse", bs[k], p)
			if v.Choose("more", 2) == 1 {
				k = v.Choose("level", depth)
				misuse1("misuse", bs[k], nil)
			}
			do(0, b, "s")
			return
		}
		block([]int{2, 0}[d%2], b, func(b *xtorm.Builder) error {
			bs = append(bs, b)
			nest(b, d+1)
			return nil
		})
	}
	nest(&x.Builder, 0)
	n := 0
	for _, f := range decFrames(sent(x)) {
		if f.typ == cStmtExecute && string(decStmtExecute(f.payload).sql) == "s" {
			n++
		}
	}
	v.Assert(n == 1, "the innermost call is sent")
}

// C25_After: whatever a builder that is reset has sent, the room it has, and
// the length of it.
func C25_After() {
	x, _ := long()
	if v.Choose("sent", 2) == 1 {
		sent(x)
	}
	if v.Choose("failed", 2) == 1 {
		fault(v.Choose("fault", nFaults), &x.Builder)
	}
	x.Reset()
	k := v.Choose("call", nOps)
	do(k, &x.Builder, "text")
	v.Assert(len(take(k, sent(x), "text")) == 0, "only what was built since")
}

// C08_IDs: every InsertRow has a variable of its own, wherever it is.
func C08_IDs() {
	x := pipe()
	s := v.String("text", v.Bound("text", 60, 300))
	var ids []xproto.AppendExprFunc
	ins := func(b *xtorm.Builder, k int) {
		t := "same"
		if k == 1 {
			t = s
		}
		ids = append(ids, b.InsertRow("t", []string{"c"}, []interface{}{t}))
	}
	ins(&x.Builder, v.Choose("first", 2))
	switch v.Choose("between", 4) {
	case 1:
		do(0, &x.Builder, s)
	case 2:
		block(v.Choose("block", nBlocks), &x.Builder, func(b *xtorm.Builder) error {
			ins(b, v.Choose("inside", 2))
			ins(b, v.Choose("inside again", 2))
			return nil
		})
	case 3:
		do(12, &x.Builder, s)
	}
	ins(&x.Builder, v.Choose("second", 2))
	n := 0
	for _, id := range ids {
		x.Delete("u", id)
	}
	var set, used []string
	for _, f := range decFrames(sent(x)) {
		switch f.typ {
		case cInsert:
			n++
		case cStmtExecute:
			q := string(decStmtExecute(f.payload).sql)
			if len(q) > 4 && q[:4] == "SET " && len(set) < n {
				set = append(set, q)
			}
		case cDelete:
			e := decDelete(f.payload).criteria
			v.Assert(e != nil && e.typ == eVariable, "variable")
			used = append(used, string(e.name))
		}
	}
	v.Assert(n == len(ids) && len(used) == n && len(set) == n, "each insert has an id")
	for i := range used {
		v.EqString(set[i], "SET "+used[i]+" = LAST_INSERT_ID()", "the id of its own insert")
		for j := 0; j < i; j++ {
			v.Assert(used[i] != used[j], "each insert has a variable of its own")
		}
	}
}

// C05_Reuse: an expression used more than once is the same everywhere.
func C05_Reuse() {
	f, is := anyHelper(v.Choose("what", nHelpers), 60)
	x := pipe()
	x.Delete("t", opr("&&", []interface{}{f, f}))
	x.Update("t", f, map[string]interface{}{"c": f})
	x.Insert("t", []string{"c", "d"}, [][]interface{}{{f, true}, {false, f}})
	fs := decFrames(sent(x))
	v.Assert(len(fs) == 3, "three messages")
	e := decDelete(fs[0].payload).criteria
	isCall(e, eOperator, "&&", 2)
	is(e.params[0])
	is(e.params[1])
	u := decUpdate(fs[1].payload)
	is(u.criteria)
	is(setOf(u))
	i := decInsert(fs[2].payload)
	v.Assert(len(i.rows) == 2 && len(i.rows[0]) == 2 && len(i.rows[1]) == 2, "two rows")
	is(i.rows[0][0])
	is(i.rows[1][1])
}

// C11_Wide: a value that cannot be encoded, anywhere in a long list.
func C11_Wide() {
	n := 1 + v.Choose("length", v.Bound("length", 12, 40))
	k := v.Choose("position", n)
	what := v.Choose("what", 9)
	x := xtorm.New(0)
	list := func(bad interface{}) []interface{} {
		xs := make([]interface{}, n)
		for i := range xs {
			xs[i] = uint(i)
		}
		xs[k] = bad
		return xs
	}
	var bad interface{} = badExpr{0}
	if v.Choose("type", 2) == 1 {
		bad = plainStruct{1}
	} else if what < 2 {
		bad = badAny{0}
	}
	cols := make([]string, n)
	for i := range cols {
		cols[i] = "c" + strconv.Itoa(i)
	}
	switch what {
	case 0:
		x.StmtExecute("s", list(bad)...)
	case 1:
		x.Execute(1, list(bad)...)
	case 2:
		x.Insert("t", cols, [][]interface{}{list(bad)})
	case 3:
		x.InsertRow("t", cols, list(bad))
	case 4:
		x.InsertF("t", cols[:1], func(i *xtorm.Insert) error {
			for _, a := range list(bad) {
				i.RowV(a)
			}
			return nil
		})
	case 5:
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			for i, a := range list(bad) {
				u.Set(cols[i], a)
			}
			return nil
		})
	case 6:
		x.Delete("t", xtorm.In(true, list(bad)))
	case 7:
		x.Delete("t", xtorm.Concat(list(bad)...))
	case 8:
		var rows [][]interface{}
		for _, a := range list(bad) {
			rows = append(rows, []interface{}{a})
		}
		x.Insert("t", cols[:1], rows)
	}
	refused(x, "failed unit of work")
}

var nHelpers = len(unary) + len(binary) + 14

// anyHelper is any of the expression helpers, applied to short operands.
func anyHelper(k, max int) (xproto.AppendExprFunc, func(e *expr)) {
	a := v.String("a", max)
	isA := func(e *expr) { isString(lit(e, "operand"), a, 0, "operand") }
	b := math.Float64frombits(v.F64bits("b"))
	isB := func(e *expr) { isDouble(lit(e, "operand"), b, "operand") }
	call := func(typ uint64, name string, is ...func(e *expr)) func(e *expr) {
		return func(e *expr) {
			isCall(e, typ, name, len(is))
			for i, f := range is {
				f(e.params[i])
			}
		}
	}
	if k < len(unary) {
		return unary[k].f(a), call(eOperator, unary[k].name, isA)
	}
	k -= len(unary)
	if k < len(binary) {
		return binary[k].f(a, b), call(eOperator, binary[k].name, isA, isB)
	}
	k -= len(binary)
	day := func(e *expr) { isOctets(lit(e, "unit"), "DAY", 0, "unit") }
	switch k {
	case 0:
		return xtorm.Between(a, b, true), call(eOperator, "between", isA, isB, func(e *expr) { isBool(lit(e, "operand"), true, "operand") })
	case 1:
		return xtorm.NotBetween(a, b, a), func(e *expr) {
			v.Assert(len(e.params) == 3, "number of operands")
			isA(e.params[0])
			isB(e.params[1])
			isA(e.params[2])
		}
	case 2:
		return xtorm.In(a, []interface{}{b, a}), call(eOperator, "in", isA, isB, isA)
	case 3:
		return xtorm.InV(a, b), call(eOperator, "in", isA, isB)
	case 4:
		return xtorm.NotIn(a, []interface{}{b}), call(eOperator, "not_in", isA, isB)
	case 5:
		return xtorm.NotInV(a, b, b), call(eOperator, "not_in", isA, isB, isB)
	case 6:
		return xtorm.DateAdd(a, b, xtorm.UnitDay), call(eOperator, "date_add", isA, isB, day)
	case 7:
		return xtorm.DateSub(a, b, xtorm.UnitDay), call(eOperator, "date_sub", isA, isB, day)
	case 8:
		return xtorm.Concat(a, b, a), call(eFunc, "CONCAT", isA, isB, isA)
	case 9:
		return xtorm.RowCount(), call(eFunc, "ROW_COUNT")
	case 10:
		return xtorm.LastInsertID(), call(eFunc, "LAST_INSERT_ID")
	case 11:
		return xtorm.Default(), call(eOperator, "default")
	case 12:
		return xtorm.Column(a), func(e *expr) {
			v.Assert(e.typ == eIdent, "column")
			v.EqString(string(e.name), a, "column")
		}
	}
	return fnc("F", []interface{}{b}), call(eFunc, "F", isB)
}

// C06_Long: every helper with a text of any length.
func C06_Long() {
	f, is := anyHelper(v.Choose("what", nHelpers), v.Bound("text", 1<<20, 1<<30))
	is(criteria(f))
}
