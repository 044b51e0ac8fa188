package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if x := recover(); x != nil {
			if v.Ended(x) {
				panic(x)
			}
			p = true
		}
	}()
	f()
	return false
}

// misuse uses a builder that is not to be used now.
func misuse(name string, b *xtorm.Builder, x *xtorm.XPipe) {
	k := v.Choose(name, nOps+2)
	c := &capture{}
	v.Assert(panics(func() {
		switch k {
		case nOps:
			if x != nil {
				x.Send(bg, c)
			} else {
				b.StmtExecute("misuse")
			}
		case nOps + 1:
			if x != nil {
				x.Reset()
			} else {
				b.StmtExecute("misuse")
			}
		default:
			do(k, b, "misuse")
		}
	}), "using the enclosing builder panics")
	v.Assert(c.calls == 0, "nothing is transmitted")
}

// C13_Block: the builder a block belongs to, used while the block's callback
// runs, before and after the callback's own calls.
func C13_Block() {
	x := pipe()
	s := v.String("text", 60)
	do(0, &x.Builder, "first")
	k := v.Choose("inside", nOps)
	when := v.Choose("when", 3)
	head, tail := blk("block", &x.Builder, func(b *xtorm.Builder) error {
		if when == 0 {
			misuse("misuse", &x.Builder, x)
		}
		do(k, b, s)
		if when == 1 {
			misuse("misuse", &x.Builder, x)
		}
		do(4, b, s)
		if when == 2 {
			misuse("misuse", &x.Builder, x)
		}
		return nil
	})
	do(2, &x.Builder, s)
	b := take(0, sent(x), "first")
	b = take(4, take(k, head(b), s), s)
	b = take(2, tail(b), s)
	v.Assert(len(b) == 0, "nothing else")
}

// C13_Nested: any enclosing builder of a nested block.
func C13_Nested() {
	x := xtorm.New(0)
	outer := v.Choose("outer", 2) == 1
	var heads, tails [2]func(b []byte) []byte
	heads[0], tails[0] = blk("a", &x.Builder, func(b1 *xtorm.Builder) error {
		heads[1], tails[1] = blk("b", b1, func(b2 *xtorm.Builder) error {
			do(0, b2, "x")
			if outer {
				misuse("misuse", &x.Builder, x)
			} else {
				misuse("misuse", b1, nil)
			}
			do(1, b2, "y")
			return nil
		})
		if v.Choose("again", 2) == 1 {
			misuse("again", &x.Builder, x)
		}
		do(2, b1, "z")
		return nil
	})
	b := heads[1](heads[0](sent(x)))
	b = tails[1](take(1, take(0, b, "x"), "y"))
	b = tails[0](take(2, b, "z"))
	v.Assert(len(b) == 0, "nothing else")
}

// C13_Insert: the builder a row-wise insert belongs to.
func C13_Insert() {
	x := pipe()
	s := v.String("text", 60)
	do(0, &x.Builder, "first")
	when := v.Choose("when", 2)
	x.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
		if when == 0 {
			misuse("misuse", &x.Builder, x)
		}
		i.Row([]interface{}{s})
		if when == 1 {
			misuse("misuse", &x.Builder, x)
		}
		i.RowV(false)
		return nil
	})
	do(3, &x.Builder, s)
	b := take(3, take(7, take(0, sent(x), "first"), s), s)
	v.Assert(len(b) == 0, "nothing else")
}

// C13_Update: the builder a column-wise update belongs to.
func C13_Update() {
	x := pipe()
	s := v.String("text", 60)
	do(0, &x.Builder, "first")
	when := v.Choose("when", 2)
	x.UpdateF("t", xtorm.Eq(xtorm.Column("k"), s), func(u *xtorm.Update) error {
		if when == 0 {
			misuse("misuse", &x.Builder, x)
		}
		u.Set("c", true)
		if when == 1 {
			misuse("misuse", &x.Builder, x)
		}
		return nil
	})
	do(3, &x.Builder, s)
	b := take(3, take(9, take(0, sent(x), "first"), s), s)
	v.Assert(len(b) == 0, "nothing else")
}

// C13_Failed: a failure inside the callback does not open the enclosing
// builder to use while the callback runs, and is usable (to be reset) after.
func C13_Failed() {
	x := xtorm.New(64)
	f := v.Choose("fault", nFaults)
	switch k := v.Choose("callback", nBlocks+2); k {
	case nBlocks:
		x.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			i.RowV(plainStruct{})
			misuse("misuse", &x.Builder, x)
			return errBoom
		})
	case nBlocks + 1:
		x.UpdateF("t", nil, func(u *xtorm.Update) error {
			u.Set("c", plainStruct{})
			misuse("misuse", &x.Builder, x)
			return errBoom
		})
	default:
		block(k, &x.Builder, func(b *xtorm.Builder) error {
			fault(f, b)
			misuse("misuse", &x.Builder, x)
			return errBoom
		})
	}
	refused(x, "failed unit of work")
	x.Reset()
	do(0, &x.Builder, "s")
	v.Assert(len(take(0, sent(x), "s")) == 0, "nothing else")
}

// C13_Shapes: row-wise inserts and column-wise updates of any shape, anywhere.
func C13_Shapes() {
	x := pipe()
	t := v.String("table", 20)
	first := v.Choose("first", 2) == 1
	if first {
		do(0, &x.Builder, "first")
	}
	if v.Choose("call", 2) == 0 {
		cols := []string{"c", "d", "e"}[:v.Choose("columns", 4)]
		rows := v.Choose("rows", 3)
		x.InsertF(t, cols, func(i *xtorm.Insert) error {
			for j := 0; j < rows; j++ {
				i.Row([]interface{}{1, 2, 3}[:len(cols)])
			}
			misuse("misuse", &x.Builder, x)
			return nil
		})
		b := sent(x)
		if first {
			b = take(0, b, "first")
		}
		f, rest := decFrame(b)
		v.Assert(f.typ == cInsert && len(rest) == 0, "insert")
		m := decInsert(f.payload)
		v.EqString(string(m.table), t, "table")
		v.Assert(len(m.cols) == len(cols) && len(m.rows) == rows, "columns and rows")
		return
	}
	var where xproto.AppendExprFunc
	if v.Choose("where", 2) == 1 {
		where = xtorm.Column("k")
	}
	sets := v.Choose("sets", 3)
	x.UpdateF(t, where, func(u *xtorm.Update) error {
		for j := 0; j < sets; j++ {
			u.Set(names[j], j)
		}
		misuse("misuse", &x.Builder, x)
		return nil
	})
	b := sent(x)
	if first {
		b = take(0, b, "first")
	}
	f, rest := decFrame(b)
	v.Assert(f.typ == cUpdate && len(rest) == 0, "update")
	m := decUpdate(f.payload)
	v.EqString(string(m.table), t, "table")
	v.Assert((m.criteria != nil) == (where != nil) && len(m.ops) == sets, "criteria and assignments")
}
