package h

import (
	"github.com/renthraysk/xtorm"

	"verif/harness/v"
)

const nFaults = 16

// fault performs a call that must fail on a builder.
func fault(k int, b *xtorm.Builder) {
	bad := func() interface{} {
		if j := v.Choose("bad", 5); j < 4 {
			return badExpr{j}
		}
		return plainStruct{1}
	}
	badArg := func() interface{} {
		if j := v.Choose("bad", 5); j < 4 {
			return badAny{j}
		}
		return plainStruct{1}
	}
	switch k {
	case 0:
		b.StmtExecute("SELECT ?,?,?", 1, badArg(), 2)
	case 1:
		b.Execute(1, "a", badArg())
	case 2:
		b.Insert("t", []string{"c", "d"}, [][]interface{}{{1, 2}, {3, bad()}})
	case 3:
		b.InsertRow("t", []string{"c", "d"}, []interface{}{bad(), 1})
	case 4:
		b.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			i.RowV(1)
			i.RowV(bad())
			i.RowV(2)
			return nil
		})
	case 5:
		b.Update("t", badFunc(v.Choose("bad", 4)), map[string]interface{}{"c": 1})
	case 6:
		b.Update("t", nil, map[string]interface{}{"c": bad()})
	case 7:
		b.UpdateF("t", badFunc(v.Choose("bad", 4)), func(u *xtorm.Update) error {
			u.Set("c", 1)
			return nil
		})
	case 8:
		b.UpdateF("t", nil, func(u *xtorm.Update) error {
			u.Set("c", bad())
			u.Set("d", 1)
			return nil
		})
	case 9:
		b.Delete("t", badFunc(v.Choose("bad", 4)))
	case 10:
		b.Delete("t", xtorm.And(1, xtorm.Or(bad(), xtorm.Concat(2))))
	case 11:
		b.Insert("t", []string{"c", "d"}, [][]interface{}{{1, 2}, {3}})
	case 12:
		b.Tx(xtorm.IsolationLevel(6+v.Int("level", 0, 1<<60)), func(b *xtorm.Builder) error { return nil })
	case 13:
		b.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			if v.Choose("row", 2) == 1 {
				i.RowV(1)
			}
			return errBoom
		})
	case 14:
		b.UpdateF("t", nil, func(u *xtorm.Update) error {
			if v.Choose("set", 2) == 1 {
				u.Set("c", 1)
			}
			return errBoom
		})
	case 15:
		b.Delete("t", xtorm.In(1, []interface{}{bad(), xtorm.Column("c")}))
	}
}

const nBlocks = 3

// block performs f inside a block.
func block(k int, b *xtorm.Builder, f func(b *xtorm.Builder) error) {
	switch k {
	case 0:
		b.Tx(xtorm.IsolationLevelDefault, f)
	case 1:
		b.Tx(xtorm.IsolationLevelSerializable, f)
	case 2:
		b.ExpectFailOnError(xtorm.OpenExpectCtxCopyPrev, f)
	}
}

func ops(name string, b *xtorm.Builder) {
	if k := v.Choose(name, nOps+1); k > 0 {
		do(k-1, b, "text")
	}
}

// C11_Fault: a failing call, with any call before and after it.
func C11_Fault() {
	x := xtorm.New(v.Choose("room", 2) * 100)
	if v.Choose("order", 2) == 0 {
		ops("before", &x.Builder)
		fault(v.Choose("fault", nFaults), &x.Builder)
	} else {
		fault(v.Choose("fault", nFaults), &x.Builder)
		ops("after", &x.Builder)
	}
	refused(x, "failed unit of work")
	refused(x, "failed unit of work, again")
}

// C11_Block: a failing call or a callback's error inside blocks nested up to a
// depth, followed by more calls inside and outside.
func C11_Block() {
	x := xtorm.New(0)
	depth := 1 + v.Choose("depth", v.Bound("depth", 2, 3))
	var nest func(b *xtorm.Builder, d int) error
	nest = func(b *xtorm.Builder, d int) error {
		if d == depth {
			if k := v.Choose("fault", nFaults+1); k < nFaults {
				fault(k, b)
				return nil
			}
			return errBoom
		}
		if v.Choose("before"+names[d], 2) == 1 {
			do(0, b, "before")
		}
		block(v.Choose("block"+names[d], nBlocks), b, func(b *xtorm.Builder) error { return nest(b, d+1) })
		if v.Choose("after"+names[d], 2) == 1 {
			do(7, b, "after")
		}
		return nil
	}
	v.Assert(nest(&x.Builder, 0) == nil, "top level")
	refused(x, "failed unit of work")
}

// C11_Inner: an error returned by a callback is not lost when the callback's
// own builder is in order, nor the builder's failure when the callback is.
func C11_Inner() {
	x := xtorm.New(64)
	k := v.Choose("block", nBlocks)
	inOrder := v.Choose("fails", 2) == 0
	block(k, &x.Builder, func(b *xtorm.Builder) error {
		ops("inside", b)
		if inOrder {
			return nil
		}
		return errBoom
	})
	ops("after", &x.Builder)
	if inOrder {
		v.Assert(len(sent(x)) > 0, "a unit of work in order is sent")
	} else {
		refused(x, "callback's error")
	}
}

// C11_Reset: only a reset clears the failure.
func C11_Reset() {
	x := xtorm.New(64)
	fault(v.Choose("fault", nFaults), &x.Builder)
	refused(x, "failed unit of work")
	k := v.Choose("call", nOps)
	s := v.String("text", 60)
	if v.Choose("reset", 2) == 0 {
		do(k, &x.Builder, s)
		refused(x, "failed unit of work")
		return
	}
	x.Reset()
	do(k, &x.Builder, s)
	v.Assert(len(take(k, sent(x), s)) == 0, "nothing else")
}
