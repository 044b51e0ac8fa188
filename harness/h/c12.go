package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

var levels = []struct {
	level xtorm.IsolationLevel
	set   string
	start string
}{
	{xtorm.IsolationLevelDefault, "", "START TRANSACTION"},
	{xtorm.IsolationLevelReadUncommitted, "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED", "START TRANSACTION"},
	{xtorm.IsolationLevelReadCommitted, "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "START TRANSACTION"},
	{xtorm.IsolationLevelRepeatableRead, "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", "START TRANSACTION"},
	{xtorm.IsolationLevelSerializable, "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "START TRANSACTION"},
	{xtorm.IsolationLevelSnapshot, "", "START TRANSACTION WITH CONSISTENT SNAPSHOT"},
}

// blk builds a block and returns what must be on the stream at its start and
// at its end.
func blk(name string, b *xtorm.Builder, f func(b *xtorm.Builder) error) (head, tail func(b []byte) []byte) {
	k := v.Choose(name, len(levels)+2)
	if k < len(levels) {
		l := levels[k]
		b.Tx(l.level, f)
		return func(b []byte) []byte {
				if l.set != "" {
					b = take(0, b, l.set)
				}
				return take(0, b, l.start)
			}, func(b []byte) []byte {
				return take(0, b, "COMMIT")
			}
	}
	ctx, want := xtorm.OpenExpectCtxCopyPrev, uint64(ctxCopyPrev)
	if k == len(levels)+1 {
		ctx, want = xtorm.OpenExpectCtxEmpty, ctxEmpty
	}
	b.ExpectFailOnError(ctx, f)
	return func(b []byte) []byte {
			f, rest := decFrame(b)
			v.Assert(f.typ == cExpectOpen, "open message")
			open(f.payload, want)
			return rest
		}, func(b []byte) []byte {
			f, rest := decFrame(b)
			v.Assert(f.typ == cExpectClose && len(f.payload) == 0, "close message")
			return rest
		}
}

// C12_Block: one block of any kind around any calls, between any calls.
func C12_Block() {
	x := pipe()
	s := v.String("text", v.Bound("text", 60, 300))
	before := v.Choose("before", 2)
	after := v.Choose("after", 2)
	if before == 1 {
		do(0, &x.Builder, s)
	}
	k := v.Choose("inside", nOps+1)
	head, tail := blk("block", &x.Builder, func(b *xtorm.Builder) error {
		if k < nOps {
			do(k, b, s)
		}
		return nil
	})
	if after == 1 {
		do(0, &x.Builder, "after")
	}
	b := sent(x)
	if before == 1 {
		b = take(0, b, s)
	}
	b = head(b)
	if k < nOps {
		b = take(k, b, s)
	}
	b = tail(b)
	if after == 1 {
		b = take(0, b, "after")
	}
	v.Assert(len(b) == 0, "nothing else")
}

// C12_Nest: blocks inside blocks, with calls around each.
func C12_Nest() {
	x := xtorm.New(0)
	s := v.String("text", 60)
	depth := v.Bound("depth", 2, 3)
	var heads, tails []func(b []byte) []byte
	heads = make([]func(b []byte) []byte, depth)
	tails = make([]func(b []byte) []byte, depth)
	pre := make([]int, depth)
	post := make([]int, depth)
	var nest func(b *xtorm.Builder, d int)
	nest = func(b *xtorm.Builder, d int) {
		if d == depth {
			do(7, b, s)
			return
		}
		heads[d], tails[d] = blk("block"+names[d], b, func(b *xtorm.Builder) error {
			pre[d] = v.Choose("pre"+names[d], 2)
			if pre[d] == 1 {
				do(0, b, names[d])
			}
			nest(b, d+1)
			post[d] = v.Choose("post"+names[d], 2)
			if post[d] == 1 {
				do(10, b, names[d])
			}
			return nil
		})
	}
	nest(&x.Builder, 0)
	b := sent(x)
	for d := 0; d < depth; d++ {
		b = heads[d](b)
		if pre[d] == 1 {
			b = take(0, b, names[d])
		}
	}
	b = take(7, b, s)
	for d := depth - 1; d >= 0; d-- {
		if post[d] == 1 {
			b = take(10, b, names[d])
		}
		b = tails[d](b)
	}
	v.Assert(len(b) == 0, "nothing else")
}

// C12_Level: an isolation level that is not one of the known ones.
func C12_Level() {
	l := v.U64("level")
	known := false
	for _, k := range levels {
		known = known || uint64(k.level) == l
	}
	x := pipe()
	called := false
	if v.Choose("before", 2) == 1 {
		do(0, &x.Builder, "before")
	}
	x.Tx(xtorm.IsolationLevel(l), func(b *xtorm.Builder) error {
		called = true
		return nil
	})
	if v.Choose("after", 2) == 1 {
		do(0, &x.Builder, "after")
	}
	if known {
		v.Assert(called, "callback is called")
		sent(x)
		return
	}
	refused(x, "unsupported isolation level")
}

// C12_Conditions: expectation blocks opened with any conditions.
func C12_Conditions() {
	n := v.Choose("conditions", 4)
	var cs []xproto.OpenCondition
	var want []cond
	for i := 0; i < n; i++ {
		switch v.Choose("condition"+names[i], 3) {
		case 0:
			cs = append(cs, xproto.OpenConditionExpectNoError(true))
			want = append(want, cond{1, []byte("1")})
		case 1:
			cs = append(cs, xproto.OpenConditionExpectNoError(false))
			want = append(want, cond{1, []byte("0")})
		case 2:
			s := v.String("field"+names[i], v.Bound("field", 1<<15, 1<<28))
			cs = append(cs, xproto.OpenConditionExpectFieldExists(s))
			want = append(want, cond{2, []byte(s)})
		}
	}
	ctx, op := xproto.OpenExpectCtxCopyPrev, uint64(ctxCopyPrev)
	if v.Choose("empty", 2) == 1 {
		ctx, op = xproto.OpenExpectCtxEmpty, ctxEmpty
	}
	v.Tight(v.Choose("tight", 2) == 1)
	b := xproto.ExpectOpen(nil, ctx, cs...)
	v.ObsBytes("sent", b)
	o := decExpectOpen(one(b, cExpectOpen))
	v.Assert(o.op == op, "context")
	v.Assert(len(o.conds) == n, "number of conditions")
	for i, c := range o.conds {
		v.Assert(c.key == want[i].key, "condition")
		v.EqBytes(c.val, want[i].val, "condition's value")
	}
}
