package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

// The builder's operations, each with a text somewhere in it.

const nOps = 14

// do performs operation k on a builder.
func do(k int, b *xtorm.Builder, s string) {
	switch k {
	case 0:
		b.StmtExecute(s)
	case 1:
		b.StmtExecute("SELECT ?,?", s, true)
	case 2:
		b.Prepare(7, s)
	case 3:
		b.Execute(7, true, s)
	case 4:
		b.Deallocate(300)
	case 5:
		b.Insert(s, []string{"c"}, [][]interface{}{{true}})
	case 6:
		b.InsertRow("t", []string{"c"}, []interface{}{s})
	case 7:
		b.InsertF("t", []string{"c"}, func(i *xtorm.Insert) error {
			i.Row([]interface{}{s})
			i.RowV(false)
			return nil
		})
	case 8:
		b.Update("t", nil, map[string]interface{}{"c": s})
	case 9:
		b.UpdateF("t", xtorm.Eq(xtorm.Column("k"), s), func(u *xtorm.Update) error {
			u.Set("c", true)
			return nil
		})
	case 10:
		b.Delete("t", xtorm.Eq(xtorm.Column("c"), s))
	case 11:
		b.Delete(s, nil)
	case 12:
		b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
			b.StmtExecute(s)
			return nil
		})
	case 13:
		b.Tx(xtorm.IsolationLevelRepeatableRead, func(b *xtorm.Builder) error {
			b.StmtExecute(s)
			return nil
		})
	}
}

// take checks that the stream begins with the messages of operation k and
// returns the rest of it.
func take(k int, b []byte, s string) []byte {
	next := func(typ int) []byte {
		f, rest := decFrame(b)
		v.Assert(f.typ == typ, "message type")
		b = rest
		return f.payload
	}
	stmt := func(s string) {
		q := decStmtExecute(next(cStmtExecute))
		v.EqString(string(q.sql), s, "statement")
		v.Assert(len(q.args) == 0, "no arguments")
	}
	switch k {
	case 0:
		stmt(s)
	case 1:
		q := decStmtExecute(next(cStmtExecute))
		v.EqString(string(q.sql), "SELECT ?,?", "statement")
		v.Assert(len(q.args) == 2, "two arguments")
		isString(q.args[0], s, 0, "argument")
		isBool(q.args[1], true, "argument")
	case 2:
		id, q := decPrepare(next(cPrepare))
		v.Assert(id == 7, "statement id")
		v.EqString(string(q.sql), s, "statement")
	case 3:
		q := decExecute(next(cExecute))
		v.Assert(q.id == 7, "statement id")
		v.Assert(len(q.args) == 2, "two arguments")
		isBool(q.args[0], true, "argument")
		isString(q.args[1], s, 0, "argument")
	case 4:
		v.Assert(decID(next(cDeallocate)) == 300, "statement id")
	case 5:
		q := decInsert(next(cInsert))
		v.EqString(string(q.table), s, "table")
		v.Assert(len(q.cols) == 1, "one column")
		isBool(lit(single(q), "value"), true, "value")
	case 6:
		q := decInsert(next(cInsert))
		isString(lit(single(q), "value"), s, 0, "value")
		next(cStmtExecute)
	case 7:
		q := decInsert(next(cInsert))
		v.Assert(len(q.rows) == 2 && len(q.rows[0]) == 1 && len(q.rows[1]) == 1, "two rows")
		isString(lit(q.rows[0][0], "value"), s, 0, "value")
		isBool(lit(q.rows[1][0], "value"), false, "value")
	case 8:
		q := decUpdate(next(cUpdate))
		v.Assert(q.criteria == nil, "no criteria")
		isString(lit(setOf(q), "value"), s, 0, "value")
	case 9:
		q := decUpdate(next(cUpdate))
		isString(lit(operand(q.criteria, 1, 2), "criteria"), s, 0, "criteria")
		isBool(lit(setOf(q), "value"), true, "value")
	case 10:
		q := decDelete(next(cDelete))
		isString(lit(operand(q.criteria, 1, 2), "criteria"), s, 0, "criteria")
	case 11:
		q := decDelete(next(cDelete))
		v.EqString(string(q.table), s, "table")
		v.Assert(q.criteria == nil, "no criteria")
	case 12:
		open(next(cExpectOpen), ctxEmpty)
		stmt(s)
		v.Assert(len(next(cExpectClose)) == 0, "close")
	case 13:
		stmt("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ")
		stmt("START TRANSACTION")
		stmt(s)
		stmt("COMMIT")
	}
	return b
}

const (
	ctxCopyPrev = 0
	ctxEmpty    = 1
)

// open: an expectation block with the no-error condition switched on.
func open(b []byte, ctx uint64) {
	o := decExpectOpen(b)
	v.Assert(o.op == ctx, "context of the block")
	v.Assert(len(o.conds) == 1, "one condition")
	v.Assert(o.conds[0].key == 1, "no-error condition")
	v.EqString(string(o.conds[0].val), "1", "condition is enabled")
}

// failing encoders

type badAny struct{ k int }

func (a badAny) AppendAny(p []byte, tag uint8) ([]byte, error) { return badEnc(a.k, p) }

type badExpr struct{ k int }

func (a badExpr) AppendExpr(p []byte, tag uint8) ([]byte, error) { return badEnc(a.k, p) }

// badEnc fails, returning a buffer as encoders may when they fail.
func badEnc(k int, p []byte) ([]byte, error) {
	switch k {
	case 0:
		return p, errBoom
	case 1:
		return nil, errBoom
	case 2:
		return append(p, 1, 2, 3), errBoom
	}
	return []byte{9}, errBoom
}

func badFunc(k int) xproto.AppendExprFunc {
	return func(p []byte, tag uint8) ([]byte, error) { return badEnc(k, p) }
}
