package h

import (
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"

	"verif/harness/v"
)

const nMsgs = 9

// msg appends a message with the functions a builder is made of.
func msg(k int, p []byte, s string) []byte {
	var err error
	switch k {
	case 0:
		p, err = xproto.StmtExecute(p, s, []interface{}{true})
	case 1:
		p = xproto.Prepare(p, 77, s)
	case 2:
		p, err = xproto.Execute(p, 1<<20, []interface{}{s})
	case 3:
		p = xproto.Deallocate(p, 1<<30)
	case 4:
		p, err = xproto.Delete(p, "t", xtorm.Eq(xtorm.Column("c"), s))
	case 5:
		p = xproto.Reset(p, true)
	case 6:
		p = xproto.ExpectOpen(p, xproto.OpenExpectCtxCopyPrev, xproto.OpenConditionExpectNoError(true), xproto.OpenConditionExpectFieldExists(s))
	case 7:
		p = xproto.ExpectClose(p)
	case 8:
		p, err = xproto.Delete(p, s, nil)
	}
	v.Assert(err == nil, "message is built")
	return p
}

var msgType = [nMsgs]int{cStmtExecute, cPrepare, cExecute, cDeallocate, cDelete, cSessReset, cExpectOpen, cExpectClose, cDelete}

// C10_Append: appending a message to any buffer, with any stale bytes in any
// amount of unused room, keeps what was there and adds one frame that depends
// on neither.
func C10_Append() {
	k := v.Choose("message", nMsgs)
	v.Tight(v.Choose("tight", 2) == 1)
	s := v.String("text", v.Bound("text", 1<<17, 1<<24))
	buf := v.Bytes("buffer", v.Bound("buffer", 1<<20, 1<<30))
	n := v.Int("used", 0, 1<<30)
	v.Assume(n <= len(buf))
	old := string(buf[:n])
	p := msg(k, buf[:n], s)
	v.Assert(len(p) >= n, "buffer does not shrink")
	v.EqString(string(p[:n]), old, "what was there is unchanged")
	v.EqString(string(buf[:n]), old, "the old buffer is unchanged")
	f, rest := decFrame(p[n:])
	v.Assert(len(rest) == 0, "exactly one frame")
	v.Assert(f.typ == msgType[k], "message type")
	v.ObsBytes("added", p[n:])
	v.EqBytes(p[n:], msg(k, nil, s), "the same bytes as in an empty buffer")
}

// C10_Seq: any sequence of builder calls, in order, with nothing left over.
func C10_Seq() {
	v.Tight(v.Choose("tight", 2) == 1)
	sequence(v.Bound("calls", 2, 3), 60, v.Choose("room", 2)*40)
}

// C10_Long: two calls with texts of any length.
func C10_Long() {
	v.Tight(true)
	sequence(2, v.Bound("text", 200, 1<<20), 0)
}

func sequence(n, max, room int) {
	x := xtorm.New(room)
	ks := make([]int, n)
	ss := make([]string, n)
	for i := range ks {
		ks[i] = v.Choose("call"+names[i], nOps)
		ss[i] = v.String("text"+names[i], max)
		do(ks[i], &x.Builder, ss[i])
	}
	b := sent(x)
	for i := range ks {
		b = take(ks[i], b, ss[i])
	}
	v.Assert(len(b) == 0, "nothing follows the last message")
}

// C10_Capacity: what is sent does not depend on the room the builder was given.
func C10_Capacity() {
	k := v.Choose("call", nOps)
	x := anyPipe()
	s := v.String("text", v.Bound("text", 1<<17, 1<<22))
	do(0, &x.Builder, "first")
	do(k, &x.Builder, s)
	do(4, &x.Builder, s)
	b := sent(x)
	y := xtorm.New(0)
	do(0, &y.Builder, "first")
	do(k, &y.Builder, s)
	do(4, &y.Builder, s)
	v.EqBytes(b, sent(y), "the same bytes whatever the capacity")
}

// C10_Empty: a unit of work without messages.
func C10_Empty() {
	x := anyPipe()
	v.Assert(len(sent(x)) == 0, "no bytes")
}
