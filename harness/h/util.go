package h

import (
	"context"
	"errors"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"verif/harness/v"
)

// capture is a netx.Sender that records what it is asked to transmit.
type capture struct {
	calls int
	data  []byte
}

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.calls++
	c.data = append([]byte(nil), b...)
	return nil, nil
}

var bg = context.Background()

var errBoom = errors.New("boom")

// pipe is a builder with no room, where append leaves none either, or with
// some room and roomy appends. (C10 covers any capacity.)
func pipe() *xtorm.XPipe {
	if v.Choose("tight", 2) == 1 {
		v.Tight(true)
		return xtorm.New(0)
	}
	return xtorm.New(512)
}

// anyPipe is a builder of any capacity, with any growth behaviour of append.
func anyPipe() *xtorm.XPipe {
	v.Tight(v.Choose("tight", 2) == 1)
	return xtorm.New(v.Int("capacity", 0, 1<<20))
}

// sent transmits a unit of work that must be in order and returns its bytes.
func sent(x *xtorm.XPipe) []byte {
	b := sentUnseen(x)
	v.ObsBytes("sent", b)
	return b
}

// sentUnseen is sent where the bytes may legitimately differ from run to run
// (map iteration order), so they are not compared with a native run.
func sentUnseen(x *xtorm.XPipe) []byte {
	c := &capture{}
	_, err := x.Send(bg, c)
	v.Assert(err == nil, "unit of work is sent")
	v.Assert(c.calls == 1, "transmitted once")
	return c.data
}

// refused: a unit of work that failed to build is not transmitted.
func refused(x *xtorm.XPipe, msg string) {
	c := &capture{}
	_, err := x.Send(bg, c)
	v.Assert(err != nil, msg+": error is reported")
	v.Assert(c.calls == 0, msg+": nothing is transmitted")
}
