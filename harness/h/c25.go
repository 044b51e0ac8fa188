package h

import (
	"github.com/renthraysk/xtorm"

	"verif/harness/v"
)

// history puts a builder through any earlier unit of work.
func history(x *xtorm.XPipe) {
	n := v.Choose("earlier", v.Bound("earlier", 3, 4))
	for i := 0; i < n; i++ {
		switch k := v.Choose("earlier"+names[i], nOps+nFaults); {
		case k < nOps:
			do(k, &x.Builder, "an earlier text")
		default:
			fault(k-nOps, &x.Builder)
		}
	}
	if v.Choose("sent", 2) == 1 {
		x.Send(bg, &capture{})
	}
}

// C25_Reset: a builder that has been reset sends what a new one would.
func C25_Reset() {
	v.Tight(v.Choose("tight", 2) == 1)
	x := xtorm.New(64)
	history(x)
	x.Reset()
	k := v.Choose("call", v.Bound("calls", 1, 4))
	k = []int{13, 3, 7, 0}[k]
	do(k, &x.Builder, "text")
	do(4, &x.Builder, "text")
	y := xtorm.New(0)
	do(k, &y.Builder, "text")
	do(4, &y.Builder, "text")
	v.EqBytes(sent(x), sent(y), "the same bytes as from a new builder")
}

// C25_Dirty: whatever bytes of whatever length were in the buffer before.
func C25_Dirty() {
	v.Tight(v.Choose("tight", 2) == 1)
	x := xtorm.New(0)
	s := v.String("earlier", v.Bound("earlier bytes", 300, 1<<16))
	x.StmtExecute(s)
	x.Reset()
	k := v.Choose("call", nOps)
	t := v.String("text", v.Bound("text", 60, 300))
	do(k, &x.Builder, t)
	y := xtorm.New(0)
	do(k, &y.Builder, t)
	a, b := sent(x), sent(y)
	v.EqBytes(a, b, "the same bytes as from a new builder")
	v.Assert(len(take(k, a, t)) == 0, "and the right ones")
}

// C25_Empty: a reset builder with nothing built sends no bytes.
func C25_Empty() {
	x := pipe()
	history(x)
	x.Reset()
	v.Assert(len(sent(x)) == 0, "no bytes")
}

// C25_Twice: sending is repeatable.
func C25_Twice() {
	x := pipe()
	k := v.Choose("call", nOps)
	t := v.String("text", v.Bound("text", 1<<20, 1<<28))
	do(k, &x.Builder, t)
	a := sent(x)
	b := sent(x)
	v.EqBytes(a, b, "the same bytes again")
	do(0, &x.Builder, "more")
	c := sent(x)
	v.Assert(len(c) > len(a), "more follows")
	v.EqBytes(c[:len(a)], a, "what was sent before comes first")
	v.Assert(len(take(0, c[len(a):], "more")) == 0, "then the new message")
}
