package h

import (
	"github.com/renthraysk/xtorm/slice"
	"verif/harness/v"
)

// buffer is a byte slice of any length and capacity, its unused part holding
// any bytes, and its content.
func buffer(max int) ([]byte, string) {
	b := v.Bytes("buf", max)
	m := v.Int("len", 0, max)
	v.Assume(m <= len(b))
	c := v.Int("cap", 0, max)
	v.Assume(m <= c && c <= len(b))
	b = b[:m:c]
	return b, string(b)
}

// C24_ForAppend: extending a buffer.
func C24_ForAppend() {
	max := v.Bound("bytes", 1<<31, 1<<40)
	b, old := buffer(max)
	n := v.Int("n", 0, max)
	m := len(b)
	head, tail := slice.ForAppend(b, n)
	v.Assert(len(head) == m+n, "head length")
	v.Assert(len(tail) == n, "tail length")
	v.EqString(string(head[:m]), old, "content preserved")
	v.EqString(string(b), old, "buffer preserved")
	if n > 0 {
		// the view is of precisely the new bytes
		i := v.Int("i", 0, max)
		v.Assume(i < n)
		tail[i] = 0xA5
		v.Assert(head[m+i] == 0xA5, "view of the new bytes")
		v.EqString(string(head[:m]), old, "writing to the view leaves the content")
		head[m+i] = 0x5A
		v.Assert(tail[i] == 0x5A, "the view shares the new bytes")
	}
}

// C24_Insert: opening a gap.
func C24_Insert() {
	max := v.Bound("bytes", 1<<31, 1<<40)
	b, old := buffer(max)
	m := len(b)
	n := v.Int("n", 0, max)
	pos := v.Int("pos", 0, max)
	v.Assume(pos <= m)
	got := slice.Insert(b, pos, n)
	v.Assert(len(got) == m+n, "length")
	v.EqString(string(got[:pos]), old[:pos], "what is before the gap")
	v.EqString(string(got[pos+n:]), old[pos:], "what is after the gap")
}

// C24_Allocate: allocating bytes.
func C24_Allocate() {
	max := v.Bound("bytes", 1<<31, 1<<40)
	b, old := buffer(max)
	n := v.Int("n", 0, max)
	rest, got := slice.Allocate(b, n)
	v.Assert(len(got) == n, "length")
	v.EqString(string(b), old, "buffer preserved")
	if n > 0 {
		i := v.Int("i", 0, max)
		v.Assume(i < n)
		got[i] = 0xA5
		v.EqString(string(b), old, "writing to the new bytes leaves the content")
		got[i] = 0x5A
	}
	// what is allocated next does not overlap what was allocated first
	again := v.Int("again", 0, max)
	_, next := slice.Allocate(rest, again)
	v.Assert(len(next) == again, "length of the next allocation")
	if n > 0 && again > 0 {
		i := v.Int("i2", 0, max)
		v.Assume(i < n)
		got[i] = 1
		j := v.Int("j", 0, max)
		v.Assume(j < again)
		next[j] = 2
		v.Assert(got[i] == 1, "allocations do not overlap")
	}
}
