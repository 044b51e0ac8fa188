package smt

import (
	"math"
	"math/rand"
	"testing"
)

func TestFloat(t *testing.T) {
	u := New()
	r := rand.New(rand.NewSource(1))
	pick := func() uint64 {
		x := r.Uint64()
		switch r.Intn(7) {
		case 0:
			x = math.Float64bits(float64(math.Float32frombits(uint32(x))))
		case 1:
			x = x&^(0x7ff<<52) | uint64(865+r.Intn(45))<<52
		case 2:
			x = x&^(0x7ff<<52) | uint64(1140+r.Intn(15))<<52
		case 3:
			x = x&^(0x7ff<<52) | uint64(1015+r.Intn(75))<<52
		case 4:
			x = []uint64{0, 1 << 63, 0x7ff << 52, 0xfff << 52, 1, 0x3ff << 52}[r.Intn(6)]
		case 5:
			x &^= 1<<29 - 1
			x |= 1 << 28
		}
		return x
	}
	for i := 0; i < 20000; i++ {
		x, y := pick(), pick()
		if r.Intn(4) == 0 {
			y = x
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		ea, eb := u.BV(x, 64), u.BV(y, 64)
		chk := func(what string, e *Expr, want uint64) {
			if !e.IsConst() || e.C != want {
				t.Fatalf("%s of %x %x: %v want %x", what, x, y, e.C, want)
			}
		}
		bl := func(c bool) uint64 { return u.Bool(c).C }
		chk("eq", u.FEq(ea, eb), bl(a == b))
		chk("lt", u.FLt(ea, eb), bl(a < b))
		chk("le", u.FLe(ea, eb), bl(a <= b))
		chk("to32", u.FTo32(ea), uint64(math.Float32bits(float32(a))))
		f := math.Float32frombits(uint32(x))
		g := math.Float32frombits(uint32(y))
		chk("eq32", u.FEq(u.BV(x&0xffffffff, 32), u.BV(y&0xffffffff, 32)), bl(f == g))
		chk("lt32", u.FLt(u.BV(x&0xffffffff, 32), u.BV(y&0xffffffff, 32)), bl(f < g))
		chk("to64", u.FTo64(u.BV(x&0xffffffff, 32)), math.Float64bits(float64(f)))
		chk("toint", u.FToInt(ea), uint64(int64(a)))
		if a >= 0 && a < 1<<64 {
			chk("touint", u.FToUint(ea), uint64(a))
		}
		z := x >> uint(r.Intn(64))
		if r.Intn(2) == 0 {
			z = -z
		}
		ez := u.BV(z, 64)
		chk("int", u.FFromInt(ez, true, 64), math.Float64bits(float64(int64(z))))
		chk("uint", u.FFromInt(ez, false, 64), math.Float64bits(float64(z)))
		chk("int32", u.FFromInt(ez, true, 32), uint64(math.Float32bits(float32(int64(z)))))
		chk("uint32", u.FFromInt(ez, false, 32), uint64(math.Float32bits(float32(z))))
	}
}
