package smt

// Operations on floating-point values, as circuits over their bit patterns
// (IEEE 754 binary32 and binary64, round to nearest even, as amd64 does them).

// fparts: the sizes of the fraction and the exponent, and the magnitude bits.
func fparts(w int) (frac int, mag, inf uint64) {
	if w == 32 {
		return 23, 1<<31 - 1, 0xff << 23
	}
	return 52, 1<<63 - 1, 0x7ff << 52
}

// FNaN: a is not a number.
func (u *U) FNaN(a *Expr) *Expr {
	_, mag, inf := fparts(a.W)
	return u.Ult(u.BV(inf, a.W), u.BAnd(a, u.BV(mag, a.W)))
}

// FEq: a == b.
func (u *U) FEq(a, b *Expr) *Expr {
	_, mag, _ := fparts(a.W)
	zero := u.Eq(u.BAnd(u.BOr(a, b), u.BV(mag, a.W)), u.BV(0, a.W))
	return u.And(u.Not(u.FNaN(a)), u.Not(u.FNaN(b)), u.Or(u.Eq(a, b), zero))
}

// FLt: a < b.
func (u *U) FLt(a, b *Expr) *Expr {
	_, mag, _ := fparts(a.W)
	m := u.BV(mag, a.W)
	ma, mb := u.BAnd(a, m), u.BAnd(b, m)
	na, nb := u.Slt(a, u.BV(0, a.W)), u.Slt(b, u.BV(0, a.W))
	zero := u.Eq(u.BOr(ma, mb), u.BV(0, a.W))
	lt := u.Ite(na,
		u.Ite(nb, u.Ult(mb, ma), u.True),
		u.Ite(nb, u.False, u.Ult(ma, mb)))
	return u.And(u.Not(u.FNaN(a)), u.Not(u.FNaN(b)), u.Not(zero), lt)
}

// FLe: a <= b.
func (u *U) FLe(a, b *Expr) *Expr { return u.Or(u.FLt(a, b), u.FEq(a, b)) }

// round shifts m right by n (at least 1) bits, to the nearest, ties to even.
func (u *U) round(m, n *Expr) *Expr {
	one := u.BV(1, m.W)
	r := u.Lshr(m, n)
	rem := u.Sub(m, u.Shl(r, n))
	half := u.Shl(one, u.Sub(n, one))
	odd := u.Eq(u.BAnd(r, one), one)
	up := u.Or(u.Ult(half, rem), u.And(u.Eq(rem, half), odd))
	return u.Add(r, u.Ite(up, one, u.BV(0, m.W)))
}

// FTo32 converts a binary64 to a binary32.
func (u *U) FTo32(a *Expr) *Expr {
	c := func(v uint64) *Expr { return u.BV(v, 64) }
	sign := u.ShlC(u.LshrC(a, 63), 31)
	e := u.BAnd(u.LshrC(a, 52), c(0x7ff))
	m := u.BAnd(a, c(1<<52-1))
	nan := u.BOr(c(0x7fc00000), u.LshrC(m, 29))
	normal := u.Add(u.ShlC(u.Sub(e, c(896)), 23), u.round(m, c(29)))
	sub := u.round(u.BOr(m, c(1<<52)), u.Sub(c(926), e))
	r := u.Ite(u.Ult(e, c(897)), u.Ite(u.Ult(e, c(872)), c(0), sub), normal)
	r = u.Ite(u.Ult(e, c(1151)), r, u.Ite(u.FNaN(a), nan, c(0x7f800000)))
	return u.Extract(u.BOr(sign, r), 31, 0)
}

// FTo64 converts a binary32 to a binary64.
func (u *U) FTo64(a32 *Expr) *Expr {
	c := func(v uint64) *Expr { return u.BV(v, 64) }
	a := u.ZExt(a32, 64)
	sign := u.ShlC(u.LshrC(a, 31), 63)
	e := u.BAnd(u.LshrC(a, 23), c(0xff))
	m := u.BAnd(a, c(1<<23-1))
	frac := u.ShlC(m, 29)
	normal := u.BOr(u.ShlC(u.Add(e, c(896)), 52), frac)
	special := u.BOr(c(0x7ff<<52), u.Ite(u.Eq(m, c(0)), c(0), u.BOr(frac, c(1<<51))))
	// subnormal: normalise
	l := u.BitLen(m, 64)
	norm := u.BAnd(u.Shl(m, u.Sub(c(53), l)), c(1<<52-1))
	sub := u.Ite(u.Eq(m, c(0)), c(0), u.BOr(u.ShlC(u.Add(l, c(873)), 52), norm))
	return u.BOr(sign, u.Ite(u.Eq(e, c(0)), sub, u.Ite(u.Eq(e, c(0xff)), special, normal)))
}

// FToInt converts a binary64 to a signed 64 bit integer.
func (u *U) FToInt(a *Expr) *Expr {
	c := func(v uint64) *Expr { return u.BV(v, 64) }
	e := u.BAnd(u.LshrC(a, 52), c(0x7ff))
	m := u.BOr(u.BAnd(a, c(1<<52-1)), c(1<<52))
	v := u.Ite(u.Ult(e, c(1075)), u.Lshr(m, u.Sub(c(1075), e)), u.Shl(m, u.Sub(e, c(1075))))
	v = u.Ite(u.Ult(e, c(1023)), c(0), v)
	v = u.Ite(u.Slt(a, c(0)), u.Neg(v), v)
	return u.Ite(u.Ult(e, c(1086)), v, c(1<<63))
}

// FToUint converts a binary64 to an unsigned 64 bit integer, where it is one.
func (u *U) FToUint(a *Expr) *Expr {
	c := func(v uint64) *Expr { return u.BV(v, 64) }
	e := u.BAnd(u.LshrC(a, 52), c(0x7ff))
	m := u.BOr(u.BAnd(a, c(1<<52-1)), c(1<<52))
	return u.Ite(u.Eq(u.LshrC(a, 52), c(1086)), u.ShlC(m, 11), u.Ite(u.Eq(e, c(1086)), c(1<<63), u.FToInt(a)))
}

// FFromInt converts a 64 bit integer to a floating-point value of width w.
func (u *U) FFromInt(a *Expr, signed bool, w int) *Expr {
	c := func(v uint64) *Expr { return u.BV(v, 64) }
	frac, _, _ := fparts(w)
	bias := uint64(1023)
	if w == 32 {
		bias = 127
	}
	neg := u.False
	if signed {
		neg = u.Slt(a, c(0))
	}
	mag := u.Ite(neg, u.Neg(a), a)
	l := u.BitLen(mag, 64)
	k := c(uint64(frac + 1))
	exact := u.Shl(mag, u.Sub(k, l))
	m := u.Ite(u.Ult(k, l), u.round(mag, u.Sub(l, k)), exact)
	r := u.Add(u.ShlC(u.Add(l, c(bias-2)), frac), m)
	r = u.Ite(u.Eq(mag, c(0)), c(0), r)
	r = u.BOr(r, u.Ite(neg, c(1<<uint(w-1)), c(0)))
	if w == 32 {
		return u.Extract(r, 31, 0)
	}
	return r
}
