package h

import (
	"math/bits"

	"github.com/renthraysk/xtorm/types"

	"verif/harness/v"
)

// packed is the server's form of a decimal of the given digits.
func packed(ds []byte, scale int, sign byte) types.Decimal {
	b := []byte{byte(scale)}
	for i := 0; i < len(ds); i += 2 {
		if i+1 < len(ds) {
			b = append(b, ds[i]<<4|ds[i+1])
		} else {
			b = append(b, ds[i]<<4|sign)
		}
	}
	if len(ds)%2 == 0 {
		b = append(b, sign<<4)
	}
	return b
}

// sign is a sign code and whether it is negative.
func signCode() (byte, bool) {
	s := byte(10 + v.Choose("sign", 6))
	return s, s == 0xB || s == 0xD
}

func digits(n int) []byte {
	var ds []byte
	for i := 0; i < n; i++ {
		ds = append(ds, byte(v.Int("d"+names[i/10]+names[i%10], 0, 9)))
	}
	return ds
}

// C23_String: the text of a decimal.
func C23_String() {
	n := 1 + v.Choose("digits", 65)
	ds := digits(n)
	scale := v.Choose("scale", n+1)
	var sign byte = 0xC
	neg := v.Choose("negative", 2) == 1
	if neg {
		sign = 0xD
	}
	got := packed(ds, scale, sign).String()
	v.ObsBytes("text", []byte(got))
	isText(got, ds, scale, neg)
}

func isText(got string, ds []byte, scale int, neg bool) {
	i := 0
	if neg {
		v.Assert(len(got) > 0 && got[0] == '-', "minus")
		i = 1
	}
	text := make([]byte, len(ds))
	for k, d := range ds {
		text[k] = hexdigits[d]
	}
	n := len(ds)
	if scale == 0 {
		same(got[i:], text, "digits")
		return
	}
	got = got[i:]
	k := n - scale
	if len(got) == n+2 && k == 0 { // a zero before the point is the same number
		v.Assert(got[0] == '0', "digits before the point")
		got = got[1:]
	}
	v.Assert(len(got) == n+1, "length")
	same(got[:k], text[:k], "digits before the point")
	v.Assert(got[k] == '.', "point")
	same(got[k+1:], text[k:], "digits after the point")
}

// same compares byte by byte.
func same(got string, want []byte, msg string) {
	v.Assert(len(got) == len(want), msg+": number")
	for i, c := range want {
		v.Assert(got[i] == c, msg)
	}
}

// C23_Signs: every sign code, in either half of a byte.
func C23_Signs() {
	n := 1 + v.Choose("digits", 4)
	ds := digits(n)
	sign, neg := signCode()
	scale := v.Int("scale", 0, n)
	d := packed(ds, scale, sign)
	isText(d.String(), ds, scale, neg)
	form, negative, coeff, exp := d.Decompose(scratch())
	v.Assert(form == 0, "a finite number")
	v.Assert(negative == neg, "sign")
	v.Assert(int(exp) == -scale, "exponent")
	isCoeff(coeff, ds)
}

// isCoeff checks a coefficient against the digits.
func isCoeff(c []byte, ds []byte) {
	var x [4]uint64
	for _, d := range ds {
		carry := uint64(d)
		for i := range x {
			hi, lo := bits.Mul64(x[i], 10)
			var cc uint64
			lo, cc = bits.Add64(lo, carry, 0)
			x[i], carry = lo, hi+cc
		}
	}
	v.Assert(len(c) <= 32, "coefficient fits")
	for k := 0; k < 32; k++ {
		b := byte(x[k/8] >> (8 * uint(k%8)))
		if k < len(c) {
			v.Assert(c[len(c)-1-k] == b, "coefficient")
		} else {
			v.Assert(b == 0, "coefficient is complete")
		}
	}
	v.Assert(len(c) <= 1 || c[0] != 0, "no superfluous leading zeros")
}

// C23_Decompose: any digits.
func C23_Decompose() {
	n := 1 + v.Choose("digits", v.Bound("digits", 16, 19))
	ds := digits(n)
	form, negative, coeff, exp := packed(ds, n, 0xD).Decompose(nil)
	v.Assert(form == 0, "a finite number")
	v.Assert(negative, "sign")
	v.Assert(int(exp) == -n, "exponent")
	isCoeff(coeff, ds)
}

// C23_Window: long numbers, of which some digits are free.
func C23_Window() {
	n := []int{20, 39, 58, 65, 19, 21, 38, 40, 57, 59, 64}[v.Choose("digits", v.Bound("numbers of digits", 4, 11))]
	w := v.Bound("free digits", 1, 2)
	at := (n - w) * v.Choose("window", 3) / 2
	fill := v.Choose("fill", 3)
	ds := make([]byte, n)
	for i := range ds {
		switch fill {
		case 0:
			ds[i] = 9
		case 1:
			ds[i] = byte(i*7+3) % 10
		}
	}
	copy(ds[at:], digits(w))
	form, negative, coeff, exp := packed(ds, 3, 0xC).Decompose(nil)
	v.Assert(form == 0, "a finite number")
	v.Assert(!negative, "sign")
	v.Assert(int(exp) == -3, "exponent")
	isCoeff(coeff, ds)
}

// C23_Step: one step of the coefficient, from any 256 bit number.
func C23_Step() {
	var x types.Uint256
	for i := range x {
		x[i] = v.U64("x" + names[i])
	}
	old := x
	m, ok := interface{}(&x).(interface{ MulAdd(y, z uint64) uint64 })
	if !ok {
		return
	}
	d := v.U64("d")
	v.Assume(d < 10)
	m.MulAdd(10, d)
	carry := d
	for i := range old {
		hi, lo := bits.Mul64(old[i], 10)
		var cc uint64
		lo, cc = bits.Add64(lo, carry, 0)
		v.Assert(x[i] == lo, "word of ten times the number and a digit")
		carry = hi + cc
	}
}
