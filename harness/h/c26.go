package h

import (
	"github.com/renthraysk/xtorm/collation"

	"verif/harness/v"
)

// C26_Named: every named collation has its id and prints its name.
func C26_Named() {
	k := v.Choose("collation", len(collTab))
	t := collTab[k]
	v.Assert(uint64(t.c) == t.id, "id of the constant")
	v.EqString(t.c.String(), t.name, "name")
	v.Assert(t.c.IsBinary() == (t.id == 63), "binary")
}

// C26_Binary: only id 63 is binary.
func C26_Binary() {
	c := v.U64("id")
	v.Assert(collation.Collation(c).IsBinary() == (c == 63), "binary")
}

// C26_Any: any id prints its name if it is that of a collation, else its number.
func C26_Any() {
	n := 1 + v.Choose("digits", v.Bound("digits", 18, 18))
	var id uint64
	var ds []int
	for i := 0; i < n; i++ {
		d := v.Int("d"+names[i%10]+names[i/10], 0, 9)
		ds = append(ds, d)
		id = id*10 + uint64(d)
	}
	v.Assume(n == 1 || ds[0] > 0)
	known := -1
	if n <= 3 {
		for i := range collTab {
			if id == collTab[i].id {
				known = i
			}
		}
	}
	s := collation.Collation(id).String()
	if known >= 0 {
		v.EqString(s, collTab[known].name, "name")
		return
	}
	number(s, ds)
}

// number checks that s is a number of digits ds, possibly with text around it.
func number(s string, ds []int) {
	n := len(ds)
	j := 0
	for j < len(s) && (s[j] < '0' || s[j] > '9') {
		j++
	}
	v.Assert(len(s)-j >= n, "number is there")
	for i, d := range ds {
		v.Assert(int(s[j+i]) == '0'+d, "digits of the number")
	}
	v.Assert(len(s) == j+n || s[j+n] < '0' || s[j+n] > '9', "number ends there")
	for k := 0; k < j; k++ {
		v.Assert(s[k] == "Collation("[k], "text before the number")
	}
}

// C26_Large: ids of 19 and 20 digits around the signed limit and up to the largest.
func C26_Large() {
	base := []uint64{9223372036854775000, 9223372036854776000, 1000000000000000000,
		10000000000000000000, 18446744073709551000}[v.Choose("base", 5)]
	top := 999
	if base == 18446744073709551000 {
		top = 615
	}
	lo := v.Int("low", 0, top)
	id := base + uint64(lo)
	var ds []int
	for b := base / 1000; b > 0; b /= 10 {
		ds = append([]int{int(b % 10)}, ds...)
	}
	ds = append(ds, lo/100, lo/10%10, lo%10)
	number(collation.Collation(id).String(), ds)
}
