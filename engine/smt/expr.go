// Package smt is a small hash-consed bit-vector term library with an
// aggressive simplifier, plus a client for SMT-LIB2 solver processes.
//
// Normal forms:
//   - sums are n-ary linear forms  c + k1*a1 + ... (OpAdd), modulo 2^W
//   - shifts by constants, masks, zero extension are Concat/Extract
//   - if-then-else trees with constant leaves absorb operations with constants
package smt

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpApp // uninterpreted function application, Name, Args
	OpNot // bool
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpSlt
	OpIte
	OpAdd // linear form: Ks[i]*Args[i] + C
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat // Args[0] is the most significant
	OpExtract
	OpSExt
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt", OpIte: "ite",
	OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor",
	OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat"}

// Expr is an immutable hash-consed term. W is 0 for booleans.
type Expr struct {
	Op    Op
	W     int
	Args  []*Expr
	Ks    []uint64 // OpAdd coefficients
	C     uint64   // constant value (W<=64), OpAdd constant, OpExtract low bit
	Big   *big.Int // constant value when W>64
	Name  string
	ID    int
	h     uint64 // structural hash: order independent of creation order
	lo    uint64 // static unsigned range, W<=64
	hi    uint64
	exact bool  // OpAdd: integer sum never wraps
	ct    int   // number of constant leaves if a constant tree, else 0
	mv    *Expr // the one variable the term is a non-decreasing, non-wrapping function of
}

type U struct {
	tab   map[string]*Expr
	next  int
	True  *Expr
	False *Expr
	Vars  []*Expr
	Funs  map[string]FunSig
	kb    []byte
}

type FunSig struct {
	Args []int
	Ret  int
}

func New() *U {
	u := &U{tab: map[string]*Expr{}, Funs: map[string]FunSig{}}
	u.True = u.intern(&Expr{Op: OpConst, W: 0, C: 1})
	u.False = u.intern(&Expr{Op: OpConst, W: 0, C: 0})
	return u
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (u *U) intern(e *Expr) *Expr {
	k := u.kb[:0]
	k = append(k, byte(e.Op), byte(e.W), byte(e.W>>8))
	k = app64(k, e.C)
	if e.Big != nil {
		k = append(k, e.Big.Text(16)...)
	}
	if e.Name != "" {
		k = append(k, e.Name...)
		k = append(k, 0)
	}
	for i, a := range e.Args {
		k = app64(k, uint64(a.ID))
		if e.Ks != nil {
			k = app64(k, e.Ks[i])
		}
	}
	u.kb = k
	if x, ok := u.tab[string(k)]; ok {
		return x
	}
	e.ID = u.next
	u.next++
	e.h = structHash(e)
	u.ranges(e)
	u.tab[string(k)] = e
	return e
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>32
}

func structHash(e *Expr) uint64 {
	h := mix(uint64(e.Op)<<16|uint64(e.W), e.C)
	if e.Big != nil {
		for _, b := range e.Big.Bits() {
			h = mix(h, uint64(b))
		}
	}
	for i := 0; i < len(e.Name); i++ {
		h = mix(h, uint64(e.Name[i]))
	}
	for i, a := range e.Args {
		h = mix(h, a.h)
		if e.Ks != nil {
			h = mix(h, e.Ks[i])
		}
	}
	return h
}

// less orders terms the same way in every universe.
func less(a, b *Expr) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.ID < b.ID
}

func app64(k []byte, x uint64) []byte {
	for x >= 0x80 {
		k = append(k, byte(x)|0x80)
		x >>= 7
	}
	return append(k, byte(x))
}

func (e *Expr) IsConst() bool { return e.Op == OpConst }
func (e *Expr) IsTrue() bool  { return e.Op == OpConst && e.W == 0 && e.C == 1 }
func (e *Expr) IsFalse() bool { return e.Op == OpConst && e.W == 0 && e.C == 0 }
func (e *Expr) Val() uint64   { return e.C }

// SVal is the signed value of a constant of width <= 64.
func (e *Expr) SVal() int64 { return sx(e.C, e.W) }

func sx(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	return int64(c<<uint(64-w)) >> uint(64-w)
}

func (u *U) ranges(e *Expr) {
	e.ct = 0
	if e.Op == OpConst {
		e.ct = 1
	} else if e.Op == OpIte && e.Args[1].ct > 0 && e.Args[2].ct > 0 {
		e.ct = e.Args[1].ct + e.Args[2].ct
	}
	if e.W == 0 || e.W > 64 {
		return
	}
	defer u.mono(e)
	e.lo, e.hi = 0, mask(e.W)
	switch e.Op {
	case OpConst:
		e.lo, e.hi = e.C, e.C
	case OpIte:
		a, b := e.Args[1], e.Args[2]
		e.lo, e.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OpAdd:
		lo, hi, ok := linRange(e.Args, e.Ks, e.C, e.W, func(a *Expr) (uint64, uint64) { return a.lo, a.hi })
		if ok && lo >= 0 && (e.W == 64 || uint64(hi) <= mask(e.W)) {
			e.lo, e.hi, e.exact = uint64(lo), uint64(hi), true
		}
	case OpConcat:
		e.lo, e.hi = concatRange(e, func(a *Expr) (uint64, uint64) { return a.lo, a.hi })
	case OpExtract:
		e.lo, e.hi = extractRange(e, e.Args[0].lo, e.Args[0].hi)
	case OpUDiv:
		if b := e.Args[1]; b.IsConst() && b.C > 0 {
			e.lo, e.hi = e.Args[0].lo/b.C, e.Args[0].hi/b.C
		}
	case OpURem:
		if b := e.Args[1]; b.IsConst() && b.C > 0 {
			e.hi = b.C - 1
			if e.Args[0].hi < e.hi {
				e.hi = e.Args[0].hi
			}
		}
	case OpLshr:
		e.hi = e.Args[0].hi
	case OpBAnd:
		e.hi = min(e.Args[0].hi, e.Args[1].hi)
	case OpBOr:
		e.lo = max(e.Args[0].lo, e.Args[1].lo)
		e.hi = mask(bits.Len64(e.Args[0].hi | e.Args[1].hi))
	case OpBXor:
		e.hi = mask(bits.Len64(e.Args[0].hi | e.Args[1].hi))
	case OpMul:
		h, l := bits.Mul64(e.Args[0].hi, e.Args[1].hi)
		if h == 0 && l <= mask(e.W) {
			e.lo, e.hi = e.Args[0].lo*e.Args[1].lo, l
		}
	}
}

// mono recognises non-decreasing functions of a single bounded 64-bit variable.
func (u *U) mono(e *Expr) {
	if e.W != 64 || e.hi >= 1<<62 {
		return
	}
	switch e.Op {
	case OpVar:
		e.mv = e
	case OpAdd:
		if !e.exact {
			return
		}
		for i, a := range e.Args {
			if int64(e.Ks[i]) <= 0 || a.mv == nil || a.mv != e.Args[0].mv {
				return
			}
		}
		e.mv = e.Args[0].mv
	case OpIte:
		c, a, b := e.Args[0], e.Args[1], e.Args[2]
		if c.Op != OpUlt {
			return
		}
		var x *Expr
		if c.Args[1].IsConst() && a.hi <= b.lo { // true below a threshold
			x = c.Args[0].mv
		} else if c.Args[0].IsConst() && b.hi <= a.lo { // true above one
			x = c.Args[1].mv
		}
		if x == nil || !(a.IsConst() || a.mv == x) || !(b.IsConst() || b.mv == x) {
			return
		}
		e.mv = x
	}
	if e.mv != nil && e.Op != OpVar {
		e.lo, e.hi = max(e.lo, e.At(e.mv.lo)), min(e.hi, e.At(e.mv.hi))
	}
}

// Mono is the variable e is a non-decreasing function of, if any.
func (e *Expr) Mono() *Expr { return e.mv }

// At evaluates a term with Mono() != nil at a value of its variable.
func (e *Expr) At(x uint64) uint64 {
	switch e.Op {
	case OpConst:
		return e.C
	case OpVar:
		return x
	case OpAdd:
		r := e.C
		for i, a := range e.Args {
			r += e.Ks[i] * a.At(x)
		}
		return r
	case OpIte:
		c := e.Args[0]
		if c.Args[0].At(x) < c.Args[1].At(x) {
			return e.Args[1].At(x)
		}
		return e.Args[2].At(x)
	}
	panic("smt: At")
}

// threshold rewrites e < k, for monotone e, as a bound on its variable.
func (u *U) threshold(e *Expr, k uint64) *Expr {
	x := e.mv
	if e.At(x.lo) >= k {
		return u.False
	}
	if e.At(x.hi) < k {
		return u.True
	}
	lo, hi := x.lo, x.hi // e(lo) < k <= e(hi)
	for hi-lo > 1 {
		m := lo + (hi-lo)/2
		if e.At(m) < k {
			lo = m
		} else {
			hi = m
		}
	}
	return u.Ult(x, u.BV(hi, 64))
}

// linRange: integer range of sum with signed coefficients, if it fits in int64.
func linRange(args []*Expr, ks []uint64, c uint64, w int, r func(*Expr) (uint64, uint64)) (int64, int64, bool) {
	lo, hi := sx(c, w), sx(c, w)
	for i, a := range args {
		k := sx(ks[i], w)
		al, ah := r(a)
		if ah > 1<<63-1 {
			return 0, 0, false
		}
		pl, ok1 := mul64(k, int64(al))
		ph, ok2 := mul64(k, int64(ah))
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if k < 0 {
			pl, ph = ph, pl
		}
		var o1, o2 bool
		lo, o1 = add64(lo, pl)
		hi, o2 = add64(hi, ph)
		if !o1 || !o2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func add64(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0) || b == 0
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if (c < 0) != ((a < 0) != (b < 0)) || c/b != a || a == -1<<63 || b == -1<<63 {
		return 0, false
	}
	return c, true
}

func concatRange(e *Expr, r func(*Expr) (uint64, uint64)) (uint64, uint64) {
	var lo, hi uint64
	for _, a := range e.Args {
		al, ah := r(a)
		lo = lo<<uint(a.W) | al
		hi = hi<<uint(a.W) | ah
	}
	return lo, hi
}

func extractRange(e *Expr, alo, ahi uint64) (uint64, uint64) {
	a := e.Args[0]
	if a.W > 64 {
		return 0, mask(e.W)
	}
	l := uint(e.C)
	if bits.Len64(ahi) <= e.W+int(l) { // no high bits dropped
		return alo >> l, ahi >> l
	}
	if alo>>l>>uint(e.W) == ahi>>l>>uint(e.W) && e.W < 64 {
		return alo >> l & mask(e.W), ahi >> l & mask(e.W)
	}
	return 0, mask(e.W)
}

// ---- constructors ----

func (u *U) Bool(b bool) *Expr {
	if b {
		return u.True
	}
	return u.False
}

func (u *U) BV(v uint64, w int) *Expr {
	if w == 0 {
		return u.Bool(v != 0)
	}
	if w > 64 {
		return u.BigConst(new(big.Int).SetUint64(v), w)
	}
	return u.intern(&Expr{Op: OpConst, W: w, C: v & mask(w)})
}

func (u *U) BigConst(v *big.Int, w int) *Expr {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return u.BV(v.Uint64(), w)
	}
	return u.intern(&Expr{Op: OpConst, W: w, Big: v})
}

func (e *Expr) BigVal() *big.Int {
	if e.Big != nil {
		return e.Big
	}
	return new(big.Int).SetUint64(e.C)
}

func (u *U) Var(name string, w int) *Expr {
	n := u.next
	e := u.intern(&Expr{Op: OpVar, W: w, Name: name})
	if e.ID == n {
		u.Vars = append(u.Vars, e)
	}
	return e
}

// VarR is a variable known to be at most hi: the caller asserts that bound,
// which is part of the name.
func (u *U) VarR(name string, w int, hi uint64) *Expr {
	n := u.next
	e := u.intern(&Expr{Op: OpVar, W: w, Name: fmt.Sprintf("%s<=%d", name, hi)})
	if e.ID == n {
		u.Vars = append(u.Vars, e)
		e.hi = min(e.hi, hi)
		u.mono(e)
	}
	return e
}

func (u *U) App(name string, w int, args ...*Expr) *Expr {
	if _, ok := u.Funs[name]; !ok {
		var s FunSig
		for _, a := range args {
			s.Args = append(s.Args, a.W)
		}
		s.Ret = w
		u.Funs[name] = s
	}
	return u.intern(&Expr{Op: OpApp, W: w, Name: name, Args: args})
}

func (u *U) mk(op Op, w int, args ...*Expr) *Expr {
	return u.intern(&Expr{Op: op, W: w, Args: args})
}

// ---- booleans ----

func (u *U) Not(a *Expr) *Expr {
	if a.IsConst() {
		return u.Bool(a.C == 0)
	}
	if a.Op == OpNot {
		return a.Args[0]
	}
	return u.mk(OpNot, 0, a)
}

func (u *U) And(as ...*Expr) *Expr { return u.nary(OpAnd, as) }
func (u *U) Or(as ...*Expr) *Expr  { return u.nary(OpOr, as) }

func (u *U) nary(op Op, as []*Expr) *Expr {
	var out []*Expr
	seen := map[int]bool{}
	var add func(a *Expr) bool
	add = func(a *Expr) bool {
		if a.IsConst() {
			if (a.C == 1) == (op == OpAnd) {
				return true
			}
			return false
		}
		if a.Op == op {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		n := u.Not(a)
		if seen[n.ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return u.Bool(op == OpOr)
		}
	}
	if len(out) > 1 {
		out = u.subsume(op, out)
		if len(out) == 0 {
			return u.Bool(op == OpOr)
		}
	}
	if len(out) == 0 {
		return u.Bool(op == OpAnd)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i], out[j]) })
	return u.mk(op, 0, out...)
}

// subsume keeps only the strongest (And) or weakest (Or) constant bound per
// term; it returns nil when the bounds collapse to the absorbing element.
func (u *U) subsume(op Op, as []*Expr) []*Expr {
	type bd struct {
		ub, lb uint64 // x < ub, x >= lb
		u, l   int    // index in as, -1 none
	}
	m := map[*Expr]*bd{}
	drop := make([]bool, len(as))
	any := false
	for i, a := range as {
		neg := a.Op == OpNot
		if neg {
			a = a.Args[0]
		}
		if a.Op != OpUlt || a.Args[0].W > 64 {
			continue
		}
		var x *Expr
		var c uint64
		lower := neg
		if a.Args[1].IsConst() {
			x, c = a.Args[0], a.Args[1].C
		} else if a.Args[0].IsConst() { // c < x  i.e. x >= c+1
			x, c = a.Args[1], a.Args[0].C+1
			lower = !neg
		} else {
			continue
		}
		b := m[x]
		if b == nil {
			b = &bd{u: -1, l: -1}
			m[x] = b
		}
		if lower {
			if b.l < 0 {
				b.l, b.lb = i, c
			} else if (c > b.lb) == (op == OpAnd) {
				drop[b.l], b.l, b.lb, any = true, i, c, true
			} else {
				drop[i], any = true, true
			}
		} else {
			if b.u < 0 {
				b.u, b.ub = i, c
			} else if (c < b.ub) == (op == OpAnd) {
				drop[b.u], b.u, b.ub, any = true, i, c, true
			} else {
				drop[i], any = true, true
			}
		}
		if b.l >= 0 && b.u >= 0 {
			if op == OpAnd && b.lb >= b.ub || op == OpOr && b.lb <= b.ub {
				return nil
			}
		}
	}
	if !any {
		return as
	}
	out := as[:0:0]
	for i, a := range as {
		if !drop[i] {
			out = append(out, a)
		}
	}
	return out
}

func (u *U) Implies(a, b *Expr) *Expr { return u.Or(u.Not(a), b) }

func (u *U) Ite(c, a, b *Expr) *Expr {
	if c.IsConst() {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OpNot {
		return u.Ite(c.Args[0], b, a)
	}
	if a.W == 0 {
		if a.IsConst() {
			if a.C == 1 {
				return u.Or(c, b)
			}
			return u.And(u.Not(c), b)
		}
		if b.IsConst() {
			if b.C == 1 {
				return u.Or(u.Not(c), a)
			}
			return u.And(c, a)
		}
	}
	if a.Op == OpIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(c1, k, ite(c2, k, r)) -> ite(c1|c2, k, r)
	if b.Op == OpIte && b.Args[1] == a {
		return u.Ite(u.Or(c, b.Args[0]), a, b.Args[2])
	}
	if a.Op == OpIte && a.Args[2] == b && b.ct > 0 {
		return u.Ite(u.And(c, a.Args[0]), a.Args[1], b)
	}
	return u.mk(OpIte, a.W, c, a, b)
}

const maxCT = 80

// ctMap applies f to the leaves of a constant tree.
func (u *U) ctMap(e *Expr, f func(*Expr) *Expr) *Expr {
	if e.Op == OpConst {
		return f(e)
	}
	return u.Ite(e.Args[0], u.ctMap(e.Args[1], f), u.ctMap(e.Args[2], f))
}

func isTree(e *Expr) bool { return e.Op == OpIte && e.ct > 0 && e.ct <= maxCT }

func (u *U) Eq(a, b *Expr) *Expr {
	if a == b {
		return u.True
	}
	if a.IsConst() && b.IsConst() {
		return u.False // hash-consed, distinct
	}
	if a.IsConst() {
		a, b = b, a
	}
	if x := wide(a); x != nil && b.IsConst() {
		return u.Eq(x, u.ZExt(b, x.W))
	}
	if a.W == 0 {
		if b.IsConst() {
			if b.C == 1 {
				return a
			}
			return u.Not(a)
		}
		if less(b, a) {
			a, b = b, a
		}
		return u.mk(OpEq, 0, a, b)
	}
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Eq width %d vs %d: %s %s", a.W, b.W, a, b))
	}
	if b.IsConst() && isTree(a) {
		return u.ctMap(a, func(l *Expr) *Expr { return u.Eq(l, b) })
	}
	if a.W <= 64 {
		if a.hi < b.lo || b.hi < a.lo {
			return u.False
		}
		if a.Op == OpAdd || b.Op == OpAdd {
			// move everything to one side; canonical: sum == 0 with positive leading coefficient
			if b.IsConst() && a.Op == OpAdd && len(a.Args) == 1 && (a.Ks[0] == 1 || a.Ks[0] == mask(a.W)) {
				// x + c == k  or -x + c == k
				r := b.C - a.C
				if a.Ks[0] != 1 {
					r = -r
				}
				return u.Eq(a.Args[0], u.BV(r, a.W))
			}
			if !b.IsConst() {
				d := u.Sub(a, b)
				if d.IsConst() {
					return u.Bool(d.C == 0)
				}
				if d.Op == OpAdd && len(d.Args) == 1 && (d.Ks[0] == 1 || d.Ks[0] == mask(d.W)) {
					return u.Eq(d, u.BV(0, d.W))
				}
				if l, h, ok := u.diffRange(a, b, func(x *Expr) (uint64, uint64) { return x.lo, x.hi }); ok && (l > 0 || h < 0) {
					return u.False
				}
				if d.Op == OpAdd && len(d.Args) == 2 && d.C == 0 && d.Ks[0] == -d.Ks[1]&mask(d.W) && (d.Ks[0] == 1 || d.Ks[1] == 1) {
					a, b = d.Args[0], d.Args[1]
				}
			}
		}
	}
	if b.IsConst() {
		if q, r, d, ok := u.radix(a); ok {
			return u.And(u.Eq(q, u.BV(b.C/d, a.W)), u.Eq(r, u.BV(b.C%d, a.W)))
		}
	}
	if a.Op == OpConcat && (b.IsConst() || b.Op == OpConcat) {
		var cs []*Expr
		hi := a.W
		if b.Op == OpConcat {
			// split only when a boundary aligns or a constant piece exists
			cuts := map[int]bool{}
			p := a.W
			for _, x := range a.Args {
				p -= x.W
				cuts[p] = true
			}
			p = a.W
			ok := false
			for _, x := range b.Args {
				p -= x.W
				if p > 0 && cuts[p] {
					ok = true
				}
				cuts[p] = true
			}
			if ok {
				var pos []int
				for c := range cuts {
					pos = append(pos, c)
				}
				sort.Sort(sort.Reverse(sort.IntSlice(pos)))
				for _, lo := range pos {
					cs = append(cs, u.Eq(u.Extract(a, hi-1, lo), u.Extract(b, hi-1, lo)))
					hi = lo
				}
				return u.And(cs...)
			}
		} else {
			for _, x := range a.Args {
				lo := hi - x.W
				cs = append(cs, u.Eq(x, u.Extract(b, hi-1, lo)))
				hi = lo
			}
			return u.And(cs...)
		}
	}
	if b.IsConst() && a.Op == OpBNot {
		return u.Eq(a.Args[0], u.BNot(b))
	}
	if less(b, a) && !b.IsConst() {
		a, b = b, a
	}
	return u.mk(OpEq, 0, a, b)
}

func (u *U) Ne(a, b *Expr) *Expr { return u.Not(u.Eq(a, b)) }

// diffRange returns the integer range of a-b if both are non-wrapping linear forms.
func (u *U) diffRange(a, b *Expr, r func(*Expr) (uint64, uint64)) (int64, int64, bool) {
	if a.W > 64 || !u.lexact(a, r) || !u.lexact(b, r) {
		return 0, 0, false
	}
	args, ks, c := linSub(a, b)
	return linRange(args, ks, c, 64, r)
}

func (u *U) lexact(a *Expr, r func(*Expr) (uint64, uint64)) bool {
	if a.Op == OpConst {
		return a.W < 64 || a.C < 1<<62
	}
	if a.Op == OpAdd {
		if c := sx(a.C, a.W); c > 1<<62 || c < -1<<62 {
			return false
		}
	}
	if a.Op != OpAdd || a.exact {
		return true
	}
	lo, hi, ok := linRange(a.Args, a.Ks, a.C, a.W, r)
	return ok && lo >= 0 && (a.W == 64 || uint64(hi) <= mask(a.W))
}

// linSub computes a-b as an integer linear form with 64-bit signed coefficients.
// Constants count as unsigned; lexact rejects those beyond int64.
func linSub(a, b *Expr) ([]*Expr, []uint64, uint64) { return linSubS(a, b, false) }

func linSubS(a, b *Expr, signed bool) ([]*Expr, []uint64, uint64) {
	kc := func(e *Expr, c uint64) int64 {
		if e.Op == OpConst && !signed {
			return int64(c)
		}
		return sx(c, e.W)
	}
	kk := func(e *Expr, k uint64) int64 {
		if e.Op != OpAdd && !signed {
			return int64(k)
		}
		return sx(k, e.W)
	}
	aa, ak, ac := linParts(a)
	ba, bk, bc := linParts(b)
	var args []*Expr
	var ks []uint64
	i, j := 0, 0
	for i < len(aa) || j < len(ba) {
		switch {
		case j >= len(ba) || i < len(aa) && less(aa[i], ba[j]):
			args, ks = append(args, aa[i]), append(ks, uint64(kk(a, ak[i])))
			i++
		case i >= len(aa) || less(ba[j], aa[i]):
			args, ks = append(args, ba[j]), append(ks, uint64(-kk(b, bk[j])))
			j++
		default:
			k := uint64(kk(a, ak[i]) - kk(b, bk[j]))
			if k != 0 {
				args, ks = append(args, aa[i]), append(ks, k)
			}
			i++
			j++
		}
	}
	return args, ks, uint64(kc(a, ac) - kc(b, bc))
}

func linParts(a *Expr) ([]*Expr, []uint64, uint64) {
	switch a.Op {
	case OpAdd:
		return a.Args, a.Ks, a.C
	case OpConst:
		return nil, nil, a.C
	}
	return []*Expr{a}, []uint64{1}, 0
}

func (u *U) Ult(a, b *Expr) *Expr {
	if a == b {
		return u.False
	}
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Ult width %d vs %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return u.Bool(a.BigVal().Cmp(b.BigVal()) < 0)
	}
	if a.W > 64 {
		return u.mk(OpUlt, 0, a, b)
	}
	if a.hi < b.lo {
		return u.True
	}
	if a.lo >= b.hi {
		return u.False
	}
	if x := wide(a); x != nil && b.IsConst() {
		return u.Ult(x, u.ZExt(b, x.W))
	}
	if x := wide(b); x != nil && a.IsConst() {
		return u.Ult(u.ZExt(a, x.W), x)
	}
	if b.IsConst() && isTree(a) {
		return u.ctMap(a, func(l *Expr) *Expr { return u.Ult(l, b) })
	}
	if a.IsConst() && isTree(b) {
		return u.ctMap(b, func(l *Expr) *Expr { return u.Ult(a, l) })
	}
	if b.IsConst() && a.mv != nil && a.Op != OpVar {
		return u.threshold(a, b.C)
	}
	if a.IsConst() && b.mv != nil {
		return u.Not(u.Ult(b, u.BV(a.C+1, 64)))
	}
	if b.IsConst() {
		if q, r, d, ok := u.radix(a); ok {
			k, m := u.BV(b.C/d, a.W), u.BV(b.C%d, a.W)
			return u.Or(u.Ult(q, k), u.And(u.Eq(q, k), u.Ult(r, m)))
		}
	}
	if a.IsConst() && a.C < mask(a.W) {
		if _, _, _, ok := u.radix(b); ok {
			return u.Not(u.Ult(b, u.BV(a.C+1, a.W)))
		}
	}
	static := func(x *Expr) (uint64, uint64) { return x.lo, x.hi }
	if l, h, ok := u.diffRange(a, b, static); ok {
		if h < 0 {
			return u.True
		}
		if l >= 0 {
			return u.False
		}
		// cancel common parts: rebuild as nonneg sums on both sides
		args, ks, c := linSub(a, b)
		var pa, na []*Expr
		var pk, nk []uint64
		for i := range args {
			if int64(ks[i]) > 0 {
				pa, pk = append(pa, args[i]), append(pk, ks[i])
			} else {
				na, nk = append(na, args[i]), append(nk, -ks[i])
			}
		}
		var pc, nc uint64
		if int64(c) > 0 {
			pc = c
		} else {
			nc = -c
		}
		if a.W == 64 {
			na2, nb2 := u.linear(pa, pk, pc, 64), u.linear(na, nk, nc, 64)
			if (na2.Op != OpAdd || na2.exact) && (nb2.Op != OpAdd || nb2.exact) {
				// normalise +1: x < y+1  stays
				return u.mk(OpUlt, 0, na2, nb2)
			}
		}
	}
	return u.mk(OpUlt, 0, a, b)
}

// RawUle is x <= c without simplification.
func (u *U) RawUle(x *Expr, c uint64) *Expr {
	return u.Not(u.mk(OpUlt, 0, u.BV(c, x.W), x))
}

func (u *U) Ule(a, b *Expr) *Expr { return u.Not(u.Ult(b, a)) }

func (u *U) Slt(a, b *Expr) *Expr {
	if a == b {
		return u.False
	}
	if a.W <= 64 {
		if a.IsConst() && b.IsConst() {
			return u.Bool(sx(a.C, a.W) < sx(b.C, b.W))
		}
		half := uint64(1) << uint(a.W-1)
		if a.hi < half && b.hi < half {
			return u.Ult(a, b)
		}
		if a.lo >= half && b.hi < half {
			return u.True
		}
		if a.hi < half && b.lo >= half {
			return u.False
		}
		if b.IsConst() && isTree(a) {
			return u.ctMap(a, func(l *Expr) *Expr { return u.Slt(l, b) })
		}
		if a.IsConst() && isTree(b) {
			return u.ctMap(b, func(l *Expr) *Expr { return u.Slt(a, l) })
		}
		if l, h, ok := u.sdiff(a, b); ok {
			if h < 0 {
				return u.True
			}
			if l >= 0 {
				return u.False
			}
			if h == 0 {
				return u.Not(u.Eq(u.Sub(b, a), u.BV(0, a.W)))
			}
		}
		// x <s 0 : sign bit
		if b.IsConst() && b.C == 0 {
			return u.Eq(u.Extract(a, a.W-1, a.W-1), u.BV(1, 1))
		}
	}
	return u.mk(OpSlt, 0, a, b)
}

// sdiff: signed difference range when both are linear forms whose integer values fit in the signed range.
func (u *U) sdiff(a, b *Expr) (int64, int64, bool) {
	st := func(x *Expr) (uint64, uint64) { return x.lo, x.hi }
	ok := func(e *Expr) bool {
		ar, ks, c := linParts(e)
		l, h, ok := linRange(ar, ks, c, e.W, st)
		if e.W < 64 {
			lim := int64(1) << uint(e.W-1)
			return ok && l >= -lim && h < lim
		}
		return ok
	}
	if !ok(a) || !ok(b) {
		return 0, 0, false
	}
	args, ks, c := linSubS(a, b, true)
	return linRange(args, ks, c, 64, st)
}

func (u *U) Sle(a, b *Expr) *Expr { return u.Not(u.Slt(b, a)) }

// ---- arithmetic ----

func (u *U) linear(args []*Expr, ks []uint64, c uint64, w int) *Expr {
	c &= mask(w)
	if len(args) == 0 {
		return u.BV(c, w)
	}
	if len(args) == 1 && ks[0] == 1 && c == 0 {
		return args[0]
	}
	return u.intern(&Expr{Op: OpAdd, W: w, Args: args, Ks: ks, C: c})
}

func (u *U) Add(a, b *Expr) *Expr { return u.lincomb(a, b, 1) }
func (u *U) Sub(a, b *Expr) *Expr { return u.lincomb(a, b, mask(min(a.W, 64))) }
func (u *U) Neg(a *Expr) *Expr    { return u.Sub(u.BV(0, a.W), a) }

func (u *U) lincomb(a, b *Expr, kb uint64) *Expr {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Add width %d vs %d: %v %v", a.W, b.W, a, b))
	}
	if w > 64 {
		bb := b
		if kb != 1 {
			if b.IsConst() {
				bb = u.BigConst(new(big.Int).Neg(b.BigVal()), w)
			} else {
				bb = u.mk(OpMul, w, u.BigConst(big.NewInt(-1), w), b)
			}
		}
		if a.IsConst() && bb.IsConst() {
			return u.BigConst(new(big.Int).Add(a.BigVal(), bb.BigVal()), w)
		}
		if a.IsConst() && a.BigVal().Sign() == 0 {
			return bb
		}
		if bb.IsConst() && bb.BigVal().Sign() == 0 {
			return a
		}
		return u.intern(&Expr{Op: OpAdd, W: w, Args: []*Expr{a, bb}, Ks: []uint64{1, 1}})
	}
	if b.IsConst() && isTree(a) {
		return u.ctMap(a, func(l *Expr) *Expr { return u.lincomb(l, b, kb) })
	}
	if a.IsConst() && isTree(b) {
		return u.ctMap(b, func(l *Expr) *Expr { return u.lincomb(a, l, kb) })
	}
	m := mask(w)
	aa, ak, ac := linParts(a)
	ba, bk, bc := linParts(b)
	args := make([]*Expr, 0, len(aa)+len(ba))
	ks := make([]uint64, 0, len(aa)+len(ba))
	i, j := 0, 0
	for i < len(aa) || j < len(ba) {
		switch {
		case j >= len(ba) || i < len(aa) && less(aa[i], ba[j]):
			args, ks = append(args, aa[i]), append(ks, ak[i])
			i++
		case i >= len(aa) || less(ba[j], aa[i]):
			args, ks = append(args, ba[j]), append(ks, bk[j]*kb&m)
			j++
		default:
			if k := (ak[i] + bk[j]*kb) & m; k != 0 {
				args, ks = append(args, aa[i]), append(ks, k)
			}
			i++
			j++
		}
	}
	return u.linear(args, ks, ac+bc*kb, w)
}

func (u *U) Mul(a, b *Expr) *Expr {
	w := a.W
	if a.IsConst() && b.IsConst() {
		return u.BigConst(new(big.Int).Mul(a.BigVal(), b.BigVal()), w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		bv := b.BigVal()
		if bv.Sign() == 0 {
			return b
		}
		if bv.IsUint64() && bv.Uint64() == 1 {
			return a
		}
		if w <= 64 {
			if isTree(a) {
				return u.ctMap(a, func(l *Expr) *Expr { return u.Mul(l, b) })
			}
			aa, ak, ac := linParts(a)
			var args []*Expr
			var ks []uint64
			for i := range aa {
				if k := ak[i] * b.C & mask(w); k != 0 {
					args, ks = append(args, aa[i]), append(ks, k)
				}
			}
			return u.linear(args, ks, ac*b.C, w)
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	return u.mk(OpMul, w, a, b)
}

func (u *U) UDiv(a, b *Expr) *Expr {
	if b.IsConst() && b.W <= 64 {
		if b.C == 0 {
			return u.BV(mask(b.W), b.W)
		}
		if a.IsConst() {
			return u.BV(a.C/b.C, a.W)
		}
		if b.C == 1 {
			return a
		}
		if isTree(a) {
			return u.ctMap(a, func(l *Expr) *Expr { return u.UDiv(l, b) })
		}
		if a.hi < b.C {
			return u.BV(0, a.W)
		}
		if b.C&(b.C-1) == 0 {
			return u.LshrC(a, bits.TrailingZeros64(b.C))
		}
		if q, _, ok := u.linSplit(a, b.C); ok {
			return q
		}
		if a.Op == OpUDiv && a.Args[1].IsConst() {
			h, l := bits.Mul64(a.Args[1].C, b.C)
			if h == 0 && l <= mask(a.W) {
				return u.UDiv(a.Args[0], u.BV(l, a.W))
			}
		}
	}
	if x := wide(a); x != nil && b.IsConst() {
		return u.Extract(u.UDiv(x, u.ZExt(b, x.W)), a.W-1, 0)
	}
	if k := u.narrow(a, b); k > 0 {
		return u.ZExt(u.UDiv(u.Extract(a, k-1, 0), u.Extract(b, k-1, 0)), a.W)
	}
	return u.mk(OpUDiv, a.W, a, b)
}

// wide is the linear form a is the low part of, if that drops only zero bits.
func wide(a *Expr) *Expr {
	if a.Op == OpExtract && a.C == 0 {
		if x := a.Args[0]; x.Op == OpAdd && x.W <= 64 && bits.Len64(x.hi) <= a.W {
			return x
		}
	}
	return nil
}

// narrow returns a smaller width in which an unsigned division can be done.
func (u *U) narrow(a, b *Expr) int {
	if a.W > 64 || a.W <= 8 || a.Op == OpAdd {
		return 0
	}
	k := max(bits.Len64(a.hi), bits.Len64(b.hi))
	if b.lo == 0 || k+4 > a.W || k == 0 {
		return 0
	}
	return k
}

// linSplit divides a non-wrapping linear form by d when the terms whose
// coefficients are not multiples of d are provably within [0,d).
func (u *U) linSplit(a *Expr, d uint64) (q, r *Expr, ok bool) {
	if a.Op != OpAdd || d>>62 != 0 {
		return nil, nil, false
	}
	st := func(x *Expr) (uint64, uint64) { return x.lo, x.hi }
	m := mask(a.W)
	// the constant is read as unsigned if the sum then lies within the width, else as signed
	var cq, cr uint64
	vl, vh, ok := linRange(a.Args, a.Ks, 0, a.W, st)
	if !ok {
		return nil, nil, false
	}
	if (vl >= 0 || a.C >= uint64(-vl)) && (vh <= 0 || a.C <= m && m-a.C >= uint64(vh)) {
		cq, cr = a.C/d, a.C%d
	} else if a.exact {
		c := sx(a.C, a.W)
		q, r := c/int64(d), c%int64(d)
		if r < 0 {
			r += int64(d)
			q--
		}
		cq, cr = uint64(q), uint64(r)
	} else {
		return nil, nil, false
	}
	var qa, ra []*Expr
	var qk, rk, rk64 []uint64
	for i, x := range a.Args {
		k := sx(a.Ks[i], a.W)
		if k%int64(d) == 0 {
			qa, qk = append(qa, x), append(qk, uint64(k/int64(d))&m)
		} else {
			ra, rk, rk64 = append(ra, x), append(rk, a.Ks[i]), append(rk64, uint64(k))
		}
	}
	l, h, ok := linRange(ra, rk64, cr, 64, st)
	if !ok || l < 0 || uint64(h) >= d {
		return nil, nil, false
	}
	return u.linear(qa, qk, cq, a.W), u.linear(ra, rk, cr, a.W), true
}

// radix splits an exact sum of non-negative terms into d*q + r with r < d.
func (u *U) radix(a *Expr) (q, r *Expr, d uint64, ok bool) {
	if a.Op != OpAdd || !a.exact || a.W > 64 {
		return nil, nil, 0, false
	}
	for _, k := range a.Ks {
		if sx(k, a.W) <= 0 {
			return nil, nil, 0, false
		}
		d = max(d, k)
	}
	if d == 1 {
		return nil, nil, 0, false
	}
	q, r, ok = u.linSplit(a, d)
	return q, r, d, ok
}

func (u *U) URem(a, b *Expr) *Expr {
	if b.IsConst() && b.W <= 64 {
		if b.C == 0 {
			return a
		}
		if a.IsConst() {
			return u.BV(a.C%b.C, a.W)
		}
		if isTree(a) {
			return u.ctMap(a, func(l *Expr) *Expr { return u.URem(l, b) })
		}
		if a.hi < b.C {
			return a
		}
		if b.C&(b.C-1) == 0 {
			return u.BAnd(a, u.BV(b.C-1, a.W))
		}
		if _, r, ok := u.linSplit(a, b.C); ok {
			return r
		}
	}
	if x := wide(a); x != nil && b.IsConst() {
		return u.Extract(u.URem(x, u.ZExt(b, x.W)), a.W-1, 0)
	}
	if k := u.narrow(a, b); k > 0 {
		return u.ZExt(u.URem(u.Extract(a, k-1, 0), u.Extract(b, k-1, 0)), a.W)
	}
	return u.mk(OpURem, a.W, a, b)
}

func (u *U) SDiv(a, b *Expr) *Expr {
	if a.W <= 64 {
		if a.IsConst() && b.IsConst() && b.C != 0 {
			x, y := sx(a.C, a.W), sx(b.C, b.W)
			if y == -1 {
				return u.Neg(a)
			}
			return u.BV(uint64(x/y), a.W)
		}
		half := uint64(1) << uint(a.W-1)
		if a.hi < half && b.hi < half {
			return u.UDiv(a, b)
		}
		if b.IsConst() && b.C == 1 {
			return a
		}
	}
	return u.mk(OpSDiv, a.W, a, b)
}

func (u *U) SRem(a, b *Expr) *Expr {
	if a.W <= 64 {
		if a.IsConst() && b.IsConst() && b.C != 0 {
			x, y := sx(a.C, a.W), sx(b.C, b.W)
			if y == -1 {
				return u.BV(0, a.W)
			}
			return u.BV(uint64(x%y), a.W)
		}
		half := uint64(1) << uint(a.W-1)
		if a.hi < half && b.hi < half {
			return u.URem(a, b)
		}
	}
	return u.mk(OpSRem, a.W, a, b)
}

// ---- bit structure ----

func (u *U) Extract(e *Expr, hi, lo int) *Expr {
	w := hi - lo + 1
	if w <= 0 || hi >= e.W {
		panic(fmt.Sprintf("smt: bad extract [%d:%d] of width %d", hi, lo, e.W))
	}
	if w == e.W {
		return e
	}
	switch e.Op {
	case OpConst:
		return u.BigConst(new(big.Int).Rsh(e.BigVal(), uint(lo)), w)
	case OpExtract:
		return u.Extract(e.Args[0], hi+int(e.C), lo+int(e.C))
	case OpConcat:
		var ps []*Expr
		p := e.W
		for _, a := range e.Args {
			al, ah := p-a.W, p-1
			p = al
			l, h := max(al, lo), min(ah, hi)
			if l <= h {
				ps = append(ps, u.Extract(a, h-al, l-al))
			}
		}
		return u.Concat(ps...)
	case OpIte:
		if isTree(e) {
			return u.ctMap(e, func(l *Expr) *Expr { return u.Extract(l, hi, lo) })
		}
		return u.Ite(e.Args[0], u.Extract(e.Args[1], hi, lo), u.Extract(e.Args[2], hi, lo))
	case OpSExt:
		a := e.Args[0]
		if hi < a.W {
			return u.Extract(a, hi, lo)
		}
		if lo < a.W {
			return u.SExt(u.Extract(a, a.W-1, lo), w)
		}
		return u.SExt(u.Extract(a, a.W-1, a.W-1), w)
	case OpBAnd:
		return u.BAnd(u.Extract(e.Args[0], hi, lo), u.Extract(e.Args[1], hi, lo))
	case OpBOr:
		return u.BOr(u.Extract(e.Args[0], hi, lo), u.Extract(e.Args[1], hi, lo))
	case OpBXor:
		return u.BXor(u.Extract(e.Args[0], hi, lo), u.Extract(e.Args[1], hi, lo))
	case OpBNot:
		return u.BNot(u.Extract(e.Args[0], hi, lo))
	}
	if e.W <= 64 && bits.Len64(e.hi) <= lo {
		return u.BV(0, w)
	}
	return u.intern(&Expr{Op: OpExtract, W: w, C: uint64(lo), Args: []*Expr{e}})
}

// Concat takes pieces from most to least significant.
func (u *U) Concat(ps ...*Expr) *Expr {
	var out []*Expr
	w := 0
	var add func(p *Expr)
	add = func(p *Expr) {
		if p.Op == OpConcat {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.IsConst() && p.IsConst() {
				v := new(big.Int).Lsh(q.BigVal(), uint(p.W))
				v.Or(v, p.BigVal())
				out[n-1] = u.BigConst(v, q.W+p.W)
				return
			}
			// adjacent slices of the same term
			qe, qh, ql := slc(q)
			pe, ph, pl := slc(p)
			if qe == pe && ql == ph+1 {
				out[n-1] = u.Extract(qe, qh, pl)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		w += p.W
		add(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	// zero ++ extract that drops only zero bits
	if len(out) == 2 && out[0].IsConst() && out[0].BigVal().Sign() == 0 && out[1].Op == OpExtract && out[1].C == 0 {
		a := out[1].Args[0]
		if a.W == w && a.W <= 64 && bits.Len64(a.hi) <= out[1].W {
			return a
		}
	}
	if len(out) == 2 && out[0].IsConst() && w <= 64 && isTree(out[1]) {
		k := out[0]
		return u.ctMap(out[1], func(l *Expr) *Expr { return u.Concat(k, l) })
	}
	return u.intern(&Expr{Op: OpConcat, W: w, Args: out})
}

func slc(e *Expr) (*Expr, int, int) {
	if e.Op == OpExtract {
		return e.Args[0], int(e.C) + e.W - 1, int(e.C)
	}
	if e.IsConst() {
		return nil, 0, 0
	}
	return e, e.W - 1, 0
}

func (u *U) ZExt(e *Expr, w int) *Expr {
	if w == e.W {
		return e
	}
	if w < e.W {
		return u.Extract(e, w-1, 0)
	}
	return u.Concat(u.BV(0, w-e.W), e)
}

func (u *U) SExt(e *Expr, w int) *Expr {
	if w == e.W {
		return e
	}
	if w < e.W {
		return u.Extract(e, w-1, 0)
	}
	if e.IsConst() && w <= 64 {
		return u.BV(uint64(sx(e.C, e.W)), w)
	}
	if e.W <= 64 && e.hi < uint64(1)<<uint(e.W-1) {
		return u.ZExt(e, w)
	}
	if w <= 64 && isTree(e) {
		return u.ctMap(e, func(l *Expr) *Expr { return u.SExt(l, w) })
	}
	if e.Op == OpSExt {
		return u.SExt(e.Args[0], w)
	}
	return u.mk(OpSExt, w, e)
}

func (u *U) ShlC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return u.BV(0, a.W)
	}
	return u.Concat(u.Extract(a, a.W-1-n, 0), u.BV(0, n))
}

func (u *U) LshrC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return u.BV(0, a.W)
	}
	return u.Concat(u.BV(0, n), u.Extract(a, a.W-1, n))
}

func (u *U) AshrC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		n = a.W - 1
	}
	return u.SExt(u.Extract(a, a.W-1, n), a.W)
}

// Shl, Lshr, Ashr take a shift amount of the same width (Go semantics: amounts >= W saturate).
func (u *U) Shl(a, n *Expr) *Expr {
	if n.IsConst() {
		return u.ShlC(a, int(min(n.C, 1<<20)))
	}
	if isTree(n) && n.ct <= 16 {
		return u.ctMap2(n, func(l *Expr) *Expr { return u.Shl(a, l) })
	}
	return u.mk(OpShl, a.W, a, n)
}
func (u *U) Lshr(a, n *Expr) *Expr {
	if n.IsConst() {
		return u.LshrC(a, int(min(n.C, 1<<20)))
	}
	if isTree(n) && n.ct <= 16 {
		return u.ctMap2(n, func(l *Expr) *Expr { return u.Lshr(a, l) })
	}
	return u.mk(OpLshr, a.W, a, n)
}
func (u *U) Ashr(a, n *Expr) *Expr {
	if n.IsConst() {
		return u.AshrC(a, int(min(n.C, 1<<20)))
	}
	return u.mk(OpAshr, a.W, a, n)
}

func (u *U) ctMap2(e *Expr, f func(*Expr) *Expr) *Expr {
	if e.Op == OpConst {
		return f(e)
	}
	return u.Ite(e.Args[0], u.ctMap2(e.Args[1], f), u.ctMap2(e.Args[2], f))
}

func (u *U) BNot(a *Expr) *Expr {
	if a.IsConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.W))
		m.Sub(m, big.NewInt(1))
		return u.BigConst(m.Xor(m, a.BigVal()), a.W)
	}
	if a.Op == OpBNot {
		return a.Args[0]
	}
	if a.Op == OpConcat {
		ps := make([]*Expr, len(a.Args))
		for i, p := range a.Args {
			ps[i] = u.BNot(p)
		}
		return u.Concat(ps...)
	}
	return u.mk(OpBNot, a.W, a)
}

func (u *U) BAnd(a, b *Expr) *Expr { return u.bitwise(OpBAnd, a, b) }
func (u *U) BOr(a, b *Expr) *Expr  { return u.bitwise(OpBOr, a, b) }
func (u *U) BXor(a, b *Expr) *Expr { return u.bitwise(OpBXor, a, b) }

func (u *U) bitwise(op Op, a, b *Expr) *Expr {
	if a.W != b.W {
		panic("smt: bitwise width mismatch")
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		r := new(big.Int)
		switch op {
		case OpBAnd:
			r.And(a.BigVal(), b.BigVal())
		case OpBOr:
			r.Or(a.BigVal(), b.BigVal())
		default:
			r.Xor(a.BigVal(), b.BigVal())
		}
		return u.BigConst(r, w)
	}
	if a == b {
		if op == OpBXor {
			return u.BV(0, w)
		}
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		z := b.BigVal().Sign() == 0
		ones := u.BNot(b).BigVal().Sign() == 0
		switch {
		case z && op == OpBAnd:
			return b
		case z:
			return a
		case ones && op == OpBAnd:
			return a
		case ones && op == OpBOr:
			return b
		case ones:
			return u.BNot(a)
		}
		if isTree(a) {
			return u.ctMap(a, func(l *Expr) *Expr { return u.bitwise(op, l, b) })
		}
		// split in runs
		v := b.BigVal()
		var ps []*Expr
		runs := 0
		for i := w - 1; i >= 0; {
			bit := v.Bit(i)
			j := i
			for j >= 0 && v.Bit(j) == bit {
				j--
			}
			runs++
			ps = append(ps, u.bitwise(op, u.Extract(a, i, j+1), u.Extract(b, i, j+1)))
			i = j
		}
		if runs <= 12 {
			return u.Concat(ps...)
		}
		return u.mk(op, w, a, b)
	}
	// both symbolic: split at constant pieces
	if hasConstPiece(a) || hasConstPiece(b) {
		cuts := map[int]bool{0: true}
		for _, e := range []*Expr{a, b} {
			if e.Op == OpConcat {
				p := w
				for _, x := range e.Args {
					p -= x.W
					cuts[p] = true
				}
			}
		}
		var pos []int
		for c := range cuts {
			pos = append(pos, c)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(pos)))
		if len(pos) > 1 {
			hi := w
			var ps []*Expr
			for _, lo := range pos {
				ps = append(ps, u.bitwise(op, u.Extract(a, hi-1, lo), u.Extract(b, hi-1, lo)))
				hi = lo
			}
			return u.Concat(ps...)
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	return u.mk(op, w, a, b)
}

func hasConstPiece(e *Expr) bool {
	if e.Op != OpConcat {
		return false
	}
	for _, a := range e.Args {
		if a.IsConst() {
			return true
		}
	}
	return false
}

// BitLen is the position of the highest set bit plus one, as a term of width w.
func (u *U) BitLen(x *Expr, w int) *Expr {
	r := u.BV(0, w)
	for i := 0; i < x.W; i++ {
		// x >= 2^i  => at least i+1
		r = u.Ite(u.Not(u.Ult(x, u.BV(uint64(1)<<uint(i), x.W))), u.BV(uint64(i+1), w), r)
	}
	return r
}

// ---- evaluation under an assignment ----

func (u *U) Eval(e *Expr, env func(*Expr) *big.Int, memo map[int]*big.Int) *big.Int {
	if v, ok := memo[e.ID]; ok {
		return v
	}
	b2i := func(b bool) *big.Int {
		if b {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	ev := func(x *Expr) *big.Int { return u.Eval(x, env, memo) }
	mod := func(v *big.Int) *big.Int {
		return v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(e.W)))
	}
	sgn := func(x *Expr) *big.Int {
		v := ev(x)
		if v.Bit(x.W-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(x.W)))
		}
		return v
	}
	var r *big.Int
	switch e.Op {
	case OpConst:
		r = e.BigVal()
	case OpVar, OpApp:
		r = env(e)
	case OpNot:
		r = b2i(ev(e.Args[0]).Sign() == 0)
	case OpAnd:
		r = b2i(true)
		for _, a := range e.Args {
			if ev(a).Sign() == 0 {
				r = b2i(false)
				break
			}
		}
	case OpOr:
		r = b2i(false)
		for _, a := range e.Args {
			if ev(a).Sign() != 0 {
				r = b2i(true)
				break
			}
		}
	case OpEq:
		r = b2i(ev(e.Args[0]).Cmp(ev(e.Args[1])) == 0)
	case OpUlt:
		r = b2i(ev(e.Args[0]).Cmp(ev(e.Args[1])) < 0)
	case OpSlt:
		r = b2i(sgn(e.Args[0]).Cmp(sgn(e.Args[1])) < 0)
	case OpIte:
		if ev(e.Args[0]).Sign() != 0 {
			r = ev(e.Args[1])
		} else {
			r = ev(e.Args[2])
		}
	case OpAdd:
		s := new(big.Int)
		if e.W <= 64 {
			s.SetUint64(e.C)
		}
		for i, a := range e.Args {
			s.Add(s, new(big.Int).Mul(new(big.Int).SetUint64(e.Ks[i]), ev(a)))
		}
		r = mod(s)
	case OpMul:
		r = mod(new(big.Int).Mul(ev(e.Args[0]), ev(e.Args[1])))
	case OpUDiv:
		if d := ev(e.Args[1]); d.Sign() == 0 {
			r = mod(big.NewInt(-1))
		} else {
			r = new(big.Int).Quo(ev(e.Args[0]), d)
		}
	case OpURem:
		if d := ev(e.Args[1]); d.Sign() == 0 {
			r = ev(e.Args[0])
		} else {
			r = new(big.Int).Rem(ev(e.Args[0]), d)
		}
	case OpSDiv:
		if d := sgn(e.Args[1]); d.Sign() == 0 {
			r = b2i(sgn(e.Args[0]).Sign() < 0)
			if r.Sign() == 0 {
				r = mod(big.NewInt(-1))
			}
		} else {
			r = mod(new(big.Int).Quo(sgn(e.Args[0]), d))
		}
	case OpSRem:
		if d := sgn(e.Args[1]); d.Sign() == 0 {
			r = ev(e.Args[0])
		} else {
			r = mod(new(big.Int).Rem(sgn(e.Args[0]), d))
		}
	case OpBAnd:
		r = new(big.Int).And(ev(e.Args[0]), ev(e.Args[1]))
	case OpBOr:
		r = new(big.Int).Or(ev(e.Args[0]), ev(e.Args[1]))
	case OpBXor:
		r = new(big.Int).Xor(ev(e.Args[0]), ev(e.Args[1]))
	case OpBNot:
		r = mod(new(big.Int).Not(ev(e.Args[0])))
	case OpShl, OpLshr, OpAshr:
		n := ev(e.Args[1])
		k := uint(e.W)
		if n.IsUint64() && n.Uint64() < uint64(e.W) {
			k = uint(n.Uint64())
		}
		switch e.Op {
		case OpShl:
			r = mod(new(big.Int).Lsh(ev(e.Args[0]), k))
		case OpLshr:
			r = new(big.Int).Rsh(ev(e.Args[0]), k)
		default:
			r = mod(new(big.Int).Rsh(sgn(e.Args[0]), k))
		}
	case OpConcat:
		r = new(big.Int)
		for _, a := range e.Args {
			r = new(big.Int).Or(new(big.Int).Lsh(r, uint(a.W)), ev(a))
		}
	case OpExtract:
		r = mod(new(big.Int).Rsh(ev(e.Args[0]), uint(e.C)))
	case OpSExt:
		r = mod(new(big.Int).Set(sgn(e.Args[0])))
	default:
		panic("smt: eval op")
	}
	memo[e.ID] = r
	return r
}

func (e *Expr) String() string {
	var sb strings.Builder
	e.str(&sb, 6)
	return sb.String()
}

func (e *Expr) str(sb *strings.Builder, d int) {
	switch e.Op {
	case OpConst:
		if e.W == 0 {
			fmt.Fprintf(sb, "%v", e.C == 1)
		} else {
			fmt.Fprintf(sb, "%s:%d", e.BigVal().Text(10), e.W)
		}
		return
	case OpVar:
		sb.WriteString(e.Name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "#%d", e.ID)
		return
	}
	switch e.Op {
	case OpAdd:
		sb.WriteString("(+")
		for i, a := range e.Args {
			sb.WriteByte(' ')
			if e.Ks[i] != 1 {
				fmt.Fprintf(sb, "%d*", sx(e.Ks[i], min(e.W, 64)))
			}
			a.str(sb, d-1)
		}
		if e.C != 0 {
			fmt.Fprintf(sb, " %d", sx(e.C, min(e.W, 64)))
		}
		sb.WriteByte(')')
		return
	case OpExtract:
		fmt.Fprintf(sb, "[%d:%d]", int(e.C)+e.W-1, e.C)
		e.Args[0].str(sb, d-1)
		return
	case OpSExt:
		fmt.Fprintf(sb, "(sext%d ", e.W)
	case OpApp:
		sb.WriteString("(" + e.Name)
	default:
		sb.WriteString("(" + opNames[e.Op])
	}
	for _, a := range e.Args {
		sb.WriteByte(' ')
		a.str(sb, d-1)
	}
	sb.WriteByte(')')
}

// Lo and Hi expose the static unsigned range.
func (e *Expr) Lo() uint64 { return e.lo }
func (e *Expr) Hi() uint64 { return e.hi }

// Exact reports that an OpAdd cannot wrap, judged by static ranges.
func (e *Expr) Exact() bool { return e.Op != OpAdd || e.exact }

// LinRange, LinSub, SX, Linear: exported helpers for path-sensitive reasoning.
func LinRange(args []*Expr, ks []uint64, c uint64, w int, r func(*Expr) (uint64, uint64)) (int64, int64, bool) {
	return linRange(args, ks, c, w, r)
}
func LinSub(a, b *Expr) ([]*Expr, []uint64, uint64) { return linSub(a, b) }
func SX(c uint64, w int) int64                      { return sx(c, w) }
func (u *U) Linear(args []*Expr, ks []uint64, c uint64, w int) *Expr {
	return u.linear(args, ks, c, w)
}

// Rebuild applies e's operator to new arguments, simplifying.
func (u *U) Rebuild(e *Expr, a []*Expr) *Expr {
	switch e.Op {
	case OpNot:
		return u.Not(a[0])
	case OpAnd:
		return u.And(a...)
	case OpOr:
		return u.Or(a...)
	case OpEq:
		return u.Eq(a[0], a[1])
	case OpUlt:
		return u.Ult(a[0], a[1])
	case OpSlt:
		return u.Slt(a[0], a[1])
	case OpIte:
		return u.Ite(a[0], a[1], a[2])
	case OpAdd:
		if e.W > 64 {
			return u.Add(a[0], a[1])
		}
		r := u.BV(e.C, e.W)
		for i := range a {
			r = u.Add(r, u.Mul(a[i], u.BV(e.Ks[i], e.W)))
		}
		return r
	case OpMul:
		return u.Mul(a[0], a[1])
	case OpUDiv:
		return u.UDiv(a[0], a[1])
	case OpURem:
		return u.URem(a[0], a[1])
	case OpSDiv:
		return u.SDiv(a[0], a[1])
	case OpSRem:
		return u.SRem(a[0], a[1])
	case OpBAnd:
		return u.BAnd(a[0], a[1])
	case OpBOr:
		return u.BOr(a[0], a[1])
	case OpBXor:
		return u.BXor(a[0], a[1])
	case OpBNot:
		return u.BNot(a[0])
	case OpShl:
		return u.Shl(a[0], a[1])
	case OpLshr:
		return u.Lshr(a[0], a[1])
	case OpAshr:
		return u.Ashr(a[0], a[1])
	case OpConcat:
		return u.Concat(a...)
	case OpExtract:
		return u.Extract(a[0], int(e.C)+e.W-1, int(e.C))
	case OpSExt:
		return u.SExt(a[0], e.W)
	case OpApp:
		return u.App(e.Name, e.W, a...)
	}
	return e
}

// Size is the number of terms made.
func (u *U) Size() int { return u.next }
