package smt

import (
	"math/big"
	"math/bits"
	"math/rand"
	"testing"
)

// Random terms are built twice: through the simplifying constructors and as a
// concrete value computed directly from the operands' concrete values.
func TestSimplifierAgainstConcrete(t *testing.T) {
	widths := []int{1, 3, 8, 16, 32, 64}
	for seed := int64(0); seed < 6000; seed++ {
		r := rand.New(rand.NewSource(seed))
		u := New()
		env := map[string]uint64{}
		type tv struct {
			e *Expr
			v uint64
		}
		pool := map[int][]tv{}
		rv := func(w int) uint64 {
			switch r.Intn(4) {
			case 0:
				return uint64(r.Intn(4)) & mask(w)
			case 1:
				return (1<<uint(r.Intn(w)) + uint64(r.Intn(3)) - 1) & mask(w)
			case 2:
				return mask(w) - uint64(r.Intn(3))&mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for _, w := range widths {
			for i := 0; i < 2; i++ {
				n := string(rune('a'+i)) + string(rune('0'+bits.Len(uint(w))))
				env[n] = rv(w)
				pool[w] = append(pool[w], tv{u.Var(n, w), env[n]})
			}
		}
		for i := 0; i < 2; i++ {
			hi := uint64(1) << uint(1+r.Intn(61))
			e := u.VarR("r"+string(rune('0'+i)), 64, hi)
			env[e.Name] = r.Uint64() % (hi + 1)
			pool[64] = append(pool[64], tv{e, env[e.Name]}, tv{e, env[e.Name]}, tv{e, env[e.Name]})
			bl := u.BitLen(e, 64)
			pool[64] = append(pool[64], tv{bl, uint64(bits.Len64(env[e.Name]))})
			s := u.Add(e, bl)
			sv := env[e.Name] + uint64(bits.Len64(env[e.Name]))
			pool[64] = append(pool[64], tv{s, sv}, tv{u.Add(s, u.BitLen(s, 64)), sv + uint64(bits.Len64(sv))})
		}
		bpool := []tv{}
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		pick := func(w int) tv {
			if r.Intn(4) == 0 {
				c := rv(w)
				return tv{u.BV(c, w), c}
			}
			return pool[w][r.Intn(len(pool[w]))]
		}
		for step := 0; step < 60; step++ {
			w := widths[r.Intn(len(widths))]
			a, b := pick(w), pick(w)
			m := mask(w)
			var x tv
			isb := false
			op := r.Intn(25)
			switch op {
			case 0:
				x = tv{u.Add(a.e, b.e), (a.v + b.v) & m}
			case 1:
				x = tv{u.Sub(a.e, b.e), (a.v - b.v) & m}
			case 2:
				x = tv{u.Mul(a.e, b.e), (a.v * b.v) & m}
			case 3:
				v := m
				if b.v != 0 {
					v = a.v / b.v
				}
				x = tv{u.UDiv(a.e, b.e), v}
			case 4:
				v := a.v
				if b.v != 0 {
					v = a.v % b.v
				}
				x = tv{u.URem(a.e, b.e), v}
			case 5:
				if b.v == 0 || sx(b.v, w) == -1 {
					continue
				}
				x = tv{u.SDiv(a.e, b.e), uint64(sx(a.v, w)/sx(b.v, w)) & m}
			case 6:
				if b.v == 0 || sx(b.v, w) == -1 {
					continue
				}
				x = tv{u.SRem(a.e, b.e), uint64(sx(a.v, w)%sx(b.v, w)) & m}
			case 7:
				x = tv{u.BAnd(a.e, b.e), a.v & b.v}
			case 8:
				x = tv{u.BOr(a.e, b.e), a.v | b.v}
			case 9:
				x = tv{u.BXor(a.e, b.e), a.v ^ b.v}
			case 10:
				x = tv{u.BNot(a.e), ^a.v & m}
			case 11, 12:
				hi := r.Intn(w)
				lo := r.Intn(hi + 1)
				nw := hi - lo + 1
				v := a.v >> uint(lo) & mask(nw)
				e := u.Extract(a.e, hi, lo)
				// extend to a pool width
				for _, tw := range widths {
					if tw >= nw {
						if r.Intn(2) == 0 {
							x = tv{u.ZExt(e, tw), v}
						} else {
							x = tv{u.SExt(e, tw), uint64(sx(v, nw)) & mask(tw)}
						}
						w = tw
						break
					}
				}
			case 13:
				n := r.Intn(w + 2)
				switch r.Intn(3) {
				case 0:
					x = tv{u.ShlC(a.e, n), a.v << uint(n) & m}
				case 1:
					x = tv{u.LshrC(a.e, n), a.v >> uint(n)}
				default:
					x = tv{u.AshrC(a.e, n), uint64(sx(a.v, w)>>uint(min(n, 63))) & m}
				}
			case 14:
				switch r.Intn(3) {
				case 0:
					x = tv{u.Shl(a.e, b.e), a.v << b.v & m}
				case 1:
					x = tv{u.Lshr(a.e, b.e), a.v >> b.v}
				default:
					x = tv{u.Ashr(a.e, b.e), uint64(sx(a.v, w)>>min(b.v, 63)) & m}
				}
			case 15:
				x = tv{u.BitLen(a.e, 64), uint64(bits.Len64(a.v))}
				w = 64
			case 16, 17:
				x, isb = tv{u.Eq(a.e, b.e), b2u(a.v == b.v)}, true
			case 18, 19:
				x, isb = tv{u.Ult(a.e, b.e), b2u(a.v < b.v)}, true
			case 20:
				x, isb = tv{u.Slt(a.e, b.e), b2u(sx(a.v, w) < sx(b.v, w))}, true
			case 21, 22:
				if len(bpool) == 0 {
					continue
				}
				c := bpool[r.Intn(len(bpool))]
				v := b.v
				if c.v == 1 {
					v = a.v
				}
				x = tv{u.Ite(c.e, a.e, b.e), v}
			default:
				if len(bpool) == 0 {
					continue
				}
				c, d := bpool[r.Intn(len(bpool))], bpool[r.Intn(len(bpool))]
				isb = true
				switch r.Intn(3) {
				case 0:
					x = tv{u.And(c.e, d.e), c.v & d.v}
				case 1:
					x = tv{u.Or(c.e, d.e), c.v | d.v}
				default:
					x = tv{u.Not(c.e), 1 - c.v}
				}
			}
			got := u.Eval(x.e, func(e *Expr) *big.Int { return new(big.Int).SetUint64(env[e.Name]) }, map[int]*big.Int{})
			if got.Uint64() != x.v {
				t.Fatalf("seed %d step %d op %d w %d: got %v want %v: %v\n a=%v (%d)\n b=%v (%d)", seed, step, op, w, got, x.v, x.e, a.e, a.v, b.e, b.v)
			}
			if !isb && (x.e.lo > x.v || x.e.hi < x.v) {
				t.Fatalf("seed %d step %d op %d: range [%d,%d] misses %d: %v", seed, step, op, x.e.lo, x.e.hi, x.v, x.e)
			}
			if isb {
				bpool = append(bpool, x)
			} else {
				if x.e.W != w {
					t.Fatalf("seed %d op %d width %d want %d", seed, op, x.e.W, w)
				}
				pool[w] = append(pool[w], x)
			}
		}
	}
}
