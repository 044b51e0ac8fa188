package sym

import (
	"fmt"
	"math/big"
	"math/bits"

	"verif/engine/smt"
)

// Dec is one recorded decision of a path; replaying a prefix of decisions
// reproduces the path deterministically.
type Dec struct {
	Kind   byte // 'b' branch, 'v' concretised value, 'c' choice
	V      uint64
	Forced bool
	N      int // alternatives of a choice
}

type rg struct{ lo, hi uint64 }

type irg struct{ lo, hi int64 }

// Path is one symbolic execution.
type Path struct {
	w   *Worker
	u   *smt.U
	g   *G
	pc  []*smt.Expr
	pre []Dec // decisions to replay
	log []Dec // decisions taken

	known map[int]bool
	rgs   map[int]rg
	forms map[int]irg // linear forms (without constant) with integer bounds
	epoch int
	nmemo map[int]nent
	rmemo map[int]rent
	reads map[rkey]*smt.Expr
	model *smt.Model

	undo    []func()
	initing int

	steps      int
	inputs     []*Input
	observed   []Obs
	covers     map[string]bool
	notes      map[string]bool // approximations used on this path
	fresh      int
	grow       int
	sched      *Sched
	timeReg    map[int][3]*smt.Expr
	goroutines int
	natIDs     map[interface{}]int
	user       map[string]Value
	side       map[interface{}]interface{} // state of mutexes and the like
	names      map[string]int
}

type nent struct {
	epoch int
	e     *smt.Expr
}
type rent struct {
	epoch int
	r     rg
}

type Obs struct {
	Name string
	V    Value
	T    string
}

type pathEnd struct{ why string } // silently ends the path (assumption false, limits)

type infeasible struct{}

// rng is the unsigned range of e under the path facts.
func (p *Path) rng(e *smt.Expr) (uint64, uint64) {
	if e.W == 0 || e.W > 64 {
		return 0, ^uint64(0)
	}
	if e.Op == smt.OpConst {
		return e.C, e.C
	}
	if m, ok := p.rmemo[e.ID]; ok && m.epoch == p.epoch {
		return m.r.lo, m.r.hi
	}
	lo, hi := e.Lo(), e.Hi()
	cap := func(l, h uint64) {
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	if f, ok := p.rgs[e.ID]; ok {
		cap(f.lo, f.hi)
	}
	if x := e.Mono(); x != nil && x != e {
		l, h := p.rng(x)
		cap(e.At(l), e.At(h))
	}
	switch e.Op {
	case smt.OpAdd:
		if l, h, ok := p.linRange(e.Args, e.Ks, e.C, e.W); ok && l >= 0 && (e.W == 64 || uint64(h) < 1<<uint(e.W)) {
			cap(uint64(l), uint64(h))
		}
	case smt.OpIte:
		if v, k := p.decide(e.Args[0]); k {
			if v {
				cap(p.rng(e.Args[1]))
			} else {
				cap(p.rng(e.Args[2]))
			}
		} else {
			l1, h1 := p.rng(e.Args[1])
			l2, h2 := p.rng(e.Args[2])
			cap(min(l1, l2), max(h1, h2))
		}
	case smt.OpConcat:
		var l, h uint64
		for _, a := range e.Args {
			al, ah := p.rng(a)
			l = l<<uint(a.W) | al
			h = h<<uint(a.W) | ah
		}
		cap(l, h)
	case smt.OpExtract:
		a := e.Args[0]
		if a.W <= 64 {
			al, ah := p.rng(a)
			lo := uint(e.C)
			if bits.Len64(ah) <= e.W+int(lo) {
				cap(al>>lo, ah>>lo)
			}
		}
	case smt.OpUDiv:
		if b := e.Args[1]; b.IsConst() && b.C > 0 {
			l, h := p.rng(e.Args[0])
			cap(l/b.C, h/b.C)
		}
	case smt.OpURem:
		if b := e.Args[1]; b.IsConst() && b.C > 0 {
			_, h := p.rng(e.Args[0])
			cap(0, min(h, b.C-1))
		}
	}
	if lo > hi { // inconsistent facts: the path is infeasible
		lo = hi
	}
	p.rmemo[e.ID] = rent{p.epoch, rg{lo, hi}}
	return lo, hi
}

// linRange is the integer range of a linear form under the path facts.
func (p *Path) linRange(args []*smt.Expr, ks []uint64, c uint64, w int) (int64, int64, bool) {
	l, h, ok := smt.LinRange(args, ks, c, w, p.rng)
	if len(args) > 1 {
		if f, sgn := p.form(args, ks, w); f != nil {
			if b, has := p.forms[f.ID]; has {
				sc := smt.SX(c, w)
				fl, fh := b.lo, b.hi
				if sgn < 0 {
					fl, fh = -fh, -fl
				}
				if !ok {
					if fl > -bigB && fh < bigB {
						return fl + sc, fh + sc, true
					}
					return l, h, ok
				}
				if fl > -bigB && fl+sc > l {
					l = fl + sc
				}
				if fh < bigB && fh+sc < h {
					h = fh + sc
				}
			}
		}
	}
	return l, h, ok
}

const bigB = int64(1) << 60

// form canonicalises sum ks*args (without constant) up to sign.
func (p *Path) form(args []*smt.Expr, ks []uint64, w int) (*smt.Expr, int) {
	sgn := 1
	k64 := make([]uint64, len(ks))
	for i := range ks {
		k64[i] = uint64(smt.SX(ks[i], w))
	}
	if int64(k64[0]) < 0 {
		sgn = -1
		for i := range k64 {
			k64[i] = -k64[i]
		}
	}
	if w != 64 {
		return nil, 0
	}
	return p.u.Linear(args, k64, 0, 64), sgn
}

// decide evaluates a boolean term using only the recorded facts.
func (p *Path) decide(c *smt.Expr) (val, known bool) {
	if c.IsConst() {
		return c.C == 1, true
	}
	if v, ok := p.known[c.ID]; ok {
		return v, true
	}
	switch c.Op {
	case smt.OpNot:
		v, k := p.decide(c.Args[0])
		return !v, k
	case smt.OpAnd, smt.OpOr:
		all := true
		for _, a := range c.Args {
			v, k := p.decide(a)
			if k && v == (c.Op == smt.OpOr) {
				return v, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return c.Op == smt.OpAnd, true
		}
	case smt.OpIte:
		if v, k := p.decide(c.Args[0]); k {
			if v {
				return p.decide(c.Args[1])
			}
			return p.decide(c.Args[2])
		}
	case smt.OpUlt:
		a, b := c.Args[0], c.Args[1]
		if a.W > 64 {
			return false, false
		}
		al, ah := p.rng(a)
		bl, bh := p.rng(b)
		if ah < bl {
			return true, true
		}
		if al >= bh {
			return false, true
		}
		if l, h, ok := p.diff(a, b); ok {
			if h < 0 {
				return true, true
			}
			if l >= 0 {
				return false, true
			}
		}
	case smt.OpSlt:
		a, b := c.Args[0], c.Args[1]
		if a.W > 64 {
			return false, false
		}
		half := uint64(1) << uint(a.W-1)
		al, ah := p.rng(a)
		bl, bh := p.rng(b)
		an, ap := al >= half, ah < half
		bn, bp := bl >= half, bh < half
		if an && bp {
			return true, true
		}
		if ap && bn {
			return false, true
		}
		if ap && bp || an && bn {
			if ah < bl {
				return true, true
			}
			if al >= bh {
				return false, true
			}
			if ap && bp {
				if l, h, ok := p.diff(a, b); ok {
					if h < 0 {
						return true, true
					}
					if l >= 0 {
						return false, true
					}
				}
			}
		}
	case smt.OpEq:
		a, b := c.Args[0], c.Args[1]
		if a.W == 0 {
			va, ka := p.decide(a)
			vb, kb := p.decide(b)
			if ka && kb {
				return va == vb, true
			}
			return false, false
		}
		if a.W > 64 {
			return false, false
		}
		al, ah := p.rng(a)
		bl, bh := p.rng(b)
		if ah < bl || bh < al {
			return false, true
		}
		if al == ah && bl == bh && al == bl {
			return true, true
		}
		if a.Op == smt.OpAdd || b.Op == smt.OpAdd {
			if l, h, ok := p.diff(a, b); ok {
				if l > 0 || h < 0 {
					return false, true
				}
				if l == 0 && h == 0 {
					return true, true
				}
			}
		}
	}
	return false, false
}

// diff: integer range of a-b when both are non-wrapping under the path facts.
func (p *Path) diff(a, b *smt.Expr) (int64, int64, bool) {
	if !p.lexact(a) || !p.lexact(b) {
		return 0, 0, false
	}
	args, ks, c := smt.LinSub(a, b)
	if len(args) == 0 {
		return int64(c), int64(c), true
	}
	if a.W != 64 {
		return smt.LinRange(args, ks, c, 64, p.rng)
	}
	return p.linRange(args, ks, c, 64)
}

func (p *Path) lexact(a *smt.Expr) bool {
	if a.Op == smt.OpConst {
		return a.W < 64 || a.C < 1<<62
	}
	if a.Op == smt.OpAdd {
		if c := smt.SX(a.C, a.W); c > 1<<62 || c < -1<<62 {
			return false
		}
	}
	if a.Op != smt.OpAdd || a.Exact() {
		return true
	}
	l, h, ok := p.linRange(a.Args, a.Ks, a.C, a.W)
	return ok && l >= 0 && (a.W == 64 || uint64(h) < 1<<uint(a.W))
}

// norm rewrites e under the path facts.
func (p *Path) norm(e *smt.Expr) *smt.Expr {
	if e.Op == smt.OpConst || e.Op == smt.OpVar {
		if e.Op == smt.OpVar && e.W > 0 && e.W <= 64 {
			if lo, hi := p.rng(e); lo == hi {
				return p.u.BV(lo, e.W)
			}
		}
		return e
	}
	if m, ok := p.nmemo[e.ID]; ok && m.epoch == p.epoch {
		return m.e
	}
	r := p.norm1(e)
	p.nmemo[e.ID] = nent{p.epoch, r}
	if r != e {
		p.nmemo[r.ID] = nent{p.epoch, r}
	}
	return r
}

func (p *Path) norm1(e *smt.Expr) *smt.Expr {
	u := p.u
	if e.W == 0 {
		if v, k := p.decide(e); k {
			return u.Bool(v)
		}
	} else if e.W <= 64 {
		if lo, hi := p.rng(e); lo == hi {
			return u.BV(lo, e.W)
		}
	}
	if e.Op == smt.OpIte {
		if v, k := p.decide(e.Args[0]); k {
			if v {
				return p.norm(e.Args[1])
			}
			return p.norm(e.Args[2])
		}
	}
	if e.Op == smt.OpApp {
		return e
	}
	args := make([]*smt.Expr, len(e.Args))
	ch := false
	for i, a := range e.Args {
		args[i] = p.norm(a)
		if args[i] != a {
			ch = true
		}
	}
	r := e
	if ch {
		r = u.Rebuild(e, args)
		if r != e {
			if r.IsConst() {
				return r
			}
			if r.W == 0 {
				if v, k := p.decide(r); k {
					return u.Bool(v)
				}
			}
		}
	}
	if r.Op == smt.OpConcat && r.W <= 64 {
		// 0 ++ a[k:0] where a's range fits
		n := len(r.Args)
		last := r.Args[n-1]
		if n == 2 && r.Args[0].IsConst() && r.Args[0].BigVal().Sign() == 0 {
			if last.Op == smt.OpExtract && last.C == 0 {
				a := last.Args[0]
				if a.W <= 64 {
					if _, h := p.rng(a); bits.Len64(h) <= last.W {
						if a.W == r.W {
							return p.norm(a)
						}
						return p.norm(u.ZExt(a, r.W))
					}
				}
			}
		}
	}
	return r
}

// addFact records a condition known to hold.
func (p *Path) addFact(c *smt.Expr) {
	p.fact(c, true)
	p.epoch++
}

func (p *Path) fact(c *smt.Expr, v bool) {
	if c.IsConst() {
		return
	}
	if c.Op == smt.OpNot {
		p.fact(c.Args[0], !v)
		return
	}
	p.known[c.ID] = v
	switch c.Op {
	case smt.OpAnd:
		if v {
			for _, a := range c.Args {
				p.fact(a, true)
			}
		}
	case smt.OpOr:
		if !v {
			for _, a := range c.Args {
				p.fact(a, false)
			}
		} else {
			// unit propagation
			var un *smt.Expr
			for _, a := range c.Args {
				if vv, k := p.decide(a); k {
					if vv {
						return
					}
				} else if un != nil {
					return
				} else {
					un = a
				}
			}
			if un != nil {
				p.fact(un, true)
			}
		}
	case smt.OpEq:
		if v && c.Args[0].W > 0 && c.Args[0].W <= 64 {
			a, b := c.Args[0], c.Args[1]
			bl, bh := p.rng(b)
			al, ah := p.rng(a)
			p.bound(a, bl, bh)
			p.bound(b, al, ah)
			p.linFact(a, b, 0, true)
		} else if !v && c.Args[0].W > 0 && c.Args[0].W <= 64 && c.Args[1].IsConst() {
			l, h := p.rng(c.Args[0])
			k := c.Args[1].C
			if l == k && h > l {
				p.bound(c.Args[0], l+1, h)
			} else if h == k && h > l {
				p.bound(c.Args[0], l, h-1)
			}
		}
	case smt.OpUlt:
		a, b := c.Args[0], c.Args[1]
		if a.W > 64 {
			return
		}
		al, ah := p.rng(a)
		bl, bh := p.rng(b)
		if v {
			if bh > 0 {
				p.bound(a, 0, bh-1)
			}
			if al < ^uint64(0) {
				p.bound(b, al+1, ^uint64(0))
			}
			p.linFact(a, b, -1, false)
		} else { // b <= a
			p.bound(a, bl, ^uint64(0))
			p.bound(b, 0, ah)
			p.linFact(b, a, 0, false)
		}
	case smt.OpSlt:
		a, b := c.Args[0], c.Args[1]
		if a.W > 64 {
			return
		}
		half := uint64(1) << uint(a.W-1)
		if !v {
			a, b = b, a // a <=s b
		}
		al, ah := p.rng(a)
		bl, bh := p.rng(b)
		d := uint64(0)
		if v {
			d = 1
		}
		// 0 <= a (< or <=) b  =>  bounds
		if ah < half && al+d <= half-1 {
			p.bound(b, al+d, half-1)
		}
		if bh < half && ah < half && bh >= d {
			p.bound(a, 0, bh-d)
		}
		if ah < half && bl < half { // b is now known non-negative
			if _, h := p.rng(b); h < half {
				p.linFact(a, b, -int64(d), false)
			}
		}
		p.epoch++
	}
}

func (p *Path) bound(e *smt.Expr, lo, hi uint64) {
	if e.IsConst() {
		return
	}
	ol, oh := p.rng(e)
	if lo <= ol && hi >= oh {
		return
	}
	if lo < ol {
		lo = ol
	}
	if hi > oh {
		hi = oh
	}
	p.rgs[e.ID] = rg{lo, hi}
	p.epoch++
	// a bound on zext(x) or on x+c is a bound on x
	switch e.Op {
	case smt.OpConcat:
		if len(e.Args) == 2 && e.Args[0].IsConst() && e.Args[0].BigVal().Sign() == 0 && e.W <= 64 {
			p.bound(e.Args[1], lo, hi)
		}
	case smt.OpExtract:
		a := e.Args[0]
		if e.C == 0 && a.W <= 64 {
			if _, h := p.rng(a); bits.Len64(h) <= e.W {
				p.bound(a, lo, hi)
			}
		}
		if a.W <= 64 && int(e.C)+e.W == a.W && e.C > 0 {
			p.bound(a, lo<<e.C, hi<<e.C|(1<<e.C-1))
		}
	case smt.OpAdd:
		if p.lexact(e) && len(e.Args) == 1 {
			if k := smt.SX(e.Ks[0], e.W); k > 0 {
				c := smt.SX(e.C, e.W)
				if int64(lo) >= 0 && int64(hi) >= 0 {
					l, h := int64(lo)-c, int64(hi)-c
					if h >= 0 {
						nl := int64(0)
						if l > 0 {
							nl = (l + k - 1) / k
						}
						p.bound(e.Args[0], uint64(nl), uint64(h/k))
					}
				}
			}
		}
	}
}

// linFact records the integer fact a - b <= d (or == d if eq).
func (p *Path) linFact(a, b *smt.Expr, d int64, eq bool) {
	if a.W != 64 || !p.lexact(a) || !p.lexact(b) {
		return
	}
	args, ks, c := smt.LinSub(a, b)
	if len(args) == 0 {
		return
	}
	ub := d - int64(c) // form <= ub
	if ub >= bigB || ub <= -bigB {
		return
	}
	lb := -bigB
	if eq {
		lb = ub
	}
	if len(args) > 1 {
		f, sgn := p.form(args, ks, 64)
		b, ok := p.forms[f.ID]
		if !ok {
			b = irg{-bigB, bigB}
		}
		l, h := lb, ub
		if sgn < 0 {
			l, h = -h, -l
		}
		if l > b.lo {
			b.lo = l
		}
		if h < b.hi {
			b.hi = h
		}
		p.forms[f.ID] = b
		p.epoch++
	}
	// propagate to single variables: k_i x_i <= ub - sum_{j!=i} min(k_j x_j)
	if len(args) <= 6 {
		for i, x := range args {
			k := int64(ks[i])
			rest := ub
			ok := true
			for j, y := range args {
				if j == i {
					continue
				}
				l, _, o := smt.LinRange(args[j:j+1], ks[j:j+1], 0, 64, p.rng)
				_ = y
				if !o || l > bigB || l < -bigB {
					ok = false
					break
				}
				rest -= l
				if rest > bigB || rest < -bigB {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			if k > 0 {
				if rest >= 0 {
					p.bound(x, 0, uint64(rest/k))
				}
			} else if rest < 0 {
				// -|k| x <= rest  => x >= ceil(-rest/|k|)
				kk := -k
				p.bound(x, uint64((-rest+kk-1)/kk), ^uint64(0))
			}
		}
	}
}

// assumeTrue adds c to the path condition.
func (p *Path) assumeTrue(c *smt.Expr) {
	if c.IsConst() {
		return
	}
	p.pc = append(p.pc, c)
	p.addFact(c)
}

// branch decides a condition, forking the exploration if both outcomes are possible.
func (p *Path) branch(c *smt.Expr) bool {
	if c.IsConst() {
		return c.C == 1
	}
	c = p.norm(c)
	if v, k := p.decide(c); k {
		return v
	}
	if p.initing > 0 {
		unsup("symbolic branch during initialisation")
	}
	if len(p.log) < len(p.pre) {
		d := p.pre[len(p.log)]
		if d.Kind != 'b' {
			panic(fmt.Sprintf("engine: replay divergence: want branch, have %c", d.Kind))
		}
		p.log = append(p.log, d)
		v := d.V == 1
		cc := c
		if !v {
			cc = p.u.Not(c)
		}
		if d.Forced {
			p.addFact(cc)
		} else {
			p.assumeTrue(cc)
		}
		return v
	}
	p.w.checkBudget(p)
	mv := p.curModel().True(c)
	cc, other := c, p.u.Not(c)
	if !mv {
		cc, other = other, cc
	}
	r, m := p.w.solver.Check(p.pc, other)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	if r == smt.Unsat {
		p.log = append(p.log, Dec{'b', b2u(mv), true, 2})
		p.addFact(cc)
		return mv
	}
	if r == smt.Unknown {
		p.note("solver gave no answer for a branch; both sides explored")
	}
	alt := append(append([]Dec{}, p.log...), Dec{'b', b2u(!mv), false, 2})
	p.w.push(alt, m)
	p.log = append(p.log, Dec{'b', b2u(mv), false, 2})
	p.assumeTrue(cc)
	return mv
}

func (p *Path) curModel() *smt.Model {
	if p.model == nil {
		r, m := p.w.solver.Check(p.pc)
		if r == smt.Unsat {
			panic(infeasible{})
		}
		if r == smt.Unknown {
			panic(pathEnd{"solver gave no answer for a path condition"})
		}
		p.model = m
	}
	return p.model
}

// assume restricts the path to c.
func (p *Path) assume(c *smt.Expr) {
	c = p.norm(c)
	if v, k := p.decide(c); k {
		if !v {
			panic(infeasible{})
		}
		return
	}
	if p.model != nil && p.model.True(c) {
		p.assumeTrue(c)
		return
	}
	p.assumeTrue(c)
	if len(p.log) < len(p.pre) {
		p.model = nil
		return
	}
	r, m := p.w.solver.Check(p.pc)
	if r == smt.Unsat {
		panic(infeasible{})
	}
	p.model = m
	if r == smt.Unknown {
		p.note("solver gave no answer for an assumption")
	}
}

// choose makes an n-way nondeterministic choice; it is a symbolic variable
// whose value the exploration case-splits on.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := p.u.Var(name, 16)
	if _, ok := p.rgs[v.ID]; !ok {
		p.assume(p.u.Ult(v, p.u.BV(uint64(n), 16)))
	}
	return int(p.concretize(v))
}

// concretize case-splits on the value of e.
func (p *Path) concretize(e *smt.Expr) uint64 {
	for tries := 0; ; tries++ {
		e = p.norm(e)
		if e.IsConst() {
			return e.C
		}
		if lo, hi := p.rng(e); lo == hi {
			return lo
		}
		if tries > 4096 {
			unsup("more than 4096 values for one term")
		}
		var v uint64
		if len(p.log) < len(p.pre) {
			d := p.pre[len(p.log)]
			if d.Kind != 'v' {
				panic(fmt.Sprintf("engine: replay divergence: want value, have %c", d.Kind))
			}
			v = d.V
			p.log = append(p.log, d)
		} else {
			v = p.curModel().Eval(e).Uint64()
			p.log = append(p.log, Dec{'v', v, false, 0})
		}
		if p.branch(p.u.Eq(e, p.u.BV(v, e.W))) {
			return v
		}
	}
}

// resolve removes if-then-else structure from an index or length by case splitting.
func (p *Path) resolve(e *smt.Expr) *smt.Expr {
	for i := 0; i < 400; i++ {
		e = p.norm(e)
		c := findIte(e, 0)
		if c == nil {
			return e
		}
		p.branch(c)
	}
	return e
}

func findIte(e *smt.Expr, d int) *smt.Expr {
	if d > 40 {
		return nil
	}
	switch e.Op {
	case smt.OpIte:
		return e.Args[0]
	case smt.OpConst, smt.OpVar, smt.OpApp:
		return nil
	}
	if e.W == 0 {
		return nil
	}
	for _, a := range e.Args {
		if c := findIte(a, d+1); c != nil {
			return c
		}
	}
	return nil
}

func (p *Path) note(s string) {
	p.notes[s] = true
}

func (p *Path) freshVar(prefix string, w int) *smt.Expr {
	p.fresh++
	return p.u.Var(fmt.Sprintf("%s#%d", prefix, p.fresh), w)
}

func bigU(v *big.Int) uint64 { return new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64() }
