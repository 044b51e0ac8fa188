package sym

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type intrinsicFn func(g *G, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsicFn{}

const (
	vPkg      = "verif/harness/v"
	modelsPkg = "verif/harness/models"
)

func reg(name string, f intrinsicFn) { intrinsics[name] = f }

// model redirects a function to its Go model in the models package.
func regModel(name, model string) {
	reg(name, func(g *G, fn *ssa.Function, args []Value) Value {
		return g.callModel(model, args)
	})
}

func (g *G) callModel(model string, args []Value) Value {
	pkg := g.p.w.ex.prog.Package(modelsPkg)
	if pkg == nil {
		unsup("models package not loaded")
	}
	f := pkg.Func(model)
	if f == nil {
		unsup("no model %s", model)
	}
	return g.callFn(f, args, nil)
}

func ex(v Value) *smt.Expr { return v.(*smt.Expr) }

func (g *G) argStr(v Value) string {
	s, ok := g.p.conc(v.(Str))
	if !ok {
		unsup("constant string expected")
	}
	return s
}

// uniq numbers repeated names so that they are unique within a path.
func (p *Path) uniq(n string) string {
	k := p.names[n]
	p.names[n]++
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s~%d", n, k)
}

func (g *G) input(v Value, w int) *smt.Expr {
	p := g.p
	n := p.uniq(g.argStr(v))
	var e *smt.Expr
	if w == 0 {
		x := p.u.Var(n+":0", 8)
		p.assume(p.u.Ult(x, p.u.BV(2, 8)))
		e = p.u.Eq(x, p.u.BV(1, 8))
		p.inputs = append(p.inputs, &Input{Name: n, Kind: "int", e: x, w: 8})
		return e
	}
	e = p.u.Var(fmt.Sprintf("%s:%d", n, w), w)
	p.inputs = append(p.inputs, &Input{Name: n, Kind: "int", e: e, w: w})
	return e
}

// assumeRange asserts the bound built into a ranged variable. The
// constructors would fold it to true, so it goes to the solver as it is.
func (p *Path) assumeRange(x *smt.Expr, hi uint64) {
	c := p.u.RawUle(x, hi)
	p.pc = append(p.pc, c)
	if p.model != nil && !p.model.True(c) {
		p.model = nil
	}
}

func (g *G) bytesInput(v Value, n *smt.Expr) (*Node, *smt.Expr) {
	p := g.p
	name := p.uniq(g.argStr(v))
	var ln *smt.Expr
	lo := p.norm(n)
	if lo.IsConst() && lo.C == 0 {
		ln = p.c64(0)
	} else {
		if lo.IsConst() && lo.C < 1<<61 {
			ln = p.u.VarR(name+".len", 64, lo.C)
			p.assumeRange(ln, lo.C)
		} else {
			ln = p.u.Var(name+".len", 64)
			p.assume(p.u.Ule(ln, n))
		}
	}
	nd := &Node{kind: nSym, id: p.w.nextNode(), name: name + ".at"}
	p.inputs = append(p.inputs, &Input{Name: name, Kind: "bytes", e: ln, uf: nd.name})
	return nd, ln
}

func init() {
	// ---- harness library ----
	for name, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64,
		"Bool": 0, "F32bits": 32, "F64bits": 64} {
		w := w
		reg(vPkg+"."+name, func(g *G, fn *ssa.Function, args []Value) Value { return g.input(args[0], w) })
	}
	reg(vPkg+".Int", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		if l, h := p.norm(ex(a[1])), p.norm(ex(a[2])); l.IsConst() && h.IsConst() && l.SVal() < 0 && h.SVal() >= l.SVal() && l.SVal() > -1<<60 && h.SVal() < 1<<60 {
			n := p.uniq(g.argStr(a[0]))
			r := h.C - l.C
			x := p.u.VarR(n+":64", 64, r)
			p.assumeRange(x, r)
			e := p.u.Add(x, l)
			p.inputs = append(p.inputs, &Input{Name: n, Kind: "int", e: e, w: 64})
			return e
		} else if l.IsConst() && h.IsConst() && l.SVal() >= 0 && h.SVal() >= l.SVal() && h.C < 1<<61 {
			n := p.uniq(g.argStr(a[0]))
			e := p.u.VarR(n+":64", 64, h.C)
			p.assumeRange(e, h.C)
			if l.C > 0 {
				p.assume(p.u.Ule(l, e))
			}
			p.inputs = append(p.inputs, &Input{Name: n, Kind: "int", e: e, w: 64})
			return e
		}
		if l, h := p.norm(ex(a[1])), p.norm(ex(a[2])); l.IsConst() && l.SVal() >= 0 {
			if _, hi := p.rng(h); hi < 1<<60 {
				n := p.uniq(g.argStr(a[0]))
				e := p.u.VarR(n+":64", 64, hi)
				p.assumeRange(e, hi)
				if l.C > 0 {
					p.assume(p.u.Ule(l, e))
				}
				p.assume(p.u.Ule(e, h))
				p.inputs = append(p.inputs, &Input{Name: n, Kind: "int", e: e, w: 64})
				return e
			}
		}
		e := g.input(a[0], 64)
		p.assume(p.u.And(p.u.Sle(ex(a[1]), e), p.u.Sle(e, ex(a[2]))))
		return e
	})
	reg(vPkg+".Choose", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		n := p.uniq(g.argStr(a[0]))
		return p.c64(int64(p.free(n, int(p.concretize(ex(a[1]))))))
	})
	reg(vPkg+".Bytes", func(g *G, fn *ssa.Function, a []Value) Value {
		nd, n := g.bytesInput(a[0], ex(a[1]))
		return Bytes{g.p.newMem(nd, n), g.p.c64(0), n, n}
	})
	reg(vPkg+".String", func(g *G, fn *ssa.Function, a []Value) Value {
		nd, n := g.bytesInput(a[0], ex(a[1]))
		return Str{nd, g.p.c64(0), n}
	})
	reg(vPkg+".BytesN", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		name := p.uniq(g.argStr(a[0]))
		nd := &Node{kind: nSym, id: p.w.nextNode(), name: name + ".at"}
		n := p.norm(ex(a[1]))
		p.inputs = append(p.inputs, &Input{Name: name, Kind: "bytes", e: n, uf: nd.name})
		return Bytes{p.newMem(nd, n), p.c64(0), n, n}
	})
	reg(vPkg+".Assume", func(g *G, fn *ssa.Function, a []Value) Value { g.p.assume(ex(a[0])); return nil })
	reg(vPkg+".Assert", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.assert(ex(a[0]), g.msg(a[1]))
		return nil
	})
	reg(vPkg+".EqBytes", func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Bytes), a[1].(Bytes)
		g.assertEq(g.p.view(x), g.p.view(y), g.msg(a[2]))
		return nil
	})
	reg(vPkg+".EqString", func(g *G, fn *ssa.Function, a []Value) Value {
		g.assertEq(a[0].(Str), a[1].(Str), g.msg(a[2]))
		return nil
	})
	reg(vPkg+".Cover", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.covers[g.argStr(a[0])] = true
		return nil
	})
	reg(vPkg+".Fix", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.u.BV(g.p.concretize(g.p.resolve(ex(a[0]))), 64)
	})
	reg(vPkg+".Stop", func(g *G, fn *ssa.Function, a []Value) Value { panic(pathEnd{""}) })
	reg(vPkg+".ObsInt", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.observed = append(g.p.observed, Obs{Name: g.argStr(a[0]), V: a[1]})
		return nil
	})
	reg(vPkg+".ObsBytes", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.observed = append(g.p.observed, Obs{Name: g.argStr(a[0]), V: g.p.view(a[1].(Bytes))})
		return nil
	})
	reg(vPkg+".Symbolic", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.u.True })
	reg(vPkg+".Thorough", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.u.Bool(g.p.w.ex.cfg.Tier == "thorough")
	})
	reg(vPkg+".Bound", func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		r := a[1]
		if p.w.ex.cfg.Tier == "thorough" {
			r = a[2]
		}
		h := p.w.h
		h.mu.Lock()
		h.Bounds[g.argStr(a[0])] = fmt.Sprint(ex(r).SVal())
		h.mu.Unlock()
		return r
	})
	reg(vPkg+".Yield", func(g *G, fn *ssa.Function, a []Value) Value { g.explicit(); return nil })
	reg(vPkg+".Spawn", func(g *G, fn *ssa.Function, a []Value) Value { g.par(a[0].(*Func), false); return nil })
	reg(vPkg+".member", func(g *G, fn *ssa.Function, a []Value) Value { g.par(a[0].(*Func), true); return nil })
	reg(vPkg+".quiesce", func(g *G, fn *ssa.Function, a []Value) Value { g.quiesce(); return nil })
	reg(vPkg+".Preemptions", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.sched.preempt = int(ex(a[0]).SVal())
		return nil
	})
	reg(vPkg+".Tight", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.grow = growRoomy
		if g.p.branch(ex(a[0])) {
			g.p.grow = growTight
		}
		return nil
	})
	reg(vPkg+".UFHash", func(g *G, fn *ssa.Function, a []Value) Value { return g.ufHash(a) })
	reg(vPkg+".UF", func(g *G, fn *ssa.Function, a []Value) Value {
		// uninterpreted function of one 64-bit argument
		return g.p.u.App(g.argStr(a[0]), 64, g.p.norm(ex(a[1])))
	})
	reg(vPkg+".Concrete", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.u.Bool(g.p.norm(ex(a[0])).IsConst())
	})
	reg(vPkg+".RegDate", func(g *G, fn *ssa.Function, a []Value) Value {
		// RegDate(days, y, m, d): the calendar date of a day number
		g.p.timeReg[g.p.norm(ex(a[0])).ID] = [3]*smt.Expr{ex(a[1]), ex(a[2]), ex(a[3])}
		return nil
	})
	reg(vPkg+".Note", func(g *G, fn *ssa.Function, a []Value) Value { g.p.note(g.argStr(a[0])); return nil })

	reg(vPkg+".Unsupported", func(g *G, fn *ssa.Function, a []Value) Value { unsup("%s", g.msg(a[0])); return nil })

	// ---- math ----
	for n, w := range map[string]int{"Len": 64, "Len64": 64, "Len32": 32, "Len16": 16, "Len8": 8} {
		_ = w
		reg("math/bits."+n, func(g *G, fn *ssa.Function, a []Value) Value { return g.p.u.BitLen(g.p.norm(ex(a[0])), 64) })
	}
	for n, w := range map[string]int{"LeadingZeros": 64, "LeadingZeros64": 64, "LeadingZeros32": 32, "LeadingZeros16": 16, "LeadingZeros8": 8} {
		w := w
		reg("math/bits."+n, func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.u.Sub(g.p.c64(int64(w)), g.p.u.BitLen(g.p.norm(ex(a[0])), 64))
		})
	}
	id := func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float32bits", "math.Float64frombits", "math.Float32frombits",
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone", "bytes.noescape"} {
		reg(n, id)
	}
	reg("runtime.KeepAlive", func(g *G, fn *ssa.Function, a []Value) Value { return nil })

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(g *G, fn *ssa.Function, a []Value) Value { g.lock(asPtr(a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(g *G, fn *ssa.Function, a []Value) Value { g.unlock(asPtr(a[0])); return nil })
	reg("(*sync.Mutex).TryLock", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.u.Bool(g.tryLock(asPtr(a[0]))) })
	reg("(*sync.RWMutex).Lock", func(g *G, fn *ssa.Function, a []Value) Value { g.lock(asPtr(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(g *G, fn *ssa.Function, a []Value) Value { g.unlock(asPtr(a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(g *G, fn *ssa.Function, a []Value) Value { g.rlock(asPtr(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(g *G, fn *ssa.Function, a []Value) Value { g.runlock(asPtr(a[0])); return nil })
	reg("(*sync.Once).Do", func(g *G, fn *ssa.Function, a []Value) Value {
		pt := asPtr(a[0])
		m := g.p.mutex(pt)
		if g.p.initing == 0 {
			g.yield("once")
			g.block("once", func() bool { return !m.locked })
		}
		if m.readers == 0 {
			m.locked = true
			defer func() { m.locked = false; m.readers = 1 }()
			g.callFunc(a[1].(*Func), nil)
		}
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.waitGroup(asPtr(a[0]))
		s.n += int64(g.p.concretize(ex(a[1])))
		if s.n < 0 {
			panic(&targetPanic{rt: true, msg: "sync: negative WaitGroup counter"})
		}
		g.yield("wg")
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.waitGroup(asPtr(a[0]))
		s.n--
		if s.n < 0 {
			panic(&targetPanic{rt: true, msg: "sync: negative WaitGroup counter"})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.waitGroup(asPtr(a[0]))
		g.block("waitgroup", func() bool { return s.n == 0 })
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.waitGroup(asPtr(a[0]))
		s.n++
		f := a[1].(*Func)
		g.spawn(func() Value {
			g2 := g.p.g
			g2.callFunc(f, nil)
			s.n--
			return nil
		})
		return nil
	})
	reg("(*sync.Cond).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		pt := asPtr(a[0])
		l := g.condLocker(pt)
		s := g.p.condVar(pt)
		gen := s.gen
		s.wait++
		g.callMethod(l, "Unlock")
		g.block("cond", func() bool { return s.gen > gen || s.sigs > 0 })
		if s.gen <= gen {
			s.sigs--
		}
		s.wait--
		g.callMethod(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.condVar(asPtr(a[0]))
		if s.sigs < s.wait {
			s.sigs++
		}
		g.yield("signal")
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.p.condVar(asPtr(a[0]))
		s.gen++
		s.sigs = 0
		g.yield("broadcast")
		return nil
	})
	reg("(*sync.Pool).Get", func(g *G, fn *ssa.Function, a []Value) Value {
		pt := asPtr(a[0])
		st := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f, _ := g.p.loadCell(pt.c.sub[i], st.Field(i).Type()).(*Func)
				if f != nil {
					return g.callFunc(f, nil)
				}
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(g *G, fn *ssa.Function, a []Value) Value { return nil })
	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ld := func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield("atomic")
			return g.p.load(asPtr(a[0]), deref(fn.Signature.Params().At(0).Type()))
		}
		st := func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield("atomic")
			g.p.store(asPtr(a[0]), deref(fn.Signature.Params().At(0).Type()), a[1])
			return nil
		}
		ad := func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield("atomic")
			t := deref(fn.Signature.Params().At(0).Type())
			v := g.p.u.Add(ex(g.p.load(asPtr(a[0]), t)), ex(a[1]))
			g.p.store(asPtr(a[0]), t, v)
			return v
		}
		sw := func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield("atomic")
			t := deref(fn.Signature.Params().At(0).Type())
			v := g.p.load(asPtr(a[0]), t)
			g.p.store(asPtr(a[0]), t, a[1])
			return v
		}
		cas := func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield("atomic")
			t := deref(fn.Signature.Params().At(0).Type())
			v := g.p.load(asPtr(a[0]), t)
			if g.p.branch(g.p.equal(t, v, a[1])) {
				g.p.store(asPtr(a[0]), t, a[2])
				return g.p.u.True
			}
			return g.p.u.False
		}
		for _, pk := range []string{"sync/atomic."} {
			reg(pk+"Load"+ty, ld)
			reg(pk+"Store"+ty, st)
			reg(pk+"Add"+ty, ad)
			reg(pk+"Swap"+ty, sw)
			reg(pk+"CompareAndSwap"+ty, cas)
		}
	}
	reg("(*sync/atomic.Value).Load", func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield("atomic")
		if v, ok := g.p.side[asPtr(a[0]).c]; ok {
			return v.(Iface)
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Store", func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield("atomic")
		g.p.side[asPtr(a[0]).c] = a[1].(Iface)
		return nil
	})

	// ---- bytealg ----
	reg("internal/bytealg.IndexByte", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.indexByte(g.p.view(a[0].(Bytes)), ex(a[1]))
	})
	reg("internal/bytealg.IndexByteString", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.indexByte(a[0].(Str), ex(a[1]))
	})
	reg("internal/bytealg.Equal", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.strEq(g.p.view(a[0].(Bytes)), g.p.view(a[1].(Bytes)))
	})
	reg("bytes.Equal", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.strEq(g.p.view(a[0].(Bytes)), g.p.view(a[1].(Bytes)))
	})
	reg("internal/bytealg.MakeNoZero", func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.p.norm(ex(a[0]))
		return Bytes{g.p.newMem(zeroNode, n), g.p.c64(0), n, n}
	})
	cnt := func(g *G, s Str, c *smt.Expr) Value {
		p := g.p
		n := p.concretize(p.resolve(s.n))
		r := p.c64(0)
		for i := uint64(0); i < n; i++ {
			r = p.u.Add(r, p.u.Ite(p.u.Eq(p.readByte(s.node, p.u.Add(s.off, p.c64(int64(i)))), c), p.c64(1), p.c64(0)))
		}
		return r
	}
	reg("internal/bytealg.Count", func(g *G, fn *ssa.Function, a []Value) Value { return cnt(g, g.p.view(a[0].(Bytes)), ex(a[1])) })
	reg("internal/bytealg.CountString", func(g *G, fn *ssa.Function, a []Value) Value { return cnt(g, a[0].(Str), ex(a[1])) })
	cmp := func(g *G, x, y Str) Value {
		p := g.p
		if p.branch(p.strLess(x, y)) {
			return p.c64(-1)
		}
		if p.branch(p.strLess(y, x)) {
			return p.c64(1)
		}
		return p.c64(0)
	}
	reg("internal/bytealg.Compare", func(g *G, fn *ssa.Function, a []Value) Value {
		return cmp(g, g.p.view(a[0].(Bytes)), g.p.view(a[1].(Bytes)))
	})
	reg("internal/bytealg.CompareString", func(g *G, fn *ssa.Function, a []Value) Value { return cmp(g, a[0].(Str), a[1].(Str)) })
	reg("crypto/internal/fips140/alias.AnyOverlap", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.u.False })
	reg("crypto/internal/fips140/alias.InexactOverlap", func(g *G, fn *ssa.Function, a []Value) Value { return g.p.u.False })
	xorb := func(g *G, fn *ssa.Function, a []Value) Value {
		p, u := g.p, g.p.u
		d, x, y := a[0].(Bytes), a[1].(Bytes), a[2].(Bytes)
		n := min(p.concretize(p.resolve(x.n)), p.concretize(p.resolve(y.n)))
		if n == 0 {
			return p.c64(0)
		}
		if p.branch(u.Ult(d.n, p.c64(int64(n)))) {
			panic(&targetPanic{msg: "subtle.XORBytes: dst too short"})
		}
		var vs []*smt.Expr
		for i := uint64(0); i < n; i++ {
			k := p.c64(int64(i))
			vs = append(vs, u.BXor(p.readByte(x.bm.node, u.Add(x.off, k)), p.readByte(y.bm.node, u.Add(y.off, k))))
		}
		for i, v := range vs {
			p.setNode(d.bm, p.writeNode(d.bm.node, u.Add(d.off, p.c64(int64(i))), v))
		}
		return p.c64(int64(n))
	}
	reg("crypto/subtle.XORBytes", xorb)
	reg("crypto/internal/fips140/subtle.XORBytes", xorb)

	// ---- errors ----
	reg("errors.As", func(g *G, fn *ssa.Function, a []Value) Value { return g.errorsAs(a[0].(Iface), a[1].(Iface)) })
	reg("errors.Is", func(g *G, fn *ssa.Function, a []Value) Value { return g.errorsIs(a[0].(Iface), a[1].(Iface)) })

	// ---- fmt ----
	regModel("fmt.Errorf", "Errorf")
	regModel("fmt.Sprintf", "Sprintf")
	regModel("fmt.Sprint", "Sprint")
	regModel("fmt.Appendf", "Appendf")
	reg("(*fmt.wrapError).Error", nil)
	delete(intrinsics, "(*fmt.wrapError).Error")
	reg(modelsPkg+".typeName", func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return g.p.str("<nil>")
		}
		return g.p.str(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	})

	// ---- hashes, protobuf, net, tls ----
	regModel("crypto/sha1.New", "NewSHA1")
	regModel("crypto/sha256.New", "NewSHA256")
	regModel("crypto/sha1.Sum", "SumSHA1")
	regModel("crypto/sha256.Sum256", "SumSHA256")
	for _, pk := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		regModel(pk+".Unmarshal", "ProtoUnmarshal")
		regModel(pk+".UnmarshalMerge", "ProtoUnmarshalMerge")
		regModel(pk+".Size", "ProtoSize")
		regModel(pk+".Marshal", "ProtoMarshal")
	}
	regModel("(*github.com/golang/protobuf/proto.Buffer).Marshal", "ProtoBufferMarshal")
	regModel("github.com/golang/protobuf/proto.NewBuffer", "ProtoNewBuffer")
	regModel("(*net.Dialer).DialContext", "DialContext")
	regModel("(*net.Dialer).Dial", "Dial")
	regModel("(*github.com/golang/protobuf/proto.Buffer).Bytes", "ProtoBufferBytes")
	for _, m := range []string{"Read", "Write", "Close", "SetDeadline", "LocalAddr", "RemoteAddr"} {
		regModel("(*net.TCPConn)."+m, "TCP"+m)
		regModel("(*net.UnixConn)."+m, "Unix"+m)
	}
	for _, m := range []string{"SetReadDeadline", "SetWriteDeadline"} {
		regModel("(*net.TCPConn)."+m, "TCPNoop")
		regModel("(*net.UnixConn)."+m, "UnixNoop")
	}
	regModel("(*net.TCPConn).SetNoDelay", "TCPNoopBool")
	regModel("(*net.TCPConn).SetKeepAlive", "TCPNoopBool")
	for _, m := range []string{"Read", "Write", "Close", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "LocalAddr", "RemoteAddr"} {
		regModel("(*crypto/tls.Conn)."+m, "TLSConn"+m)
	}
	regModel("crypto/tls.Client", "TLSClient")
	regModel("(*crypto/tls.Conn).Handshake", "TLSHandshake")
	regModel("(*crypto/tls.Conn).HandshakeContext", "TLSHandshakeContext")
	regModel("(*crypto/tls.Conn).NetConn", "TLSNetConn")
	regModel("(*crypto/tls.Config).Clone", "TLSConfigClone")

	// ---- time ----
	reg("(time.absDays).date", func(g *G, fn *ssa.Function, a []Value) Value {
		d := g.date(ex(a[0]))
		return Tuple{d[0], d[1], d[2]}
	})
	reg("(time.absDays).yearYday", func(g *G, fn *ssa.Function, a []Value) Value {
		d := g.date(ex(a[0]))
		return Tuple{d[0], g.p.u.App("yday", 64, g.p.norm(ex(a[0])))}
	})
	reg("(*time.Location).get", func(g *G, fn *ssa.Function, a []Value) Value {
		pt := asPtr(a[0])
		pkg := g.p.w.ex.prog.byPath["time"]
		if pt.isNil() {
			return Ptr{c: g.p.w.global(g, pkg.Var("utcLoc"))}
		}
		if pt.c == g.p.w.global(g, pkg.Var("localLoc")) {
			// the sandbox's local zone: treated as UTC
			return Ptr{c: g.p.w.global(g, pkg.Var("utcLoc"))}
		}
		return a[0]
	})
	reg("time.Now", func(g *G, fn *ssa.Function, a []Value) Value { unsup("time.Now"); return nil })

	regReflect()
}

// strconv.Itoa and friends on symbolic values run through the real code.

func (g *G) condLocker(pt Ptr) Iface {
	for _, c := range pt.c.sub {
		if i, ok := c.v.(Iface); ok {
			return i
		}
	}
	unsup("sync.Cond without locker")
	return Iface{}
}

func (g *G) msg(v Value) string {
	s, ok := g.p.conc(v.(Str))
	if !ok {
		return "assertion"
	}
	return s
}

// view is the current content of a byte slice.
func (p *Path) view(b Bytes) Str {
	if b.bm == nil {
		return p.str("")
	}
	return Str{b.bm.node, b.off, b.n}
}

// assertEq asserts that two byte strings of any length are equal: equal
// lengths, and equal bytes at an arbitrary index.
func (g *G) assertEq(a, b Str, msg string) {
	p, u := g.p, g.p.u
	p.assert(u.Eq(a.n, b.n), msg+": length")
	n := p.resolve(a.n)
	if a.node == b.node && p.norm(a.off) == p.norm(b.off) {
		return
	}
	if n.IsConst() && n.C <= 64 {
		r := u.True
		for i := uint64(0); i < n.C; i++ {
			k := p.c64(int64(i))
			r = u.And(r, u.Eq(p.readByte(a.node, u.Add(a.off, k)), p.readByte(b.node, u.Add(b.off, k))))
		}
		p.assert(r, msg+": content")
		return
	}
	if p.branch(u.Eq(n, p.c64(0))) {
		return
	}
	p.fresh++
	k := u.VarR(fmt.Sprintf("index#%d", p.fresh), 64, n.Hi()-1)
	p.assumeRange(k, n.Hi()-1)
	p.assume(u.Ult(k, n))
	x, y := p.readByte(a.node, u.Add(a.off, k)), p.readByte(b.node, u.Add(b.off, k))
	p.assert(u.Eq(x, y), msg+": content")
}

func (g *G) indexByte(s Str, c *smt.Expr) Value {
	p, u := g.p, g.p.u
	n := p.resolve(s.n)
	for i := int64(0); ; i++ {
		if !p.branch(u.Ult(p.c64(i), n)) {
			return p.c64(-1)
		}
		if p.branch(u.Eq(p.readByte(s.node, u.Add(s.off, p.c64(i))), c)) {
			return p.c64(i)
		}
		if i > 4096 {
			unsup("IndexByte over more than 4096 bytes")
		}
	}
}

// ufHash: UFHash(name, size, data) is an uninterpreted function of the bytes.
func (g *G) ufHash(a []Value) Value {
	p, u := g.p, g.p.u
	name := g.argStr(a[0])
	size := int(p.concretize(ex(a[1])))
	d := p.view(a[2].(Bytes))
	n := int(p.concretize(p.resolve(d.n)))
	p.note("hash functions are uninterpreted")
	var args []*smt.Expr
	for i := 0; i < n; i++ {
		args = append(args, p.norm(p.readByte(d.node, u.Add(d.off, p.c64(int64(i))))))
	}
	var r *smt.Expr
	if n == 0 {
		r = u.Var(fmt.Sprintf("%s.0", name), size*8)
	} else {
		r = u.App(fmt.Sprintf("%s.%d", name, n), size*8, u.Concat(args...))
	}
	node := zeroNode
	for i := 0; i < size; i++ {
		hi := (size-i)*8 - 1
		node = p.writeNode(node, p.c64(int64(i)), u.Extract(r, hi, hi-7))
	}
	sz := p.c64(int64(size))
	return Bytes{p.newMem(node, sz), p.c64(0), sz, sz}
}

func (g *G) date(days *smt.Expr) [3]*smt.Expr {
	p, u := g.p, g.p.u
	d := p.norm(days)
	if r, ok := p.timeReg[d.ID]; ok {
		return r
	}
	if d.IsConst() {
		y, m, dd := civil(d.C)
		return [3]*smt.Expr{p.c64(y), p.c64(m), p.c64(dd)}
	}
	p.note("calendar date as uninterpreted function of the day number")
	return [3]*smt.Expr{u.App("year", 64, d), u.App("month", 64, d), u.App("day", 64, d)}
}

// civil converts Go's absolute day number (days since March 1 of absolute year 0) to a date.
func civil(abs uint64) (int64, int64, int64) {
	const absoluteYears = 292277022400
	// days since 0000-03-01 of an era-aligned year; era = 400 years
	era := int64(abs / 146097)
	doe := int64(abs % 146097)
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400 - absoluteYears
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	return y, m, d
}

// ---- errors ----

func (g *G) unwrap(i Iface) []Iface {
	if i.t == nil {
		return nil
	}
	ms := g.p.w.ex.prog.prog.MethodSets.MethodSet(i.t)
	for j := 0; j < ms.Len(); j++ {
		f := ms.At(j).Obj().(*types.Func)
		if f.Name() != "Unwrap" {
			continue
		}
		sg := f.Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			return nil
		}
		v := g.callFn(g.p.w.ex.prog.methodValue(ms.At(j)), []Value{i.v}, nil)
		switch r := v.(type) {
		case Iface:
			return []Iface{r}
		case Slice:
			var out []Iface
			for _, c := range r.cells {
				out = append(out, c.v.(Iface))
			}
			return out
		}
	}
	return nil
}

func (g *G) errorsAs(err, target Iface) Value {
	p := g.p
	if err.t == nil {
		return p.u.False
	}
	if target.t == nil {
		panic(&targetPanic{msg: "errors: target cannot be nil"})
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok || asPtr(target.v).isNil() {
		panic(&targetPanic{msg: "errors: target must be a non-nil pointer"})
	}
	want := pt.Elem()
	todo := []Iface{err}
	for n := 0; len(todo) > 0 && n < 100; n++ {
		e := todo[0]
		todo = todo[1:]
		if e.t == nil {
			continue
		}
		if it, ok := want.Underlying().(*types.Interface); ok {
			if p.w.implements(e.t, it) {
				p.store(asPtr(target.v), want, e)
				return p.u.True
			}
		} else if types.Identical(e.t, want) {
			p.store(asPtr(target.v), want, e.v)
			return p.u.True
		}
		if r, ok := g.callMethod(e, "As", target); ok {
			if p.branch(ex(r)) {
				return p.u.True
			}
		}
		todo = append(g.unwrap(e), todo...)
	}
	return p.u.False
}

func (g *G) errorsIs(err, target Iface) Value {
	p := g.p
	if err.t == nil || target.t == nil {
		return p.u.Bool(err.t == nil && target.t == nil)
	}
	cmp := types.Comparable(target.t)
	todo := []Iface{err}
	for n := 0; len(todo) > 0 && n < 100; n++ {
		e := todo[0]
		todo = todo[1:]
		if e.t == nil {
			continue
		}
		if cmp && types.Identical(e.t, target.t) && p.branch(p.equal(e.t, e.v, target.v)) {
			return p.u.True
		}
		if r, ok := g.callMethod(e, "Is", target); ok {
			if p.branch(ex(r)) {
				return p.u.True
			}
		}
		todo = append(g.unwrap(e), todo...)
	}
	return p.u.False
}

// ---- reflect ----

func kindOf(t types.Type) reflect.Kind {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (p *Path) kindVal(t types.Type) Value {
	k := reflect.Invalid
	if t != nil {
		k = kindOf(t)
	}
	return p.u.BV(uint64(k), 64)
}

func (g *G) rtypeOf(t types.Type) Value {
	// reflect.Type is an interface; *reflect.rtype is its usual dynamic type
	if t == nil {
		return Iface{}
	}
	return Iface{rtypeT, RType{t}}
}

var rtypeT = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil))

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (g *G) rtypeMethod(rt RType, name string, args []Value) Value {
	p := g.p
	switch name {
	case "Kind":
		return p.kindVal(rt.t)
	case "String":
		return p.str(typeStr(rt.t))
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return p.str(n.Obj().Name())
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return p.str(b.Name())
		}
		return p.str("")
	case "Elem":
		switch t := rt.t.Underlying().(type) {
		case *types.Pointer:
			return g.rtypeOf(t.Elem())
		case *types.Slice:
			return g.rtypeOf(t.Elem())
		case *types.Array:
			return g.rtypeOf(t.Elem())
		case *types.Map:
			return g.rtypeOf(t.Elem())
		}
	case "Len":
		if a, ok := rt.t.Underlying().(*types.Array); ok {
			return p.c64(a.Len())
		}
	case "Comparable":
		return p.u.Bool(types.Comparable(rt.t))
	case "Bits":
		return p.c64(int64(width(rt.t)))
	}
	unsup("reflect.Type.%s", name)
	return nil
}

func regReflect() {
	rv := func(v Value) RVal {
		r, ok := v.(RVal)
		if !ok {
			unsup("reflect.Value as %T", v)
		}
		return r
	}
	m := func(name string, f func(g *G, r RVal, a []Value) Value) {
		reg("(reflect.Value)."+name, func(g *G, fn *ssa.Function, a []Value) Value { return f(g, rv(a[0]), a[1:]) })
	}
	reg("reflect.ValueOf", func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(g *G, fn *ssa.Function, a []Value) Value { return g.rtypeOf(a[0].(Iface).t) })
	reg("reflect.Indirect", func(g *G, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t != nil && kindOf(r.t) == reflect.Pointer {
			return g.relem(r)
		}
		return r
	})
	m("Kind", func(g *G, r RVal, a []Value) Value { return g.p.kindVal(r.t) })
	m("IsValid", func(g *G, r RVal, a []Value) Value { return g.p.u.Bool(r.t != nil) })
	m("Type", func(g *G, r RVal, a []Value) Value { return g.rtypeOf(r.t) })
	m("IsNil", func(g *G, r RVal, a []Value) Value {
		switch v := r.v.(type) {
		case Ptr:
			return g.p.u.Bool(v.isNil())
		case Bytes:
			return g.p.u.Bool(v.bm == nil)
		case Slice:
			return g.p.u.Bool(!v.ok)
		case *MapObj:
			return g.p.u.Bool(v == nil)
		case *ChanObj:
			return g.p.u.Bool(v == nil)
		case *Func:
			return g.p.u.Bool(v == nil)
		case Iface:
			return g.p.u.Bool(v.t == nil)
		}
		panic(&targetPanic{msg: "reflect: call of reflect.Value.IsNil on non-nillable Value"})
	})
	m("Elem", func(g *G, r RVal, a []Value) Value { return g.relem(r) })
	m("Interface", func(g *G, r RVal, a []Value) Value {
		if r.t == nil {
			panic(&targetPanic{msg: "reflect: Interface of invalid value"})
		}
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return r.v
		}
		return Iface{r.t, r.v}
	})
	m("CanInterface", func(g *G, r RVal, a []Value) Value { return g.p.u.Bool(r.t != nil) })
	m("Int", func(g *G, r RVal, a []Value) Value { return g.toI64(r.v, r.t) })
	m("Uint", func(g *G, r RVal, a []Value) Value { return g.toI64(r.v, r.t) })
	m("Bool", func(g *G, r RVal, a []Value) Value { return r.v })
	m("Float", func(g *G, r RVal, a []Value) Value { return g.convert(types.Typ[types.Float64], r.t, r.v) })
	m("String", func(g *G, r RVal, a []Value) Value {
		if s, ok := r.v.(Str); ok {
			return s
		}
		if r.t == nil {
			return g.p.str("<invalid Value>")
		}
		return g.p.str("<" + typeStr(r.t) + " Value>")
	})
	m("Bytes", func(g *G, r RVal, a []Value) Value {
		if b, ok := r.v.(Bytes); ok {
			return b
		}
		unsup("reflect.Value.Bytes")
		return nil
	})
	m("Len", func(g *G, r RVal, a []Value) Value {
		switch v := r.v.(type) {
		case Bytes:
			return v.n
		case Str:
			return v.n
		case Slice:
			return g.p.c64(int64(len(v.cells)))
		case *MapObj:
			if v == nil {
				return g.p.c64(0)
			}
			return g.p.c64(int64(len(v.keys)))
		}
		unsup("reflect.Value.Len")
		return nil
	})
	m("Index", func(g *G, r RVal, a []Value) Value {
		switch v := r.v.(type) {
		case Slice:
			et := r.t.Underlying().(*types.Slice).Elem()
			i := ex(a[0])
			g.boundsCheck(i, g.p.c64(int64(len(v.cells))))
			c := v.cells[g.p.concretize(i)]
			return RVal{t: et, v: g.p.loadCell(c, et)}
		case Bytes:
			et := r.t.Underlying().(*types.Slice).Elem()
			return RVal{t: et, v: g.p.load(g.indexAddr(v, r.t, ex(a[0]), types.Typ[types.Int]).(Ptr), et)}
		}
		unsup("reflect.Value.Index")
		return nil
	})
	m("IsZero", func(g *G, r RVal, a []Value) Value { return g.p.equal(r.t, r.v, g.p.zero(r.t)) })
	reg("(reflect.Kind).String", func(g *G, fn *ssa.Function, a []Value) Value {
		e := g.p.norm(ex(a[0]))
		if !e.IsConst() {
			unsup("symbolic reflect.Kind")
		}
		return g.p.str(reflect.Kind(e.C).String())
	})
	reg("(*reflect.rtype).String", func(g *G, fn *ssa.Function, a []Value) Value { return g.rtypeMethod(a[0].(RType), "String", nil) })
}

func (g *G) relem(r RVal) Value {
	if r.t == nil {
		panic(&targetPanic{msg: "reflect: call of reflect.Value.Elem on zero Value"})
	}
	switch t := r.t.Underlying().(type) {
	case *types.Pointer:
		pt := asPtr(r.v)
		if pt.isNil() {
			return RVal{}
		}
		return RVal{t: t.Elem(), v: g.p.load(pt, t.Elem()), p: pt}
	case *types.Interface:
		i := r.v.(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}
	panic(&targetPanic{msg: "reflect: call of reflect.Value.Elem on " + typeStr(r.t) + " Value"})
}

var _ = strings.TrimSpace
