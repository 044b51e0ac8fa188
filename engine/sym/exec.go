package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// G is a symbolic goroutine.
type G struct {
	p     *Path
	id    int
	depth int
	cur   *frame
	// scheduling
	wake    chan struct{}
	member  bool
	blocked bool
	done    bool
	name    string
	waits   *waiter
	panicV  *targetPanic
}

// targetPanic is a Go panic of the program under test.
type targetPanic struct {
	v     Value
	rt    bool
	msg   string
	where string
}

type frame struct {
	g         *G
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       map[ssa.Value]Value
	defers    []func()
	result    Value
	panicking *targetPanic
	recovered bool
	iters     map[*ssa.BasicBlock]int
}

func (g *G) rtPanic(msg string) {
	where := ""
	for f := g.cur; f != nil; f = f.caller {
		where += f.fn.String() + "<"
	}
	panic(&targetPanic{v: nil, rt: true, msg: "runtime error: " + msg, where: where})
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.g.p.constVal(v)
	case *ssa.Global:
		return Ptr{c: fr.g.p.w.global(fr.g, v)}
	case *ssa.Function:
		return fr.g.p.w.funcVal(v)
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("engine: get: no value for %T: %v in %s", v, v.Name(), fr.fn))
}

func (w *Worker) funcVal(fn *ssa.Function) *Func {
	if f, ok := w.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn}
	w.funcs[fn] = f
	return f
}

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return p.u.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return p.str(constant.StringVal(c.Value))
			}
			return p.str(string(rune(c.Int64())))
		case b.Info()&types.IsInteger != 0:
			w := width(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return p.u.BV(uint64(i), w)
			}
			i, _ := constant.Uint64Val(v)
			return p.u.BV(i, w)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return p.floatVal(f, width(t))
		}
	}
	unsup("constant of type %s", c.Type())
	return nil
}

func (p *Path) floatVal(f float64, w int) *smt.Expr {
	if w == 32 {
		return p.u.BV(uint64(math.Float32bits(float32(f))), 32)
	}
	return p.u.BV(math.Float64bits(f), 64)
}

func (p *Path) floatOf(e *smt.Expr) float64 {
	e = p.norm(e)
	if !e.IsConst() {
		unsup("arithmetic on symbolic floating-point value")
	}
	if e.W == 32 {
		return float64(math.Float32frombits(uint32(e.C)))
	}
	return math.Float64frombits(e.C)
}

// callFn calls an SSA function (or an intrinsic replacing it).
func (g *G) callFn(fn *ssa.Function, args []Value, free []Value) Value {
	p := g.p
	if in := p.w.intrinsic(fn); in != nil {
		p.w.used(fn, true)
		return in(g, fn, args)
	}
	p.w.build(fn)
	if fn.Blocks == nil {
		unsup("function without body: %s", fn)
	}
	p.w.used(fn, false)
	g.depth++
	if g.depth > 2000 {
		unsup("call depth")
	}
	fr := &frame{g: g, caller: g.cur, fn: fn, env: make(map[ssa.Value]Value, 32)}
	g.cur = fr
	for i, pa := range fn.Params {
		fr.env[pa] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = free[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		g.runFrame(fr)
	}
	g.cur = fr.caller
	g.depth--
	return fr.result
}

func (g *G) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r) // engine-level
		}
		g.cur = fr
		fr.panicking = tp
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// return zero results
			fr.result = g.zeroResults(fr.fn)
		}
	}()
	for {
		if g.runBlock(fr) {
			return
		}
	}
}

func (g *G) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return g.p.zero(rs.At(0).Type())
	}
	t := make(Tuple, rs.Len())
	for i := range t {
		t[i] = g.p.zero(rs.At(i).Type())
	}
	return t
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
}

func (fr *frame) runDefer(d func()) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.g.cur = fr
			fr.panicking = tp
		}
	}()
	d()
	ok = true
}

const maxSteps = 20_000_000

// runBlock runs the current block; true means the function returned.
func (g *G) runBlock(fr *frame) bool {
	p := g.p
	b := fr.block
	// phis first, in parallel
	n := 0
	var phis []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == fr.prev {
				phis = append(phis, fr.get(ph.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
	}
	for _, in := range b.Instrs[n:] {
		p.steps++
		if p.steps&1023 == 0 {
			if p.steps > p.w.ex.cfg.MaxSteps {
				panic(pathEnd{"step limit"})
			}
			p.w.checkBudget(p)
		}
		switch in := in.(type) {
		case *ssa.If:
			c := fr.get(in.Cond).(*smt.Expr)
			fr.prev = b
			if p.branch(c) {
				fr.block = b.Succs[0]
			} else {
				fr.block = b.Succs[1]
			}
			return false
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return false
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = fr.get(in.Results[0])
			default:
				t := make(Tuple, len(in.Results))
				for i, r := range in.Results {
					t[i] = fr.get(r)
				}
				fr.result = t
			}
			fr.block = nil
			return true
		case *ssa.Panic:
			v := fr.get(in.X)
			panic(&targetPanic{v: v, msg: p.panicString(v), where: fr.fn.String()})
		default:
			g.instr(fr, in)
		}
	}
	panic("engine: block without terminator")
}

func (p *Path) panicString(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok {
			if c, ok := p.conc(s); ok {
				return c
			}
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return "panic"
}

func (g *G) instr(fr *frame, instr ssa.Instruction) {
	p := g.p
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(in.Type())
		fr.env[in] = p.allocPtr(t)
	case *ssa.UnOp:
		fr.env[in] = g.unop(fr, in)
	case *ssa.BinOp:
		fr.env[in] = g.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type())
	case *ssa.Call:
		fr.env[in] = g.call(fr, &in.Call)
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = g.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = g.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		fr.env[in] = g.sliceToArrayPtr(fr.get(in.X), in.Type())
	case *ssa.MakeInterface:
		v := fr.get(in.X)
		fr.env[in] = Iface{in.X.Type(), v}
	case *ssa.Extract:
		fr.env[in] = fr.get(in.Tuple).(Tuple)[in.Index]
	case *ssa.Field:
		switch s := fr.get(in.X).(type) {
		case StructV:
			fr.env[in] = s[in.Field]
		default:
			unsup("field of %T", s)
		}
	case *ssa.FieldAddr:
		pt := asPtr(fr.get(in.X))
		if pt.isNil() {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		if pt.c == nil || pt.c.sub == nil {
			if pt.c != nil {
				if po, ok := pt.c.v.(Poison); ok {
					unsup("uninitialised global (%s)", po.why)
				}
			}
			unsup("field address in %s", in.X.Type())
		}
		f := pt.c.sub[in.Field]
		if f.bm != nil {
			fr.env[in] = Ptr{c: f, bm: nil}
		} else {
			fr.env[in] = Ptr{c: f}
		}
	case *ssa.IndexAddr:
		fr.env[in] = g.indexAddr(fr.get(in.X), in.X.Type(), fr.get(in.Index).(*smt.Expr), in.Index.Type())
	case *ssa.Index:
		fr.env[in] = g.index(fr.get(in.X), fr.get(in.Index).(*smt.Expr), in.Index.Type())
	case *ssa.Lookup:
		fr.env[in] = g.lookup(fr, in)
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapObj)
		if m == nil {
			panic(&targetPanic{rt: true, msg: "assignment to entry in nil map"})
		}
		p.mapSet(m, fr.get(in.Key), fr.get(in.Value), in.Map.Type().Underlying().(*types.Map))
	case *ssa.Slice:
		fr.env[in] = g.slice(fr, in)
	case *ssa.Store:
		p.store(asPtr(fr.get(in.Addr)), deref(in.Addr.Type()), fr.get(in.Val))
	case *ssa.MakeSlice:
		fr.env[in] = g.makeSlice(in.Type(), g.toI64(fr.get(in.Len), in.Len.Type()), g.toI64(fr.get(in.Cap), in.Cap.Type()))
	case *ssa.MakeMap:
		fr.env[in] = &MapObj{idx: map[string]int{}, old: p.initing > 0, kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.MakeChan:
		n := p.concretize(g.toI64(fr.get(in.Size), in.Size.Type()))
		if int64(n) < 0 {
			panic(&targetPanic{rt: true, msg: "makechan: size out of range"})
		}
		fr.env[in] = p.newChan(int(n), in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MakeClosure:
		var fv []Value
		for _, b := range in.Bindings {
			fv = append(fv, fr.get(b))
		}
		fr.env[in] = &Func{fn: in.Fn.(*ssa.Function), free: fv}
	case *ssa.TypeAssert:
		fr.env[in] = g.typeAssert(fr, in)
	case *ssa.Range:
		fr.env[in] = g.rangeIter(fr.get(in.X), in.X.Type())
	case *ssa.Next:
		fr.env[in] = fr.get(in.Iter).(iter).next(g)
	case *ssa.Defer:
		f := g.prepCall(fr, &in.Call)
		fr.defers = append(fr.defers, func() { f() })
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Go:
		f := g.prepCall(fr, &in.Call)
		g.spawn(f)
	case *ssa.Send:
		g.chanSend(fr.get(in.Chan).(*ChanObj), fr.get(in.X))
	case *ssa.Select:
		fr.env[in] = g.selectOp(fr, in)
	default:
		unsup("instruction %T", instr)
	}
}

func asPtr(v Value) Ptr {
	switch v := v.(type) {
	case Ptr:
		return v
	case nil:
		return Ptr{}
	case Poison:
		unsup("uninitialised (%s)", v.why)
	}
	unsup("pointer expected, have %T", v)
	return Ptr{}
}

// allocPtr allocates a zeroed t.
func (p *Path) allocPtr(t types.Type) Ptr {
	return Ptr{c: p.newCell(t, p.zero(t))}
}

func (g *G) toI64(v Value, t types.Type) *smt.Expr {
	e := v.(*smt.Expr)
	if e.W == 64 {
		return e
	}
	if signed(t) {
		return g.p.u.SExt(e, 64)
	}
	return g.p.u.ZExt(e, 64)
}

func (g *G) unop(fr *frame, in *ssa.UnOp) Value {
	p := g.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return p.load(asPtr(x), deref(in.X.Type()))
	case token.NOT:
		return p.u.Not(x.(*smt.Expr))
	case token.SUB:
		e := x.(*smt.Expr)
		if isFloat(in.X.Type()) {
			// flip the sign bit
			return p.u.BXor(e, p.u.BV(1<<uint(e.W-1), e.W))
		}
		return p.u.Neg(e)
	case token.XOR:
		return p.u.BNot(x.(*smt.Expr))
	case token.ARROW:
		v, ok := g.chanRecv(x.(*ChanObj), in.X.Type())
		if in.CommaOk {
			return Tuple{v, p.u.Bool(ok)}
		}
		return v
	}
	unsup("unary %s", in.Op)
	return nil
}

func (g *G) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	p, u := g.p, g.p.u
	switch op {
	case token.EQL:
		return p.equal(t, x, y)
	case token.NEQ:
		return u.Not(p.equal(t, x, y))
	}
	if xs, ok := x.(Str); ok {
		ys := y.(Str)
		switch op {
		case token.ADD:
			return p.concat(xs, ys)
		case token.LSS:
			return p.strLess(xs, ys)
		case token.GTR:
			return p.strLess(ys, xs)
		case token.LEQ:
			return u.Not(p.strLess(ys, xs))
		case token.GEQ:
			return u.Not(p.strLess(xs, ys))
		}
		unsup("string operator %s", op)
	}
	a, ok := x.(*smt.Expr)
	if !ok {
		unsup("operator %s on %T", op, x)
	}
	b, ok := y.(*smt.Expr)
	if !ok {
		unsup("operator %s on %T", op, y)
	}
	if isFloat(t) {
		switch op {
		case token.LSS:
			return u.FLt(p.norm(a), p.norm(b))
		case token.LEQ:
			return u.FLe(p.norm(a), p.norm(b))
		case token.GTR:
			return u.FLt(p.norm(b), p.norm(a))
		case token.GEQ:
			return u.FLe(p.norm(b), p.norm(a))
		}
		f, h := p.floatOf(a), p.floatOf(b)
		switch op {
		case token.ADD:
			return p.floatVal(f+h, a.W)
		case token.SUB:
			return p.floatVal(f-h, a.W)
		case token.MUL:
			return p.floatVal(f*h, a.W)
		case token.QUO:
			return p.floatVal(f/h, a.W)
		}
		unsup("float operator %s", op)
	}
	sg := signed(t)
	switch op {
	case token.ADD:
		return u.Add(a, b)
	case token.SUB:
		return u.Sub(a, b)
	case token.MUL:
		return u.Mul(p.norm(a), p.norm(b))
	case token.QUO, token.REM:
		if p.branch(u.Eq(b, u.BV(0, b.W))) {
			g.rtPanic("integer divide by zero")
		}
		a, b = p.norm(a), p.norm(b)
		if sg {
			half := uint64(1) << uint(a.W-1)
			if b.IsConst() && b.C < half && b.C > 0 {
				// decide the sign to stay in unsigned arithmetic
				if p.branch(u.Slt(a, u.BV(0, a.W))) {
					na := p.norm(u.Neg(a))
					if op == token.QUO {
						return u.Neg(u.UDiv(na, b))
					}
					return u.Neg(u.URem(na, b))
				}
				a = p.norm(a)
				if op == token.QUO {
					return p.udiv(a, b)
				}
				return p.urem(a, b)
			}
			if op == token.QUO {
				return u.SDiv(a, b)
			}
			return u.SRem(a, b)
		}
		if op == token.QUO {
			return p.udiv(a, b)
		}
		return p.urem(a, b)
	case token.AND:
		return u.BAnd(a, b)
	case token.OR:
		return u.BOr(a, b)
	case token.XOR:
		return u.BXor(a, b)
	case token.AND_NOT:
		return u.BAnd(a, u.BNot(b))
	case token.SHL, token.SHR:
		if signed(yt) {
			if p.branch(u.Slt(b, u.BV(0, b.W))) {
				g.rtPanic("negative shift amount")
			}
		}
		b = p.norm(b)
		// bring the amount to a's width, saturating
		if b.W > a.W {
			if b.IsConst() {
				b = u.BV(min(b.C, uint64(a.W)), a.W)
			} else {
				b = u.Ite(u.Ult(b, u.BV(uint64(a.W), b.W)), u.Extract(b, a.W-1, 0), u.BV(uint64(a.W), a.W))
			}
		} else if b.W < a.W {
			b = u.ZExt(b, a.W)
		}
		if op == token.SHL {
			return u.Shl(a, b)
		}
		if sg {
			return u.Ashr(a, b)
		}
		return u.Lshr(a, b)
	case token.LSS:
		return lt(u, sg, a, b)
	case token.GTR:
		return lt(u, sg, b, a)
	case token.LEQ:
		return u.Not(lt(u, sg, b, a))
	case token.GEQ:
		return u.Not(lt(u, sg, a, b))
	}
	unsup("operator %s", op)
	return nil
}

func lt(u *smt.U, sg bool, a, b *smt.Expr) *smt.Expr {
	if sg {
		return u.Slt(a, b)
	}
	return u.Ult(a, b)
}

// udiv and urem use the path's ranges to work in fewer bits.
func (p *Path) udiv(a, b *smt.Expr) *smt.Expr {
	if k := p.narrowBits(a, b); k > 0 {
		return p.u.ZExt(p.u.UDiv(p.u.Extract(a, k-1, 0), p.u.Extract(b, k-1, 0)), a.W)
	}
	return p.u.UDiv(a, b)
}

func (p *Path) urem(a, b *smt.Expr) *smt.Expr {
	if k := p.narrowBits(a, b); k > 0 {
		return p.u.ZExt(p.u.URem(p.u.Extract(a, k-1, 0), p.u.Extract(b, k-1, 0)), a.W)
	}
	return p.u.URem(a, b)
}

func (p *Path) narrowBits(a, b *smt.Expr) int {
	if !b.IsConst() || b.C == 0 || a.IsConst() || a.W > 64 {
		return 0
	}
	_, h := p.rng(a)
	_, sh := a.Lo(), a.Hi()
	if h == sh {
		return 0 // nothing beyond what the simplifier knows
	}
	k := max(big.NewInt(0).SetUint64(h).BitLen(), big.NewInt(0).SetUint64(b.C).BitLen())
	if k+4 > a.W || k == 0 {
		return 0
	}
	return k
}

// equal builds the truth value of x == y.
func (p *Path) equal(t types.Type, x, y Value) *smt.Expr {
	u := p.u
	switch a := x.(type) {
	case *smt.Expr:
		b, ok := y.(*smt.Expr)
		if !ok {
			unsup("compare %T with %T", x, y)
		}
		if isFloat(t) {
			return u.FEq(p.norm(a), p.norm(b))
		}
		return u.Eq(a, b)
	case Str:
		return p.strEq(a, y.(Str))
	case Ptr:
		b := asPtr(y)
		if a.bm != nil && b.bm != nil {
			if a.bm != b.bm {
				return u.False
			}
			return u.Eq(a.off, b.off)
		}
		return u.Bool(a.c == b.c && a.bm == b.bm)
	case Bytes:
		b := y.(Bytes)
		return u.Bool(a.bm == nil && b.bm == nil)
	case Slice:
		b := y.(Slice)
		return u.Bool(!a.ok && !b.ok)
	case *Func:
		b, _ := y.(*Func)
		return u.Bool(a == nil && b == nil)
	case *MapObj:
		b, _ := y.(*MapObj)
		return u.Bool(a == b)
	case *ChanObj:
		b, _ := y.(*ChanObj)
		return u.Bool(a == b)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsup("compare interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return u.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return u.False
		}
		if !types.Comparable(a.t) {
			p.g.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return p.equal(a.t, a.v, b.v)
	case StructV:
		b := y.(StructV)
		st := t.Underlying().(*types.Struct)
		r := u.True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = u.And(r, p.equal(st.Field(i).Type(), a[i], b[i]))
		}
		return r
	case ArrayV:
		b := y.(ArrayV)
		et := t.Underlying().(*types.Array).Elem()
		r := u.True
		for i := range a {
			r = u.And(r, p.equal(et, a[i], b[i]))
		}
		return r
	case ByteArr:
		b := y.(ByteArr)
		r := u.True
		for i := 0; i < a.n; i++ {
			r = u.And(r, u.Eq(p.readByte(a.node, p.c64(int64(i))), p.readByte(b.node, p.c64(int64(i)))))
		}
		return r
	case RType:
		b, ok := y.(RType)
		return u.Bool(ok && types.Identical(a.t, b.t))
	}
	unsup("comparison of %T", x)
	return nil
}

func (p *Path) strEq(a, b Str) *smt.Expr {
	u := p.u
	if a.node == b.node && a.off == b.off && a.n == b.n {
		return u.True
	}
	an, bn := p.resolve(a.n), p.resolve(b.n)
	le := u.Eq(an, bn)
	if v, k := p.decide(le); k && !v {
		return u.False
	}
	if !an.IsConst() && !bn.IsConst() {
		if !p.branch(le) {
			return u.False
		}
		if a.node == b.node && a.off == b.off {
			return u.True
		}
		an = p.norm(an)
		if !an.IsConst() {
			_, h := p.rng(an)
			if h > 64 {
				unsup("comparison of strings of symbolic length")
			}
			bn = p.u.BV(p.concretize(an), 64)
		}
	}
	n := an
	if !n.IsConst() {
		n = bn
	}
	// content equality for n bytes; guarded by the length
	r := le
	if n.C > 4096 {
		unsup("comparison of strings of %d bytes", n.C)
	}
	if !le.IsTrue() {
		if !p.branch(le) {
			return u.False
		}
		r = u.True
	}
	for i := uint64(0); i < n.C; i++ {
		k := u.BV(i, 64)
		c := u.Eq(p.readByte(a.node, u.Add(a.off, k)), p.readByte(b.node, u.Add(b.off, k)))
		if v, kn := p.decide(c); kn && !v {
			return u.False
		}
		r = u.And(r, c)
	}
	return r
}

func (p *Path) strLess(a, b Str) *smt.Expr {
	u := p.u
	an, bn := p.concretize(p.resolve(a.n)), p.concretize(p.resolve(b.n))
	m := min(an, bn)
	r := u.Bool(an < bn)
	for i := int64(m) - 1; i >= 0; i-- {
		x := p.readByte(a.node, u.Add(a.off, p.c64(i)))
		y := p.readByte(b.node, u.Add(b.off, p.c64(i)))
		r = u.Ite(u.Eq(x, y), r, u.Ult(x, y))
	}
	return r
}

func (p *Path) concat(a, b Str) Str {
	u := p.u
	if as, ok := p.conc(a); ok {
		if as == "" {
			return b
		}
		if bs, ok := p.conc(b); ok {
			return p.str(as + bs)
		}
	}
	an, bn := p.resolve(a.n), p.resolve(b.n)
	z := p.c64(0)
	n := p.rangeCopy(zeroNode, z, an, a.node, a.off)
	n = p.rangeCopy(n, an, bn, b.node, b.off)
	return Str{n, z, u.Add(an, bn)}
}

func (g *G) convert(to, from types.Type, x Value) Value {
	p, u := g.p, g.p.u
	tu, fu := to.Underlying(), from.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		unsup("conversion to type parameter")
	}
	switch tt := tu.(type) {
	case *types.Basic:
		if tt.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case Str:
				return v
			case Bytes:
				if v.bm == nil {
					return p.str("")
				}
				return Str{v.bm.node, v.off, v.n}
			case Slice: // []rune
				var rs []rune
				for _, c := range v.cells {
					e := p.norm(c.v.(*smt.Expr))
					if !e.IsConst() {
						unsup("string of symbolic runes")
					}
					rs = append(rs, rune(e.SVal()))
				}
				return p.str(string(rs))
			case *smt.Expr:
				e := p.norm(v)
				if !e.IsConst() {
					unsup("string of symbolic rune")
				}
				return p.str(string(rune(e.SVal())))
			}
		}
		if tt.Kind() == types.UnsafePointer {
			return x
		}
		if e, ok := x.(*smt.Expr); ok {
			tw := width(to)
			if tw < 0 {
				unsup("conversion to %s", to)
			}
			ff, tf := isFloat(from), isFloat(to)
			switch {
			case ff && tf:
				if e.W == tw {
					return e
				}
				if tw == 32 {
					return u.FTo32(p.norm(e))
				}
				return u.FTo64(p.norm(e))
			case ff:
				e = p.norm(e)
				if e.W == 32 {
					e = u.FTo64(e)
				}
				r := u.FToUint(e)
				if signed(to) || tw < 64 {
					r = u.FToInt(e)
				}
				if tw < 64 {
					r = u.Extract(r, tw-1, 0)
				}
				return r
			case tf:
				e = p.norm(e)
				if signed(from) {
					return u.FFromInt(u.SExt(e, 64), true, tw)
				}
				return u.FFromInt(u.ZExt(e, 64), false, tw)
			}
			if tw <= e.W {
				if tw == e.W {
					return e
				}
				return u.Extract(e, tw-1, 0)
			}
			if signed(from) {
				return u.SExt(e, tw)
			}
			return u.ZExt(e, tw)
		}
		if pt, ok := x.(Ptr); ok { // uintptr(unsafe.Pointer)
			_ = pt
			unsup("pointer to integer conversion")
		}
	case *types.Slice:
		if s, ok := x.(Str); ok {
			if isByte(tt.Elem()) {
				n := p.norm(s.n)
				z := p.c64(0)
				node := p.rangeCopy(zeroNode, z, n, s.node, s.off)
				if s.node.kind == nConst && s.off.IsConst() && s.off.C == 0 {
					node = s.node
				}
				return Bytes{p.newMem(node, n), z, n, n}
			}
			cs, ok := p.conc(s)
			if !ok {
				unsup("[]rune of symbolic string")
			}
			var cells []*Cell
			for _, r := range cs {
				cells = append(cells, p.newCell(tt.Elem(), u.BV(uint64(r), 32)))
			}
			return Slice{cells, true}
		}
		return x
	case *types.Pointer:
		return x
	}
	_ = fu
	return x
}

func (g *G) sliceToArrayPtr(x Value, t types.Type) Value {
	p := g.p
	at := deref(t).Underlying().(*types.Array)
	switch s := x.(type) {
	case Bytes:
		if p.branch(p.u.Ult(s.n, p.c64(at.Len()))) {
			g.rtPanic("cannot convert slice to array or pointer to array: length too short")
		}
		if s.bm == nil {
			return Ptr{}
		}
		return Ptr{bm: s.bm, off: s.off}
	case Slice:
		if int64(len(s.cells)) < at.Len() {
			g.rtPanic("cannot convert slice to array or pointer to array: length too short")
		}
		return Ptr{c: &Cell{sub: s.cells[:at.Len()]}}
	}
	unsup("slice to array pointer")
	return nil
}

func (g *G) boundsCheck(i, n *smt.Expr) {
	if !g.p.branch(g.p.u.Ult(i, n)) {
		g.rtPanic("index out of range")
	}
}

func (g *G) indexAddr(x Value, xt types.Type, i *smt.Expr, it types.Type) Value {
	p := g.p
	i = p.resolve(g.toI64(i, it))
	switch s := x.(type) {
	case Bytes:
		g.boundsCheck(i, s.n)
		return Ptr{bm: s.bm, off: p.norm(p.u.Add(s.off, i))}
	case Slice:
		g.boundsCheck(i, p.c64(int64(len(s.cells))))
		return Ptr{c: s.cells[p.concretize(i)]}
	case Ptr:
		if s.isNil() {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		at := deref(xt).Underlying().(*types.Array)
		g.boundsCheck(i, p.c64(at.Len()))
		if s.bm != nil {
			return Ptr{bm: s.bm, off: p.norm(p.u.Add(s.off, i))}
		}
		if s.c.bm != nil {
			return Ptr{bm: s.c.bm, off: i}
		}
		if s.c.sub == nil {
			unsup("element address")
		}
		return Ptr{c: s.c.sub[p.concretize(i)]}
	}
	unsup("index address of %T", x)
	return nil
}

func (g *G) index(x Value, i *smt.Expr, it types.Type) Value {
	p := g.p
	i = p.resolve(g.toI64(i, it))
	switch s := x.(type) {
	case Str:
		g.boundsCheck(i, s.n)
		return p.readByte(s.node, p.u.Add(s.off, i))
	case ByteArr:
		g.boundsCheck(i, p.c64(int64(s.n)))
		return p.readByte(s.node, i)
	case ArrayV:
		g.boundsCheck(i, p.c64(int64(len(s))))
		return s[p.concretize(i)]
	}
	unsup("index of %T", x)
	return nil
}

func (g *G) slice(fr *frame, in *ssa.Slice) Value {
	p, u := g.p, g.p.u
	x := fr.get(in.X)
	opt := func(v ssa.Value) *smt.Expr {
		if v == nil {
			return nil
		}
		return p.resolve(g.toI64(fr.get(v), v.Type()))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = p.c64(0)
	}
	chk := func(a, b *smt.Expr) { // a <= b
		if !p.branch(u.Ule(a, b)) {
			g.rtPanic("slice bounds out of range")
		}
	}
	switch s := x.(type) {
	case Str:
		n := p.norm(s.n)
		if hi == nil {
			hi = n
		}
		chk(hi, n)
		chk(lo, hi)
		return Str{s.node, p.norm(u.Add(s.off, lo)), p.norm(u.Sub(hi, lo))}
	case Bytes:
		if hi == nil {
			hi = s.n
		}
		c := s.c
		if mx != nil {
			chk(mx, c)
			c = mx
		}
		chk(hi, c)
		chk(lo, hi)
		return Bytes{s.bm, p.norm(u.Add(s.off, lo)), p.norm(u.Sub(hi, lo)), p.norm(u.Sub(c, lo))}
	case Slice:
		return g.sliceCells(s.cells, s.ok, lo, hi, mx)
	case Ptr:
		if s.isNil() {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		at := deref(in.X.Type()).Underlying().(*types.Array)
		if s.bm != nil || s.c.bm != nil {
			bm, off := s.bm, s.off
			if bm == nil {
				bm, off = s.c.bm, p.c64(0)
			}
			c := p.c64(at.Len())
			if hi == nil {
				hi = c
			}
			if mx != nil {
				chk(mx, c)
				c = mx
			}
			chk(hi, c)
			chk(lo, hi)
			return Bytes{bm, p.norm(u.Add(off, lo)), p.norm(u.Sub(hi, lo)), p.norm(u.Sub(c, lo))}
		}
		return g.sliceCells(s.c.sub, true, lo, hi, mx)
	}
	unsup("slice of %T", x)
	return nil
}

func (g *G) sliceCells(cells []*Cell, ok bool, lo, hi, mx *smt.Expr) Value {
	p := g.p
	l := int64(p.concretize(lo))
	h := int64(len(cells))
	if hi != nil {
		h = int64(p.concretize(hi))
	}
	m := int64(cap(cells))
	if mx != nil {
		m = int64(p.concretize(mx))
	}
	if m < 0 || m > int64(cap(cells)) || h < 0 || h > m || l < 0 || l > h {
		g.rtPanic("slice bounds out of range")
	}
	return Slice{cells[l:h:m], ok}
}

func (g *G) makeSlice(t types.Type, n, c *smt.Expr) Value {
	p, u := g.p, g.p.u
	et := t.Underlying().(*types.Slice).Elem()
	n, c = p.resolve(n), p.resolve(c)
	lim := p.c64(1 << 46)
	if !p.branch(u.Ult(n, lim)) {
		g.rtPanic("makeslice: len out of range")
	}
	if !p.branch(u.Ult(c, lim)) || !p.branch(u.Ule(n, c)) {
		g.rtPanic("makeslice: cap out of range")
	}
	if isByte(et) {
		return Bytes{p.newMem(zeroNode, c), p.c64(0), n, c}
	}
	nn, cc := int(p.concretize(n)), int(p.concretize(c))
	if cc > 1<<16 {
		unsup("slice of %d elements", cc)
	}
	cells := make([]*Cell, cc)
	for i := range cells {
		cells[i] = p.newCell(et, p.zero(et))
	}
	return Slice{cells[:nn], true}
}

func (g *G) typeAssert(fr *frame, in *ssa.TypeAssert) Value {
	p := g.p
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		unsup("type assertion on %T", fr.get(in.X))
	}
	var r Value
	good := false
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if p.w.implements(x.t, it) {
				good, r = true, x
			}
		} else if types.Identical(x.t, in.AssertedType) {
			good, r = true, x.v
		}
	}
	if !good {
		if in.CommaOk {
			return Tuple{p.zero(in.AssertedType), p.u.False}
		}
		xs := "nil"
		if x.t != nil {
			xs = x.t.String()
		}
		panic(&targetPanic{rt: true, msg: "interface conversion: " + xs + " is not " + in.AssertedType.String(), where: fr.fn.String()})
	}
	if in.CommaOk {
		return Tuple{r, p.u.True}
	}
	return r
}

// call evaluates and performs a call.
func (g *G) call(fr *frame, c *ssa.CallCommon) Value {
	return g.prepCall(fr, c)()
}

func (g *G) prepCall(fr *frame, c *ssa.CallCommon) func() Value {
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		args := make([]Value, 0, 1+len(c.Args))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return func() Value { return g.p.g.invoke(recv, c.Method, args) }
	}
	fv := fr.get(c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.get(a)
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		return func() Value { return g.p.g.builtin(fr, b, c, args) }
	}
	f, _ := fv.(*Func)
	return func() Value { return g.p.g.callFunc(f, args) }
}

func (g *G) callFunc(f *Func, args []Value) Value {
	if f == nil {
		g.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if f.nat != nil {
		return f.nat(g, args)
	}
	return g.callFn(f.fn, args, f.free)
}

func (g *G) invoke(recv Value, m *types.Func, args []Value) Value {
	i, ok := recv.(Iface)
	if !ok {
		if rt, ok := recv.(RType); ok {
			return g.rtypeMethod(rt, m.Name(), args)
		}
		unsup("invoke on %T", recv)
	}
	if i.t == nil {
		g.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
	}
	if rt, ok := i.v.(RType); ok {
		return g.rtypeMethod(rt, m.Name(), args)
	}
	fn := g.p.w.lookupMethod(i.t, m)
	if fn == nil {
		unsup("no method %s on %s", m.Name(), i.t)
	}
	return g.callFn(fn, append([]Value{i.v}, args...), nil)
}

// callMethod calls a named method on an interface value, if it has it.
func (g *G) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	ms := g.p.w.ex.prog.prog.MethodSets.MethodSet(i.t)
	for j := 0; j < ms.Len(); j++ {
		if f := ms.At(j).Obj().(*types.Func); f.Name() == name {
			fn := g.p.w.ex.prog.methodValue(ms.At(j))
			if fn == nil {
				return nil, false
			}
			return g.callFn(fn, append([]Value{i.v}, args...), nil), true
		}
	}
	return nil, false
}
