package sym

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

func (g *G) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	p, u := g.p, g.p.u
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return x.n
		case Bytes:
			return x.n
		case Slice:
			return p.c64(int64(len(x.cells)))
		case *MapObj:
			if x == nil {
				return p.c64(0)
			}
			return p.c64(int64(len(x.keys)))
		case *ChanObj:
			if x == nil {
				return p.c64(0)
			}
			g.yield("len(chan)")
			return p.c64(int64(len(x.buf)))
		case ByteArr:
			return p.c64(int64(x.n))
		case ArrayV:
			return p.c64(int64(len(x)))
		case Ptr:
			return p.c64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Bytes:
			return x.c
		case Slice:
			return p.c64(int64(cap(x.cells)))
		case *ChanObj:
			if x == nil {
				return p.c64(0)
			}
			return p.c64(int64(x.capa))
		case ByteArr:
			return p.c64(int64(x.n))
		case ArrayV:
			return p.c64(int64(len(x)))
		case Ptr:
			return p.c64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return g.appendOp(args[0], args[1], c.Args[0].Type())
	case "copy":
		return g.copyOp(args[0], args[1])
	case "panic":
		panic(&targetPanic{v: args[0], msg: p.panicString(args[0]), where: fr.fn.String()})
	case "recover":
		return g.recoverOp(fr)
	case "print", "println":
		return nil
	case "close":
		g.chanClose(args[0].(*ChanObj))
		return nil
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			p.mapDelete(m, args[1])
		}
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			if isFloat(t) || isString(t) {
				unsup("min/max of %s", t)
			}
			x, y := r.(*smt.Expr), a.(*smt.Expr)
			c := lt(u, signed(t), x, y)
			if b.Name() == "max" {
				c = lt(u, signed(t), y, x)
			}
			r = u.Ite(p.norm(c), x, y)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for len(x.keys) > 0 {
					p.mapDelete(x, x.keys[0])
				}
			}
		case Bytes:
			if x.bm != nil {
				p.setNode(x.bm, p.rangeCopy(x.bm.node, x.off, p.resolve(x.n), zeroNode, p.c64(0)))
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for _, cl := range x.cells {
				p.storeCell(cl, et, p.zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if asPtr(args[0]).isNil() {
			g.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		pt := asPtr(args[0])
		n := g.toI64(args[1], c.Args[1].Type())
		if pt.isNil() {
			return p.str("")
		}
		if pt.bm == nil {
			unsup("unsafe.String of non-byte pointer")
		}
		return Str{pt.bm.node, pt.off, n}
	case "StringData":
		s := args[0].(Str)
		return Ptr{bm: p.newMem(s.node, s.n), off: s.off}
	case "SliceData":
		switch x := args[0].(type) {
		case Bytes:
			if x.bm == nil {
				return Ptr{}
			}
			return Ptr{bm: x.bm, off: x.off}
		case Slice:
			if cap(x.cells) == 0 {
				if !x.ok {
					return Ptr{}
				}
				return Ptr{c: &Cell{}}
			}
			return Ptr{c: x.cells[:1][0]}
		}
	case "Slice": // unsafe.Slice
		pt := asPtr(args[0])
		n := g.toI64(args[1], c.Args[1].Type())
		if pt.bm != nil {
			return Bytes{pt.bm, pt.off, n, n}
		}
		if pt.isNil() {
			return p.zero(c.Signature().Results().At(0).Type())
		}
	}
	unsup("builtin %s on %T", b.Name(), args)
	return nil
}

func (g *G) recoverOp(fr *frame) Value {
	// recover must be called directly by a deferred function: fr is that
	// function's frame, its caller the panicking frame
	if c := fr.caller; c != nil && c.panicking != nil {
		tp := c.panicking
		c.panicking = nil
		if tp.rt {
			return Iface{g.p.w.ex.rtErrType(), g.p.str(tp.msg)}
		}
		if i, ok := tp.v.(Iface); ok {
			return i
		}
		return Iface{types.Typ[types.String], g.p.str(tp.msg)}
	}
	return Iface{}
}

// growth of byte slices by append: the new capacity is an environment choice.
const (
	growRoomy = iota // plenty of spare room
	growTight        // precisely what is needed
)

func (g *G) appendOp(a, b Value, t types.Type) Value {
	p, u := g.p, g.p.u
	switch x := a.(type) {
	case Bytes:
		var srcNode *Node
		var soff, n *smt.Expr
		switch y := b.(type) {
		case Bytes:
			if y.bm == nil {
				return a
			}
			srcNode, soff, n = y.bm.node, y.off, y.n
		case Str:
			srcNode, soff, n = y.node, y.off, y.n
		default:
			unsup("append %T to bytes", b)
		}
		n = p.resolve(n)
		if n.IsConst() && n.C == 0 {
			return a
		}
		xn := p.resolve(x.n)
		nn := p.norm(u.Add(xn, n))
		if x.bm != nil && p.branch(u.Ule(nn, x.c)) {
			p.setNode(x.bm, p.rangeCopy(x.bm.node, u.Add(x.off, xn), n, srcNode, soff))
			return Bytes{x.bm, x.off, nn, x.c}
		}
		nn = p.norm(nn)
		c := nn
		if p.grow == growRoomy {
			c = u.Add(nn, p.c64(1<<40))
		}
		node := zeroNode
		z := p.c64(0)
		if x.bm != nil {
			node = p.rangeCopy(node, z, xn, x.bm.node, x.off)
			if o := p.norm(x.off); o.IsConst() && o.C == 0 && x.bm.node.kind == nConst && xn.IsConst() && xn.C == uint64(len(x.bm.node.data)) {
				node = x.bm.node
			}
		}
		node = p.rangeCopy(node, xn, n, srcNode, soff)
		return Bytes{p.newMem(node, c), z, nn, c}
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		y, ok := b.(Slice)
		if !ok {
			unsup("append %T to slice", b)
		}
		n := len(y.cells)
		if n == 0 {
			return a
		}
		vals := make([]Value, n)
		for i, c := range y.cells {
			vals[i] = p.loadCell(c, et)
		}
		old := len(x.cells)
		if old+n <= cap(x.cells) {
			r := x.cells[:old+n]
			for i, v := range vals {
				p.storeCell(r[old+i], et, v)
			}
			return Slice{r, true}
		}
		nc := max(2*cap(x.cells), old+n)
		r := make([]*Cell, nc)
		for i := range r {
			switch {
			case i < old:
				r[i] = p.newCell(et, p.loadCell(x.cells[i], et))
			case i < old+n:
				r[i] = p.newCell(et, vals[i-old])
			default:
				r[i] = p.newCell(et, p.zero(et))
			}
		}
		return Slice{r[:old+n], true}
	}
	unsup("append to %T", a)
	return nil
}

func (g *G) copyOp(d, s Value) Value {
	p, u := g.p, g.p.u
	switch x := d.(type) {
	case Bytes:
		var srcNode *Node
		var soff, n *smt.Expr
		switch y := s.(type) {
		case Bytes:
			if y.bm == nil {
				return p.c64(0)
			}
			srcNode, soff, n = y.bm.node, y.off, y.n
		case Str:
			srcNode, soff, n = y.node, y.off, y.n
		default:
			unsup("copy from %T", s)
		}
		n = p.resolve(n)
		xn := p.resolve(x.n)
		if p.branch(u.Ult(xn, n)) {
			n = xn
		}
		n = p.norm(n)
		if x.bm == nil {
			return p.c64(0)
		}
		p.setNode(x.bm, p.rangeCopy(x.bm.node, x.off, n, srcNode, soff))
		return n
	case Slice:
		y := s.(Slice)
		n := min(len(x.cells), len(y.cells))
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = cloneCell(p, y.cells[i])
		}
		for i := 0; i < n; i++ {
			restoreCell(p, x.cells[i], vals[i].(*Cell))
		}
		return p.c64(int64(n))
	}
	unsup("copy to %T", d)
	return nil
}

// cloneCell and restoreCell copy a location without knowing its type.
func cloneCell(p *Path, c *Cell) *Cell {
	n := &Cell{v: c.v, old: c.old}
	if c.bm != nil {
		n.bm = p.newMem(c.bm.node, c.bm.size)
	}
	if c.sub != nil {
		n.sub = make([]*Cell, len(c.sub))
		for i := range c.sub {
			n.sub[i] = cloneCell(p, c.sub[i])
		}
	}
	return n
}

func restoreCell(p *Path, d, s *Cell) {
	if d.bm != nil {
		p.setNode(d.bm, s.bm.node)
		return
	}
	if d.sub != nil {
		for i := range d.sub {
			restoreCell(p, d.sub[i], s.sub[i])
		}
		return
	}
	p.storeCell(d, types.Typ[types.Int], s.v)
}

// ---- maps ----

func (p *Path) ckey(k Value) (string, bool) {
	switch k := k.(type) {
	case *smt.Expr:
		k = p.norm(k)
		if k.IsConst() {
			return fmt.Sprintf("i%d", k.C), true
		}
	case Str:
		if s, ok := p.conc(k); ok {
			return "s" + s, true
		}
	case Ptr:
		if k.c != nil {
			return fmt.Sprintf("p%p", k.c), true
		}
		if k.isNil() {
			return "pnil", true
		}
	case Iface:
		if k.t == nil {
			return "nil", true
		}
		if s, ok := p.ckey(k.v); ok {
			return "I" + k.t.String() + ":" + s, true
		}
	case StructV:
		r := "S"
		for _, f := range k {
			s, ok := p.ckey(f)
			if !ok {
				return "", false
			}
			r += s + "|"
		}
		return r, true
	case RType:
		return "T" + k.t.String(), true
	}
	return "", false
}

func (p *Path) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if s, ok := p.ckey(k); ok {
		if i, ok := m.idx[s]; ok {
			return i
		}
		if len(m.idx) == len(m.keys) {
			return -1 // all keys constant
		}
	}
	for i, mk := range m.keys {
		if p.branch(p.equal(m.kt, mk, k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapSave(m *MapObj) {
	if m.old && p.initing == 0 {
		keys := append([]Value{}, m.keys...)
		vals := append([]*Cell{}, m.vals...)
		idx := map[string]int{}
		for k, v := range m.idx {
			idx[k] = v
		}
		p.undo = append(p.undo, func() { m.keys, m.vals, m.idx = keys, vals, idx })
	}
}

func (p *Path) mapSet(m *MapObj, k, v Value, t *types.Map) {
	p.mapSave(m)
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = p.newCell(t.Elem(), v)
		return
	}
	if s, ok := p.ckey(k); ok {
		m.idx[s] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, p.newCell(t.Elem(), v))
}

func (p *Path) mapDelete(m *MapObj, k Value) {
	p.mapSave(m)
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]*Cell{}, m.vals[:i]...), m.vals[i+1:]...)
	m.idx = map[string]int{}
	for j, mk := range m.keys {
		if s, ok := p.ckey(mk); ok {
			m.idx[s] = j
		}
	}
}

func (g *G) lookup(fr *frame, in *ssa.Lookup) Value {
	p := g.p
	x := fr.get(in.X)
	if s, ok := x.(Str); ok {
		return g.index(s, fr.get(in.Index).(*smt.Expr), in.Index.Type())
	}
	m, ok := x.(*MapObj)
	if !ok {
		unsup("lookup in %T", x)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	i := p.mapFind(m, fr.get(in.Index))
	var v Value
	if i >= 0 {
		v = p.loadCell(m.vals[i], et)
	} else {
		v = p.zero(et)
	}
	if in.CommaOk {
		return Tuple{v, p.u.Bool(i >= 0)}
	}
	return v
}

type iter interface{ next(g *G) Value }

type mapIter struct {
	m    *MapObj
	todo []int
	t    *types.Map
	n    int
}

func (it *mapIter) next(g *G) Value {
	p := g.p
	if len(it.todo) == 0 {
		return Tuple{p.u.False, p.zero(it.t.Key()), p.zero(it.t.Elem())}
	}
	// Go's order is unspecified: any remaining entry may come next
	// (of the last four; the order of a map of more than eight entries is fixed)
	k := 0
	if len(it.todo) > 1 && len(it.todo) <= 4 && len(it.m.keys) <= 8 && !it.m.old {
		p.fresh++
		k = p.choose(fmt.Sprintf("maporder#%d", p.fresh), len(it.todo))
	}
	i := it.todo[k]
	it.todo = append(append([]int{}, it.todo[:k]...), it.todo[k+1:]...)
	return Tuple{p.u.True, it.m.keys[i], p.loadCell(it.m.vals[i], it.t.Elem())}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next(g *G) Value {
	p := g.p
	if it.i >= len(it.s) {
		return Tuple{p.u.False, p.c64(0), p.u.BV(0, 32)}
	}
	r, n := utf8.DecodeRuneInString(it.s[it.i:])
	i := it.i
	it.i += n
	return Tuple{p.u.True, p.c64(int64(i)), p.u.BV(uint64(r), 32)}
}

func (g *G) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case *MapObj:
		mt := t.Underlying().(*types.Map)
		it := &mapIter{m: x, t: mt}
		if x != nil {
			for i := range x.keys {
				it.todo = append(it.todo, i)
			}
			if len(x.keys) > 1 {
				g.p.note("map iteration in any order")
			}
		}
		return it
	case Str:
		if s, ok := g.p.conc(x); ok {
			return &strIter{s: s}
		}
		// concretise the length, then treat bytes as ASCII when provable
		return &symStrIter{s: x}
	}
	unsup("range over %T", x)
	return nil
}

// symStrIter ranges over a symbolic string; non-ASCII bytes are case-split away.
type symStrIter struct {
	s Str
	i int64
}

func (it *symStrIter) next(g *G) Value {
	p := g.p
	if !p.branch(p.u.Ult(p.c64(it.i), it.s.n)) {
		return Tuple{p.u.False, p.c64(0), p.u.BV(0, 32)}
	}
	b := p.readByte(it.s.node, p.u.Add(it.s.off, p.c64(it.i)))
	if !p.branch(p.u.Ult(b, p.u.BV(0x80, 8))) {
		unsup("range over symbolic non-ASCII string")
	}
	i := it.i
	it.i++
	return Tuple{p.u.True, p.c64(i), p.u.ZExt(b, 32)}
}
