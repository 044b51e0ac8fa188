// Package sym executes Go functions, given as go/ssa, symbolically.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Value is one of
//
//	*smt.Expr          bool, integers, floats (as bit patterns), uintptr
//	Str                string
//	Ptr                pointer, unsafe.Pointer
//	Bytes              []byte (any slice with 8-bit unsigned elements)
//	Slice              other slices
//	StructV, ArrayV, ByteArr
//	Iface, *Func, *MapObj, *ChanObj, Tuple
//	RVal, RType        reflect.Value, reflect.Type
//	Poison             value of an initialisation that could not be run
type Value interface{}

type Tuple []Value

type StructV []Value

type ArrayV []Value

// ByteArr is a [n]byte value.
type ByteArr struct {
	node *Node
	n    int
}

type Poison struct{ why string }

// Str is an immutable view of n bytes of node starting at off.
type Str struct {
	node *Node
	off  *smt.Expr
	n    *smt.Expr
}

// Cell is a memory location: a scalar, or an aggregate of sub-locations.
type Cell struct {
	v   Value
	sub []*Cell
	bm  *ByteMem
	old bool // created during package initialisation: writes are undone after a path
}

// Ptr points to a cell or to a byte of a byte memory. The zero Ptr is nil.
type Ptr struct {
	c   *Cell
	bm  *ByteMem
	off *smt.Expr
}

func (p Ptr) isNil() bool { return p.c == nil && p.bm == nil }

// Bytes is a byte slice; bm == nil means nil.
type Bytes struct {
	bm  *ByteMem
	off *smt.Expr
	n   *smt.Expr
	c   *smt.Expr
}

// Slice is a slice of non-byte elements; cells has Go's len and cap.
type Slice struct {
	cells []*Cell
	ok    bool // non-nil
}

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn   *ssa.Function
	free []Value
	nat  func(g *G, args []Value) Value
	name string
}

type MapObj struct {
	keys []Value
	vals []*Cell
	idx  map[string]int // constant keys
	old  bool
	kt   types.Type
}

type ChanObj struct {
	id     int
	buf    []Value
	capa   int
	closed bool
	et     types.Type
	recvw  []*chanWait
	sendw  []*chanWait
}

// RVal is a reflect.Value, RType a reflect.Type implementation.
type RVal struct {
	t types.Type
	v Value
	p Ptr // address if addressable
}

type RType struct{ t types.Type }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func width(t types.Type) int {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
			return 64
		}
	}
	return -1
}

func signed(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Path) c64(v int64) *smt.Expr { return p.u.BV(uint64(v), 64) }

// zero returns the zero value of t.
func (p *Path) zero(t types.Type) Value {
	if isReflectValue(t) {
		return RVal{}
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		if tt.Info()&types.IsString != 0 {
			return p.str("")
		}
		if tt.Kind() == types.UnsafePointer || tt.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if w := width(t); w >= 0 {
			return p.u.BV(0, w)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		if isByte(tt.Elem()) {
			z := p.c64(0)
			return Bytes{nil, z, z, z}
		}
		return Slice{}
	case *types.Struct:
		s := make(StructV, tt.NumFields())
		for i := range s {
			s[i] = p.zero(tt.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(tt.Elem()) {
			return ByteArr{zeroNode, int(tt.Len())}
		}
		if tt.Len() > 1<<20 {
			unsup("array of %d elements", tt.Len())
		}
		a := make(ArrayV, tt.Len())
		for i := range a {
			a[i] = p.zero(tt.Elem())
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Tuple:
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = p.zero(tt.At(i).Type())
		}
		return r
	}
	unsup("zero value of %s", t)
	return nil
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// newCell allocates memory for a t holding v.
func (p *Path) newCell(t types.Type, v Value) *Cell {
	c := &Cell{old: p.initing > 0}
	if isReflectValue(t) {
		c.v = v
		return c
	}
	switch tt := t.Underlying().(type) {
	case *types.Struct:
		c.sub = make([]*Cell, tt.NumFields())
		sv, ok := v.(StructV)
		if !ok {
			if po, ok := v.(Poison); ok {
				c.v = po
				return c
			}
			unsup("struct cell from %T", v)
		}
		for i := range c.sub {
			c.sub[i] = p.newCell(tt.Field(i).Type(), sv[i])
		}
	case *types.Array:
		if isByte(tt.Elem()) {
			ba, ok := v.(ByteArr)
			if !ok {
				unsup("byte array cell from %T", v)
			}
			c.bm = p.newMem(ba.node, p.c64(tt.Len()))
			break
		}
		av, ok := v.(ArrayV)
		if !ok {
			unsup("array cell from %T", v)
		}
		c.sub = make([]*Cell, len(av))
		for i := range c.sub {
			c.sub[i] = p.newCell(tt.Elem(), av[i])
		}
	default:
		c.v = v
	}
	return c
}

func (p *Path) loadCell(c *Cell, t types.Type) Value {
	if c.bm != nil {
		if at, ok := t.Underlying().(*types.Array); ok {
			return ByteArr{c.bm.node, int(at.Len())}
		}
		unsup("load of %s from byte array", t)
	}
	if c.sub != nil {
		switch tt := t.Underlying().(type) {
		case *types.Struct:
			if tt.NumFields() != len(c.sub) {
				unsup("load through converted pointer to %s", t)
			}
			s := make(StructV, len(c.sub))
			for i := range s {
				s[i] = p.loadCell(c.sub[i], tt.Field(i).Type())
			}
			return s
		case *types.Array:
			if int(tt.Len()) != len(c.sub) {
				unsup("load through converted pointer to %s", t)
			}
			a := make(ArrayV, len(c.sub))
			for i := range a {
				a[i] = p.loadCell(c.sub[i], tt.Elem())
			}
			return a
		}
		unsup("load of %s from aggregate", t)
	}
	if po, ok := c.v.(Poison); ok {
		unsup("uninitialised global (%s)", po.why)
	}
	if c.v == nil {
		return p.zero(t) // zero-sized aggregates
	}
	return c.v
}

func (p *Path) storeCell(c *Cell, t types.Type, v Value) {
	if c.bm != nil {
		ba, ok := v.(ByteArr)
		if !ok {
			unsup("store of %T to byte array", v)
		}
		p.setNode(c.bm, ba.node)
		return
	}
	if c.sub != nil {
		switch tt := t.Underlying().(type) {
		case *types.Struct:
			sv, ok := v.(StructV)
			if !ok || len(sv) != len(c.sub) {
				unsup("store of %T to struct", v)
			}
			for i := range c.sub {
				p.storeCell(c.sub[i], tt.Field(i).Type(), sv[i])
			}
			return
		case *types.Array:
			av, ok := v.(ArrayV)
			if !ok || len(av) != len(c.sub) {
				unsup("store of %T to array", v)
			}
			for i := range c.sub {
				p.storeCell(c.sub[i], tt.Elem(), av[i])
			}
			return
		}
		unsup("store of %s to aggregate", t)
	}
	if c.old && p.initing == 0 {
		ov := c.v
		p.undo = append(p.undo, func() { c.v = ov })
	}
	c.v = v
}

func (p *Path) load(pt Ptr, t types.Type) Value {
	if pt.isNil() {
		p.g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if pt.bm != nil {
		if w := width(t); w == 8 {
			return p.readByte(pt.bm.node, pt.off)
		}
		if at, ok := t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
			n := p.rangeCopy(zeroNode, p.c64(0), p.c64(at.Len()), pt.bm.node, pt.off)
			return ByteArr{n, int(at.Len())}
		}
		unsup("load of %s from byte memory", t)
	}
	return p.loadCell(pt.c, t)
}

func (p *Path) store(pt Ptr, t types.Type, v Value) {
	if pt.isNil() {
		p.g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if pt.bm != nil {
		if w := width(t); w == 8 {
			p.setNode(pt.bm, p.writeNode(pt.bm.node, pt.off, v.(*smt.Expr)))
			return
		}
		if at, ok := t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
			p.setNode(pt.bm, p.rangeCopy(pt.bm.node, pt.off, p.c64(at.Len()), v.(ByteArr).node, p.c64(0)))
			return
		}
		unsup("store of %s to byte memory", t)
	}
	p.storeCell(pt.c, t, v)
}

// str makes a constant string.
func (p *Path) str(s string) Str {
	return Str{p.w.constNode(s), p.c64(0), p.c64(int64(len(s)))}
}

// conc returns the concrete contents of a string if it is constant.
func (p *Path) conc(s Str) (string, bool) {
	n := p.norm(s.n)
	if !n.IsConst() {
		return "", false
	}
	if n.C > 1<<20 {
		return "", false
	}
	b := make([]byte, n.C)
	off := p.norm(s.off)
	if s.node.kind == nConst && off.IsConst() && off.C+n.C <= uint64(len(s.node.data)) {
		return s.node.data[off.C : off.C+n.C], true
	}
	for i := range b {
		e := p.readByte(s.node, p.u.Add(off, p.c64(int64(i))))
		if !e.IsConst() {
			if e = p.norm(e); !e.IsConst() {
				return "", false
			}
		}
		b[i] = byte(e.C)
	}
	return string(b), true
}
