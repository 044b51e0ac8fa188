package sym

import (
	"verif/engine/smt"
)

type nkind uint8

const (
	nZero nkind = iota
	nConst
	nSym
	nWrite
	nRange
)

// Node is an immutable version of a byte memory.
type Node struct {
	kind nkind
	id   int
	data string // nConst
	name string // nSym: uninterpreted function name
	prev *Node
	idx  *smt.Expr // nWrite index, nRange destination
	val  *smt.Expr // nWrite
	n    *smt.Expr // nRange length
	src  *Node
	soff *smt.Expr
	dep  int
	in   int // nSym: index of the input, for models
}

var zeroNode = &Node{kind: nZero}

// ByteMem is a mutable byte memory.
type ByteMem struct {
	id   int
	node *Node
	size *smt.Expr
	old  bool
}

func (w *Worker) constNode(s string) *Node {
	if n, ok := w.consts[s]; ok {
		return n
	}
	n := &Node{kind: nConst, data: s, id: w.nextNode()}
	w.consts[s] = n
	return n
}

func (w *Worker) nextNode() int { w.nodes++; return w.nodes }

func (p *Path) newMem(n *Node, size *smt.Expr) *ByteMem {
	p.w.mems++
	return &ByteMem{id: p.w.mems, node: n, size: size, old: p.initing > 0}
}

func (p *Path) setNode(bm *ByteMem, n *Node) {
	if bm.old && p.initing == 0 {
		o := bm.node
		p.undo = append(p.undo, func() { bm.node = o })
	}
	bm.node = n
}

func (p *Path) writeNode(prev *Node, idx, val *smt.Expr) *Node {
	idx = p.norm(idx)
	// drop an overwritten write at the same place
	if prev.kind == nWrite && prev.idx == idx {
		prev = prev.prev
	}
	return &Node{kind: nWrite, id: p.w.nextNode(), prev: prev, idx: idx, val: val, dep: prev.dep + 1}
}

func (p *Path) rangeCopy(prev *Node, dst, n *smt.Expr, src *Node, soff *smt.Expr) *Node {
	n = p.norm(n)
	if n.IsConst() && n.C == 0 {
		return prev
	}
	dst, soff = p.norm(dst), p.norm(soff)
	if n.IsConst() && n.C == 1 {
		return p.writeNode(prev, dst, p.readByte(src, soff))
	}
	return &Node{kind: nRange, id: p.w.nextNode(), prev: prev, idx: dst, n: n, src: src, soff: soff, dep: max(prev.dep, src.dep) + 1}
}

type rkey struct{ node, idx int }

// readByte reads one byte of a memory version.
func (p *Path) readByte(n *Node, idx *smt.Expr) *smt.Expr {
	idx = p.norm(idx)
	return p.read(n, idx)
}

func (p *Path) read(n *Node, idx *smt.Expr) *smt.Expr {
	u := p.u
	type pend struct {
		c, v *smt.Expr
	}
	var ps []pend
	start := n
	k0 := rkey{n.id, idx.ID}
	if n.kind >= nWrite {
		if e, ok := p.reads[k0]; ok {
			return e
		}
	}
	var r *smt.Expr
loop:
	for {
		switch n.kind {
		case nZero:
			r = u.BV(0, 8)
			break loop
		case nConst:
			r = p.readConst(n, idx)
			break loop
		case nSym:
			r = u.App(n.name, 8, idx)
			break loop
		case nWrite:
			c := u.Eq(idx, n.idx)
			v, known := p.decide(c)
			if known && v {
				r = n.val
				break loop
			}
			if !known {
				ps = append(ps, pend{c, n.val})
			}
			n = n.prev
		case nRange:
			end := u.Add(n.idx, n.n)
			c1 := u.Not(u.Ult(idx, n.idx))
			v1, k1 := p.decide(c1)
			if k1 && !v1 {
				n = n.prev
				continue
			}
			c2 := u.Ult(idx, end)
			v2, k2 := p.decide(c2)
			if k2 && !v2 {
				n = n.prev
				continue
			}
			inner := func() *smt.Expr {
				return p.read(n.src, p.norm(u.Add(n.soff, u.Sub(idx, n.idx))))
			}
			if k1 && k2 {
				r = inner()
				break loop
			}
			ps = append(ps, pend{u.And(c1, c2), inner()})
			n = n.prev
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		r = u.Ite(ps[i].c, ps[i].v, r)
	}
	if start.kind >= nWrite {
		p.reads[k0] = r
	}
	return r
}

func (p *Path) readConst(n *Node, idx *smt.Expr) *smt.Expr {
	u := p.u
	if idx.IsConst() {
		if idx.C < uint64(len(n.data)) {
			return u.BV(uint64(n.data[idx.C]), 8)
		}
		return u.BV(0, 8) // guarded by a bounds check
	}
	lo, hi := p.rng(idx)
	if lo >= uint64(len(n.data)) {
		return u.BV(0, 8)
	}
	if hi >= uint64(len(n.data)) {
		hi = uint64(len(n.data)) - 1
	}
	if hi-lo > 5000 {
		unsup("symbolic index into constant of %d bytes", hi-lo)
	}
	r := u.BV(uint64(n.data[hi]), 8)
	for i := int64(hi) - 1; i >= int64(lo); i-- {
		r = u.Ite(u.Eq(idx, p.c64(i)), u.BV(uint64(n.data[i]), 8), r)
	}
	return r
}
