package sym

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os/exec"
	"sort"
	"time"

	"verif/engine/smt"
)

// The closure of an exploration. Every case split of a path (a schedule, a
// free choice, a branch both sides of which are feasible) is a variable; the
// paths that were followed to their end, with every assertion on them decided,
// form a tree over these variables. The solver is asked for values of the
// variables, within the domains the splits had, that lead to no finished path.
// Unsat says that no schedule or choice was left out.

const maxClosure = 1 << 29 // bytes of recorded decisions

// record notes the case splits of a path that was decided.
func (h *HState) record(log []Dec) {
	if h.logLost || h.logBytes > maxClosure {
		h.logLost = true
		return
	}
	b := make([]byte, 0, 2*len(log))
	for _, d := range log {
		switch {
		case d.Kind == 'c':
			b = binary.AppendUvarint(b, uint64(d.N))
			b = append(b, byte(d.V>>8), byte(d.V))
		case d.Kind == 'b' && !d.Forced:
			b = append(b, 2, 0, byte(d.V))
		}
	}
	h.logBytes += len(b)
	h.logs = append(h.logs, b)
}

type closer struct {
	out  bytes.Buffer
	ids  map[string]int
	vars int
	n    int
}

// node writes the condition under which the subtree of the logs ls, all equal
// up to at, is left, and returns its number (0: never, -1: always).
func (c *closer) node(ls [][]byte, at, depth int) int {
	if len(ls) == 0 {
		return -1
	}
	if at >= len(ls[0]) {
		return 0
	}
	n, k := binary.Uvarint(ls[0][at:])
	at += k
	kids := make([]int, n)
	for v := uint64(0); v < n; v++ {
		i := 0
		for i < len(ls) && at+2 <= len(ls[i]) && uint64(ls[i][at])<<8|uint64(ls[i][at+1]) == v {
			i++
		}
		kids[v] = c.node(ls[:i], at+2, depth+1)
		ls = ls[i:]
	}
	if len(ls) != 0 {
		return -1 // splits that do not fit together
	}
	if depth >= c.vars {
		c.vars = depth + 1
	}
	key := fmt.Sprint(depth, kids)
	if id, ok := c.ids[key]; ok {
		return id
	}
	c.n++
	c.ids[key] = c.n
	fmt.Fprintf(&c.out, "(define-fun n%d () Bool (or", c.n)
	for v, k := range kids {
		t := "false"
		switch {
		case k < 0:
			t = "true"
		case k > 0:
			t = fmt.Sprintf("n%d", k)
		}
		fmt.Fprintf(&c.out, " (and (= x%d #x%04x) %s)", depth, v, t)
	}
	c.out.WriteString("))\n")
	return c.n
}

// closure asks the solver whether the explored paths cover every choice.
func (h *HState) closure() {
	if h.logLost {
		h.Closed = "not asked"
		return
	}
	sort.Slice(h.logs, func(i, j int) bool { return bytes.Compare(h.logs[i], h.logs[j]) < 0 })
	c := &closer{ids: map[string]int{}}
	root := c.node(h.logs, 0, 0)
	h.logs = nil
	h.ClosureNodes = c.n
	var s bytes.Buffer
	s.WriteString("(set-logic QF_BV)\n")
	for i := 0; i < c.vars; i++ {
		fmt.Fprintf(&s, "(declare-const x%d (_ BitVec 16))\n", i)
	}
	s.Write(c.out.Bytes())
	switch {
	case root > 0:
		fmt.Fprintf(&s, "(assert n%d)\n", root)
	case root == 0:
		s.WriteString("(assert false)\n")
	}
	s.WriteString("(check-sat)\n")
	t := time.Now()
	cmd := exec.Command(smt.Z3, "-in", "-smt2", "-T:60")
	cmd.Stdin = &s
	out, _ := cmd.Output()
	h.ClosureTime = time.Since(t)
	switch {
	case bytes.HasPrefix(out, []byte("unsat")):
		h.Closed = "unsat"
	case bytes.HasPrefix(out, []byte("sat")):
		h.Closed = "sat"
	default:
		h.Closed = "unknown"
	}
}
