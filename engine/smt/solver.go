package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats are shared between the solvers of a run.
type Stats struct {
	Queries   int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	Fallbacks int64
	Nanos     int64
	Errors    int64
}

// Model is a satisfying assignment. Unlisted symbols may take any value; the
// first value handed out is recorded so that later answers agree.
type Model struct {
	u    *U
	Vars map[string]*big.Int
	Funs map[string]map[string]*big.Int
	memo map[int]*big.Int
}

func NewModel(u *U) *Model {
	return &Model{u: u, Vars: map[string]*big.Int{}, Funs: map[string]map[string]*big.Int{}, memo: map[int]*big.Int{}}
}

// Rebind gives a copy of the model for another universe.
func (m *Model) Rebind(u *U) *Model {
	if m == nil {
		return nil
	}
	n := NewModel(u)
	for k, v := range m.Vars {
		n.Vars[k] = v
	}
	for f, t := range m.Funs {
		x := map[string]*big.Int{}
		for k, v := range t {
			x[k] = v
		}
		n.Funs[f] = x
	}
	return n
}

// SetVar fixes a variable no constraint mentions yet.
func (m *Model) SetVar(name string, v uint64) {
	m.Vars[name] = new(big.Int).SetUint64(v)
	m.memo = map[int]*big.Int{}
}

// Fill is the value of input bytes that no constraint mentions.
func Fill(i uint64) uint64 { return 'A' + (i*7+i>>5)%26 }

// Eval evaluates e, extending the model for symbols it does not mention.
func (m *Model) Eval(e *Expr) *big.Int {
	if e.Op == OpConst {
		return e.BigVal()
	}
	return m.u.Eval(e, m.env, m.memo)
}

func (m *Model) env(e *Expr) *big.Int {
	if e.Op == OpVar {
		if v, ok := m.Vars[e.Name]; ok {
			return v
		}
		v := big.NewInt(0)
		m.Vars[e.Name] = v
		return v
	}
	k := m.key(e)
	t := m.Funs[e.Name]
	if t == nil {
		t = map[string]*big.Int{}
		m.Funs[e.Name] = t
	}
	if v, ok := t[k]; ok {
		return v
	}
	v := big.NewInt(0)
	if e.W == 8 && len(e.Args) == 1 {
		v.SetUint64(Fill(m.Eval(e.Args[0]).Uint64()))
	}
	t[k] = v
	return v
}

func (m *Model) key(e *Expr) string {
	var sb strings.Builder
	for _, a := range e.Args {
		sb.WriteString(m.Eval(a).Text(16))
		sb.WriteByte(',')
	}
	return sb.String()
}

// True reports whether the model satisfies the boolean e.
func (m *Model) True(e *Expr) bool { return m.Eval(e).Sign() != 0 }

type level struct {
	cond    *Expr
	defined []int   // expr ids defined at this level
	syms    []*Expr // var and app terms that appeared at this level
	funs    []string
}

// Solver drives one incremental z3 process.
type Solver struct {
	u       *U
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	levels  []level
	def     map[int]bool
	fun     map[string]bool
	St      *Stats
	Timeout time.Duration // per incremental query
	Hard    time.Duration // per fall-back query
	log     io.Writer
	failed  bool
}

var Z3 = "z3-new"

var slowLog = os.Getenv("XV_SLOW")

func NewSolver(u *U, st *Stats) *Solver {
	s := &Solver{u: u, St: st, Timeout: 4 * time.Second, Hard: 60 * time.Second}
	if f := os.Getenv("XV_SMTLOG"); f != "" {
		s.log, _ = os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.def = map[int]bool{}
	s.fun = map[string]bool{}
	s.levels = []level{{}}
	s.failed = false
	s.cmd = exec.Command(Z3, "-in", "-smt2", fmt.Sprintf("-t:%d", s.Timeout.Milliseconds()))
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", Z3, err))
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emitter writes definitions for an expression DAG.
type emitter struct {
	def map[int]bool
	fun map[string]bool
	u   *U
	out *bytes.Buffer
	lv  *level
}

func quote(n string) string { return "|" + n + "|" }

func (em *emitter) ref(e *Expr) string {
	switch e.Op {
	case OpConst:
		if e.W == 0 {
			if e.C == 1 {
				return "true"
			}
			return "false"
		}
		if e.W%4 == 0 {
			return fmt.Sprintf("#x%0*s", e.W/4, e.BigVal().Text(16))
		}
		return fmt.Sprintf("#b%0*s", e.W, e.BigVal().Text(2))
	case OpVar:
		em.define(e)
		return quote(e.Name)
	}
	em.define(e)
	return fmt.Sprintf("e%d", e.ID)
}

func (em *emitter) define(e *Expr) {
	if em.def[e.ID] {
		return
	}
	em.def[e.ID] = true
	em.lv.defined = append(em.lv.defined, e.ID)
	if e.Op == OpVar {
		em.lv.syms = append(em.lv.syms, e)
		fmt.Fprintf(em.out, "(declare-fun %s () %s)\n", quote(e.Name), sortName(e.W))
		return
	}
	body := em.body(e)
	fmt.Fprintf(em.out, "(define-fun e%d () %s %s)\n", e.ID, sortName(e.W), body)
}

func (em *emitter) body(e *Expr) string {
	args := make([]string, len(e.Args))
	for i, a := range e.Args {
		args[i] = em.ref(a)
	}
	switch e.Op {
	case OpApp:
		if !em.fun[e.Name] {
			em.fun[e.Name] = true
			em.lv.funs = append(em.lv.funs, e.Name)
			sig := em.u.Funs[e.Name]
			var as []string
			for _, w := range sig.Args {
				as = append(as, sortName(w))
			}
			fmt.Fprintf(em.out, "(declare-fun %s (%s) %s)\n", quote(e.Name), strings.Join(as, " "), sortName(sig.Ret))
		}
		em.lv.syms = append(em.lv.syms, e)
		if len(args) == 0 {
			return quote(e.Name)
		}
		return "(" + quote(e.Name) + " " + strings.Join(args, " ") + ")"
	case OpAdd:
		if e.W > 64 {
			return "(bvadd " + strings.Join(args, " ") + ")"
		}
		var ts []string
		for i, a := range args {
			if e.Ks[i] == 1 {
				ts = append(ts, a)
			} else if e.Ks[i] == mask(e.W) {
				ts = append(ts, "(bvneg "+a+")")
			} else {
				ts = append(ts, "(bvmul "+em.ref(em.u.BV(e.Ks[i], e.W))+" "+a+")")
			}
		}
		if e.C != 0 {
			ts = append(ts, em.ref(em.u.BV(e.C, e.W)))
		}
		if len(ts) == 1 {
			return ts[0]
		}
		r := ts[0]
		for _, t := range ts[1:] {
			r = "(bvadd " + r + " " + t + ")"
		}
		return r
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(e.C)+e.W-1, e.C, args[0])
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.W-e.Args[0].W, args[0])
	case OpConcat:
		r := args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			r = "(concat " + args[i] + " " + r + ")"
		}
		return r
	case OpBAnd, OpBOr, OpBXor, OpMul:
	}
	n, ok := opNames[e.Op]
	if !ok {
		panic(fmt.Sprintf("smt: emit op %d", e.Op))
	}
	return "(" + n + " " + strings.Join(args, " ") + ")"
}

func (s *Solver) push(c *Expr) {
	s.levels = append(s.levels, level{cond: c})
	lv := &s.levels[len(s.levels)-1]
	em := &emitter{def: s.def, fun: s.fun, u: s.u, out: &bytes.Buffer{}, lv: lv}
	em.out.WriteString("(push 1)\n")
	r := em.ref(c)
	fmt.Fprintf(em.out, "(assert %s)\n", r)
	s.send(em.out.String())
}

func (s *Solver) pop() {
	n := len(s.levels) - 1
	for _, id := range s.levels[n].defined {
		delete(s.def, id)
	}
	for _, f := range s.levels[n].funs {
		delete(s.fun, f)
	}
	s.levels = s.levels[:n]
	s.send("(pop 1)\n")
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Expr) {
	n := 0
	for n < len(pc) && n+1 < len(s.levels) && s.levels[n+1].cond == pc[n] {
		n++
	}
	for len(s.levels) > n+1 {
		s.pop()
	}
	for ; n < len(pc); n++ {
		s.push(pc[n])
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// Check decides satisfiability of pc and extra; on Sat the model is returned.
func (s *Solver) Check(pc []*Expr, extra ...*Expr) (Result, *Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.St.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.St.Queries, 1)
	r, m := s.check(pc, extra)
	if slowLog != "" {
		if d := time.Since(t0); d > 100*time.Millisecond {
			f, _ := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			fmt.Fprintf(f, "---- %v %v\n", d, r)
			for _, e := range pc {
				fmt.Fprintf(f, "   %v\n", e)
			}
			for _, e := range extra {
				fmt.Fprintf(f, " + %v\n", e)
			}
			f.Close()
		}
	}
	if r == Unknown {
		atomic.AddInt64(&s.St.Fallbacks, 1)
		r, m = s.oneShot(append(append([]*Expr{}, pc...), extra...))
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.St.Sat, 1)
	case Unsat:
		atomic.AddInt64(&s.St.Unsat, 1)
	default:
		atomic.AddInt64(&s.St.Unknown, 1)
	}
	return r, m
}

func (s *Solver) check(pc []*Expr, extra []*Expr) (res Result, m *Model) {
	if s.cmd == nil {
		s.start()
	}
	s.sync(pc)
	for _, e := range extra {
		s.push(e)
	}
	defer func() {
		if s.failed {
			s.restart()
			return
		}
		for range extra {
			s.pop()
		}
	}()
	s.send("(check-sat)\n")
	s.in.Flush()
	timer := time.AfterFunc(s.Timeout*2+2*time.Second, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	timer.Stop()
	if err != nil || strings.HasPrefix(l, "(error") {
		atomic.AddInt64(&s.St.Errors, 1)
		if s.log != nil {
			fmt.Fprintf(s.log, "; ERROR %s %v\n", l, err)
		}
		s.failed = true
		return Unknown, nil
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	var syms []*Expr
	for _, lv := range s.levels {
		syms = append(syms, lv.syms...)
	}
	m = NewModel(s.u)
	if len(syms) == 0 {
		return Sat, m
	}
	// values of all variables and applications in use
	em := &emitter{def: s.def, fun: s.fun, u: s.u, out: &bytes.Buffer{}, lv: &s.levels[len(s.levels)-1]}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, e := range syms {
		sb.WriteString(em.ref(e))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil {
		s.failed = true
		return Unknown, nil
	}
	if !parseValues(txt, syms, m) {
		s.failed = true
		atomic.AddInt64(&s.St.Errors, 1)
		return Unknown, nil
	}
	return Sat, m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	d := 0
	inq := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			d++
			started = true
		}
		if c == ')' {
			d--
		}
		if started && d == 0 {
			return sb.String(), nil
		}
	}
}

// parseValues reads ((t v) (t v) ...) in the order of syms.
func parseValues(txt string, syms []*Expr, m *Model) bool {
	txt = strings.TrimSpace(txt)
	if !strings.HasPrefix(txt, "((") {
		return false
	}
	toks := tokenize(txt)
	// skip outer '('
	i := 1
	vals := make([]*big.Int, 0, len(syms))
	for i < len(toks) && toks[i] == "(" {
		i++
		// term: atom or sexp
		if toks[i] == "(" {
			d := 0
			for {
				if toks[i] == "(" {
					d++
				}
				if toks[i] == ")" {
					d--
				}
				i++
				if d == 0 {
					break
				}
			}
		} else {
			i++
		}
		v := parseConst(toks, &i)
		if v == nil {
			return false
		}
		vals = append(vals, v)
		if toks[i] != ")" {
			return false
		}
		i++
	}
	if len(vals) != len(syms) {
		return false
	}
	for j, e := range syms {
		if e.Op == OpVar {
			m.Vars[e.Name] = vals[j]
		}
	}
	// applications: innermost first (definition order guarantees arguments first)
	for j, e := range syms {
		if e.Op == OpApp {
			k := m.key(e)
			t := m.Funs[e.Name]
			if t == nil {
				t = map[string]*big.Int{}
				m.Funs[e.Name] = t
			}
			t[k] = vals[j]
		}
	}
	return true
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, s[i:i+1])
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseConst(toks []string, i *int) *big.Int {
	t := toks[*i]
	v := new(big.Int)
	switch {
	case t == "true":
		v.SetInt64(1)
	case t == "false":
	case strings.HasPrefix(t, "#x"):
		if _, ok := v.SetString(t[2:], 16); !ok {
			return nil
		}
	case strings.HasPrefix(t, "#b"):
		if _, ok := v.SetString(t[2:], 2); !ok {
			return nil
		}
	case t == "(" && *i+2 < len(toks) && toks[*i+1] == "_" && strings.HasPrefix(toks[*i+2], "bv"):
		if _, ok := v.SetString(toks[*i+2][2:], 10); !ok {
			return nil
		}
		*i += 4
	default:
		return nil
	}
	*i++
	return v
}

// oneShot runs a portfolio of fresh solver processes on a conjunction.
func (s *Solver) oneShot(cs []*Expr) (Result, *Model) {
	lv := &level{}
	em := &emitter{def: map[int]bool{}, fun: map[string]bool{}, u: s.u, out: &bytes.Buffer{}, lv: lv}
	for _, c := range cs {
		r := em.ref(c)
		fmt.Fprintf(em.out, "(assert %s)\n", r)
	}
	body := em.out.String()
	var gv strings.Builder
	gv.WriteString("(get-value (")
	for _, e := range lv.syms {
		gv.WriteString(em.ref(e))
		gv.WriteByte(' ')
	}
	gv.WriteString("))\n")
	head := "(set-option :produce-models true)\n(set-logic QF_UFBV)\n"
	ctx, cancel := context.WithTimeout(context.Background(), s.Hard)
	defer cancel()
	type ans struct {
		r Result
		m *Model
	}
	ch := make(chan ans, 4)
	run := func(name string, args ...string) {
		script := head + body + "(check-sat)\n"
		if len(lv.syms) > 0 {
			script += gv.String()
		}
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		txt := string(out)
		switch {
		case strings.HasPrefix(txt, "unsat"):
			ch <- ans{Unsat, nil}
		case strings.HasPrefix(txt, "sat"):
			m := NewModel(s.u)
			if len(lv.syms) == 0 || parseValues(txt[3:], lv.syms, m) {
				ch <- ans{Sat, m}
			} else {
				ch <- ans{Unknown, nil}
			}
		default:
			ch <- ans{Unknown, nil}
		}
	}
	go run(Z3, "-in", "-smt2")
	go run("cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "--produce-models")
	go run("cvc5", "--lang=smt2", "--produce-models")
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
