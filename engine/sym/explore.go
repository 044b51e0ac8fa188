package sym

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type Config struct {
	Workers    int
	MaxSteps   int
	Deadline   time.Time
	Tier       string
	MaxSamples int
	Seed       int64
	Verbose    bool
	// Confirm replays a counterexample on the real code; true means reproduced.
	Confirm func(c *Cand) bool
}

type Explorer struct {
	cfg    Config
	prog   *Program
	Stats  smt.Stats
	mu     sync.Mutex
	cond   *sync.Cond
	global []*Task
	ws     []*Worker
	busy   int
	done   bool
	hs     []*HState
}

type Task struct {
	h     *HState
	pre   []Dec
	model *smt.Model
}

// WInput is the concrete value of one input of a harness.
type WInput struct {
	Name string            `json:"name"`
	Kind string            `json:"kind"` // int, bytes
	V    uint64            `json:"v"`    // value or length
	Set  map[string]string `json:"set,omitempty"`
}

type WObs struct {
	Name string `json:"name"`
	V    string `json:"v"`
}

// Witness is a concrete run of a harness.
type Witness struct {
	Harness  string   `json:"harness"`
	Tier     string   `json:"tier"`
	Inputs   []WInput `json:"inputs"`
	Expect   []WObs   `json:"expect,omitempty"`
	Trace    []int    `json:"trace,omitempty"`   // goroutines passing scheduling points
	Partial  string   `json:"partial,omitempty"` // the engine stopped following here
	NoExpect bool     `json:"-"`
}

// Cand is a counterexample found by the solver.
type Cand struct {
	Harness string
	Msg     string
	W       *Witness
	Conf    bool
	Notes   []string
}

// HState is the exploration state of one harness.
type HState struct {
	Name  string
	fn    *ssa.Function
	ex    *Explorer
	stop  atomic.Bool
	mu    sync.Mutex
	start time.Time
	end   time.Time
	pend  int

	Paths       int
	Done        int
	Infeasible  int
	Asserts     int // assertions reached
	Queries     int // assertions sent to the solver
	Undecided   int
	Unsupported map[string]int
	Limits      map[string]int
	Notes       map[string]int
	Covers      map[string]int
	Bounds      map[string]string
	Cands       []*Cand
	Dropped     int
	Samples     []*Witness
	seen        int
	candSeen    map[string]int
	rnd         *rand.Rand
	MaxDec      int
	Steps       int64

	logs         [][]byte // case splits of the decided paths
	logBytes     int
	logLost      bool
	Closed       string // the solver's answer to the closure query
	ClosureNodes int
	ClosureTime  time.Duration
}

func (h *HState) Elapsed() time.Duration { return h.end.Sub(h.start) }

// Complete reports whether every path within the bounds was decided.
func (h *HState) Complete() bool {
	return len(h.Unsupported) == 0 && len(h.Limits) == 0 && h.Undecided == 0 && h.Dropped == 0 && h.Closed != "sat"
}

func (h *HState) push(w *Worker, t *Task) {
	h.mu.Lock()
	h.pend++
	h.mu.Unlock()
	ex := w.ex
	ex.mu.Lock()
	w.local = append(w.local, t)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func NewExplorer(prog *Program, cfg Config) *Explorer {
	ex := &Explorer{prog: prog, cfg: cfg}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) rtErrType() types.Type { return ex.prog.rtErr }

func (ex *Explorer) stopped() bool { return time.Now().After(ex.cfg.Deadline) }

// Run explores the named harness functions of a package.
func (ex *Explorer) Run(pkg string, names []string) ([]*HState, error) {
	sp := ex.prog.Package(pkg)
	if sp == nil {
		return nil, fmt.Errorf("package %s not loaded", pkg)
	}
	for _, n := range names {
		fn := sp.Func(n)
		if fn == nil {
			return nil, fmt.Errorf("no harness %s", n)
		}
		h := &HState{Name: n, fn: fn, ex: ex, Unsupported: map[string]int{}, Limits: map[string]int{}, Notes: map[string]int{},
			Covers: map[string]int{}, Bounds: map[string]string{}, candSeen: map[string]int{}, rnd: rand.New(rand.NewSource(ex.cfg.Seed)), pend: 1}
		ex.hs = append(ex.hs, h)
		ex.global = append(ex.global, &Task{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.cfg.Workers; i++ {
		w := newWorker(ex, i)
		ex.ws = append(ex.ws, w)
	}
	for _, w := range ex.ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
			w.solver.Close()
		}(w)
	}
	tick := time.NewTicker(time.Second)
	go func() {
		for range tick.C {
			ex.cond.Broadcast()
		}
	}()
	wg.Wait()
	tick.Stop()
	for _, h := range ex.hs {
		wg.Add(1)
		go func(h *HState) {
			defer wg.Done()
			h.closure()
		}(h)
	}
	wg.Wait()
	return ex.hs, nil
}

func (w *Worker) loop() {
	ex := w.ex
	for {
		ex.mu.Lock()
		var t *Task
		for {
			if n := len(w.local); n > 0 {
				t = w.local[n-1]
				w.local = w.local[:n-1]
				break
			}
			if len(ex.global) > 0 {
				t = ex.global[0]
				ex.global = ex.global[1:]
				break
			}
			// steal the oldest task of the richest worker
			var v *Worker
			for _, o := range ex.ws {
				if len(o.local) > 0 && (v == nil || len(o.local) > len(v.local)) {
					v = o
				}
			}
			if v != nil {
				t = v.local[0]
				v.local = append([]*Task{}, v.local[1:]...)
				break
			}
			if ex.busy == 0 {
				ex.mu.Unlock()
				ex.cond.Broadcast()
				return
			}
			ex.cond.Wait()
		}
		ex.busy++
		ex.mu.Unlock()
		if t.h.start.IsZero() {
			t.h.mu.Lock()
			if t.h.start.IsZero() {
				t.h.start = time.Now()
			}
			t.h.mu.Unlock()
		}
		if ex.stopped() || t.h.stop.Load() {
			t.h.drop()
		} else {
			w.run(t)
		}
		ex.mu.Lock()
		ex.busy--
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (h *HState) drop() {
	h.mu.Lock()
	h.Dropped++
	h.pend--
	h.end = time.Now()
	h.mu.Unlock()
}

// finish records the outcome of a path.
func (h *HState) finish(w *Worker, p *Path, end ending) {
	var cand *Cand
	if end.kind == "crash" {
		cand = p.candidate(nil, end.msg)
	}
	if end.kind == "limit" && end.msg == "step limit" {
		cand = p.candidate(nil, "does not terminate")
	}
	var wit *Witness
	sample := false
	h.mu.Lock()
	h.Paths++
	h.pend--
	h.Steps += int64(p.steps)
	h.end = time.Now()
	if len(p.log) > h.MaxDec {
		h.MaxDec = len(p.log)
	}
	switch end.kind {
	case "done", "crash", "infeasible":
		h.record(p.log)
	}
	switch end.kind {
	case "done", "crash":
		h.Done++
		for c := range p.covers {
			h.Covers[c]++
		}
	case "infeasible":
		h.Infeasible++
	case "limit":
		h.Limits[end.msg]++
	case "unsupported":
		h.Unsupported[end.msg]++
	}
	for n := range p.notes {
		h.Notes[n]++
	}
	slot := -1
	if end.kind == "done" || end.kind == "unsupported" || end.kind == "limit" && end.msg != "time limit" {
		h.seen++
		if len(h.Samples) < h.ex.cfg.MaxSamples {
			sample = true
		} else if k := h.rnd.Intn(h.seen); k < h.ex.cfg.MaxSamples {
			sample, slot = true, k
		}
	}
	h.mu.Unlock()
	if sample {
		wit = p.witness(end)
	}
	if wit != nil {
		h.mu.Lock()
		if slot >= 0 && slot < len(h.Samples) {
			h.Samples[slot] = wit
		} else {
			h.Samples = append(h.Samples, wit)
		}
		h.mu.Unlock()
	}
	if cand != nil {
		h.addCand(cand)
	}
}

func (h *HState) addCand(c *Cand) {
	key := c.Msg
	if i := strings.IndexByte(key, '['); i > 0 {
		key = key[:i]
	}
	h.mu.Lock()
	n := h.candSeen[key]
	h.candSeen[key]++
	h.mu.Unlock()
	if n >= 6 {
		return
	}
	if h.ex.cfg.Confirm != nil {
		c.Conf = h.ex.cfg.Confirm(c)
	}
	h.mu.Lock()
	h.Cands = append(h.Cands, c)
	h.mu.Unlock()
	if c.Conf {
		h.stop.Store(true)
	}
}

// Input is a symbolic input.
type Input struct {
	Name string
	Kind string
	e    *smt.Expr // value, or length of bytes
	uf   string
	w    int
}

// candidate builds a counterexample for pc ∧ neg, preferring short inputs.
func (p *Path) candidate(neg *smt.Expr, msg string) *Cand {
	var ex []*smt.Expr
	if neg != nil {
		ex = append(ex, neg)
	}
	var m *smt.Model
	for _, lim := range []uint64{4, 24, 300, 5000, 70000, 1 << 22, 1 << 28, 0} {
		c := append([]*smt.Expr{}, ex...)
		if lim > 0 {
			for _, in := range p.inputs {
				if in.Kind == "bytes" && !in.e.IsConst() {
					c = append(c, p.u.Ule(in.e, p.c64(int64(lim))))
				}
			}
			if len(c) == len(ex) {
				continue
			}
		}
		r, mm := p.w.solver.Check(p.pc, c...)
		if r == smt.Sat {
			m = mm
			break
		}
	}
	if m == nil {
		if neg != nil {
			return nil
		}
		m = p.model
		if m == nil {
			return nil
		}
	}
	c := &Cand{Harness: p.w.h.Name, Msg: msg, W: p.wit(m)}
	for n := range p.notes {
		c.Notes = append(c.Notes, n)
	}
	return c
}

func (p *Path) wit(m *smt.Model) *Witness {
	w := &Witness{Harness: p.w.h.Name, Tier: p.w.ex.cfg.Tier, Trace: append([]int(nil), p.sched.trace...)}
	for _, in := range p.inputs {
		wi := WInput{Name: in.Name, Kind: in.Kind, V: m.Eval(in.e).Uint64()}
		if in.Kind == "bytes" {
			wi.Set = map[string]string{}
			for k, v := range m.Funs[in.uf] {
				wi.Set[strings.TrimSuffix(k, ",")] = v.Text(16)
			}
		}
		w.Inputs = append(w.Inputs, wi)
	}
	return w
}

// witness evaluates the path under its model.
func (p *Path) witness(end ending) (w *Witness) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, infeasible, pathEnd:
				w = nil
			default:
				panic(r)
			}
		}
	}()
	m := p.model
	r := smt.Sat
	// prefer a short witness
	var lens []*smt.Expr
	for _, in := range p.inputs {
		if in.Kind == "bytes" && !in.e.IsConst() {
			lens = append(lens, p.u.Ule(in.e, p.c64(200)))
		}
	}
	if len(lens) > 0 {
		if rr, mm := p.w.solver.Check(p.pc, lens...); rr == smt.Sat {
			m = mm
		}
	}
	if m == nil {
		r, m = p.w.solver.Check(p.pc)
		if r != smt.Sat {
			return nil
		}
	}
	var exp []WObs
	if end.kind == "done" {
		for _, o := range p.observed {
			s, ok := p.evalObs(m, o.V)
			if !ok {
				s = "?"
			}
			exp = append(exp, WObs{o.Name, s})
		}
	}
	w = p.wit(m)
	w.Expect = exp
	if end.kind != "done" {
		w.Partial = end.msg
	}
	for _, in := range w.Inputs {
		if in.Kind == "bytes" && in.V > 1<<26 {
			return nil
		}
	}
	return w
}

func (p *Path) evalObs(m *smt.Model, v Value) (string, bool) {
	switch x := v.(type) {
	case *smt.Expr:
		return fmt.Sprint(m.Eval(x).Uint64()), true
	case Str:
		n := m.Eval(x.n).Uint64()
		if n > 2000 {
			return fmt.Sprintf("len=%d", n), true
		}
		off := m.Eval(x.off).Uint64()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(p.evalByte(m, x.node, off+uint64(i), 0))
		}
		return hex.EncodeToString(b), true
	}
	return "", false
}

// evalByte reads a memory version concretely under a model.
func (p *Path) evalByte(m *smt.Model, n *Node, idx uint64, d int) uint64 {
	for {
		switch n.kind {
		case nZero:
			return 0
		case nConst:
			if idx < uint64(len(n.data)) {
				return uint64(n.data[idx])
			}
			return 0
		case nSym:
			return m.Eval(p.u.App(n.name, 8, p.c64(int64(idx)))).Uint64()
		case nWrite:
			if m.Eval(n.idx).Uint64() == idx {
				return m.Eval(n.val).Uint64()
			}
			n = n.prev
		case nRange:
			lo := m.Eval(n.idx).Uint64()
			if idx >= lo && idx-lo < m.Eval(n.n).Uint64() {
				idx = m.Eval(n.soff).Uint64() + idx - lo
				n = n.src
			} else {
				n = n.prev
			}
		}
	}
}

// assert checks that c holds on every continuation of this path.
func (p *Path) assert(c *smt.Expr, msg string) {
	c = p.norm(c)
	replay := len(p.log) < len(p.pre)
	if !replay {
		p.w.h.mu.Lock()
		p.w.h.Asserts++
		p.w.h.mu.Unlock()
	}
	if v, k := p.decide(c); k && v {
		return
	}
	if replay {
		d := p.pre[len(p.log)]
		if d.Kind != 'a' {
			panic(fmt.Sprintf("engine: replay divergence: want assert, have %c", d.Kind))
		}
		p.log = append(p.log, d)
		if d.V == 1 {
			p.addFact(c)
		} else {
			p.assume(c)
		}
		return
	}
	p.w.checkBudget(p)
	p.w.h.mu.Lock()
	p.w.h.Queries++
	p.w.h.mu.Unlock()
	neg := p.u.Not(c)
	r := smt.Unknown
	if p.model != nil && p.model.True(neg) {
		r = smt.Sat
	} else {
		r, _ = p.w.solver.Check(p.pc, neg)
	}
	switch r {
	case smt.Unsat:
		p.log = append(p.log, Dec{'a', 1, true, 0})
		p.addFact(c)
	case smt.Unknown:
		p.w.h.mu.Lock()
		p.w.h.Undecided++
		p.w.h.mu.Unlock()
		p.log = append(p.log, Dec{'a', 0, false, 0})
		p.assume(c)
	case smt.Sat:
		if cd := p.candidate(neg, msg); cd != nil {
			p.w.h.addCand(cd)
		}
		p.w.checkBudget(p)
		p.log = append(p.log, Dec{'a', 0, false, 0})
		p.assume(c)
	}
}

// FunctionsUsed lists the functions executed symbolically, by package prefix.
func (ex *Explorer) FunctionsUsed(prefix string) (run, modelled []string) {
	seen := map[string]bool{}
	for _, w := range ex.ws {
		for f := range w.fnUsed {
			n := f.String()
			if strings.Contains(n, prefix) && !seen[n] {
				seen[n] = true
				run = append(run, n)
			}
		}
		for f := range w.fnIntr {
			n := f.String()
			if !seen[n] && !strings.HasPrefix(n, "verif/") && f.Synthetic != "package initializer" {
				seen[n] = true
				modelled = append(modelled, n)
			}
		}
	}
	sort.Strings(run)
	sort.Strings(modelled)
	return
}
