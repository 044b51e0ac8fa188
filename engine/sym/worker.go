package sym

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Worker explores paths with its own terms and its own solver process.
type Worker struct {
	id     int
	ex     *Explorer
	u      *smt.U
	solver *smt.Solver
	h      *HState // harness being explored
	p      *Path

	consts  map[string]*Node
	nodes   int
	mems    int
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	intr    map[*ssa.Function]intrinsicFn
	built   map[*ssa.Package]bool
	impl    map[implKey]bool
	meth    map[methKey]*ssa.Function
	fnUsed  map[*ssa.Function]bool
	fnIntr  map[*ssa.Function]bool

	local []*Task
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

type methKey struct {
	t types.Type
	m *types.Func
}

func newWorker(ex *Explorer, id int) *Worker {
	w := &Worker{id: id, ex: ex,
		fnUsed: map[*ssa.Function]bool{}, fnIntr: map[*ssa.Function]bool{},
		intr: map[*ssa.Function]intrinsicFn{}, built: map[*ssa.Package]bool{},
		impl: map[implKey]bool{}, meth: map[methKey]*ssa.Function{}}
	w.reset()
	return w
}

// reset drops all terms and global state.
func (w *Worker) reset() {
	if w.solver != nil {
		w.solver.Close()
	}
	w.u = smt.New()
	w.solver = smt.NewSolver(w.u, &w.ex.Stats)
	w.consts = map[string]*Node{}
	w.funcs = map[*ssa.Function]*Func{}
	w.globals = map[*ssa.Global]*Cell{}
	w.inited = map[*ssa.Package]bool{}
}

func (w *Worker) intrinsic(fn *ssa.Function) intrinsicFn {
	if in, ok := w.intr[fn]; ok {
		return in
	}
	name := fn.String()
	in := intrinsics[name]
	if in == nil {
		if o := fn.Origin(); o != nil && o != fn {
			in = intrinsics[o.String()]
		}
	}
	if in == nil && fn.Synthetic == "package initializer" {
		in = func(g *G, fn *ssa.Function, args []Value) Value { return nil }
	}
	w.intr[fn] = in
	return in
}

func (w *Worker) used(fn *ssa.Function, intr bool) {
	if intr {
		w.fnIntr[fn] = true
	} else {
		w.fnUsed[fn] = true
	}
}

func (w *Worker) build(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = w.ex.prog.byPath[fn.Object().Pkg().Path()]
	}
	if pkg != nil && !w.built[pkg] {
		pkg.Build()
		w.built[pkg] = true
	}
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impl[k] = r
	return r
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meth[k]; ok {
		return f
	}
	f := w.ex.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.meth[k] = f
	return f
}

// global returns the location of a package-level variable, initialising its package.
func (w *Worker) global(g *G, gl *ssa.Global) *Cell {
	if c, ok := w.globals[gl]; ok {
		return c
	}
	w.initPkg(g, gl.Pkg)
	c := w.globals[gl]
	if c == nil {
		unsup("global %s", gl)
	}
	return c
}

var noInit = map[string]bool{
	"runtime": true, "os": true, "net": true, "syscall": true, "internal/godebug": true,
	"crypto/tls": true, "crypto/x509": true, "google.golang.org/protobuf/internal/impl": true,
	"internal/cpu": true, "internal/poll": true, "reflect": true, "fmt": true,
}

func (w *Worker) initPkg(g *G, pkg *ssa.Package) {
	if w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	if !w.built[pkg] {
		pkg.Build()
		w.built[pkg] = true
	}
	p := g.p
	p.initing++
	defer func() { p.initing-- }()
	for _, m := range pkg.Members {
		if gl, ok := m.(*ssa.Global); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							w.globals[gl] = &Cell{v: Poison{u.msg}, old: true}
							return
						}
						panic(r)
					}
				}()
				t := deref(gl.Type())
				w.globals[gl] = p.newCell(t, p.zero(t))
			}()
		}
	}
	path := pkg.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "github.com/golang/protobuf") ||
		strings.HasPrefix(path, "github.com/renthraysk/xtorm/protobuf") {
		// error values such as io.EOF-like sentinels are still wanted
		w.initSimple(g, pkg)
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	w.runInit(g, fn, pkg, false)
}

// initSimple runs only initialisers that are cheap: errors.New, constants, composite literals.
func (w *Worker) initSimple(g *G, pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	w.runInit(g, fn, pkg, true)
}

// runInit executes a package initialiser, tolerating parts it cannot run.
func (w *Worker) runInit(g *G, fn *ssa.Function, pkg *ssa.Package, simple bool) {
	p := g.p
	fr := &frame{g: g, caller: g.cur, fn: fn, env: map[ssa.Value]Value{}}
	saved, sdepth := g.cur, g.depth
	g.cur = fr
	defer func() { g.cur, g.depth = saved, sdepth }()
	// straight-line: guard test, then the body
	b := fn.Blocks[0]
	if len(b.Succs) == 2 {
		b = b.Succs[1]
	}
	steps := p.steps
	for n := 0; b != nil && n < 200; n++ {
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				next = nil
			case *ssa.If:
				next = nil
			case *ssa.Phi:
			default:
				w.initInstr(g, fr, in, simple)
				g.cur, g.depth = fr, sdepth
			}
		}
		fr.prev, b = b, next
	}
	p.steps = steps
}

func (w *Worker) initInstr(g *G, fr *frame, in ssa.Instruction, simple bool) {
	poison := func(why string) {
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = Poison{why}
		}
		if st, ok := in.(*ssa.Store); ok {
			if gl, ok := st.Addr.(*ssa.Global); ok {
				w.globals[gl] = &Cell{v: Poison{why}, old: true}
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				poison(r.msg)
			case *targetPanic:
				poison("panic in initialiser: " + r.msg)
			case pathEnd, infeasible, killed:
				panic(r)
			default:
				if os.Getenv("XV_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "init %s: %v\n%s\n", in, r, debug.Stack())
				}
				poison(fmt.Sprint(r))
			}
		}
	}()
	if c, ok := in.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			if f.Synthetic == "package initializer" {
				return
			}
			if simple {
				switch f.String() {
				case "errors.New":
				default:
					poison("initialiser not run")
					return
				}
			}
		} else if simple {
			poison("initialiser not run")
			return
		}
	}
	// operands that are poison make the result poison
	var ops [8]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if v, ok := fr.env[*o]; ok {
			if po, ok := v.(Poison); ok {
				if st, isSt := in.(*ssa.Store); isSt && *o == st.Val {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						w.globals[gl] = &Cell{v: po, old: true}
						return
					}
				}
				poison(po.why)
				return
			}
		}
	}
	g.instr(fr, in)
}

// Path lifecycle.

func (w *Worker) newPath(t *Task) *Path {
	p := &Path{w: w, u: w.u, pre: t.pre, known: map[int]bool{}, rgs: map[int]rg{}, forms: map[int]irg{},
		nmemo: map[int]nent{}, rmemo: map[int]rent{}, reads: map[rkey]*smt.Expr{}, covers: map[string]bool{},
		notes: map[string]bool{}, timeReg: map[int][3]*smt.Expr{}, natIDs: map[interface{}]int{}, user: map[string]Value{},
		side: map[interface{}]interface{}{}, names: map[string]int{}}
	if t.model != nil {
		p.model = t.model.Rebind(w.u)
	} else if len(t.pre) == 0 {
		p.model = smt.NewModel(w.u)
	}
	return p
}

func (w *Worker) push(pre []Dec, m *smt.Model) {
	w.h.push(w, &Task{h: w.h, pre: pre, model: m})
}

func (w *Worker) checkBudget(p *Path) {
	if w.ex.stopped() || w.h.stop.Load() {
		panic(pathEnd{"time limit"})
	}
}

// run executes one task.
func (w *Worker) run(t *Task) {
	w.h = t.h
	p := w.newPath(t)
	w.p = p
	g := &G{p: p, id: 0, wake: make(chan struct{}, 1), name: "main"}
	p.g = g
	p.sched = newSched(p, g)
	end := w.runPath(p, g, t.h.fn)
	p.sched.killAll()
	for i := len(p.undo) - 1; i >= 0; i-- {
		p.undo[i]()
	}
	w.h.finish(w, p, end)
	if w.u.Size() > 1_500_000 {
		w.reset()
	}
}

type ending struct {
	kind string // done, infeasible, limit, unsupported, crash
	msg  string
}

func (w *Worker) runPath(p *Path, g *G, fn *ssa.Function) (end ending) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case infeasible:
			end = ending{"infeasible", ""}
		case pathEnd:
			end = ending{"limit", r.why}
			if r.why == "" {
				end.kind = "done"
			}
		case unsupported:
			end = ending{"unsupported", r.msg + " at " + g.where()}
		case *targetPanic:
			end = ending{"crash", "panic: " + r.msg + " [" + r.where + "]"}
		case crash:
			end = ending{"crash", r.msg}
		case deadlock:
			end = ending{"crash", "deadlock: " + r.msg}
		default:
			st := string(debug.Stack())
			end = ending{"unsupported", fmt.Sprintf("engine error: %v at %s", r, g.where())}
			if os.Getenv("XV_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine error: %v at %s\n%s\n", r, g.where(), st)
			}
		}
	}()
	g.callFn(fn, nil, nil)
	return ending{"done", ""}
}

func (g *G) where() string {
	s := ""
	n := 0
	for f := g.p.g.cur; f != nil && n < 8; f = f.caller {
		if s != "" {
			s += " < "
		}
		s += f.fn.String()
		n++
	}
	return s
}
