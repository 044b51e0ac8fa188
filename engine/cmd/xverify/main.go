// Command xverify decides properties of /repo by symbolic execution of its
// SSA form and an SMT solver.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/instr"
	"verif/engine/sym"
)

const hpkg = "verif/harness/h"

var (
	prop    = flag.String("prop", "", "property id")
	only    = flag.String("only", "", "regexp of harness names")
	tier    = flag.String("tier", "", "quick or thorough")
	verbose = flag.Bool("v", false, "print per-harness results")
	limit   = flag.Duration("limit", 0, "time limit of the exploration")
	nwork   = flag.Int("j", runtime.NumCPU(), "workers")
	noEv    = flag.Bool("noevidence", false, "do not write evidence")
	nsamp   = flag.Int("samples", 0, "path witnesses replayed per harness")
)

func main() {
	flag.Parse()
	os.Exit(run())
}

func goEnv() []string {
	return []string{"GOROOT=/opt/veriftools/go1.27.3", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on",
		"GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"}
}

type replayer struct {
	bin   string
	err   error
	ready chan struct{}
	mu    sync.Mutex
	n     int
}

type result struct {
	Harness  string     `json:"harness"`
	Failures []string   `json:"failures"`
	Panic    string     `json:"panic"`
	Observed []sym.WObs `json:"observed"`
	Dropped  bool       `json:"dropped"`
	Missing  []string   `json:"missing"`
	crash    string
}

func (r result) bad() string {
	switch {
	case r.crash != "":
		return r.crash
	case r.Panic != "":
		s := r.Panic
		if i := strings.IndexByte(s, '\n'); i > 0 {
			s = s[:i]
		}
		return "panic: " + s
	case len(r.Failures) > 0:
		return r.Failures[0]
	}
	return ""
}

func newReplayer(root, tmp, overlay string) *replayer {
	rp := &replayer{ready: make(chan struct{})}
	go func() {
		defer close(rp.ready)
		rp.bin = filepath.Join(tmp, "replay")
		args := []string{"build", "-o", rp.bin}
		if overlay != "" {
			args = append(args, "-overlay", overlay)
		}
		args = append(args, "./cmd/replay")
		cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", args...)
		cmd.Dir = filepath.Join(root, "harness")
		cmd.Env = append(os.Environ(), goEnv()...)
		if out, err := cmd.CombinedOutput(); err != nil {
			rp.err = fmt.Errorf("building replay: %v\n%s", err, out)
		}
	}()
	return rp
}

// one replays a witness in its own process.
func (rp *replayer) one(w *sym.Witness, d time.Duration) result {
	<-rp.ready
	if rp.err != nil {
		return result{}
	}
	b, _ := json.Marshal(w)
	cmd := exec.Command(rp.bin)
	cmd.Stdin = bytes.NewReader(b)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if err := cmd.Start(); err != nil {
		return result{}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r result
	select {
	case err := <-done:
		if json.Unmarshal(out.Bytes(), &r) != nil {
			s := strings.TrimSpace(er.String())
			if err != nil && strings.Contains(s, "fatal error: out of memory") || strings.Contains(s, "cannot allocate") {
				return result{}
			}
			if i := strings.IndexByte(s, '\n'); i > 0 {
				s = s[:i]
			}
			r.crash = "process crashed: " + s
			if err == nil {
				r.crash = ""
			}
		}
	case <-time.After(d):
		cmd.Process.Kill()
		<-done
		r.crash = "process hung"
	}
	return r
}

// batch replays many witnesses in one process; a crash falls back to one by one.
func (rp *replayer) batch(ws []*sym.Witness) []result {
	<-rp.ready
	res := make([]result, len(ws))
	if rp.err != nil {
		return res
	}
	var in bytes.Buffer
	e := json.NewEncoder(&in)
	for _, w := range ws {
		e.Encode(w)
	}
	cmd := exec.Command(rp.bin)
	cmd.Stdin = &in
	var out bytes.Buffer
	cmd.Stdout = &out
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return res
	}
	go func() { done <- cmd.Wait() }()
	ok := false
	select {
	case err := <-done:
		ok = err == nil
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
	}
	d := json.NewDecoder(&out)
	i := 0
	for ; i < len(ws); i++ {
		var r result
		if d.Decode(&r) != nil {
			break
		}
		res[i] = r
	}
	if !ok {
		for ; i < len(ws); i++ {
			res[i] = rp.one(ws[i], 20*time.Second)
		}
	}
	return res
}

func run() int {
	start := time.Now()
	root, _ := filepath.Abs(".")
	if e := os.Getenv("VERIF_ROOT"); e != "" {
		root = e
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	lim := *limit
	if lim == 0 {
		lim = 540 * time.Second
		if *tier == "thorough" {
			lim = 3 * time.Hour
		}
	}
	ns := *nsamp
	if ns == 0 {
		ns = 60
		if *tier == "thorough" {
			ns = 400
		}
	}
	os.MkdirAll(filepath.Join(root, "bin"), 0o755)
	tmp, err := os.MkdirTemp(filepath.Join(root, "bin"), "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	var overlay map[string][]byte
	ovfile := ""
	if *prop == "C21" || *prop == "C22" {
		overlay, ovfile, err = instr.Overlay("/repo", tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, "overlay:", err)
		}
	}
	prog, err := sym.Load(filepath.Join(root, "harness"), goEnv(), overlay, "./h", "./models")
	if err != nil && overlay != nil {
		fmt.Fprintln(os.Stderr, "with scheduling points:", err)
		overlay, ovfile = nil, ""
		prog, err = sym.Load(filepath.Join(root, "harness"), goEnv(), nil, "./h", "./models")
	}
	rp := newReplayer(root, tmp, ovfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var names []string
	re := regexp.MustCompile(*only)
	for _, n := range prog.Funcs(hpkg) {
		if strings.HasPrefix(n, *prop+"_") && re.MatchString(n) {
			if strings.HasSuffix(n, "_T") && *tier != "thorough" {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	loadS := time.Since(start).Seconds()
	ex := sym.NewExplorer(prog, sym.Config{
		Workers: *nwork, MaxSteps: 600_000, Deadline: time.Now().Add(lim), Tier: *tier, MaxSamples: ns, Seed: seed,
		Confirm: func(c *sym.Cand) bool {
			r := rp.one(c.W, 30*time.Second)
			for i := 0; i < 12 && r.bad() == "" && !r.Dropped && (len(c.W.Trace) > 0 || strings.Contains(strings.Join(c.Notes, " "), "map iteration")); i++ {
				r = rp.one(c.W, 30*time.Second) // the native order is random
			}
			if *verbose {
				fmt.Printf("  candidate %s: %s -> native: %q missing=%v dropped=%v\n", c.Harness, c.Msg, r.bad(), r.Missing, r.Dropped)
				if r.bad() == "" {
					b, _ := json.Marshal(c.W)
					if len(b) > 300 {
						b = b[:300]
					}
					fmt.Printf("    %s\n", b)
				}
			}
			if m := r.bad(); m != "" {
				c.Msg += " (native run: " + m + ")"
				return true
			}
			return false
		},
	})
	hs, err := ex.Run(hpkg, names)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	exploreS := time.Since(start).Seconds() - loadS

	// cross-validation: sampled paths are run natively
	type viol struct{ harness, msg, file string }
	var viols []viol
	validated, mismatched, checkedObs := 0, 0, 0
	mism := []string{}
	save := func(h string, w *sym.Witness, msg string) string {
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, *prop+"-"+h+".json")
		b, _ := json.MarshalIndent(struct {
			*sym.Witness
			Msg string `json:"msg"`
		}{w, msg}, "", " ")
		os.WriteFile(f, b, 0o644)
		return f
	}
	<-rp.ready
	if rp.err != nil {
		fmt.Fprintln(os.Stderr, rp.err)
		return 2
	}
	spurious := 0
	for _, h := range hs {
		conf := false
		for _, c := range h.Cands {
			if c.Conf {
				if !conf {
					viols = append(viols, viol{h.Name, c.Msg, save(h.Name, c.W, c.Msg)})
				}
				conf = true
			} else {
				spurious++
			}
		}
		if len(h.Samples) == 0 {
			continue
		}
		rs := rp.batch(h.Samples)
		for i, r := range rs {
			w := h.Samples[i]
			if r.Harness == "" && r.crash == "" {
				continue
			}
			if m := r.bad(); m != "" {
				if !conf {
					conf = true
					// make sure: again, alone
					if m2 := rp.one(w, 60*time.Second).bad(); m2 != "" {
						viols = append(viols, viol{h.Name, "path witness: " + m2, save(h.Name, w, m2)})
					}
				}
				continue
			}
			if r.Dropped {
				mismatched++
				mism = append(mism, h.Name+": native run rejected the witness")
				continue
			}
			ok := true
			if w.Partial == "" && w.Expect != nil {
				if len(w.Expect) != len(r.Observed) {
					ok = false
					mism = append(mism, fmt.Sprintf("%s: %d observations natively, %d symbolically", h.Name, len(r.Observed), len(w.Expect)))
				} else {
					for k := range w.Expect {
						checkedObs++
						if w.Expect[k].V != "?" && w.Expect[k] != r.Observed[k] {
							if *verbose && mismatched < 3 {
								b, _ := json.Marshal(w)
								fmt.Printf("  differs: %s missing=%v\n", b, r.Missing)
							}
							ok = false
							mism = append(mism, fmt.Sprintf("%s: %s is %s natively, %s symbolically", h.Name, w.Expect[k].Name, r.Observed[k].V, w.Expect[k].V))
							break
						}
					}
				}
			}
			if ok {
				validated++
			} else {
				mismatched++
			}
		}
	}

	known := knownFindings(filepath.Join(root, "known-findings.txt"), *prop)
	exit := 0
	nviol := 0
	for _, v := range viols {
		isKnown := false
		for _, k := range known {
			if k.harness == v.harness && strings.Contains(v.msg, k.msg) {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				break
			}
		}
		if isKnown {
			continue
		}
		nviol++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.file)
		fmt.Printf("  %s: %s\n", v.harness, v.msg)
	}

	// report
	incomplete := []string{}
	paths, done, infeas, asserts, queries, undecided, dropped, maxdec, steps := 0, 0, 0, 0, 0, 0, 0, 0, int64(0)
	closed, closureNodes, closureS := 0, 0, 0.0
	notes := map[string]int{}
	bounds := map[string]interface{}{}
	var perH []interface{}
	for _, h := range hs {
		paths += h.Paths
		done += h.Done
		infeas += h.Infeasible
		asserts += h.Asserts
		queries += h.Queries
		undecided += h.Undecided
		dropped += h.Dropped
		steps += h.Steps
		if h.MaxDec > maxdec {
			maxdec = h.MaxDec
		}
		for n, c := range h.Notes {
			notes[n] += c
		}
		for m, c := range h.Unsupported {
			incomplete = append(incomplete, fmt.Sprintf("%s: not encodable (%d paths): %s", h.Name, c, m))
		}
		for m, c := range h.Limits {
			incomplete = append(incomplete, fmt.Sprintf("%s: %s (%d paths)", h.Name, m, c))
		}
		if h.Undecided > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d assertions undecided by the solver", h.Name, h.Undecided))
		}
		if h.Dropped > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d branches not explored (time or stopped)", h.Name, h.Dropped))
		}
		if h.Closed != "unsat" && h.Dropped == 0 && len(h.Limits) == 0 && len(h.Unsupported) == 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: closure query: %s", h.Name, h.Closed))
		}
		if h.Closed == "unsat" {
			closed++
		}
		closureNodes += h.ClosureNodes
		closureS += h.ClosureTime.Seconds()
		if h.Done == 0 && h.Paths > 0 {
			incomplete = append(incomplete, h.Name+": no path completed")
		}
		hb := map[string]string{}
		for k, b := range h.Bounds {
			hb[k] = b
		}
		if len(hb) > 0 {
			bounds[h.Name] = hb
		}
		perH = append(perH, map[string]interface{}{"harness": h.Name, "paths": h.Paths, "assertions": h.Asserts, "queries": h.Queries,
			"covers": h.Covers, "seconds": round(h.Elapsed().Seconds()), "complete": h.Complete(), "closure": h.Closed, "closure_nodes": h.ClosureNodes, "deepest_path_decisions": h.MaxDec})
		if *verbose {
			fmt.Printf("%-34s paths=%d done=%d infeas=%d asserts=%d queries=%d undecided=%d dropped=%d samples=%d steps=%d %.1fs closure=%s/%d/%.1fs covers=%v notes=%v\n", h.Name, h.Paths, h.Done,
				h.Infeasible, h.Asserts, h.Queries, h.Undecided, h.Dropped, len(h.Samples), h.Steps, h.Elapsed().Seconds(), h.Closed, h.ClosureNodes, h.ClosureTime.Seconds(), h.Covers, h.Notes)
		}
	}
	sort.Strings(incomplete)
	fns, modelled := ex.FunctionsUsed("renthraysk/xtorm")
	st := ex.Stats
	wall := time.Since(start).Seconds()
	var samples []interface{}
	for _, h := range hs {
		if len(h.Samples) > 0 && len(samples) < 4 {
			samples = append(samples, h.Samples[len(h.Samples)-1])
		}
	}
	noteList := []string{}
	for n := range notes {
		noteList = append(noteList, n)
	}
	sort.Strings(noteList)
	if len(mism) > 8 {
		mism = mism[:8]
	}
	if len(incomplete) > 40 {
		incomplete = incomplete[:40]
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        done,
			"transitions":                   steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"meaning":                       "states: symbolic paths run to their end, each standing for every input satisfying its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: path witnesses from the solver run natively with the same result",
			"paths_infeasible":              infeas,
			"assertions_reached":            asserts,
			"assertion_queries":             queries,
			"assertions_undecided":          undecided,
			"closure_queries_unsat":         closed,
			"closure_query_nodes":           closureNodes,
			"closure_seconds":               round(closureS),
			"closure_meaning":               "one query per harness: are there values of the case-split variables (schedule, choices, feasible branches) that lead to no decided path; unsat means none was left out",
			"solver_queries":                st.Queries,
			"solver_sat":                    st.Sat,
			"solver_unsat":                  st.Unsat,
			"solver_unknown":                st.Unknown,
			"solver_fallbacks":              st.Fallbacks,
			"solver_errors":                 st.Errors,
			"solver_seconds":                round(float64(st.Nanos) / 1e9),
			"load_seconds":                  round(loadS),
			"explore_seconds":               round(exploreS),
			"exhaustive":                    len(incomplete) == 0 && nviol == 0,
			"incomplete":                    incomplete,
			"bounds":                        bounds,
			"harnesses":                     perH,
			"functions_encoded":             fns,
			"functions_modelled":            modelled,
			"native_mismatches":             mismatched,
			"native_mismatch_samples":       mism,
			"observations_compared":         checkedObs,
			"unreproduced_counterexamples":  spurious,
		},
		"assumptions": noteList,
		"wall_s":      round(wall),
		"violations":  nviol,
	}
	if !*noEv {
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(root, "evidence", *prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions (%d solver queries for them, %d queries in all, %.1fs solver), %d witnesses replayed natively, %d functions of the repository encoded, %.1fs\n",
		*prop, *tier, len(hs), done, asserts, queries, st.Queries, float64(st.Nanos)/1e9, validated, len(fns), wall)
	for _, s := range incomplete {
		fmt.Println("  incomplete:", s)
	}
	if spurious > 0 || mismatched > 0 {
		fmt.Printf("  engine disagreements: %d counterexamples not reproduced, %d witnesses differ: %v\n", spurious, mismatched, mism)
	}
	if exit == 0 && done == 0 && validated == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	return exit
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

type finding struct{ harness, msg, text string }

// knownFindings reads lines "finding: property=<id> harness=<name> msg=<text> | description".
func knownFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []finding
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) msg=(.*?) \| (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			r = append(r, finding{m[2], m[3], m[4]})
		}
	}
	return r
}
