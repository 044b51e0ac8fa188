// Command replay runs harnesses natively, against the real code, on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness/h"
	"verif/harness/v"
)

type witness struct {
	Harness string    `json:"harness"`
	Tier    string    `json:"tier"`
	Inputs  []v.Input `json:"inputs"`
	Expect  []v.Obs   `json:"expect"`
	Msg     string    `json:"msg"`
	Trace   []int     `json:"trace"`
}

type result struct {
	Harness  string   `json:"harness"`
	Failures []string `json:"failures"`
	Panic    string   `json:"panic"`
	Observed []v.Obs  `json:"observed"`
	Dropped  bool     `json:"dropped"`
	Missing  []string `json:"missing"`
	Millis   int64    `json:"millis"`
}

func run(w witness) (r result) {
	r.Harness = w.Harness
	f := h.Registry[w.Harness]
	if f == nil {
		r.Panic = "unknown harness"
		return
	}
	st := v.Begin(w.Inputs, w.Tier)
	v.Schedule(w.Trace)
	t := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil && !v.Ended(x) {
				r.Panic = fmt.Sprintf("%v\n%s", x, debug.Stack())
			}
		}()
		f()
	}()
	<-done
	if v.AfterRun != nil {
		v.AfterRun()
	}
	r.Millis = time.Since(t).Milliseconds()
	r.Failures, r.Observed, r.Dropped, r.Missing = st.Failures, st.Observed, st.Dropped, st.Missing
	return
}

func main() {
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	debug.SetMemoryLimit(6 << 30)
	if len(os.Args) > 1 { // human use: replay FILE
		f, err := os.Open(os.Args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		in = json.NewDecoder(f)
	}
	bad := false
	for {
		var w witness
		if err := in.Decode(&w); err != nil {
			break
		}
		r := run(w)
		out.Encode(r)
		if len(r.Failures) > 0 || r.Panic != "" {
			bad = true
		}
	}
	if len(os.Args) > 1 && bad {
		os.Exit(1)
	}
}
