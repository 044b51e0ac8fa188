// Package v is the harness library. Under the symbolic engine its functions
// are primitives: inputs are solver variables and Assert is a proof
// obligation. Natively (replay) inputs come from a recorded witness.
package v

import (
	"fmt"
	"strconv"
	"sync"
)

// Input is one recorded input.
type Input struct {
	Name string            `json:"name"`
	Kind string            `json:"kind"`
	V    uint64            `json:"v"`
	Set  map[string]string `json:"set,omitempty"`
}

// Obs is an observed value.
type Obs struct {
	Name string `json:"name"`
	V    string `json:"v"`
}

// Run is the state of a native run.
type Run struct {
	mu       sync.Mutex
	Inputs   map[string]*Input
	names    map[string]int
	Failures []string
	Observed []Obs
	Covers   map[string]bool
	Tier     string
	Dropped  bool
	Missing  []string
}

var cur *Run

// Begin starts a native run.
func Begin(in []Input, tier string) *Run {
	r := &Run{Inputs: map[string]*Input{}, names: map[string]int{}, Covers: map[string]bool{}, Tier: tier}
	for i := range in {
		r.Inputs[in[i].Name] = &in[i]
	}
	cur = r
	return r
}

type stop struct{}

// Ended reports whether a recovered value is the end of a run by Assume or Stop.
func Ended(x interface{}) bool { _, ok := x.(stop); return ok }

func lookup(name string) *Input {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	k := cur.names[name]
	cur.names[name]++
	if k > 0 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	in := cur.Inputs[name]
	if in == nil {
		cur.Missing = append(cur.Missing, name)
		in = &Input{Name: name}
	}
	return in
}

func U8(name string) uint8   { return uint8(lookup(name).V) }
func U16(name string) uint16 { return uint16(lookup(name).V) }
func U32(name string) uint32 { return uint32(lookup(name).V) }
func U64(name string) uint64 { return lookup(name).V }
func I8(name string) int8    { return int8(lookup(name).V) }
func I16(name string) int16  { return int16(lookup(name).V) }
func I32(name string) int32  { return int32(lookup(name).V) }
func I64(name string) int64  { return int64(lookup(name).V) }
func Bool(name string) bool  { return lookup(name).V == 1 }

// F32bits and F64bits are any bit pattern.
func F32bits(name string) uint32 { return uint32(lookup(name).V) }
func F64bits(name string) uint64 { return lookup(name).V }

// Int is any value from lo to hi.
func Int(name string, lo, hi int) int {
	x := int(lookup(name).V)
	if x < lo || x > hi {
		panic(stop{})
	}
	return x
}

// Choose is any value from 0 to n-1; the exploration splits on it.
func Choose(name string, n int) int {
	if n <= 1 {
		lookup0(name)
		return 0
	}
	x := int(lookup(name).V)
	if x >= n {
		x = 0
	}
	return x
}

func lookup0(name string) {
	cur.mu.Lock()
	cur.names[name]++
	cur.mu.Unlock()
}

// Fill is the value of input bytes no constraint mentions.
func Fill(i uint64) byte { return byte('A' + (i*7+i>>5)%26) }

func (in *Input) bytes() []byte {
	n := in.V
	if n > 1<<31 {
		panic(stop{})
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = Fill(uint64(i))
	}
	for k, x := range in.Set {
		i, err := strconv.ParseUint(k, 16, 64)
		if err != nil || i >= n {
			continue
		}
		y, _ := strconv.ParseUint(x, 16, 8)
		b[i] = byte(y)
	}
	return b
}

// Bytes is any byte slice of at most max bytes (never nil).
func Bytes(name string, max int) []byte { return lookup(name).bytes() }

// String is any string of at most max bytes.
func String(name string, max int) string { return string(lookup(name).bytes()) }

// BytesN is any byte slice of n bytes.
func BytesN(name string, n int) []byte {
	in := *lookup(name)
	in.V = uint64(n)
	return in.bytes()
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		cur.mu.Lock()
		cur.Dropped = true
		cur.mu.Unlock()
		panic(stop{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		cur.mu.Lock()
		cur.Failures = append(cur.Failures, msg)
		cur.mu.Unlock()
		panic(stop{})
	}
}

func EqBytes(a, b []byte, msg string) {
	Assert(len(a) == len(b), msg+": length")
	Assert(string(a) == string(b), msg+": content")
}

func EqString(a, b string, msg string) {
	Assert(len(a) == len(b), msg+": length")
	Assert(a == b, msg+": content")
}

// Cover marks a situation as reached.
func Cover(label string) {
	cur.mu.Lock()
	cur.Covers[label] = true
	cur.mu.Unlock()
}

// Fix makes the engine split on the value of x.
func Fix(x int) int { return x }

// Stop ends the path quietly.
func Stop() { panic(stop{}) }

// ObsInt and ObsBytes record values that the engine and a native run must agree on.
func ObsInt(name string, x uint64) {
	cur.mu.Lock()
	cur.Observed = append(cur.Observed, Obs{name, fmt.Sprint(x)})
	cur.mu.Unlock()
}

func ObsBytes(name string, b []byte) {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	s := fmt.Sprintf("%x", b)
	if len(b) > 2000 {
		s = fmt.Sprintf("len=%d", len(b))
	}
	cur.Observed = append(cur.Observed, Obs{name, s})
}

// Symbolic reports whether the engine is running the code.
func Symbolic() bool { return false }

func Thorough() bool { return cur.Tier == "thorough" }

// Bound is a bound of the exploration, larger in the thorough tier.
func Bound(name string, quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Preemptions bounds the preemptive context switches per schedule.
func Preemptions(n int) {}

// Tight chooses how append grows a buffer: with no spare room, or plenty.
func Tight(b bool) {}

// UFHash is, for the engine, an uninterpreted function of data.
func UFHash(name string, size int, data []byte) []byte { panic("v.UFHash is for the engine") }

// UF is, for the engine, an uninterpreted function.
func UF(name string, x uint64) uint64 { panic("v.UF is for the engine") }

// RegDate tells the engine the calendar date of a day number.
func RegDate(days uint64, y, m, d int) {}

// Note records an approximation.
func Note(s string) {}

// Concrete reports whether x is a constant for the engine.
func Concrete(x uint64) bool { return true }

// Unsupported ends a symbolic path as not encodable.
func Unsupported(msg string) { panic("not modelled: " + msg) }
