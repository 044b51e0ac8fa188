package v

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Par runs the functions concurrently and waits for them. Under the engine
// their interleaving is symbolic; natively it follows the recorded order.
func Par(fs ...func()) {
	for _, f := range fs {
		member(f)
	}
	quiesce()
}

// sched makes goroutines pass the scheduling points in the recorded order.
type sched struct {
	mu      sync.Mutex
	trace   []int
	pos     int
	ids     map[int64]int
	n       int // goroutines started
	active  bool
	live    int
	members int
	running int // between two scheduling points, or -1
	since   time.Time
	moved   time.Time
	free    bool
	dead    bool // a failure ended the run
}

var sc *sched

// Schedule is the recorded order of goroutines at scheduling points.
func Schedule(trace []int) {
	sc = &sched{trace: trace, ids: map[int64]int{}, running: -1}
}

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	n, _ := strconv.ParseInt(string(s), 10, 64)
	return n
}

// Yield is a scheduling point.
func Yield() {
	s := sc
	if s == nil {
		return
	}
	g := goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	id, ok := s.ids[g]
	if !ok || !s.active {
		return
	}
	if s.running == id {
		s.running = -1
	}
	for !s.free {
		now := time.Now()
		if s.pos >= len(s.trace) {
			s.free = true
			break
		}
		if s.running != -1 && now.Sub(s.since) > 25*time.Millisecond {
			s.running = -1 // it waits for something
		}
		if s.running == -1 && s.trace[s.pos] == id {
			s.pos++
			s.running, s.since, s.moved = id, now, now
			return
		}
		if now.Sub(s.moved) > 2*time.Second {
			s.free = true
			break
		}
		s.mu.Unlock()
		time.Sleep(50 * time.Microsecond)
		s.mu.Lock()
	}
}

// Spawn starts a goroutine.
func Spawn(f func()) { start(f, false) }

func member(f func()) { start(f, true) }

func start(f func(), m bool) {
	s := sc
	s.mu.Lock()
	s.n++
	id := s.n
	s.live++
	if m {
		s.active = true
		s.members++
	}
	s.moved = time.Now()
	s.mu.Unlock()
	go func() {
		s.mu.Lock()
		s.ids[goid()] = id
		s.mu.Unlock()
		defer func() {
			if x := recover(); x != nil {
				if !Ended(x) {
					cur.mu.Lock()
					cur.Failures = append(cur.Failures, fmt.Sprintf("panic in a goroutine: %v", x))
					cur.mu.Unlock()
				}
				s.mu.Lock()
				s.dead = true
				s.mu.Unlock()
			}
			s.mu.Lock()
			s.live--
			if m {
				s.members--
			}
			if s.running == id {
				s.running = -1
			}
			s.mu.Unlock()
		}()
		Yield()
		f()
	}()
}

// quiesce waits for the goroutines. One started by the code under test may
// go on waiting; one of the harness may not.
func quiesce() {
	s := sc
	quiet := time.Time{}
	for t := time.Now(); ; time.Sleep(100 * time.Microsecond) {
		s.mu.Lock()
		live, members, dead, moved := s.live, s.members, s.dead, s.moved
		s.mu.Unlock()
		if dead {
			panic(stop{})
		}
		if live == 0 {
			break
		}
		if members == 0 {
			if quiet.IsZero() {
				quiet = time.Now()
			}
			if time.Since(quiet) > 300*time.Millisecond && time.Since(moved) > 300*time.Millisecond {
				break
			}
		}
		if time.Since(t) > 8*time.Second {
			cur.mu.Lock()
			cur.Failures = append(cur.Failures, "deadlock: a call does not return")
			cur.mu.Unlock()
			panic(stop{})
		}
	}
	s.mu.Lock()
	s.active = false
	s.mu.Unlock()
}

// AfterRun ends what a run started.
var AfterRun func()
