// Package sym declares the nondeterministic functions used by the harnesses. The symbolic
// executor intercepts all of them; the bodies below are used when a counterexample is
// replayed natively, in which case the values come from the solver's model.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

var (
	mtx    sync.Mutex
	values map[string]uint64
	counts = map[string]int{}
	// QuiesceHook waits until all other goroutines are blocked.
	QuiesceHook = func() {}
)

// Load reads the replay values.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &values)
}

// Reset clears the counters before a replay.
func Reset() {
	mtx.Lock()
	counts = map[string]int{}
	mtx.Unlock()
}

func next(name string) string {
	c := counts[name]
	counts[name]++
	return fmt.Sprintf("%s#%d", name, c)
}

func get(name string) uint64 {
	mtx.Lock()
	defer mtx.Unlock()
	return values[next(name)]
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name) != 0 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name)) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(get(name)) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return get(name) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return int64(get(name)) }

// Int is an arbitrary int in [lo, hi].
func Int(name string, lo, hi int) int { return int(int64(get(name))) }

// Choose is an arbitrary int in [0, n), explored by forking.
func Choose(name string, n int) int {
	mtx.Lock()
	defer mtx.Unlock()
	p := next(name)
	for i := 0; i < n-1; i++ {
		if values[fmt.Sprintf("%s.%d", p, i)] != 0 {
			return i
		}
	}
	return n - 1
}

// BytesN is an arbitrary byte slice of length n.
func BytesN(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return b
}

// StringN is an arbitrary string of length n.
func StringN(name string, n int) string { return string(BytesN(name, n)) }

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		fmt.Println("SYM-ASSUME-FALSE")
		os.Exit(4)
	}
}

// Assert is a proof obligation.
func Assert(c bool, msg string) {
	if !c {
		fmt.Printf("SYM-ASSERT-FAIL: %s\n", msg)
		os.Exit(3)
	}
}

// Cover marks a point which must be reachable.
func Cover(name string) { fmt.Println("SYM-COVER: " + name) }

// Yield is an explicit scheduling point.
func Yield() {}

// Quiesce waits until every other goroutine is blocked or done.
func Quiesce() { QuiesceHook() }

// NumBlocked counts the blocked goroutines (engine only).
func NumBlocked() int { return 0 }

// Symbolic reports whether the code runs in the symbolic executor.
func Symbolic() bool { return false }

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

// Or and And build conditions without forking.
func Or(a, b bool) bool  { return a || b }
func And(a, b bool) bool { return a && b }

// IteInt selects without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Mutex protects the harness's own bookkeeping. It is no scheduling point in the engine,
// where code between two scheduling points is atomic anyway.
type Mutex struct{ m sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() { m.m.Lock() }

// Unlock unlocks.
func (m *Mutex) Unlock() { m.m.Unlock() }
