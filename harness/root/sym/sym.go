// Package sym is the interface between the harnesses and the symbolic engine.
// The engine (gosym) intercepts every function here; the bodies below are the
// native meaning, used to replay a counterexample (or to validate a path)
// against the compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
)

// Replay is the recorded run.
type Replay struct {
	Harness  string   `json:"harness"`
	Thorough bool     `json:"thorough"`
	Values   []uint64 `json:"values"`
	Kinds    []string `json:"kinds"`
}

var (
	cur   Replay
	pos   int
	fails int
	tmp   string
	limit int64
)

// Load reads the replay file.
func Load(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		panic(err)
	}
	return cur.Harness
}

func draw(kind string) uint64 {
	if pos >= len(cur.Values) {
		fmt.Fprintln(Out, "GOSYM-DIVERGED: out of inputs")
		os.Exit(3)
	}
	if cur.Kinds[pos] != kind {
		fmt.Fprintf(Out, "GOSYM-DIVERGED: input %d is %s, want %s\n", pos, cur.Kinds[pos], kind)
		os.Exit(3)
	}
	v := cur.Values[pos]
	pos++
	return v
}

// Exhausted reports whether all recorded inputs were consumed.
func Exhausted() bool { return pos == len(cur.Values) }

// Fails is the number of failed assertions.
func Fails() int { return fails }

func Byte() byte     { return byte(draw("byte")) }
func Bool() bool     { return draw("bool") != 0 }
func Int64() int64   { return int64(draw("int64")) }
func Int() int       { return int(draw("int64")) }
func Uint64() uint64 { return draw("int64") }
func Uint32() uint32 { return uint32(draw("uint32")) }
func Rune() rune     { return rune(draw("uint32")) }

// Choose returns a value in [0,n); every one is explored.
func Choose(n int) int { return int(draw("choose")) }

// Bytes returns n unconstrained bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// String returns a string of n unconstrained bytes.
func String(n int) string { return string(Bytes(n)) }

// StringIn returns a string of n bytes, each one of alphabet.
func StringIn(n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// Word returns one of the string literals in the code of the packages whose
// path ends in pkg, as it is now; kind is "ident" (identifiers), "text"
// (printable) or "any"; at most max bytes. Every one is explored.
func Word(pkg, kind string, max int) string {
	b := make([]byte, draw("word"))
	for i := range b {
		b[i] = byte(draw("letter"))
	}
	return string(b)
}

// Size returns min, max, or one of the integer constants in the code of the
// packages whose path ends in pkg, as it is now, or a neighbour of one, that
// lies between the two. Every one is explored.
func Size(pkg string, min, max int) int { return int(draw("size")) }

// Assume drops paths on which c is false.
func Assume(c bool) {
	if !c {
		fmt.Fprintln(Out, "GOSYM-ASSUME-FALSE")
		os.Exit(4)
	}
}

// Assert checks c for every value.
func Assert(c bool, msg string) {
	if !c {
		fails++
		fmt.Fprintln(Out, "GOSYM-ASSERT-FAIL: " + msg)
	}
}

// Fail reports a violation on this path.
func Fail(msg string) { Assert(false, msg) }

// Cover marks a point that must be reachable.
func Cover(label string) {}

// ObserveStr, ObserveInt and ObserveBool record outputs compared with the native run.
func ObserveStr(label, v string) { fmt.Fprintf(Out, "GOSYM-OBS: %s=%q\n", label, v) }
func ObserveInt(label string, v int64) {
	fmt.Fprintf(Out, "GOSYM-OBS: %s=%d\n", label, v)
}
func ObserveBool(label string, v bool) { fmt.Fprintf(Out, "GOSYM-OBS: %s=%t\n", label, v) }

// And, Or, Not, Implies, Eq combine conditions without splitting paths.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt and IteStr... select without splitting paths.
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// MapOrder turns exploration of every map iteration order on or off.
func MapOrder(on bool) {}

// Thorough reports whether the deep tier is running.
func Thorough() bool { return cur.Thorough }

// AllocLimit sets the largest single allocation allowed from here on.
func AllocLimit(n int64) { limit = n }

// MeasureAlloc runs f and fails when it allocates far more than the limit.
func MeasureAlloc(f func()) {
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	defer func() {
		runtime.ReadMemStats(&b)
		if d := b.TotalAlloc - a.TotalAlloc; d > 64<<20 {
			fmt.Fprintf(Out, "GOSYM-ASSERT-FAIL: alloc: %d bytes allocated\n", d)
			fails++
		}
	}()
	f()
}

// Parallel runs f with the guarantee that it writes no memory that existed
// before (checked by the engine; natively: concurrently, under the race detector).
func Parallel(f func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < 20; j++ {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
}

// Sequential ends what Parallel began: from here on there is one goroutine.
func Sequential() {}

func root() string {
	if tmp == "" {
		d, err := os.MkdirTemp("", "gosym-replay-")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

// Cleanup removes the scratch directory.
func Cleanup() {
	if tmp != "" && strings.Contains(tmp, "gosym-replay-") {
		os.RemoveAll(tmp)
	}
}

// Path gives the name of a file in the scratch directory.
func Path(name string) string { return filepath.Join(root(), name) }

// WriteFile creates a file in the scratch directory.
func WriteFile(name, data string) {
	p := Path(name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		panic(err)
	}
}

// ReadFile reads a file of the scratch directory ("" and false if absent).
func ReadFile(name string) (string, bool) {
	b, err := os.ReadFile(Path(name))
	return string(b), err == nil
}

// Out is where the replay reports (the original standard output).
var Out = os.Stdout

// Redirect sends what is written to standard output (1) or error (2) to a file
// of the scratch directory from here on.
func Redirect(fd int, name string) {
	f, err := os.Create(Path(name))
	if err == nil && fd == 1 && Out == os.Stdout {
		var d int
		if d, err = syscall.Dup(1); err == nil {
			Out = os.NewFile(uintptr(d), "out")
		}
	}
	if err == nil {
		err = syscall.Dup2(int(f.Fd()), fd)
	}
	if err != nil {
		panic(err)
	}
}

// Setenv sets an environment variable.
func Setenv(k, v string) { os.Setenv(k, v) }

// Fix makes n concrete, exploring each value.
func Fix(n int) int { return n }

// FixStr makes a string concrete, exploring each value.
func FixStr(s string) string { return s }

// Primitives of the models package (engine only).
func XLeaves(v any, write bool) ([]int, bool) { panic("engine only") }
func XSetLeaf(v any, i int, x uint64)         { panic("engine only") }
func XGetLeaf(v any, i int) uint64            { panic("engine only") }
func XLen(v any) int                          { panic("engine only") }
func XSwap(v any, i, j int)                   { panic("engine only") }
func XComparable(v any) bool                  { panic("engine only") }
func XAssign(target any, err error) bool      { panic("engine only") }
func XMapKeys(m any) []any                    { panic("engine only") }
func XRead(name string) (string, int)         { panic("engine only") }
func XWrite(name, data string)                { panic("engine only") }
func XRemove(name string)                     { panic("engine only") }
func XMkdir(name string)                      { panic("engine only") }
func XList(name string) []string              { panic("engine only") }
func XExit(code int)                          { panic("engine only") }
