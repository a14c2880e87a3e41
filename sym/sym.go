// Package sym is what the harnesses draw their inputs from. Under the symbolic engine every
// function here is intercepted and the inputs are symbolic variables; in a native build (this
// file) the inputs are read from a recorded trace, so that a counterexample or a witness of the
// solver is replayed against the real code compiled by the Go toolchain.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

type Draw struct {
	Kind  string `json:"k"`
	Label string `json:"l"`
	Val   uint64 `json:"v"`
}

type Trace struct {
	Harness  string `json:"harness"`
	Thorough bool   `json:"thorough"`
	Draws    []Draw `json:"draws"`
}

var (
	trace Trace
	pos   int
	out   *os.File
	mu    sync.Mutex
)

func emit(s string) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintln(out, strings.Replace(s, "\n", "\\n", -1))
}

// Main runs the named harness natively on a recorded trace.
func Main(hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("SYM_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.Unmarshal(data, &trace); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err = os.OpenFile(os.Getenv("SYM_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	h := hs[trace.Harness]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", trace.Harness)
		os.Exit(3)
	}
	defer func() {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		emit(fmt.Sprint("ALLOC ", ms.TotalAlloc))
		if r := recover(); r != nil {
			emit(fmt.Sprint("PANIC ", r))
			os.Exit(0)
		}
		emit("END")
		os.Exit(0)
	}()
	h()
}

func next(kind, label string) uint64 {
	if pos >= len(trace.Draws) {
		emit("DIVERGED: draw past the end of the trace: " + kind + " " + label)
		os.Exit(0)
	}
	d := trace.Draws[pos]
	pos++
	if d.Kind != kind || d.Label != label {
		emit("DIVERGED: recorded " + d.Kind + " " + d.Label + ", now " + kind + " " + label)
		os.Exit(0)
	}
	return d.Val
}

func Symbolic() bool { return false }
func Thorough() bool { return trace.Thorough }
func Bound(quick, thorough int) int {
	if trace.Thorough {
		return thorough
	}
	return quick
}

func Bool(label string) bool     { return next("bool", label) != 0 }
func Byte(label string) byte     { return byte(next("byte", label)) }
func Int(label string) int       { return int(next("int", label)) }
func Int8(label string) int8     { return int8(next("int8", label)) }
func Int16(label string) int16   { return int16(next("int16", label)) }
func Int32(label string) int32   { return int32(next("int32", label)) }
func Int64(label string) int64   { return int64(next("int64", label)) }
func Uint(label string) uint     { return uint(next("uint", label)) }
func Uint8(label string) uint8   { return uint8(next("uint8", label)) }
func Uint16(label string) uint16 { return uint16(next("uint16", label)) }
func Uint32(label string) uint32 { return uint32(next("uint32", label)) }
func Uint64(label string) uint64 { return next("uint64", label) }

// IntRange is any integer in [lo, hi].
func IntRange(label string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next("int", label))
}

// Choose is any of 0..n-1; every value is explored on its own path.
func Choose(label string, n int) int { return int(next("choose", label)) }

func str(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("byte", label))
	}
	return string(b)
}

// String is any string of n bytes; ASCII restricts it to bytes below 0x80, StringOf to an alphabet.
func String(label string, n int) string             { return str(label, n) }
func ASCII(label string, n int) string              { return str(label, n) }
func StringOf(label string, n int, _ string) string { return str(label, n) }

func Assume(c bool) {
	if !c {
		emit("ASSUME-FAILED")
		os.Exit(0)
	}
}

func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

func Fail(label string) {
	emit("VIOL " + label)
	os.Exit(0)
}

// Stop abandons the path.
func Stop() { emit("ASSUME-FAILED"); os.Exit(0) }

func Cover(label string) { emit("COVER " + label) }

func Observe(label string, v interface{}) { emit("OBS " + label + " " + show(reflect.ValueOf(v))) }

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(v.Bytes()))
		}
		s := make([]string, v.Len())
		for i := range s {
			s[i] = show(v.Index(i))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Interface:
		return show(v.Elem())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return "nil"
		}
		return v.Kind().String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	}
	return v.Kind().String()
}

// Connectives that build one formula instead of branching.
func And(cs ...bool) bool {
	r := true
	for _, c := range cs {
		r = r && c
	}
	return r
}
func Or(cs ...bool) bool {
	r := false
	for _, c := range cs {
		r = r || c
	}
	return r
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete forks until the value is a constant on the path.
func Concrete(s string) string  { return s }
func ConcreteInt(n int) int     { return n }
func MapOrder(on bool)          {}
func Race()                     {}

// AnyRandom makes crypto/rand return any bytes at all (under the engine).
func AnyRandom() {}
func Yield()                    { runtime.Gosched() }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	p = true
	defer func() { recover() }()
	f()
	p = false
	return
}
