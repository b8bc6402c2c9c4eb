// Package zzsym is the harness API of the symbolic engine in /verif/engine, which
// intercepts every function here. The bodies below are the native implementation: they
// read the concrete inputs of one replayed case, so that the same harness runs against
// the real code.
package zzsym

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// Case is one replayed input assignment.
type Case struct {
	Harness string              `json:"harness"`
	Kind    string              `json:"kind"`
	ID      string              `json:"id,omitempty"`
	Msg     string              `json:"msg"`
	Inputs  map[string][]string `json:"inputs"`
	Trace   []string            `json:"trace,omitempty"`
	Conc    bool                `json:"conc,omitempty"`
}

// Stop is the panic value that ends a case early.
type Stop struct{ Kind, Msg string }

var (
	mu       sync.Mutex
	cur      *Case
	pos      map[string]int
	Findings map[string]string
	Fail     string
	Diverged string
	trace    []string
	isConc   bool
	thorough bool
	rnd      uint64 = 88172645463325252
)

// Begin starts a case.
func Begin(c *Case, th bool) {
	mu.Lock()
	defer mu.Unlock()
	cur, pos, Findings, Fail, Diverged, trace, isConc, thorough = c, map[string]int{}, map[string]string{}, "", "", nil, c.Conc, th
	rnd ^= uint64(os.Getpid()) * 0x9E3779B97F4A7C15
}

// TraceOut returns the recorded trace.
func TraceOut() []string { mu.Lock(); defer mu.Unlock(); return append([]string{}, trace...) }

func next(label string) string {
	mu.Lock()
	defer mu.Unlock()
	i := pos[label]
	pos[label]++
	l := cur.Inputs[label]
	if i >= len(l) {
		if Diverged == "" {
			Diverged = fmt.Sprintf("no value #%d for %q", i, label)
		}
		return ""
	}
	return l[i]
}

func num(label string) uint64 {
	s := next(label)
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func Bool(label string) bool  { return num(label) != 0 }
func U64(label string) uint64 { return num(label) }
func U32(label string) uint32 { return uint32(num(label)) }
func U16(label string) uint16 { return uint16(num(label)) }
func Byte(label string) byte  { return byte(num(label)) }
func I64(label string) int64  { return int64(num(label)) }
func I32(label string) int32  { return int32(num(label)) }
func I16(label string) int16  { return int16(num(label)) }
func I8(label string) int8    { return int8(num(label)) }
func Int(label string) int    { return int(num(label)) }
func F64(label string) float64 {
	return math.Float64frombits(num(label))
}
func F32(label string) float32 {
	return math.Float32frombits(uint32(num(label)))
}

// IntRange is any value in [lo,hi].
func IntRange(label string, lo, hi int) int {
	v := int(num(label))
	if v < lo || v > hi {
		if Diverged == "" {
			Diverged = "range of " + label
		}
		return lo
	}
	return v
}

// U64Range is any value in [lo,hi].
func U64Range(label string, lo, hi uint64) uint64 {
	v := num(label)
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Choose explores every value 0..n-1 as a separate path.
func Choose(label string, n int) int {
	v := int(num(label))
	if v >= n {
		return 0
	}
	return v
}

// Str is any string of exactly n bytes.
func Str(label string, n int) string { return string(Bytes(label, n)) }

// Bytes is any byte slice of exactly n bytes.
func Bytes(label string, n int) []byte {
	b, err := hex.DecodeString(next(label))
	if err != nil || len(b) != n {
		if Diverged == "" {
			Diverged = "length of " + label
		}
		b = make([]byte, n)
	}
	return b
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		if Fail == "" {
			Fail = msg
		}
		mu.Unlock()
		panic(Stop{"assert", msg})
	}
}

// Finding states a part of the property that is reported under its own id.
func Finding(id string, c bool, msg string) {
	if !c {
		mu.Lock()
		Findings[id] = msg
		mu.Unlock()
	}
}

// Unsupported ends the case: it is outside what the harness models (a reduced bound, never a verdict).
func Unsupported(msg string) { panic(Stop{"assume", msg}) }

func Reached(string)   {}
func Symbolic() bool   { return false }
func Thorough() bool   { return thorough }
func Concurrent(n int) { isConc = true }

// Races makes unsynchronised accesses of the code under test a violation.
func Races()        { isConc = true }
func Shared(p any)  {}
func MapOrder(bool) {}
func PoolMiss(b bool) {
	if b {
		// a garbage collection empties sync.Pool
		runtime.GC()
		runtime.GC()
	}
}
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Concretize(v uint64) uint64 { return v }

// Hash is the 64-bit content hash of the engine (an injective uninterpreted function there).
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h | 1<<60
}

var (
	base   int
	settle func()
)

// Start is called on the goroutine of the case right before it.
func Start(wait func()) { base, settle = runtime.NumGoroutine(), wait }

// Live waits until no other goroutine can make progress without time passing and returns how many of the
// goroutines started during the case are still there.
func Live() int {
	if settle != nil {
		settle()
		n := runtime.NumGoroutine() - base
		// a goroutine that has just ended is counted for a moment longer (time.Sleep would let virtual time pass)
		for i := 0; i < 20 && n > 0; i++ {
			t := syscall.Timespec{Nsec: 100000}
			syscall.Nanosleep(&t, nil)
			n = min(n, runtime.NumGoroutine()-base)
		}
		return n
	}
	n := 0
	for i := 0; i < 300; i++ {
		n = runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		time.Sleep(time.Millisecond)
	}
	return n
}

// Yield is a scheduling point.
func Yield() {
	if isConc {
		mu.Lock()
		rnd ^= rnd << 13
		rnd ^= rnd >> 7
		rnd ^= rnd << 17
		n := rnd % 8
		mu.Unlock()
		for i := uint64(0); i < n; i++ {
			runtime.Gosched()
		}
		return
	}
	runtime.Gosched()
}

// Trace records a value that the engine predicted for this path.
func Trace(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	trace = append(trace, label+"="+show(v))
}

func show(v any) string {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(r.Bool())
	case reflect.Int, reflect.Int64:
		return strconv.FormatUint(uint64(r.Int()), 10)
	case reflect.Int32:
		return strconv.FormatUint(uint64(uint32(r.Int())), 10)
	case reflect.Int16:
		return strconv.FormatUint(uint64(uint16(r.Int())), 10)
	case reflect.Int8:
		return strconv.FormatUint(uint64(uint8(r.Int())), 10)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.Float64, reflect.Float32:
		return strconv.FormatFloat(r.Float(), 'g', -1, 64)
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Slice:
		s := "["
		for i := 0; i < r.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += show(r.Index(i).Interface())
		}
		return s + "]"
	}
	return "?"
}

// Jitter delays the caller a little, at random (replays of schedules only).
func Jitter() {
	if !isConc {
		return
	}
	switch n := rand.Uint32(); {
	case n&7 < 2:
		for i := n >> 3 & 7; i > 0; i-- {
			runtime.Gosched()
		}
	case n&63 == 7:
		t := syscall.Timespec{Nsec: int64(n>>6&127) * 1000}
		syscall.Nanosleep(&t, nil)
	}
}
