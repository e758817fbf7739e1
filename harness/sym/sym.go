// Package sym is the interface between a harness and the checker. Symbolically executed,
// every function here is intercepted: inputs become symbolic variables and Assert becomes
// a solver query. Run natively, inputs are read from an assignment, in call order.
package sym

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// Case is one recorded assignment.
type Case struct {
	Harness string
	Tier    string
	In      []Input
	Outs    []Output `json:",omitempty"`
}

// Input is one input: a scalar (V) or a byte string (B).
type Input struct {
	Name string
	V    uint64
	B    []byte `json:",omitempty"`
}

// Output is an observation made by a harness.
type Output struct {
	Name string
	B    []byte
}

var (
	cur    *Case
	pos    int
	outs   []Output
	failed []string
	// Strict makes a missing or misnamed input end the process.
	Strict = true
	skip   bool
	snaps  []snap
)

// snap remembers memory that must not change.
type snap struct{ live, copy []byte }

type skipped struct{ why string }

// Run executes f under the assignment c.
func Run(c *Case, f func()) (o []Output, fails []string, skippedWhy string) {
	cur, pos, outs, failed, skip, snaps = c, 0, nil, nil, false, nil
	regions = nil
	checks = nil
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(skipped); ok {
				o, fails, skippedWhy = outs, failed, s.why
				return
			}
			panic(r)
		}
	}()
	f()
	for _, s := range snaps {
		if !bytes.Equal(s.live, s.copy) {
			failed = append(failed, "input memory was modified")
			break
		}
	}
	for _, c := range checks {
		if !c() {
			failed = append(failed, "a map of the input was modified")
			break
		}
	}
	return outs, failed, ""
}

func next(name string) Input {
	if cur == nil {
		fmt.Fprintln(os.Stderr, "sym: no assignment")
		os.Exit(9)
	}
	if pos >= len(cur.In) || cur.In[pos].Name != name {
		if Strict {
			if pos >= len(cur.In) && len(failed) > 0 {
				// The path ended at the assertion.
				panic(skipped{"no more input"})
			}
			panic(skipped{"input mismatch at " + name})
		}
		return Input{Name: name}
	}
	pos++
	return cur.In[pos-1]
}

// Upto is any integer in [0,n).
func Upto(name string, n int64) int64 {
	v := int64(next(name).V)
	if v >= n {
		panic(skipped{name + " out of range"})
	}
	return v
}

func Bool(name string) bool   { return next(name).V != 0 }
func U8(name string) uint8    { return uint8(next(name).V) }
func U16(name string) uint16  { return uint16(next(name).V) }
func U32(name string) uint32  { return uint32(next(name).V) }
func U64(name string) uint64  { return next(name).V }
func I8(name string) int8     { return int8(next(name).V) }
func I16(name string) int16   { return int16(next(name).V) }
func I32(name string) int32   { return int32(next(name).V) }
func I64(name string) int64   { return int64(next(name).V) }
func F64(name string) float64 { return math.Float64frombits(next(name).V) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name).V)) }

// guarded returns n bytes that end right before an inaccessible page.
func guarded(n int) []byte {
	const page = 4096
	k := (n + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, k+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil || syscall.Mprotect(m[k:], syscall.PROT_NONE) != nil {
		return make([]byte, n)
	}
	regions = append(regions, m[:k])
	return m[k-n : k : k]
}

// regions is the guarded memory of the case.
var regions [][]byte

// Bytes is a slice of exactly n symbolic bytes without spare capacity.
func Bytes(name string, n int) []byte {
	b := next(name).B
	if n == 0 {
		return []byte{}
	}
	r := guarded(n)
	copy(r, b)
	return r
}

// String is a string of exactly n symbolic bytes.
func String(name string, n int) string {
	b := next(name).B
	if n == 0 {
		return ""
	}
	r := guarded(n)
	copy(r, b)
	return unsafe.String(&r[0], n)
}

// Choose is one of 0..n-1; every alternative is explored as a separate path.
func Choose(name string, n int) int {
	v := int(next(name).V)
	if v < 0 || v >= n {
		panic(skipped{"choice out of range"})
	}
	return v
}

// Assume restricts the inputs.
func Assume(ok bool) {
	if !ok {
		panic(skipped{"assumption"})
	}
}

// Assert states the property.
func Assert(id string, ok bool) {
	if !ok {
		failed = append(failed, id)
	}
}

// Reach marks a point that some path has to reach.
func Reach(id string) {}

// Out records an observation, compared between symbolic and native runs.
func Out(name string, b []byte) { outs = append(outs, Output{name, append([]byte(nil), b...)}) }

// Thorough tells the tier.
func Thorough() bool { return cur != nil && cur.Tier == "thorough" }

// MapOrder makes map iteration order symbolic from here on.
func MapOrder(on bool) {}

// PoolMode: 0 pools are stacks, 1 Get returns any pooled item or none, 2 pools are always empty,
// 10+d like 1 for at most d calls of Get and like 0 otherwise.
func PoolMode(mode int) {}

// Concurrent enables goroutines with at most p preemptions per path and race detection.
func Concurrent(p int) {}

// ReadOnly forbids writes to the object holding b from here on.
func ReadOnly(b []byte) {
	if len(b) > 0 {
		snaps = append(snaps, snap{b, append([]byte(nil), b...)})
	}
}

// ReadOnlyStr forbids writes to the bytes of s.
func ReadOnlyStr(s string) {
	if len(s) > 0 {
		ReadOnly(unsafe.Slice(unsafe.StringData(s), len(s)))
	}
}

// ReadOnlyMem forbids writes to the object holding the n bytes at p.
func ReadOnlyMem(p unsafe.Pointer, n uintptr) {
	if n > 0 {
		ReadOnly(unsafe.Slice((*byte)(p), int(n)))
	}
}

// Native tells whether the harness runs natively.
func Native() bool { return true }

// Freeze forbids writes to everything reachable from v from here on.
func Freeze(v interface{}) {
	for _, m := range regions {
		syscall.Mprotect(m, syscall.PROT_READ)
	}
	regions = nil
	seen := map[unsafe.Pointer]bool{}
	var walk func(x reflect.Value)
	mem := func(p unsafe.Pointer, n uintptr) bool {
		if n == 0 || seen[p] {
			return false
		}
		seen[p] = true
		ReadOnlyMem(p, n)
		return true
	}
	walk = func(x reflect.Value) {
		switch x.Kind() {
		case reflect.Ptr:
			if !x.IsNil() && mem(x.UnsafePointer(), x.Type().Elem().Size()) {
				walk(x.Elem())
			}
		case reflect.Slice:
			if x.Cap() > 0 && mem(x.UnsafePointer(), uintptr(x.Cap())*x.Type().Elem().Size()) {
				for i := 0; i < x.Len(); i++ {
					walk(x.Index(i))
				}
			}
		case reflect.String:
			ReadOnlyStr(x.String())
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i))
			}
		case reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
			}
		case reflect.Interface:
			if !x.IsNil() {
				walk(x.Elem())
			}
		case reflect.Map:
			s := mapText(x)
			checks = append(checks, func() bool { return mapText(x) == s })
			for it := x.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		}
	}
	w := (*[2]unsafe.Pointer)(unsafe.Pointer(&v))
	if x := reflect.ValueOf(v); v != nil {
		switch x.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		default:
			if w[1] != nil && !direct(x.Type()) {
				mem(w[1], x.Type().Size())
			}
		}
		walk(x)
	}
}

var checks []func() bool

func mapText(x reflect.Value) string { return fmt.Sprintf("%v %d", x, x.Len()) }

func direct(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return t.Len() == 1 && direct(t.Elem())
	case reflect.Struct:
		return t.NumField() == 1 && direct(t.Field(0).Type)
	}
	return false
}

// New is a new value of type t, as by itself in memory as possible; it returns a pointer to it.
func New(t reflect.Type) reflect.Value {
	if !Native() || t.Size() == 0 {
		return reflect.New(t)
	}
	debug.SetGCPercent(-1) // the memory is not scanned
	b := guarded(int(t.Size()))
	return reflect.NewAt(t, unsafe.Pointer(&b[0]))
}

// Boxed is an interface holding the value p points to, by itself in memory.
func Boxed(p reflect.Value) interface{} {
	x := p.Elem().Interface()
	t := p.Type().Elem()
	if Native() && t.Size() > 0 && !direct(t) && t.Kind() != reflect.Interface {
		(*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] = p.UnsafePointer()
	}
	return x
}
