package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// Types used for the first time by several goroutines at once.
type (
	conLeaf struct {
		A int `json:"a,omitempty"`
		B []byte
		C map[string]int `json:"c,omitempty"`
	}
	conRec struct {
		V    int
		Next *conRec
		L    []conRec
	}
	conPing struct {
		P *conPong
		S string
	}
	conPong struct {
		Q *conPing
		M map[string]conPing `json:"m,omitempty"`
	}
	conNest []conNest
	conMap  map[string]conMap
	conMeth struct {
		F conPtrM
		G conText `json:",omitempty"`
	}
	conPtrM struct{ A int }
	conText int
	conEmb  struct {
		conLeaf
		*conRec
	}
)

func (c *conPtrM) MarshalJSON() ([]byte, error) { return []byte{'[', byte('0' + c.A), ' ', ']'}, nil }
func (c *conText) MarshalText() ([]byte, error) { return []byte{'<', byte('0' + *c)}, nil }

type conItem struct {
	mk func(n int) interface{}
	o  []jettison.Option
}

// Each group shares types: its values are used by concurrent calls.
var conGroups = [][]conItem{
	{
		{mk: func(n int) interface{} { return conRec{V: n, Next: &conRec{V: 2}, L: []conRec{{}}} }},
		{mk: func(n int) interface{} { return &conRec{V: 1, Next: &conRec{V: n}} }},
		{mk: func(n int) interface{} { return []conRec{{V: n}} }},
	},
	{
		{mk: func(n int) interface{} { return conPing{P: &conPong{Q: &conPing{S: "x"}}} }},
		{mk: func(n int) interface{} { return conPong{Q: &conPing{}, M: map[string]conPing{"k": {S: "y"}}} }},
	},
	{
		{mk: func(n int) interface{} { return conNest{nil, {}, {{}}} }},
		{mk: func(n int) interface{} { return conMap{"a": {"b": nil}, "c": {}} }},
	},
	{
		{mk: func(n int) interface{} { return conLeaf{A: n, B: []byte("xy"), C: map[string]int{"b": 2, "a": n}} }},
		{mk: func(n int) interface{} { return &conLeaf{B: []byte("<"), C: map[string]int{"z": 2, "y": 3}} }, o: []jettison.Option{jettison.NoHTMLEscaping()}},
		{mk: func(n int) interface{} { return conEmb{conLeaf{A: n}, &conRec{V: 3}} }},
	},
	{
		{mk: func(n int) interface{} { return conMeth{F: conPtrM{n}, G: 2} }},
		{mk: func(n int) interface{} { return &conMeth{F: conPtrM{n}} }},
	},
}

// together runs the calls concurrently and compares each with its expected result; then once more, one after the other.
func together(calls []func() ([]byte, error), want [][]byte) {
	got := make([][]byte, len(calls))
	errs := make([]error, len(calls))
	var wg sync.WaitGroup
	wg.Add(len(calls))
	for i := range calls {
		i := i
		go func() {
			defer wg.Done()
			if try(func() { got[i], errs[i] = calls[i]() }) {
				errs[i] = errSay
			}
		}()
	}
	wg.Wait()
	for i := range calls {
		sym.Assert("result of a concurrent call", (errs[i] == nil) == (want[i] != nil) && bytes.Equal(got[i], want[i]))
		sym.Out("got", got[i])
	}
	for i := range calls {
		var b []byte
		try(func() { b, _ = calls[i]() })
		sym.Assert("result afterwards", bytes.Equal(b, want[i]))
	}
	for i := range calls {
		sym.Assert("result unchanged", bytes.Equal(got[i], want[i]))
	}
}

func conCall(it conItem, n int) func() ([]byte, error) {
	v := it.mk(n)
	return func() ([]byte, error) {
		if it.o == nil {
			return jettison.Marshal(v)
		}
		return jettison.MarshalOpts(v, it.o...)
	}
}

func conWant(it conItem, n int) []byte {
	if it.o != nil {
		b, _ := stdNoHTML(it.mk(n))
		return b
	}
	b, _ := json.Marshal(it.mk(n))
	return b
}

func preempt(quick, thorough int) {
	if sym.Thorough() {
		sym.Concurrent(thorough)
	} else {
		sym.Concurrent(quick)
	}
}

// Q_C17_first_conc: two goroutines use types for the first time at once, caches empty or holding the types of a catalogue: all pairs of 3+2+2+3+2 values
// that share types (recursive, mutually recursive, recursive slices and maps, embedded, by value and by pointer).
// Preemption bound 2 (thorough: 3).
func Q_C17_first_conc() {
	g := conGroups[sym.Choose("types", len(conGroups))]
	a, b := g[sym.Choose("first", len(g))], g[sym.Choose("second", len(g))]
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	calls := []func() ([]byte, error){conCall(a, n), conCall(b, n)}
	want := [][]byte{conWant(a, n), conWant(b, n)}
	if sym.Choose("prefilled caches", 2) == 1 {
		for _, c := range catalog {
			jettison.Marshal(c.mk("a", 1))
		}
	}
	preempt(2, 3)
	together(calls, want)
}

// Q_C17_three_conc: three goroutines use a recursive type or two mutually recursive types for the first time at once,
// preemption bound 1 (thorough: 2).
func Q_C17_three_conc() {
	g := conGroups[sym.Choose("types", 2)]
	var calls []func() ([]byte, error)
	var want [][]byte
	for i := 0; i < 3; i++ {
		it := g[i%len(g)]
		calls = append(calls, conCall(it, i))
		want = append(want, conWant(it, i))
	}
	preempt(1, 2)
	together(calls, want)
}

var conWarm = []conItem{
	{mk: func(n int) interface{} {
		return map[string]interface{}{"b": map[int]string{n: "x", 11: "y"}, "a": []byte("pqr")}
	}},
	{mk: func(n int) interface{} {
		return &catList{"v", &catList{V: "w"}, map[string]*catList{"x": {}, "w": nil}}
	}},
	{mk: func(n int) interface{} { return []interface{}{"<", n, json.RawMessage(` [ 1 ] `), catNull{n > 3}} }, o: []jettison.Option{jettison.NoHTMLEscaping()}},
	{mk: func(n int) interface{} { return []time.Duration{1, time.Duration(n)} }},
	{mk: func(n int) interface{} { return map[string]interface{}{"a": "x", "b": func() {}} }},
	{mk: func(n int) interface{} {
		return map[string]map[string]int{"l": {"q": n, "p": 1}, "k": {"s": 1, "r": 2}}
	}},
}

// Q_C17_warm_conc: two calls on warm caches with every pair of 6 values (nested maps, numbers, times, marshalers, an error
// half way) that use scratch memory, pools holding earlier items; preemption bound 2 (thorough: 3).
func Q_C17_warm_conc() {
	i, j := sym.Choose("first", len(conWarm)), sym.Choose("second", len(conWarm))
	sym.Assume(i <= j)
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	a, b := conWarm[i], conWarm[j]
	ca, cb := conCall(a, n), conCall(b, n)
	ca()
	cb()
	calls := []func() ([]byte, error){ca, cb}
	want := [][]byte{conWant(a, n), conWant(b, n)}
	preempt(2, 3)
	together(calls, want)
}

// yields is a marshaler during which another goroutine may run.
type yields struct{ n *int }

var yieldMu sync.Mutex

func (y yields) MarshalJSON() ([]byte, error) {
	yieldMu.Lock()
	defer yieldMu.Unlock()
	return []byte{' ', '"', byte('0' + *y.n), '"'}, nil
}

func (y yields) MarshalText() ([]byte, error) {
	yieldMu.Lock()
	defer yieldMu.Unlock()
	if *y.n == 9 {
		panic("nine")
	}
	return []byte{'k', byte('0' + *y.n)}, nil
}

// Q_C17_methods_conc: user methods (also a key that panics) during which other calls run, in maps and slices; preemption bound 2
// (thorough: 3).
func Q_C17_methods_conc() {
	one, two, nine := 1, 2, 9
	vs := []func() interface{}{
		func() interface{} { return map[yields]yields{{&one}: {&two}, {&two}: {&one}} },
		func() interface{} {
			return []interface{}{"a", yields{&one}, map[string]yields{"x": {&two}, "b": {&one}}}
		},
		func() interface{} { return map[string]map[yields]int{"m": {{&nine}: 1, {&one}: 2}} },
	}
	i, j := sym.Choose("first", 3), sym.Choose("second", 3)
	sym.Assume(i <= j)
	var calls []func() ([]byte, error)
	var want [][]byte
	for _, k := range []int{i, j} {
		v := vs[k]()
		calls = append(calls, func() ([]byte, error) { return jettison.Marshal(v) })
		if k == 2 {
			want = append(want, nil)
		} else {
			b, _ := json.Marshal(v)
			want = append(want, b)
		}
	}
	preempt(2, 3)
	together(calls, want)
}

// Q_C17_shared_conc: the same value, reached by pointer, and the same Options used by two calls at once; one of them appends
// to its own destination. Preemption bound 2 (thorough: 3).
func Q_C17_shared_conc() {
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	m := &sync.Map{}
	m.Store("k", n)
	m.Store("j", "v")
	v := &struct {
		A *int
		M *sync.Map
		T time.Time
		O map[string]int `json:",omitempty"`
		D conEmb
	}{&n, m, time.Unix(int64(n), 0).UTC(), map[string]int{"b": 1, "a": 2}, conEmb{conLeaf{A: 1}, nil}}
	o := []jettison.Option{jettison.DenyList([]string{"B", "A"}), jettison.UnixTime()}
	w := []byte(`{"M":{"j":"v","k":` + string(rune('0'+n)) + `},"T":` + string(rune('0'+n)) + `,"O":{"a":2,"b":1},"D":{"a":1}}`)
	calls := []func() ([]byte, error){
		func() ([]byte, error) { return jettison.MarshalOpts(v, o...) },
		func() ([]byte, error) { return jettison.AppendOpts([]byte("pre"), v, o...) },
	}
	preempt(2, 3)
	together(calls, [][]byte{w, append([]byte("pre"), w...)})
}

// conKinds adds to the catalogue the values that format with a scratch area of their own.
var conKinds = append([]catItem{
	{"durations", func(s string, n int) interface{} {
		return []time.Duration{-1, time.Duration(n) * 1500, 5e12 + time.Duration(n), -1 << 63}
	}, false},
	{"more times", func(s string, n int) interface{} {
		t := time.Unix(1e9+int64(n), 5e8).In(time.FixedZone("", 3600))
		return []interface{}{t, &t, map[string]time.Time{s: t}}
	}, false},
	{"quoted", func(s string, n int) interface{} {
		return &struct {
			A string   `json:",string"`
			B *float64 `json:",string"`
			C *string  `json:",string,omitempty"`
			D uint64   `json:"<,string"`
		}{s + "\"", nil, &s, 1 << 63}
	}, false},
	{"text", func(s string, n int) interface{} {
		return map[conText2]interface{}{{s}: conText2{s + "<"}, {"b"}: &conText2{s}}
	}, false},
	{"keys", func(s string, n int) interface{} {
		return []interface{}{map[int64]int{-1 << 63: n, 2: 1}, map[uint8]string{255: s, 7: "x"}, map[uint64]bool{1 << 63: true}}
	}, false},
	{"interfaces", func(s string, n int) interface{} {
		var e error = conErr(s)
		return []interface{}{e, &e, map[string]error{s: e}, []json.Marshaler{nil, catNull{n > 5}}}
	}, false},
	{"arrays", func(s string, n int) interface{} {
		return &[2]struct {
			A [4]byte
			B [2]float32
			C [1]*string
		}{{A: [4]byte{'<', '"', s[0], 0}, B: [2]float32{1e21, 1e-7}}, {C: [1]*string{&s}}}
	}, false},
}, catalog...)

type (
	conText2 struct{ s string }
	conErr   string
)

func (c conText2) MarshalText() ([]byte, error) { return []byte("<" + c.s + "\n"), nil }
func (c conErr) Error() string                  { return string(c) }

// conRich holds the kinds that format numbers, times, text, keys and bytes.
func conRich(s string, n int) interface{} {
	t := time.Unix(1e9+int64(n), 5e8).In(time.FixedZone("", 3600))
	return []interface{}{
		[]time.Duration{-1, time.Duration(n) * 1500}, t, catNums{-5, 1 << 63, 1e-9, 1.5e22, "-1.5e3", n, s, n > 4}, [3]byte{'<', s[0], 1},
		map[string]interface{}{s: []byte(s + "bcd"), "<a": map[int]conText2{n: {s}, -1: {"<"}}}, json.RawMessage(` { "` + s + `<" : [ 1 ] } `),
	}
}

// Options made anew: nothing has used them before the concurrent calls.
var conOpts = []func() []jettison.Option{
	func() []jettison.Option { return nil },
	func() []jettison.Option {
		return []jettison.Option{jettison.NoHTMLEscaping(), jettison.RawByteSlice(), jettison.DurationFormat(jettison.DurationString), jettison.DenyList([]string{"A", "E", "d"})}
	},
	func() []jettison.Option {
		return []jettison.Option{jettison.UnixTime(), jettison.NoNumberValidation(), jettison.NilMapEmpty(), jettison.ByteArrayAsString(), jettison.DurationFormat(jettison.DurationMinutes), jettison.AllowList([]string{"A", "a", "C", "D", "M", "T", "X"})}
	},
	func() []jettison.Option {
		return []jettison.Option{jettison.TimeLayout(time.RFC1123), jettison.NoStringEscaping(), jettison.NilSliceEmpty(), jettison.DurationFormat(jettison.DurationMicroseconds)}
	},
	func() []jettison.Option {
		return []jettison.Option{jettison.TimeLayout(time.RFC3339), jettison.NoUTF8Coercion(), jettison.NoCompact(), jettison.DurationFormat(jettison.DurationSeconds), jettison.DenyList(nil)}
	},
}

// kindsConc runs two concurrent calls for the values x and y with the same Options, made for them, and compares the results with
// those of the same calls one after the other with other Options.
func kindsConc(x, y func() interface{}, o func() []jettison.Option, warm bool) {
	if warm {
		jettison.MarshalOpts(x(), o()...)
		jettison.MarshalOpts(y(), o()...)
	}
	concurrent = true
	shared := o()
	vs := []interface{}{x(), y()}
	var got [2][]byte
	var errs [2]error
	var wg sync.WaitGroup
	wg.Add(2)
	for i := range vs {
		i := i
		go func() {
			defer wg.Done()
			got[i], errs[i] = jettison.MarshalOpts(vs[i], shared...)
		}()
	}
	wg.Wait()
	for i := range vs {
		w, err := jettison.MarshalOpts(vs[i], o()...)
		sym.Assert("same result as alone", bytes.Equal(got[i], w) && (err == nil) == (errs[i] == nil))
		sym.Out("got", got[i])
	}
	sym.Reach("compared")
}

// Q_C17_kinds_conc: 44 values of every kind (13 failing), with a symbolic letter and digit, encoded by two goroutines at once
// with the same Options (5 sets, used by nobody before), types used before or not; preemption bound 1 (thorough: 2).
func Q_C17_kinds_conc() {
	it := conKinds[sym.Choose("value", len(conKinds))]
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	mk := func() interface{} { return it.mk(s, n) }
	o := conOpts[sym.Choose("options", len(conOpts))]
	warm := sym.Choose("warm", 2) == 1
	preempt(1, 2)
	kindsConc(mk, mk, o, warm)
}

// Q_C17_rich_conc: each of the values along with one that holds numbers, times, text, keys and bytes, 3 option sets; preemption bound 1 (thorough: 2).
func Q_C17_rich_conc() {
	it := conKinds[sym.Choose("value", len(conKinds))]
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	mk := func() interface{} { return it.mk(s, n) }
	o := conOpts[sym.Choose("options", 3)]
	preempt(1, 2)
	kindsConc(mk, func() interface{} { return conRich("q", 7) }, o, true)
}

// bigValue is the k-th of 5 values whose encoding takes more than the 4096 bytes of a new buffer.
func bigValue(k int, c string) interface{} {
	switch k {
	case 0:
		return strings.Repeat(c, 4200)
	case 1:
		m := map[string]string{}
		for i := 0; i < 70; i++ {
			m[c+strconv.Itoa(i)] = "0123456789012345678901234567890123456789012345678901234567890123456789"
		}
		return m
	case 2:
		return map[string]interface{}{"k": bytes.Repeat([]byte(c), 3200), "l": c}
	case 3:
		return []json.RawMessage{json.RawMessage(`"` + strings.Repeat(c, 4100) + `"`), json.RawMessage("[ ]")}
	}
	return strings.Repeat(c, 66000)
}

// Q_C17_large_conc: a value of more than 4096 (thorough: 65536) bytes is encoded along with a small value, another large one
// and the same, by Marshal and Append, after one of them or none was encoded; preemption bound 1 (thorough: 2).
func Q_C17_large_conc() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	k := sym.Choose("value", n)
	var v, w interface{} = bigValue(k, "a"), nil
	switch sym.Choose("other", 3) {
	case 0:
		w = map[string]int{"b": 1, "a": 2}
	case 1:
		w = bigValue((k+1)%4, "b")
	case 2:
		w = v
	}
	wv, _ := json.Marshal(v)
	ww, _ := json.Marshal(w)
	if sym.Choose("warm", 2) == 1 {
		b, err := jettison.Marshal(v)
		sym.Assert("before", err == nil && bytes.Equal(b, wv))
	}
	preempt(1, 2)
	second := func() ([]byte, error) { return jettison.Marshal(w) }
	if sym.Choose("append", 2) == 1 {
		second = func() ([]byte, error) { return jettison.AppendOpts(nil, w, jettison.UnixTime()) }
	}
	together([]func() ([]byte, error){
		func() ([]byte, error) { return jettison.Marshal(v) },
		second,
	}, [][]byte{wv, ww})
	sym.Reach("compared")
}

// fillCaches encodes values of n types, which are not used otherwise.
func fillCaches(n int) {
	for i := 0; i < n; i++ {
		v := reflect.New(reflect.ArrayOf(i+3, typeOf[struct{}]())).Elem()
		b, err := jettison.Marshal(v.Interface())
		sym.Assert("array", err == nil && len(b) == 1+3*(i+3))
	}
}

// Q_C17_filled_conc: two goroutines use types for the first time at once, after values of 20, 70 or 150 (thorough: 300) other types
// were encoded; preemption bound 1 (thorough: 2).
func Q_C17_filled_conc() {
	n := []int{20, 70, 150, 300}
	if !sym.Thorough() {
		n = n[:3]
	}
	k := n[sym.Choose("types", len(n))]
	g := conGroups[sym.Choose("group", len(conGroups))]
	a, b := g[0], g[1]
	if sym.Choose("same", 2) == 1 {
		b = a
	}
	fillCaches(k)
	calls := []func() ([]byte, error){conCall(a, 1), conCall(b, 2)}
	want := [][]byte{conWant(a, 1), conWant(b, 2)}
	preempt(1, 2)
	together(calls, want)
	sym.Reach("compared")
}
