package main

import (
	"bytes"
	"context"
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// reentrant marshalers use the package inside of a call.
type (
	reJSON struct{ s string }
	reApp  struct{ s string }
	boom   struct{ s string }
)

func (r reJSON) MarshalJSON() ([]byte, error) {
	return jettison.Marshal(map[string]interface{}{"b" + r.s: []byte("xy"), "a": map[int]string{2: r.s, 1: "<"}})
}

func (r reApp) AppendJSON(b []byte) ([]byte, error) {
	return jettison.AppendOpts(b, map[string]string{"<": r.s, "0": "1"}, jettison.NoHTMLEscaping())
}

func (b boom) MarshalText() ([]byte, error) { panic("boom") }

// try calls f and reports a panic of a user method.
func try(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

var historyItems = append([]catItem{
	{"reentrant", func(s string, n int) interface{} {
		return map[string]interface{}{"r": reJSON{s}, "q": []reApp{{s}, {"z"}}}
	}, false},
	{"panic", func(s string, n int) interface{} {
		return map[string]interface{}{"a": "x", "b": []interface{}{map[boom]int{{s}: 1}}}
	}, true},
	{"panic in sync.Map", func(s string, n int) interface{} {
		m := &sync.Map{}
		m.Store("k", "v")
		m.Store("l", boom{s})
		return m
	}, true},
	{"long", func(s string, n int) interface{} { return map[string]interface{}{"long": make([]int, 60), "b": s} }, false},
}, catalog...)

// historyOpts are those of the calls that are not observed.
var historyOpts = append([][]jettison.Option{{jettison.UnsortedMap(), jettison.NoCompact(), jettison.NoStringEscaping()}}, catOpts...)

// Observed values: those that use scratch memory.
var observed = []catItem{historyItems[0]}

func init() {
	for _, c := range catalog {
		switch c.name {
		case "string", "omit pointer", "list", "times", "numbers", "bytes in a slice", "map", "map of maps", "sync.Map", "raw", "marshaler", "embedded", "array", "bad number", "bad text":
			observed = append(observed, c)
		}
	}
}

// Q_C16_history: an observed call (16 values, 5 option sets), then 1 (thorough: 2) calls from 41 (14 failing, 2 panicking in a
// user method, reentrant ones) with 6 option sets, then the observed call again: the same bytes or failure, the first
// result unchanged; then the results are overwritten and the call made once more.
func Q_C16_history() {
	history(observed, catOpts)
}

// Q_C16_pools: the same for fewer values and option sets, with scratch pools that deviate once (thorough: twice) from
// giving back the latest item: any earlier item or none.
func Q_C16_pools() {
	if sym.Thorough() {
		sym.PoolMode(12)
	} else {
		sym.PoolMode(11)
	}
	history(observed[:6], catOpts[:2])
}

func history(observed []catItem, catOpts [][]jettison.Option) {
	it := observed[sym.Choose("value", len(observed))]
	s := letter("s")
	o := catOpts[sym.Choose("options", len(catOpts))]
	r0, err0 := jettison.MarshalOpts(it.mk(s, 3), o...)
	keep := append([]byte(nil), r0...)
	k := 1
	if sym.Thorough() && len(catOpts) > 2 {
		k = 2
	}
	for i := 0; i < k; i++ {
		h := historyItems[sym.Choose("history", len(historyItems))]
		ho := historyOpts[sym.Choose("history options", len(catOpts)+1)]
		try(func() { jettison.MarshalOpts(h.mk("q", 7), ho...) })
	}
	sym.Assert("the result belongs to the caller", bytes.Equal(r0, keep))
	r1, err1 := jettison.MarshalOpts(it.mk(s, 3), o...)
	sym.Assert("same again", bytes.Equal(r1, keep) && (err1 == nil) == (err0 == nil))
	for i := range r0 {
		r0[i] = 0xAA
	}
	for i := range r1 {
		r1[i] = 0xBB
	}
	r2, err2 := jettison.MarshalOpts(it.mk(s, 3), o...)
	sym.Assert("same after the results were overwritten", bytes.Equal(r2, keep) && (err2 == nil) == (err0 == nil))
	sym.Out("r", keep)
}

type (
	histP struct{ F mS_nnpn }
	histA struct{ F [2]mI_nnpn }
	histQ struct {
		A *int `json:",string"`
	}
	histU struct{ A *int }
	histR struct {
		N *histR
		L []histR
		F mS_nnpn
	}
	histN  []histNE
	histNE struct {
		L histN
		F mI_nnpn
	}
)

// shared lists values that share types in different positions: addressable or not, quoted or not, recursive through
// different types, embedded or not; encoding/json is the oracle for each.
func shared(i int, s string) interface{} {
	n := 3
	p := histP{mS_nnpn{s, 1}}
	switch i {
	case 0:
		return p
	case 1:
		return &p
	case 2:
		return []histP{p}
	case 3:
		return map[string]histP{s: p}
	case 4:
		return struct {
			histP
			X *histP
		}{p, &p}
	case 5:
		return histA{[2]mI_nnpn{1, 2}}
	case 6:
		return &histA{[2]mI_nnpn{1, 2}}
	case 7:
		return histQ{&n}
	case 8:
		return histU{&n}
	case 9:
		return histR{N: &histR{F: mS_nnpn{s, 1}}, L: []histR{{}}, F: mS_nnpn{s, 2}}
	case 10:
		return &histR{N: &histR{}, F: mS_nnpn{s, 2}}
	case 11:
		return histNE{L: histN{{F: 1}}, F: 2}
	case 12:
		return histN{{L: histN{}, F: 1}}
	case 13:
		return [1]histNE{{F: 4}}
	case 14:
		return mS_nnpn{s, 1}
	case 15:
		return &mS_nnpn{s, 1}
	case 16:
		return []interface{}{mI_nnpn(3), []mI_nnpn{4}, map[string]mI_nnpn{"k": 5}}
	default:
		return map[string]interface{}{"a": struct{ *histP }{&p}, "b": struct{ A [1]histP }{[1]histP{p}}}
	}
}

// Q_C16_types: every sequence of 3 values out of 18 that share types in different positions (addressable or not, quoted or
// not, recursive), starting with empty caches: each encodes as encoding/json does.
func Q_C16_types() {
	s := letter("s")
	failing = false
	for i := 0; i < 3; i++ {
		same("value", shared(sym.Choose("value", 18), s))
	}
}

// Q_C16_manytypes: after the encoding of 20 to 400 other types (arrays, structs, pointers, slices, maps, failing ones), a
// type used before and those types themselves encode as they did.
func Q_C16_manytypes() {
	s := letter("s")
	failing = false
	k := sym.Choose("value", 18)
	same("before", shared(k, s))
	n := []int{20, 70, 140, 400}[sym.Choose("types", 4)]
	var vs []reflect.Value
	for i := 0; i < n; i++ {
		t := reflect.ArrayOf(i+2, reflect.TypeOf(uint8(0)))
		switch i % 4 {
		case 1:
			t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:",omitempty"`}, {Name: "E", Type: reflect.TypeOf(shared(k, s))}})
		case 2:
			t = reflect.MapOf(reflect.TypeOf(""), reflect.ArrayOf(i, reflect.TypeOf(0)))
		case 3:
			t = reflect.SliceOf(reflect.PtrTo(t))
		}
		vs = append(vs, reflect.New(t))
	}
	for _, v := range vs {
		jettison.Marshal(v.Interface())
	}
	same("after", shared(k, s))
	same("first", vs[0].Interface())
	same("second", vs[1].Interface())
	same("last", vs[n-1].Elem().Interface())
	same("after", shared((k+1)%18, s))
}

// Q_C16_append: histories that use Append with destinations, aliasing an earlier result, do not influence it beyond the
// appended bytes.
func Q_C16_append() {
	s := letter("s")
	sym.PoolMode(11)
	a, b := observed[sym.Choose("first", len(observed))], observed[sym.Choose("second", len(observed))]
	wa, erra := jettison.Marshal(a.mk(s, 3))
	wb, errb := jettison.Marshal(b.mk(s, 4))
	sym.Assume(erra == nil && errb == nil)
	keep := string(wa)
	two, err := jettison.Append(wa, b.mk(s, 4))
	sym.Assert("appended", err == nil && string(two) == keep+string(wb) && string(wa) == keep)
	again, err := jettison.Marshal(a.mk(s, 3))
	sym.Assert("again", err == nil && string(again) == keep)
	sym.Assert("unchanged", string(two) == keep+string(wb))
}

// Q_C16_options: options given to one call (lists, contexts, layouts, invalid ones) leave no trace in the next; an Option
// can be used again.
func Q_C16_options() {
	v := optSample()
	failing = false
	var plain optSet
	var o optSet
	jettison.Marshal(v)
	for i := 0; i < 2; i++ {
		if j := sym.Choose("option", nOpts+5); j < nOpts {
			*o.flag(j) = true
		} else {
			switch j - nOpts {
			case 1:
				jettison.MarshalOpts(v, jettison.DenyList([]string{"A", "T", "X"}))
			case 2:
				jettison.MarshalOpts(v, jettison.AllowList([]string{"T"}), jettison.WithContext(context.Background()))
			case 3:
				jettison.MarshalOpts(v, jettison.TimeLayout(""), jettison.NilMapEmpty())
			case 4:
				jettison.MarshalOpts(v, jettison.WithContext(nil), jettison.DurationFormat(77))
			}
		}
	}
	opts := o.opts()
	is("with options", o.want(), v, opts...)
	is("without options", plain.want(), v)
	is("with the same options", o.want(), v, opts...)
	b, err := jettison.Append(nil, v)
	sym.Assert("Append", err == nil && string(b) == plain.want())
}

// Q_C16_marshalers: what a user method returns or appends stays its own: MarshalJSON and MarshalText results that share
// memory between calls, RawMessage and byte slice contents are never written.
func Q_C16_marshalers() {
	raw := json.RawMessage(`{"a": "<` + letter("s") + `"}`)
	text := []byte("<\n" + letter("t"))
	keepR, keepT := string(raw), string(text)
	sym.ReadOnly(raw)
	sym.ReadOnly(text)
	v := []interface{}{raw, jsonVal{raw}, map[string]interface{}{"k": jsonVal{raw}}, sharedText{text}, text, map[sharedKey]int{{&text}: 1}}
	x := v[sym.Choose("value", len(v))]
	o := catOpts[sym.Choose("options", len(catOpts))]
	r0, err := jettison.MarshalOpts(x, o...)
	keep := string(r0)
	for i := range r0 {
		r0[i] = 0
	}
	r1, err1 := jettison.MarshalOpts(x, o...)
	sym.Assert("again", err == nil && err1 == nil && string(r1) == keep)
	sym.Assert("unchanged", string(raw) == keepR && string(text) == keepT)
}

type (
	sharedText struct{ b []byte }
	sharedKey  struct{ b *[]byte }
)

func (s sharedText) MarshalText() ([]byte, error) { return s.b, nil }
func (s sharedKey) MarshalText() ([]byte, error)  { return *s.b, nil }

// Q_C16_sequence: three calls with times, durations, numbers and maps in any order and repetition give each its own result.
func Q_C16_sequence() {
	if sym.Thorough() {
		sym.PoolMode(12)
	} else {
		sym.PoolMode(11)
	}
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	vs := []interface{}{map[int]time.Duration{n: 5, 11: 6}, []map[string][]byte{{"b": {1}, "a": {2, 3}}, {}}, map[string]map[string]int{"y": {"2": n, "1": 2}, "x": {"0": 0}}, struct {
		A string `json:",string"`
		M map[string]string
	}{"<", map[string]string{"k": "v", "<": "w"}}}
	for i := 0; i < 3; i++ {
		same("call", vs[sym.Choose("value", len(vs))])
	}
}

// big appends n bytes of JSON text, beginning with s.
type big struct {
	s string
	n int
}

func (b big) AppendJSON(dst []byte) ([]byte, error) {
	dst = append(append(dst, '"'), b.s...)
	return append(append(dst, bigText[:b.n-2-len(b.s)]...), '"'), nil
}

var bigText = strings.Repeat("a", 1<<17)

// Q_C16_large: the same for outputs around and above the initial capacity of scratch buffers (4095 to 4097 bytes, 10000,
// 70000 and 100000 bytes) written by a marshaler, in a map (scratch buffers nest) or as the text of bytes, after and
// before other such calls.
func Q_C16_large() {
	sizes := []int{60, 4095, 4096, 4097, 10000, 70000, 100000}
	mk := func(k, n int, s string) interface{} {
		switch k {
		case 0:
			return big{s, n}
		case 1:
			return map[string]big{"k": {s, n}, "j": {s, 30}}
		case 2:
			return []interface{}{s, map[string]interface{}{"x": map[string]big{"k": {s, n}}, "a": s}}
		}
		m := &sync.Map{}
		m.Store("k", big{s, n})
		return m
	}
	k, n := sym.Choose("kind", 4), sizes[sym.Choose("size", len(sizes))]
	hk, hn := sym.Choose("history kind", 4), sizes[sym.Choose("history size", len(sizes))]
	s := letter("s")
	r0, err := jettison.Marshal(mk(k, n, s))
	sym.Assert("no error", err == nil)
	keep := append([]byte(nil), r0...)
	h0, err := jettison.Marshal(mk(hk, hn, "q"))
	sym.Assert("no error", err == nil)
	hkeep := append([]byte(nil), h0...)
	sym.Assert("the result belongs to the caller", bytes.Equal(r0, keep))
	r1, _ := jettison.Marshal(mk(k, n, s))
	sym.Assert("same again", bytes.Equal(r1, keep))
	for i := 0; i < 30; i++ {
		r0[i], r1[i] = 0xAA, 0xBB
	}
	h1, _ := jettison.Marshal(mk(hk, hn, "q"))
	sym.Assert("same after the results were overwritten", bytes.Equal(h0, hkeep) && bytes.Equal(h1, hkeep))
	sym.Out("r", keep[:40])
	sym.Reach("end")
}

// Q_C16_repeat: after 300 (thorough: 1200) calls of one kind (16 of them failing or panicking), a call with another value gives what
// it gave before, and so does one of that kind.
func Q_C16_repeat() {
	s := letter("s")
	h := historyItems[sym.Choose("history", len(historyItems))]
	it := observed[sym.Choose("value", 3)*5]
	n := 300
	if sym.Thorough() {
		n = 1200
	}
	o := catOpts[sym.Choose("options", 2)]
	r0, err0 := jettison.MarshalOpts(it.mk(s, 3), o...)
	var h0 []byte
	var herr0 error
	p0 := try(func() { h0, herr0 = jettison.MarshalOpts(h.mk("q", 7), o...) })
	for i := 0; i < n; i++ {
		try(func() { jettison.MarshalOpts(h.mk("q", 7), o...) })
	}
	var h1 []byte
	var herr1 error
	p1 := try(func() { h1, herr1 = jettison.MarshalOpts(h.mk("q", 7), o...) })
	sym.Assert("same kind", p0 == p1 && bytes.Equal(h0, h1) && (herr0 == nil) == (herr1 == nil))
	r1, err1 := jettison.MarshalOpts(it.mk(s, 3), o...)
	sym.Assert("same value", bytes.Equal(r0, r1) && (err0 == nil) == (err1 == nil))
}

var memoZones = []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -11*3600-1800), time.FixedZone("c", 14*3600), time.FixedZone("d", -3600-1)}

// memoTime gives times that share their second, their day, or their date with others.
func memoTime(k int) time.Time {
	const day = 86400
	t := int64(1e9 / day * day)
	d := []int64{0, 1, day - 1, day, -1, 365 * day, -365 * day, 400 * 365 * day}[k/5]
	return time.Unix(t+d, int64(k%3)*5e8).In(memoZones[k%5])
}

var memoDur = []time.Duration{0, 1, -1, 999, 1000, 1001, 1e6 - 1, 1e6, 1e9, 1e9 + 1, -1e9, 60e9, 90e9, 3600e9 - 1, 1 << 40, -1 << 63}
var memoFloat = []float64{0, 1, -1, 1.5, 0.1, 1e-7, 1e21, 1e20, 16777216, 16777217, math.MaxFloat32, math.SmallestNonzeroFloat64}

func isSync(v interface{}) *sync.Map { m, _ := v.(*sync.Map); return m }

// memo is the k-th of n values of a kind, with options, and the output.
func memo(kind, k int) (v interface{}, o []jettison.Option, want string) {
	opt := func(n int) int { return sym.Choose("options", n) }
	std := func(x interface{}) string {
		b, err := json.Marshal(x)
		sym.Assume(err == nil)
		return string(b)
	}
	switch kind {
	case 0:
		t := memoTime(k)
		switch opt(4) {
		case 0:
			return t, nil, std(t)
		case 1:
			l := jettison.TimeLayout(time.RFC3339)
			if t.Location() == memoZones[4] {
				sym.Assume(false)
			}
			return &t, []jettison.Option{l}, `"` + t.Format(time.RFC3339) + `"`
		case 2:
			return []time.Time{t}, []jettison.Option{jettison.UnixTime()}, "[" + strconv.FormatInt(t.Unix(), 10) + "]"
		default:
			return t, []jettison.Option{jettison.TimeLayout("Jan _2 15:04:05.000 2006")}, `"` + t.Format("Jan _2 15:04:05.000 2006") + `"`
		}
	case 1:
		d := memoDur[k]
		f := jettison.DurationFmt(opt(6))
		return d, []jettison.Option{jettison.DurationFormat(f)}, specDuration(d, f)
	case 2:
		f := memoFloat[k]
		switch opt(4) {
		case 0:
			return f, nil, std(f)
		case 1:
			return float32(f), nil, std(float32(f))
		case 2:
			return struct {
				F float64 `json:",string"`
			}{f}, nil, `{"F":"` + std(f) + `"}`
		default:
			return map[string]interface{}{"k": float32(f)}, nil, `{"k":` + std(float32(f)) + `}`
		}
	}
	s := []string{"<", "<a", "a", "é\u2028", "\xff", "\"", ""}[k]
	m := &sync.Map{}
	m.Store(s, s)
	v = []interface{}{s, map[string]string{s: s}, json.RawMessage(`"` + strings.ReplaceAll(s, `"`, "") + `"`), m, []byte(s), json.Number("1" + s)}[sym.Choose("form", 6)]
	switch opt(4) {
	case 0:
		if b, err := json.Marshal(v); err == nil && isSync(v) == nil {
			want = string(b)
		}
	case 1:
		o = []jettison.Option{jettison.NoHTMLEscaping()}
		if b, err := stdNoHTML(v); err == nil && isSync(v) == nil {
			want = string(b)
		}
	case 2:
		o = []jettison.Option{jettison.NoUTF8Coercion(), jettison.RawByteSlice()}
	case 3:
		o = []jettison.Option{jettison.NoStringEscaping(), jettison.NoCompact(), jettison.NoNumberValidation()}
	}
	return v, o, ""
}

// Q_C16_memo: two values of one kind that are alike (40 times that share a second, day or date, 16 durations, 12 floats of both sizes,
// 7 strings in 6 forms), each with its own options, one after the other and again: each gets its own output.
func Q_C16_memo() {
	kind := sym.Choose("kind", 4)
	n := []int{40, len(memoDur), len(memoFloat), 7}[kind]
	a, ao, wa := memo(kind, sym.Choose("first", n))
	b, bo, wb := memo(kind, sym.Choose("second", n))
	var keep [2]string
	for i := 0; i < 2; i++ {
		ra, err := jettison.MarshalOpts(a, ao...)
		if wa == "" && i == 0 {
			wa = string(ra)
		}
		sym.Assert("first", (err == nil || wa == "") && string(ra) == wa)
		rb, err := jettison.MarshalOpts(b, bo...)
		if wb == "" && i == 0 {
			wb = string(rb)
		}
		sym.Assert("second", (err == nil || wb == "") && string(rb) == wb)
		now := [2]string{string(ra), string(rb)}
		sym.Assert("again", i == 0 || now == keep)
		keep = now
	}
}

// Q_C16_reuse: each use of an Option gives what a new one would, whatever options it was used with before: lists of fields, layouts and
// contexts, two of three used together (either order) and then one alone.
func Q_C16_reuse() { reuse() }

func reuse() {
	type T struct {
		A, B int
		C    time.Time
		D    time.Duration
	}
	v := []T{{1, 2, time.Unix(0, 0).UTC(), 5}}
	mk := func(i int) jettison.Option {
		switch i {
		case 0:
			return jettison.AllowList([]string{"A", "C"})
		case 1:
			return jettison.AllowList([]string{"B", "D"})
		case 2:
			return jettison.DenyList([]string{"A"})
		case 3:
			return jettison.DenyList([]string{"B", "D"})
		case 4:
			return jettison.AllowList(nil)
		case 5:
			return jettison.DenyList([]string{})
		case 6:
			return jettison.TimeLayout("2006")
		case 7:
			return jettison.UnixTime()
		case 8:
			return jettison.DurationFormat(jettison.DurationString)
		}
		return jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, "q"))
	}
	const n = 10
	i, j, k := sym.Choose("first", n), sym.Choose("second", n), sym.Choose("third", n)
	var used [n]jettison.Option
	use := func(i int) jettison.Option {
		if used[i] == nil {
			used[i] = mk(i)
		}
		return used[i]
	}
	call := func(a, b []jettison.Option) {
		r1, err1 := jettison.MarshalOpts(v, a...)
		r2, err2 := jettison.MarshalOpts(v, b...)
		sym.Assert("as with new options", string(r1) == string(r2) && (err1 == nil) == (err2 == nil))
	}
	call([]jettison.Option{use(i), use(j)}, []jettison.Option{mk(i), mk(j)})
	call([]jettison.Option{use(k)}, []jettison.Option{mk(k)})
	call([]jettison.Option{use(j), use(k), use(i)}, []jettison.Option{mk(j), mk(k), mk(i)})
	call([]jettison.Option{use(i)}, []jettison.Option{mk(i)})
	call(nil, []jettison.Option{})
}

type (
	pairS[T any] struct {
		F T `json:",omitempty"`
		Q T `json:"q,string"`
		H T
	}
	pairA struct{ A int }
	pairB struct{ B int }
	pairX struct {
		A int `json:"x"`
	}
	pairQ struct {
		A int `json:",string"`
	}
	pairE struct {
		A int `json:",omitempty"`
	}
	pairD struct {
		A int `json:"-"`
	}
	pairU   struct{ a int }
	pairI32 int32
	pairStr string
	pairB8  uint8
	pairL   []byte
	pairM   map[string]int
	pairT   time.Time
)

func pair[T any](zero, x T) func(i int) interface{} {
	return func(i int) interface{} {
		switch i {
		case 0:
			return pairS[T]{x, zero, x}
		case 1:
			return &pairS[T]{zero, x, zero}
		case 2:
			return []T{zero, x}
		case 3:
			return map[string]*T{"a": &x, "b": nil}
		default:
			return [1]T{x}
		}
	}
}

// pairOf gives values of the i-th of 62 types, among which many differ in little: name, size, element, key, tag, methods.
func pairOf(i int, s string) func(i int) interface{} {
	n := 3
	switch i {
	case 0:
		return pair([0]int{}, [0]int{})
	case 1:
		return pair([2]struct{}{}, [2]struct{}{})
	case 2:
		return pair(struct{}{}, struct{}{})
	case 3:
		return pair([0]struct{}{}, [0]struct{}{})
	case 4:
		return pair([1]int{}, [1]int{1})
	case 5:
		return pair([2]int{}, [2]int{1, 2})
	case 6:
		return pair([2]uint{}, [2]uint{1, 2})
	case 7:
		return pair([4]uint8{}, [4]uint8{1, 2})
	case 8:
		return pair[int32](0, -7)
	case 9:
		return pair[uint32](0, 1<<32-1)
	case 10:
		return pair[float32](0, 1.5)
	case 11:
		return pair[pairI32](0, -9)
	case 12:
		return pair[int64](0, -7)
	case 13:
		return pair[uint64](0, 1<<64-1)
	case 14:
		return pair[float64](0, 1.1)
	case 15:
		return pair[int](0, -7)
	case 16:
		return pair(nil, &n)
	case 17:
		return pair(nil, &s)
	case 18:
		return pair(nil, map[string]int{s: 1})
	case 19:
		return pair(nil, map[int]string{4: s})
	case 20:
		return pair(nil, map[mI_nnnv]string{4: s})
	case 21:
		return pair(nil, pairM{s: 4})
	case 22:
		return pair(nil, make(chan int))
	case 23:
		return pair(nil, func() {})
	case 24:
		return pair("", s)
	case 25:
		return pair("1", json.Number("12"))
	case 26:
		return pair("", pairStr(s))
	case 27:
		return pair(nil, []byte(s))
	case 28:
		return pair(nil, []int8{int8(s[0])})
	case 29:
		return pair(nil, pairL(s))
	case 30:
		return pair(nil, json.RawMessage(` "`+s+`" `))
	case 31:
		return pair(nil, []string{s})
	case 32:
		return pair[interface{}](nil, s)
	case 33:
		return pair[error](nil, alienvI(4))
	case 34:
		return pair[json.Marshaler](nil, mS_nnvn{s, 1})
	case 35:
		return pair(pairA{}, pairA{2})
	case 36:
		return pair(pairB{}, pairB{2})
	case 37:
		return pair(pairX{}, pairX{2})
	case 38:
		return pair(pairQ{}, pairQ{2})
	case 39:
		return pair(pairE{}, pairE{2})
	case 40:
		return pair(pairD{}, pairD{2})
	case 41:
		return pair(pairU{}, pairU{2})
	case 42:
		return pair(time.Time{}, time.Date(2000, 2, 29, 1, 2, 3, 0, time.UTC))
	case 43:
		return pair(pairT{}, pairT{})
	case 44:
		return pair(mS_nnnv{}, mS_nnnv{s, 1})
	case 45:
		return pair(mS_nnpn{}, mS_nnpn{s, 1})
	case 46:
		return pair(mI_nnnv(0), mI_nnnv(5))
	case 47:
		return pair(mI_nnpn(0), mI_nnpn(5))
	case 48:
		return pair(false, true)
	case 49:
		return pair[uint8](0, s[0])
	case 50:
		return pair[pairB8](0, pairB8(s[0]))
	case 51:
		return pair[uintptr](0, 77)
	case 52:
		return pair[complex64](0, 1)
	case 53:
		return pair([3]byte{}, [3]byte{s[0]})
	case 54:
		return pair(nil, &[]int{1})
	case 55:
		return pair(nil, []*int{&n, nil})
	case 56:
		return pair(nil, [][]int{{1}, nil})
	case 57:
		return pair(nil, []pairA{{1}})
	case 58:
		return pair(nil, []pairB8{pairB8(s[0])})
	case 59:
		return pair(nil, &pairA{1})
	case 60:
		return pair(nil, map[uint16]pairX{4: {3}})
	default:
		return pair(nil, []interface{}{s, 1.5, nil})
	}
}

const nPairs = 62

// Q_C16_pairs: every pair of 62 types, many of which differ in little (name, size, element, key, tag, methods), as
// fields with and without omitempty and string, slice and array elements and behind pointers in maps, one after the
// other from empty caches: both encode as encoding/json does.
func Q_C16_pairs() {
	s := letter("s")
	failing = false
	a, b := sym.Choose("first", nPairs), sym.Choose("second", nPairs)
	p := []int{0, 1, 2, 3, 4}
	if !sym.Thorough() {
		p = p[sym.Choose("position", 3):]
		if len(p) > 3 {
			p = p[:1]
		}
	}
	f, g := pairOf(a, s), pairOf(b, s)
	for _, i := range p {
		same("first", f(i))
		same("second", g(i))
	}
	sym.Reach("end")
}

// Q_C16_owned: the results of calls are the caller's, to their capacities: writing to one, or appending to it, changes no
// other, nor what later calls give; for every two of the values, small and large (to 5000 bytes) ones, with and without
// options.
func Q_C16_owned() {
	mks := []func(s string) interface{}{
		func(s string) interface{} { return s },
		func(s string) interface{} { return []byte(s) },
		func(s string) interface{} { return map[string]string{"b": s, "a": s} },
		func(s string) interface{} { return 1 },
		func(s string) interface{} { return (*int)(nil) },
		func(s string) interface{} { return nil },
		func(s string) interface{} { return struct{ A []string }{[]string{s}} },
		func(s string) interface{} { return strings.Repeat(s, 60) },
		func(s string) interface{} { return strings.Repeat(s, 600) },
		func(s string) interface{} { return strings.Repeat(s, 5000) },
		func(s string) interface{} { return json.RawMessage(`["` + s + `"]`) },
		func(s string) interface{} { return mS_nnvn{s, 1} },
		func(s string) interface{} { return time.Unix(1, 0).UTC() },
		func(s string) interface{} { return map[string]int{} },
	}
	s := letter("s")
	f, g := mks[sym.Choose("first", len(mks))], mks[sym.Choose("second", len(mks))]
	var o []jettison.Option
	if sym.Choose("options", 2) == 1 {
		o = append(o, jettison.UnsortedMap(), jettison.NoCompact())
		s = "c"
	}
	failing = false
	v, w := f(s), g(s)
	_, m1 := v.(map[string]string)
	_, m2 := w.(map[string]string)
	sym.Assume(!(m1 || m2) || o == nil)
	a, _ := jettison.MarshalOpts(v, o...)
	b, _ := jettison.MarshalOpts(w, o...)
	keepA, keepB := string(a), string(b)
	scribble := func(r []byte) {
		r = r[:cap(r)]
		for i := range r {
			r[i] = 0xEE
		}
	}
	_ = append(a, "!!!!!!!!!!!!!!!!"...)
	sym.Assert("appending to one leaves the other", string(b) == keepB)
	scribble(a)
	sym.Assert("writing to one leaves the other", string(b) == keepB)
	c, _ := jettison.MarshalOpts(v, o...)
	sym.Assert("again", string(c) == keepA)
	sym.Assert("still", string(b) == keepB)
	scribble(b)
	sym.Assert("not shared", string(c) == keepA)
	d, _ := jettison.Append(nil, w)
	sym.Assert("appended to nothing", string(d) == keepB || o != nil)
	scribble(c)
	e, _ := jettison.AppendOpts(nil, v, o...)
	sym.Assert("not the same memory", string(e) == keepA && (string(d) == keepB || o != nil))
	sym.Reach("end")
}

// Q_C16_context: 2 or 3 calls, each with one of two contexts or none, over values whose AppendJSONContext is called at the
// top, in an empty or a long buffer, or fails: each sees the context of its own call.
func Q_C16_context() {
	s := letter("s")
	vals := []func() (interface{}, string){
		func() (interface{}, string) { return mS_vnnn{s, 1}, `"%` + s + `"` },
		func() (interface{}, string) { return &mS_pnnn{s, 1}, `"%` + s + `"` },
		func() (interface{}, string) {
			return map[string]interface{}{"k": []mS_vnnn{{s, 1}, {"b", 2}}}, `{"k":["%` + s + `","%b"]}`
		},
		func() (interface{}, string) {
			return struct{ F jettison.AppendMarshalerCtx }{mS_vnnn{s, 1}}, `{"F":"%` + s + `"}`
		},
	}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		v, want := vals[sym.Choose("value", len(vals))]()
		failing = i < n-1 && sym.Choose("failing", 2) == 1
		var o []jettison.Option
		c := "D"
		switch sym.Choose("context", 3) {
		case 1:
			c = "Xq"
			o = append(o, jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, "q")))
		case 2:
			c = "Xr"
			o = append(o, jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, "r")))
		}
		got, err := jettison.MarshalOpts(v, o...)
		sym.Assert("fails as told", (err != nil) == failing)
		if err == nil {
			sym.Assert("its own context", string(got) == strings.ReplaceAll(want, "%", c))
		}
	}
	failing = false
}
