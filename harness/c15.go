package main

import (
	"bytes"
	"context"
	"encoding/json"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// appendTo is a destination of l symbolic bytes with spare capacity, inside a larger array whose other bytes are marked.
func appendTo(l, spare int) (dst, whole []byte) {
	if l == 0 && spare == 0 {
		return nil, nil
	}
	head := sym.Bytes("dst", l)
	whole = make([]byte, l+spare+4)
	copy(whole, head)
	for i := l; i < len(whole); i++ {
		whole[i] = 0xAA
	}
	return whole[: l : l+spare], whole
}

// checkAppend compares the appending entry points with the others for the value mk() and options o.
func checkAppend(mk func() interface{}, l, spare int, fail bool, o ...jettison.Option) {
	want, werr := jettison.MarshalOpts(mk(), o...)
	if len(o) < 4 {
		sym.Assert("fails as expected", (werr != nil) == fail)
	}
	if len(o) == 0 {
		m, err := jettison.Marshal(mk())
		sym.Assert("Marshal agrees", bytes.Equal(m, want) && (err == nil) == (werr == nil))
		sym.Assert("nil on error", err == nil || len(m) == 0)
	}
	sym.Assert("nil on error", werr == nil || len(want) == 0)
	for i := 0; i < 2; i++ {
		dst, whole := appendTo(l, spare)
		before := string(dst)
		var got []byte
		var err error
		if i == 0 {
			if len(o) != 0 {
				continue
			}
			got, err = jettison.Append(dst, mk())
		} else {
			got, err = jettison.AppendOpts(dst, mk(), o...)
		}
		sym.Assert("succeed or fail together", (err == nil) == (werr == nil))
		if err == nil {
			sym.Assert("appended", len(got) == len(before)+len(want) && string(got[:len(before)]) == before && bytes.Equal(got[len(before):], want))
		}
		sym.Assert("the destination is unaltered", string(dst) == before)
		for j := l + spare; j < len(whole); j++ {
			sym.Assert("nothing beyond the capacity is written", whole[j] == 0xAA)
		}
		if err == nil {
			sym.Out("got", got)
		}
	}
	sym.Reach("end")
}

// Q_C15_catalog: 37 values of every kind (13 failing after partial output) with symbolic content, 5 option sets,
// destinations of 0 or 3 symbolic bytes (any content) with 0, 2, 40 or 400 spare bytes; nil destinations.
func Q_C15_catalog() {
	it := catalog[sym.Choose("value", len(catalog))]
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	jettison.Marshal(it.mk("a", 1))
	o := catOpts[sym.Choose("options", len(catOpts))]
	d := []struct{ l, spare int }{{0, 0}, {3, 0}, {3, 2}, {0, 40}, {3, 400}}[sym.Choose("destination", 5)]
	checkAppend(func() interface{} { return it.mk(s, n) }, d.l, d.spare, it.fail, o...)
}

// Q_C15_capacity: every spare capacity from 0 to 24 around the bytes written for byte slices of 0 to 7 bytes (base64 in
// place), strings, floats with trimmed exponents, omitted fields and raw messages.
func Q_C15_capacity() {
	n := sym.Choose("length", 8)
	b := sym.Bytes("b", n)
	spare := sym.Choose("spare", 25)
	l := sym.Choose("dst", 3)
	var v interface{}
	switch sym.Choose("value", 7) {
	case 0:
		v = b
	case 1:
		v = [][]byte{b, b}
	case 2:
		sym.Assume(n == 0)
		v = []float64{1e-7, 2.5e-9, 1e-10, 1e21}
	case 3:
		sym.Assume(n == 0)
		v = catOmit{C: catNull{true}, F: catNull{true}, D: "x"}
	case 4:
		sym.Assume(n == 0)
		v = struct {
			A catNull `json:"a,omitnil"`
			B catNull `json:"b,omitnil"`
		}{catNull{true}, catNull{true}}
	case 5:
		sym.Assume(n == 0)
		v = map[string]int{"b": 1, "a": 2}
	case 6:
		sym.Assume(n == 1)
		v = struct{ A, B []byte }{b, nil}
	}
	checkAppend(func() interface{} { return v }, l, spare, false)
}

// Q_C15_prefix: every destination of 1 to 4 bytes, whatever they are (also e-0, null or a comma), before floats with
// exponents, dropped null fields and empty objects.
func Q_C15_prefix() {
	vs := []interface{}{1e-7, float32(1e-8), struct {
		A catNull `json:"a,omitnil"`
		B int     `json:"b"`
	}{catNull{true}, 1}, struct {
		A catNull `json:"a,omitnil"`
	}{catNull{true}}, struct{}{}, []int{}, catNull{true}, "", (*int)(nil)}
	v := vs[sym.Choose("value", len(vs))]
	l := sym.Choose("dst", 4) + 1
	checkAppend(func() interface{} { return v }, l, 2*sym.Choose("spare", 10), false)
}

// Q_C15_grow: two appends in a row to the same destination give the concatenation; a failing append in between does
// not disturb the earlier bytes.
func Q_C15_grow() {
	i, j := sym.Choose("first", len(catalog)), sym.Choose("second", len(catalog))
	a, b := catalog[i], catalog[j]
	x, errx := jettison.Marshal(a.mk("a", 3))
	y, erry := jettison.Marshal(b.mk("b", 4))
	dst := make([]byte, 0, 64*sym.Choose("capacity", 3))
	one, err1 := jettison.Append(dst, a.mk("a", 3))
	if err1 != nil {
		one = dst
	}
	keep := string(one)
	two, err2 := jettison.Append(one, b.mk("b", 4))
	sym.Assert("errors", (errx == nil) == (err1 == nil) && (erry == nil) == (err2 == nil))
	if err2 == nil {
		sym.Assert("concatenation", string(two) == string(x)+string(y))
	}
	sym.Assert("first result unaltered", string(one) == keep && keep == string(x))
}

// Q_C15_large: outputs of about 100 to 20000 bytes of every large kind (text, bytes, marshaler output, maps, slices) with
// 2 symbolic bytes, appended to destinations whose spare capacity is none, half of it, within 2 bytes of it or more.
func Q_C15_large() {
	n := []int{100, 1021, 1022, 4094, 4096, 20000}[sym.Choose("size", 6)]
	s := sym.String("s", 2)
	noBF(s)
	mk := func() interface{} { return nil }
	switch sym.Choose("kind", 6) {
	case 0:
		t := strings.Repeat("t", n-1) + s
		mk = func() interface{} { return t }
	case 1:
		b := append(make([]byte, n*3/4), s...)
		mk = func() interface{} { return b }
	case 2:
		l := string('a' + s[0]&7)
		mk = func() interface{} { return big{l, n} }
	case 3:
		m := map[string]string{"k": s, "l": strings.Repeat("m", n/2), "a": strings.Repeat("b", n/2)}
		mk = func() interface{} { return m }
	case 4:
		l := make([]int, n/4)
		for i := range l {
			l[i] = 100 + i%899
		}
		l[n/8] = int(s[0])
		mk = func() interface{} { return l }
	case 5:
		t := struct {
			A []float32
			B map[string]interface{}
			C json.RawMessage
		}{make([]float32, n/4), map[string]interface{}{"x": []byte(s), "b": make([]bool, n/16)}, append([]byte(" 1 "), strings.Repeat(" ", n/8)...)}
		mk = func() interface{} { return &t }
	}
	out, err := jettison.Marshal(mk())
	sym.Assert("no error", err == nil)
	spares := []int{0, len(out) - 1, len(out), len(out) + 700}
	if sym.Thorough() {
		spares = []int{0, 1, len(out) / 2, len(out) - 2, len(out) - 1, len(out), len(out) + 1, len(out) + 700}
	}
	spare := spares[sym.Choose("spare", len(spares))]
	checkAppend(mk, sym.Choose("dst", 2), spare, false)
}

// Q_C15_unsorted: the same with UnsortedMap and NoCompact, for maps of one entry and marshaler output kept as it is.
func Q_C15_unsorted() {
	s := letter("s")
	v := []interface{}{map[string]int{s: 1}, map[int]catNull{7: {false}}, []catNull{{true}, {false}}}[sym.Choose("value", 3)]
	checkAppend(func() interface{} { return v }, 2, 8*sym.Choose("spare", 6), false, jettison.UnsortedMap(), jettison.NoCompact())
}

type (
	failKey  struct{ n int }
	failKeyP int
	failVal  struct{ s string }
	failApp  struct{ s string }
	failCtx  struct{ s string }
	badVal   struct{ s string }
)

func (k failKey) MarshalText() ([]byte, error)        { return []byte("key"), errSay }
func (k *failKeyP) MarshalText() ([]byte, error)      { return []byte("key"), errSay }
func (v failVal) MarshalJSON() ([]byte, error)        { return []byte(`"` + v.s + `"`), errSay }
func (v failApp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"`+v.s+`"`...), errSay }
func (v badVal) MarshalJSON() ([]byte, error)         { return []byte(v.s + `]`), nil }
func (v failCtx) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"`+v.s+`"`...), errSay
}

// Q_C15_failing: a part that fails (keys, values of every marshaler interface, invalid marshaler output, numbers and raw
// messages, floats, times, unsupported types) inside each of 12 containers with text encoded before it, with and
// without UnsortedMap and others, into destinations of 5 symbolic bytes with no, little or enough
// room.
func Q_C15_failing() {
	s := letter("s")
	k := failKeyP(1)
	bad := []interface{}{failVal{s}, &failApp{s}, failCtx{s}, badVal{s}, failText{}, json.Number(s + "."), json.RawMessage(s + `:`), math.NaN(),
		float32(math.Inf(1)), make(chan int), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), map[failKey]string{{1}: s}, map[*failKeyP]string{&k: s},
		map[failText]int{{}: 1}, map[string]failVal{s: {s}}, []failApp{{s}}, struct {
			A string
			B failVal
		}{s, failVal{s}}, map[string]interface{}{s: []interface{}{s, math.NaN()}}, syncOf(s, failVal{s}), syncOf(failKey{1}, s), syncOf(1.5, s)}
	x := bad[sym.Choose("bad", len(bad))]
	var v interface{}
	switch sym.Choose("container", 12) {
	case 0:
		v = x
	case 1:
		v = &x
	case 2:
		v = []interface{}{s, 1, x}
	case 3:
		v = map[string]interface{}{s: x}
	case 4:
		v = map[int]interface{}{12: x}
	case 5:
		v = struct {
			A string
			B interface{}
		}{s, x}
	case 6:
		v = &struct {
			A map[string][]string
			B interface{} `json:",omitempty"`
		}{map[string][]string{"a": {s}}, x}
	case 7:
		v = [2]interface{}{s, x}
	case 8:
		v = syncOf(s, x)
	case 9:
		v = map[string]interface{}{"a": s, "b": []interface{}{s, x}, "c": x}
	case 10:
		v = []map[string]interface{}{{s: s}, {s: x}}
	case 11:
		v = syncOf(s, syncOf(s, x))
	}
	o := [][]jettison.Option{nil, {jettison.UnsortedMap()}, {jettison.RawByteSlice(), jettison.NoHTMLEscaping()}, {jettison.UnsortedMap(), jettison.NoUTF8Coercion(), jettison.ByteArrayAsString()}}[sym.Choose("options", 4)]
	checkAppend(func() interface{} { return v }, 5, []int{0, 3, 60}[sym.Choose("spare", 3)], true, o...)
}

func syncOf(k, v interface{}) *sync.Map {
	m := &sync.Map{}
	m.Store(k, v)
	return m
}

// Q_C15_spare: destinations of 0 to 4097 bytes with 0 to 100 (or 5000) bytes to spare, by Append and AppendOpts: the prefix, then
// what Marshal gives, and nothing written past the end of the capacity used.
func Q_C15_spare() {
	ls := []int{0, 1, 7, 63, 64, 65, 70, 100, 255, 256, 1025, 4096, 4097}
	l := ls[sym.Choose("prefix", len(ls))]
	sps := []int{0, 1, 2, 7, 8, 10, 15, 16, 17, 100, 5000}
	sp := sps[sym.Choose("spare", len(sps))]
	pre := []byte(strings.Repeat("prefix-", l/7+1)[:l])
	dst := append(make([]byte, 0, l+sp), pre...)
	x := sym.U8("x")
	sym.Assume(x < 3)
	v := []interface{}{x, "<a>", map[string]interface{}{"b": []byte("xyz"), "a": struct{ A int }{int(x)}}, []int{1, 2, 3}}[sym.Choose("value", 4)]
	want, werr := jettison.Marshal(v)
	var got []byte
	var err error
	switch sym.Choose("call", 3) {
	case 0:
		got, err = jettison.Append(dst, v)
	case 1:
		got, err = jettison.AppendOpts(dst, v)
	case 2:
		got, err = jettison.AppendOpts(dst, v, nil, jettison.NilMapEmpty())
	}
	sym.Assert("no error", err == nil && werr == nil)
	sym.Assert("appended", bytes.Equal(got, append(pre, want...)))
	sym.Assert("prefix kept", bytes.Equal(dst, pre[:l]))
}
