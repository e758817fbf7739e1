package main

import (
	"encoding/base64"
	"reflect"
	"strconv"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type (
	byteT  byte
	byteJV byte
	byteJP byte
	byteTV byte
	byteTP byte
	byteAV byte
	byteAP byte
)

func (b byteJV) MarshalJSON() ([]byte, error) {
	return strconv.AppendInt([]byte("1"), int64(b), 10), nil
}
func (b *byteJP) MarshalJSON() ([]byte, error) {
	return strconv.AppendInt([]byte("2"), int64(*b), 10), nil
}
func (b byteTV) MarshalText() ([]byte, error) {
	return strconv.AppendInt([]byte("3"), int64(b), 10), nil
}
func (b *byteTP) MarshalText() ([]byte, error) {
	return strconv.AppendInt([]byte("4"), int64(*b), 10), nil
}
func (b byteAV) AppendJSON(dst []byte) ([]byte, error) {
	return strconv.AppendInt(append(dst, '5'), int64(b), 10), nil
}
func (b *byteAP) AppendJSON(dst []byte) ([]byte, error) {
	return strconv.AppendInt(append(dst, '6'), int64(*b), 10), nil
}

// Q_C13_base64: every byte slice of at most 6 bytes (thorough: 10), nil and empty included, against encoding/json and
// encoding/base64.
func Q_C13_base64() {
	max := 6
	if sym.Thorough() {
		max = 10
	}
	n := sym.Choose("n", max+2) - 1
	var b []byte
	want := "null"
	if n >= 0 {
		b = sym.Bytes("b", n)
		if sym.Choose("room", 2) == 1 {
			b = append(b, "more"...)[:n]
		}
		want = `"` + base64.StdEncoding.EncodeToString(b) + `"`
	}
	sym.ReadOnly(b)
	is("base64", want, b)
	same("encoding/json", b)
	same("in composites", []interface{}{b, &b, struct {
		A []byte
		B *[]byte
		C []byteT
	}{b, &b, nil}, map[string][]byte{"k": b}})
	sym.Reach("end")
}

// Q_C13_append: every byte slice of at most 4 bytes appended to a destination of 0 to 3 bytes with 0 to 10 bytes
// of spare capacity, and to larger ones around the encoded size.
func Q_C13_append() {
	n := sym.Choose("n", 5)
	b := sym.Bytes("b", n)
	l := sym.Choose("dst length", 4)
	c := sym.Choose("spare", 11)
	back := make([]byte, l+c)
	d := sym.Bytes("d", l)
	copy(back, d)
	got, err := jettison.Append(back[:l:l+c], b)
	sym.Assert("no error", err == nil)
	sym.Assert("appended", string(got) == string(d)+`"`+base64.StdEncoding.EncodeToString(b)+`"`)
	sym.Assert("prefix kept", string(back[:l]) == string(d))
	sym.Out("got", got)
}

// Q_C13_long: slices of 45 to 5000 bytes with 3 symbolic bytes, in either representation; longer than the
// buffer kept in the pool.
func Q_C13_long() {
	n := []int{45, 46, 47, 3070, 3072, 5000}[sym.Choose("n", 6)]
	b := make([]byte, n)
	at := []int{0, n / 2, n - 3}[sym.Choose("at", 3)]
	copy(b[at:], sym.Bytes("b", 3))
	is("base64", `"`+base64.StdEncoding.EncodeToString(b)+`"`, b)
	got, err := jettison.Append(nil, b)
	sym.Assert("append", err == nil && string(got) == `"`+base64.StdEncoding.EncodeToString(b)+`"`)
}

// Q_C13_large: arrays of 64 to 1100 (thorough: 5000) bytes (zeros or letters) with 2 symbolic bytes at the start, middle or end, as strings
// and as lists of numbers, and slices of them as raw strings; alone, in an array of arrays and in a struct.
func Q_C13_large() {
	var v, in reflect.Value
	ns := []int{64, 257, 1100}
	if sym.Thorough() {
		ns = []int{63, 64, 65, 255, 256, 257, 1024, 1025, 5000}
	}
	n := ns[sym.Choose("n", len(ns))]
	v = reflect.New(reflect.ArrayOf(n, typeOf[byte]())).Elem()
	b := v.Slice(0, n).Bytes()
	if sym.Choose("fill", 2) == 1 {
		for i := range b {
			b[i] = 'x'
		}
	}
	at := []int{0, n/2 + 1, n - 2}[sym.Choose("at", 3)]
	copy(b[at:], sym.Bytes("b", 2))
	noBF(string(b[at : at+2]))
	q := string(specString(nil, string(b), true, true))
	in = reflect.New(reflect.ArrayOf(2, v.Type()))
	in.Elem().Index(1).Set(v)
	zero := string(specString(nil, string(make([]byte, n)), true, true))
	is("array", q, v.Interface(), jettison.ByteArrayAsString())
	is("pointer", q, v.Addr().Interface(), jettison.ByteArrayAsString())
	is("array of arrays", "["+zero+","+q+"]", in.Interface(), jettison.ByteArrayAsString())
	is("slice", `{"A":`+q+`}`, struct{ A []byte }{b}, jettison.RawByteSlice())
	is("slice of half", string(specString(nil, string(b[:n/2+2]), true, true)), b[:n/2+2], jettison.RawByteSlice())
	same("numbers", v.Interface())
}

// Q_C13_raw: byte slices and arrays of at most 3 symbolic bytes as strings; without the option arrays are
// arrays of numbers.
func Q_C13_raw() {
	n := sym.Choose("n", 4)
	s := sym.String("b", n)
	noBF(s)
	room := make([]byte, n+[]int{0, 2, 9}[sym.Choose("room", 3)])
	copy(room[copy(room, s):], "more\" than")
	b := room[:n]
	q := string(specString(nil, s, true, true))
	var arr interface{}
	nums := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			nums += ","
		}
		nums += strconv.Itoa(int(s[i]))
	}
	nums += "]"
	var named interface{}
	switch n {
	case 0:
		arr, named = [0]byte{}, [0]byteT{}
	case 1:
		arr, named = [1]byte{b[0]}, &[1]byteT{byteT(b[0])}
	case 2:
		arr, named = [2]byte{b[0], b[1]}, [2]byteT{byteT(b[0]), byteT(b[1])}
	case 3:
		arr, named = &[3]byte{b[0], b[1], b[2]}, [3]byteT{byteT(b[0]), byteT(b[1]), byteT(b[2])}
	}
	switch sym.Choose("what", 4) {
	case 0:
		is("raw slice", q, b, jettison.RawByteSlice())
		is("raw slice in a struct", `{"A":`+q+`,"B":null}`, struct {
			A []byteT
			B []byte
		}{A: named2(b)}, jettison.RawByteSlice())
	case 1:
		is("array", nums, arr)
		is("named array", nums, named)
		same("array", arr)
		is("array, raw slices", nums, arr, jettison.RawByteSlice())
	case 2:
		is("array as string", q, arr, jettison.ByteArrayAsString())
		is("named array as string", q, named, jettison.ByteArrayAsString())
		is("in composites", `[`+q+`,{"k":`+q+`}]`, []interface{}{arr, map[string]interface{}{"k": named}}, jettison.ByteArrayAsString())
	case 3:
		is("slice, array as string", `"`+base64.StdEncoding.EncodeToString(b)+`"`, b, jettison.ByteArrayAsString())
		is("nil, raw", "null", []byte(nil), jettison.RawByteSlice())
		is("nil, whatever other slices give", "[null]", [][]byteT{nil}, jettison.NilSliceEmpty())
	}
	sym.Reach("end")
}

func named2(b []byte) []byteT {
	out := []byteT{}
	for _, c := range b {
		out = append(out, byteT(c))
	}
	return out
}

// Q_C13_marshalers: slices and arrays (addressable or not) of two elements of byte kind with each sort of marshaler
// are encoded element by element, whatever the options.
func Q_C13_marshalers() {
	x, y := sym.U8("x"), sym.U8("y")
	o := [][]jettison.Option{nil, {jettison.RawByteSlice(), jettison.ByteArrayAsString()}}[sym.Choose("options", 2)]
	list := func(p string) string {
		return "[" + p + strconv.Itoa(int(x)) + "," + p + strconv.Itoa(int(y)) + "]"
	}
	text := func(p string) string {
		return `["` + p + strconv.Itoa(int(x)) + `","` + p + strconv.Itoa(int(y)) + `"]`
	}
	switch sym.Choose("marshaler", 6) {
	case 0:
		is("value MarshalJSON", list("1"), []byteJV{byteJV(x), byteJV(y)}, o...)
		is("value MarshalJSON, array", list("1"), [2]byteJV{byteJV(x), byteJV(y)}, o...)
	case 1:
		is("pointer MarshalJSON", list("2"), []byteJP{byteJP(x), byteJP(y)}, o...)
		is("pointer MarshalJSON, array", list("2"), &[2]byteJP{byteJP(x), byteJP(y)}, o...)
	case 2:
		is("value MarshalText", text("3"), []byteTV{byteTV(x), byteTV(y)}, o...)
		is("value MarshalText, array", text("3"), [2]byteTV{byteTV(x), byteTV(y)}, o...)
	case 3:
		is("pointer MarshalText", text("4"), []byteTP{byteTP(x), byteTP(y)}, o...)
		is("pointer MarshalText, array", text("4"), &[2]byteTP{byteTP(x), byteTP(y)}, o...)
	case 4:
		is("value AppendJSON", list("5"), []byteAV{byteAV(x), byteAV(y)}, o...)
		is("value AppendJSON, array", list("5"), [2]byteAV{byteAV(x), byteAV(y)}, o...)
	case 5:
		is("pointer AppendJSON", list("6"), []byteAP{byteAP(x), byteAP(y)}, o...)
		is("pointer AppendJSON, array", list("6"), &[2]byteAP{byteAP(x), byteAP(y)}, o...)
	}
	sym.Reach("end")
}
