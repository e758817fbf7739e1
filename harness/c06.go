package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// nullish marshals to its text.
type nullish struct{ b []byte }

func (n nullish) MarshalJSON() ([]byte, error) { return n.b, nil }

type nullishPtr struct{ b []byte }

func (n *nullishPtr) MarshalJSON() ([]byte, error) { return n.b, nil }

type nullMap map[string]int

func (n nullMap) MarshalJSON() ([]byte, error) { return []byte("null"), nil }

// Q_C06_omitempty_scalar: omitempty on every scalar kind, all values symbolic, two such fields around a plain one.
func Q_C06_omitempty_scalar() {
	switch sym.Choose("type", 16) {
	case 9:
		omitEmptyOf(uintptr(sym.U64("x")), uintptr(sym.U64("y")))
	case 10:
		omitEmptyOf(uint(sym.U64("x")), uint(sym.U64("y")))
	case 11:
		omitEmptyOf(int(sym.I64("x")), int(sym.I64("y")))
	case 12:
		omitEmptyOf(sym.U8("x"), sym.U8("y"))
	case 13:
		omitEmptyOf(sym.U32("x"), sym.U32("y"))
	case 14:
		omitEmptyOf(sym.I16("x"), sym.I16("y"))
	case 15:
		omitEmptyOf(time.Duration(sym.I64("x")), time.Duration(sym.I64("y")))
	case 0:
		omitEmptyOf(sym.Bool("x"), sym.Bool("y"))
	case 1:
		omitEmptyOf(sym.I64("x"), sym.I64("y"))
	case 2:
		omitEmptyOf(nInt8(sym.I8("x")), nInt8(sym.I8("y")))
	case 3:
		omitEmptyOf(sym.U16("x"), sym.U16("y"))
	case 4:
		omitEmptyOf(sym.I32("x"), sym.I32("y"))
	case 5:
		omitEmptyOf(sym.U64("x"), sym.U64("y"))
	case 6:
		omitEmptyOf(sym.F64("x"), 0)
	case 7:
		omitEmptyOf(sym.F32("x"), 0)
	case 8:
		s := symString("s", 1)
		noBF(s)
		omitEmptyOf(s, symEmpty())
	}
	sym.Reach("end")
}

func symEmpty() string {
	if sym.Choose("second empty", 2) == 1 {
		return ""
	}
	return "x"
}

func omitEmptyOf[T any](x, y T) {
	v := struct {
		A T     `json:"a,omitempty"`
		B uint8 // a neighbour in memory
		C T     `json:",omitempty"`
		D [9]uint8
	}{x, 0xa5, y, [9]uint8{1, 0, 0, 0, 1, 0, 0, 0, 1}}
	same("fields", v)
	same("fields, pointer", &v)
	same("only", struct {
		A T `json:",omitempty,string"`
	}{x})
}

var c06Types = []reflect.Type{
	typeOf[*int](), typeOf[**int](), typeOf[[]int](), typeOf[nSlice](), typeOf[map[string]int](), typeOf[nMap](), typeOf[interface{}](), typeOf[talker](), typeOf[[0]int](), typeOf[[1]int](),
	typeOf[[2]string](), typeOf[struct{}](), typeOf[struct{ X int }](), typeOf[onePtr](), typeOf[[]byte](), typeOf[json.RawMessage](), typeOf[json.Number](), typeOf[*struct{ X int }](), typeOf[map[int]*int](), typeOf[uintptr](), typeOf[float32](),
	typeOf[uint](), typeOf[uint8](), typeOf[uint32](), typeOf[int](), typeOf[int16](), typeOf[textVal](), typeOf[nStr](), typeOf[*[]int](), typeOf[*interface{}](),
	typeOf[[2]struct{}](), typeOf[[1][0]int](), typeOf[[0]struct{}](), typeOf[[]struct{}](), typeOf[nInt8](), typeOf[time.Duration](), typeOf[nBool](), typeOf[int8](),
}

// Q_C06_omitempty_kind: omitempty on fields of 38 types (nil and non-nil pointers, interfaces, slices, maps, arrays,
// structs, named types), two of them around a plain field, shapes chosen and values symbolic.
func Q_C06_omitempty_kind() {
	t := c06Types[sym.Choose("type", len(c06Types))]
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: t, Tag: `json:"a,omitempty"`},
		{Name: "B", Type: typeOf[uint8]()},
		{Name: "C", Type: t, Tag: `json:",omitempty"`},
		{Name: "D", Type: typeOf[uint16]()},
	})
	v := reflect.New(st).Elem()
	v.Field(1).SetUint(0xa5)
	v.Field(3).SetUint(0x5aa5)
	f := &filler{max: 1}
	if t == typeOf[json.RawMessage]() {
		if sym.Choose("nil message", 2) == 1 {
			v.Field(0).SetBytes([]byte("1"))
		} else {
			v.Field(2).SetBytes([]byte("{}"))
		}
	} else {
		f.fill(v.Field(0), 2)
		f.fill(v.Field(2), 1)
	}
	same("direct", v.Interface())
	same("pointer", v.Addr().Interface())
	sym.Reach("end")
}

// omitNilSpec builds the object of the kept fields.
func object(fields ...string) string { return "{" + strings.Join(fields, ",") + "}" }

type onil struct {
	A *int                   `json:"a,omitnil"`
	B interface{}            `json:"b,omitnil"`
	C []int                  `json:"c,omitnil"`
	D map[string]int         `json:"d,omitnil"`
	E int                    `json:"e,omitnil"`
	F string                 `json:",omitnil"`
	G struct{ X *int }       `json:"g,omitnil"`
	H *struct{ Y int }       `json:"h,omitnil,omitempty"`
	I talker                 `json:"i,omitnil"`
	J [1]*int                `json:"j,omitnil"`
	K func()                 `json:"-"`
	L map[string]interface{} `json:"l,omitnil,omitempty"`
}

// Q_C06_omitnil: every subset of nil fields among pointers, interfaces, slices and maps; non-nilable fields stay;
// empty non-nil slices and maps stay unless omitempty is there too.
func Q_C06_omitnil() {
	var v onil
	var want []string
	n := int(sym.U8("n") % 10)
	d := string(rune('0' + n))
	if sym.Choose("a", 2) == 1 {
		v.A = &n
		want = append(want, `"a":`+d)
	}
	switch sym.Choose("b", 3) {
	case 1:
		v.B = n
		want = append(want, `"b":`+d)
	case 2:
		v.B = (*int)(nil)
		want = append(want, `"b":null`)
	}
	switch sym.Choose("c", 3) {
	case 1:
		v.C = []int{}
		want = append(want, `"c":[]`)
	case 2:
		v.C = []int{n}
		want = append(want, `"c":[`+d+`]`)
	}
	switch sym.Choose("d", 3) {
	case 1:
		v.D = map[string]int{}
		want = append(want, `"d":{}`)
	case 2:
		v.D = map[string]int{"k": n}
		want = append(want, `"d":{"k":`+d+`}`)
	}
	want = append(want, `"e":0`, `"F":""`, `"g":{"X":null}`)
	if sym.Choose("h", 2) == 1 {
		v.H = &struct{ Y int }{n}
		want = append(want, `"h":{"Y":`+d+`}`)
	}
	if sym.Choose("i", 2) == 1 {
		v.I = implInt(n)
		want = append(want, `"i":`+d)
	}
	want = append(want, `"j":[null]`)
	switch sym.Choose("l", 3) {
	case 1:
		v.L = map[string]interface{}{}
	case 2:
		v.L = map[string]interface{}{"x": nil}
		want = append(want, `"l":{"x":null}`)
	}
	is("direct", object(want...), v)
	is("pointer", object(want...), &v)
	sym.Reach("end")
}

// Q_C06_null: omitnil on types with MarshalJSON (value, pointer receiver, map kind): dropped exactly when the method
// produced null (texts of 4 symbolic letters and longer texts ending in null); every subset of the three fields.
func Q_C06_null() {
	mk := func(name string) ([]byte, bool) {
		switch sym.Choose(name, 5) {
		case 0:
			return []byte("null"), true
		case 1:
			return []byte(" null\n"), true
		case 2:
			b := sym.Bytes("text", 4)
			sym.Assume(json.Valid(b))
			for _, c := range b {
				sym.Assume(c > ' ')
			}
			return b, string(b) == "null"
		case 3:
			return []byte(`"null"`), false
		}
		return []byte(`{"x":null}`), false
	}
	type T struct {
		A nullish     `json:"a,omitnil"`
		B int         `json:"b"`
		C *nullishPtr `json:"c,omitnil"`
		D nullish     `json:",omitnil"`
	}
	type U struct {
		A nullish    `json:"a,omitnil"`
		C nullishPtr `json:"c,omitnil"`
		D nullish    `json:",omitnil"`
	}
	a, an := mk("a")
	c, cn := []byte("7"), false
	if sym.Choose("c", 2) == 0 {
		c, cn = []byte("null"), true
	}
	d, dn := []byte("[null]"), false
	if sym.Choose("d", 2) == 0 {
		d, dn = []byte("null"), true
	}
	text := func(k string, b []byte) string { return k + string(specCompact(b, true)) }
	var w, u []string
	if !an {
		w = append(w, text(`"a":`, a))
		u = append(u, text(`"a":`, a))
	}
	w = append(w, `"b":1`)
	if !cn {
		w = append(w, text(`"c":`, c))
		u = append(u, text(`"c":`, c))
	}
	if !dn {
		w = append(w, text(`"D":`, d))
		u = append(u, text(`"D":`, d))
	}
	is("around a plain field", object(w...), T{nullish{a}, 1, &nullishPtr{c}, nullish{d}})
	is("alone", object(u...), &U{nullish{a}, nullishPtr{c}, nullish{d}})
	sym.Reach("end")
}

// Q_C06_null_kinds: omitnil with nil pointers to marshalers, map-kind and slice-kind marshalers, interfaces holding
// marshalers that produce null, and strings ending in null, which are not dropped.
func Q_C06_null_kinds() {
	type T struct {
		A nullMap        `json:"a,omitnil"`
		B json.Marshaler `json:"b,omitnil"`
		C *nullish       `json:"c,omitnil"`
		D string         `json:"d,omitnil"`
		E []*int         `json:"e,omitnil"`
	}
	var v T
	var w []string
	if sym.Choose("a", 2) == 1 {
		v.A = nullMap{}
	}
	switch sym.Choose("b", 3) {
	case 1:
		v.B = nullish{[]byte("null")}
	case 2:
		v.B = nullish{[]byte("2")}
		w = append(w, `"b":2`)
	}
	switch sym.Choose("c", 3) {
	case 1:
		v.C = &nullish{[]byte("null")}
	case 2:
		v.C = &nullish{[]byte("3")}
		w = append(w, `"c":3`)
	}
	v.D = "null"
	w = append(w, `"d":"null"`)
	if sym.Choose("e", 2) == 1 {
		v.E = []*int{nil}
		w = append(w, `"e":[null]`)
	}
	is("direct", object(w...), v)
	is("pointer", object(w...), &v)
	is("through Append", object(w...), []*T{&v}[0], jettison.NoHTMLEscaping())
	sym.Reach("end")
}

// Q_C06_both: omitempty and omitnil on fields of embedded structs and next to denied fields keep the object well-formed.
func Q_C06_both() {
	type In struct {
		A *int `json:"a,omitnil"`
		B int  `json:"b,omitempty"`
	}
	type T struct {
		In
		C []int `json:"c,omitempty"`
		*Fn
		D nullish `json:"d,omitnil"`
		E string  `json:"e,omitempty"`
	}
	v := T{}
	var w []string
	n := 1
	if sym.Choose("a", 2) == 1 {
		v.A = &n
		w = append(w, `"a":1`)
	}
	if x := sym.U8("b"); x != 0 {
		sym.Assume(x < 10)
		v.B = int(x)
		w = append(w, `"b":`+string(rune('0'+x)))
	}
	if sym.Choose("c", 2) == 1 {
		v.C = []int{1}
		w = append(w, `"c":[1]`)
	}
	if sym.Choose("f", 2) == 1 {
		v.Fn = &Fn{4}
		w = append(w, `"F":4`)
	}
	v.D = nullish{[]byte("null")}
	if sym.Choose("d", 2) == 1 {
		v.D = nullish{[]byte("5")}
		w = append(w, `"d":5`)
	}
	if sym.Choose("e", 2) == 1 {
		v.E = "e"
		w = append(w, `"e":"e"`)
	}
	is("kept", object(w...), v)
	deny := w[:0:0]
	for _, s := range w {
		if s != `"c":[1]` && s[:4] != `"a":` {
			deny = append(deny, s)
		}
	}
	is("denied", object(deny...), &v, jettison.DenyList([]string{"a", "c"}))
	sym.Reach("end")
}

// Q_C06_typednil: interfaces (with and without methods) that hold nil pointers, maps, slices, functions or zero values are
// no nil interfaces: neither omitnil nor omitempty drops them; nil interfaces are dropped by both.
func Q_C06_typednil() {
	type T struct {
		A interface{}  `json:"a,omitnil"`
		B interface{}  `json:"b,omitempty"`
		C fmt.Stringer `json:"c,omitnil"`
		D fmt.Stringer `json:"d,omitempty"`
		E error        `json:"e,omitnil,omitempty"`
		F *interface{} `json:"f,omitnil"`
		G []error      `json:"g,omitnil"`
	}
	n := int(sym.U8("n") % 10)
	any := []interface{}{nil, (*int)(nil), map[string]int(nil), []int(nil), 0, "", false, struct{}{}, [0]int{}, (*alienvS)(nil), (**int)(nil), n}
	text := []string{"", "null", "null", "null", "0", `""`, "false", "{}", "[]", "null", "null", dig(n)}
	str := []fmt.Stringer{nil, (*alienvS)(nil), (*alienpI)(nil), alienvI(0), alienvStr(""), alienvM(nil), alienvL(nil), alienvS{}, alienvP{}, alienvI(n)}
	strText := []string{"", "null", "null", "0", `""`, "null", "null", `{"A":0}`, `{"P":null}`, dig(n)}
	i, j := sym.Choose("any", len(any)), sym.Choose("stringer", len(str))
	v := T{A: any[i], B: any[i], C: str[j], D: str[j]}
	v.E, _ = str[j].(error)
	var w []string
	add := func(k, t string) {
		if t != "" {
			w = append(w, `"`+k+`":`+t)
		}
	}
	add("a", text[i])
	add("b", text[i])
	add("c", strText[j])
	add("d", strText[j])
	add("e", strText[j])
	if sym.Choose("more", 2) == 1 {
		x := any[i]
		v.F, v.G = &x, []error{}
		t := text[i]
		if t == "" {
			t = "null"
		}
		add("f", t)
		add("g", "[]")
	}
	is("value", object(w...), v)
	is("pointer", object(w...), &v)
	is("in a list", "["+object(w...)+"]", []T{v})
	sym.Reach("end")
}

// Q_C06_sequence: 3 fields in a row, each of 9 types and tags (omitnil and omitempty, alone or together, on pointers, lists, strings
// and types with a MarshalJSON that gives null or not), zero or not: exactly the fields that remain, in order.
func Q_C06_sequence() {
	null, one := nullish{[]byte("null")}, nullish{[]byte("1")}
	n := 2
	kinds := []struct {
		t    reflect.Type
		tag  string
		zero interface{}
		set  interface{}
		z, s string // what the values give, "" for nothing
	}{
		{typeOf[nullish](), ",omitnil", null, one, "", "1"},
		{typeOf[nullish](), ",omitnil,omitempty", null, one, "", "1"},
		{typeOf[nullish](), ",omitempty", null, one, "null", "1"},
		{typeOf[*int](), ",omitnil", (*int)(nil), &n, "", "2"},
		{typeOf[*int](), ",omitnil,omitempty", (*int)(nil), &n, "", "2"},
		{typeOf[[]int](), ",omitnil", []int(nil), []int{}, "", "[]"},
		{typeOf[[]int](), ",omitempty,omitnil", []int{}, []int{3}, "", "[3]"},
		{typeOf[string](), ",omitempty", "", "s", "", `"s"`},
		{typeOf[int](), "", 0, 5, "0", "5"},
	}
	var fs []reflect.StructField
	var vals []interface{}
	want := "{"
	for i := 0; i < 3; i++ {
		k := kinds[sym.Choose("kind", len(kinds))]
		name := string(rune('A' + i))
		fs = append(fs, reflect.StructField{Name: name, Type: k.t, Tag: tagOf(k.tag)})
		v, s := k.zero, k.z
		if sym.Choose("set", 2) == 1 {
			v, s = k.set, k.s
		}
		vals = append(vals, v)
		if s != "" {
			if want != "{" {
				want += ","
			}
			want += `"` + name + `":` + s
		}
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i, x := range vals {
		v.Field(i).Set(reflect.ValueOf(x))
	}
	is("struct", want+"}", v.Interface())
}
