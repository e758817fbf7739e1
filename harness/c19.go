package main

import (
	"encoding/json"
	"reflect"
	"strconv"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type (
	badText  struct{ A bool } // MarshalText fails when A is set
	badPtr   struct{ A bool } // MarshalJSON fails when A is set
	badEmpty struct{}         // MarshalJSON gives nothing
)

func (x badText) MarshalText() ([]byte, error) {
	if x.A {
		return []byte("x"), errSay
	}
	return []byte{'"', 0xff}, nil
}

func (x *badPtr) MarshalJSON() ([]byte, error) {
	if x.A {
		return []byte("1"), errSay
	}
	return []byte("[ ]"), nil
}

func (badEmpty) MarshalJSON() ([]byte, error) { return nil, nil }

// parts that cannot always be encoded
var doubtful = []reflect.Type{
	typeOf[chan int](), typeOf[func()](), typeOf[float64](), typeOf[json.Number](), typeOf[map[float64]int8](), typeOf[badText](), typeOf[badPtr](), typeOf[jsonVal](),
	// the first 8 are enough for deep types
	typeOf[complex128](), typeOf[float32](), typeOf[map[bool]string](), typeOf[map[badText]int8](), typeOf[json.RawMessage](), typeOf[badEmpty](), typeOf[map[chan int]int8](), typeOf[*func()](),
	typeOf[map[[1]int8]int8](), typeOf[complex64](), typeOf[map[badPtr]bool](), typeOf[*chan string](), typeOf[[]complex64](),
}

// doubt compares values of n types under depth constructors with encoding/json.
func doubt(n, depth int) {
	t := doubtful[sym.Choose("leaf", n)]
	for i := 0; i < depth; i++ {
		t = wrap(sym.Choose("constructor", nWraps-1), t)
	}
	v := reflect.New(t)
	f := &filler{max: 1, bad: true, short: depth > 1}
	f.fill(v.Elem(), 2)
	var x interface{} = v.Interface()
	switch sym.Choose("how", 3) {
	case 0:
		x = v.Elem().Interface()
	case 1:
		x = []interface{}{"a", v.Elem().Interface(), nil}
	}
	want, werr := json.Marshal(x)
	got, err := jettison.Marshal(x)
	agree("value", want, werr, got, err)
	if err == nil {
		sym.Assert("valid JSON", json.Valid(got))
	}
	sym.Reach("end")
}

// Q_C19_leaf: 21 types of parts that may not be encodable (channels, functions, complex numbers, unsupported keys, floats
// that are not finite, failing methods, years out of range; numbers, raw messages and MarshalJSON results of at most
// 2 symbolic bytes), alone and under each of 13 type constructors: an error exactly when encoding/json gives one.
func Q_C19_leaf() { doubt(len(doubtful), sym.Choose("depth", 2)) }

// Q_C19_deep: 8 such types under two of 13 type constructors (thorough: 21).
func Q_C19_deep() {
	if sym.Thorough() {
		doubt(len(doubtful), 2)
	} else {
		doubt(8, 2)
	}
}

// valid checks that encoding v with options o gives valid JSON, or fails.
func valid(v interface{}, o []jettison.Option, fail bool) {
	got, err := jettison.MarshalOpts(v, o...)
	sym.Assert("fails as expected", (err != nil) == fail)
	if err == nil {
		sym.Assert("valid JSON", json.Valid(got))
	} else {
		sym.Assert("no output", got == nil)
	}
	sym.Out("length", strconv.AppendInt(nil, int64(len(got)), 10)) // the order of maps is open
}

// Options that keep the output well-formed.
var wellFormed = [][]jettison.Option{
	nil,
	{jettison.NoHTMLEscaping()},
	{jettison.UnsortedMap(), jettison.NilMapEmpty(), jettison.NilSliceEmpty()},
	{jettison.RawByteSlice(), jettison.ByteArrayAsString(), jettison.UnixTime()},
	{jettison.DurationFormat(jettison.DurationString), jettison.TimeLayout("2006 <\"Jan\">")},
	{jettison.DurationFormat(jettison.DurationSeconds), jettison.DenyList([]string{"A", "a", "k", "d"})},
	{jettison.DurationFormat(jettison.DurationMinutes), jettison.AllowList([]string{"C", "F", "T"}), jettison.RawByteSlice()},
	{jettison.AllowList([]string{}), jettison.UnsortedMap()},
	{jettison.DenyList([]string{"b"}), jettison.DurationFormat(jettison.DurationMilliseconds), jettison.NoUTF8Coercion()},
}

// Q_C19_options: the catalogue of 37 values with a symbolic letter and digit under 9 sets of options that keep the output
// well-formed: valid JSON, or an error for the same values whatever the options.
func Q_C19_options() {
	it := catalog[sym.Choose("value", len(catalog))]
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	o := wellFormed[sym.Choose("options", len(wellFormed))]
	switch it.name {
	case "channel field", "func inside", "bad append", "bad raw", "year":
		// a field list may drop what fails, Unix times are not formatted
		if len(o) > 1 {
			_, err := jettison.MarshalOpts(it.mk(s, n), o...)
			sym.Assume(err != nil)
		}
	}
	v := it.mk(s, n)
	if sym.Choose("how", 2) == 1 {
		v = map[string]interface{}{"<": v, "l": []interface{}{v}}
	}
	valid(v, o, it.fail)
}

// Q_C19_types: 35 leaf types under each of 14 type constructors with 4 (thorough: 9) sets of options.
func Q_C19_types() {
	t := anyType(len(leaves), 1, nWraps)
	v := made(t, 1, 2)
	n := 4
	if sym.Thorough() {
		n = len(wellFormed)
	}
	valid(v.Interface(), wellFormed[sym.Choose("options", n)], false)
}

// Q_C19_outputs: MarshalJSON, MarshalText (value and key) and RawMessage results of at most 3 (thorough: 4) symbolic bytes inside an
// object: valid JSON, or an error exactly when the bytes of MarshalJSON or the RawMessage are not valid JSON.
func Q_C19_outputs() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	b := sym.Bytes("b", sym.Choose("length", max+1))
	var v interface{}
	fail := false
	switch sym.Choose("method", 5) {
	case 0:
		v = jsonVal{b}
		fail = !json.Valid(b)
	case 1:
		v = json.RawMessage(b)
		fail = !json.Valid(b)
	case 2:
		v = sharedText{b}
	case 3:
		v = map[sharedKey]int{{&b}: 1}
	case 4:
		v = string(b)
	}
	var o []jettison.Option
	if sym.Choose("options", 2) == 1 {
		o = []jettison.Option{jettison.NoHTMLEscaping(), jettison.UnsortedMap()}
	}
	valid(struct {
		A string
		F interface{} `json:"f"`
		Z int
	}{"x", v, 1}, o, fail)
}

// Q_C19_omitted: fields of 21 types that may not be encodable, or pointers, slices and interfaces of them, with the omitnil
// option (alone, with omitempty or string): the call fails exactly when it does without the option, unless the field is nil.
func Q_C19_omitted() {
	t := doubtful[sym.Choose("leaf", len(doubtful))]
	how := sym.Choose("field", 4)
	ft := t
	switch how {
	case 1:
		ft = reflect.PtrTo(t)
	case 2:
		ft = reflect.SliceOf(t)
	case 3:
		ft = typeOf[interface{}]()
	}
	tags := [][2]string{{",omitnil", ""}, {"f,omitnil,omitempty", "f,omitempty"}, {",string,omitnil", ",string"}}[sym.Choose("tag", 3)]
	x, b := reflect.New(t).Elem(), typeOf[bool]()
	f := &filler{max: 1, bad: true, short: true}
	f.fill(x, 2)
	pointer := sym.Choose("pointer", 2) == 1
	set := func(tag string) interface{} {
		v := reflect.New(reflect.StructOf([]reflect.StructField{field("X", b, ""), field("F", ft, tag), field("Z", b, "")})).Elem()
		switch how {
		case 0, 3:
			v.Field(1).Set(x)
		case 1:
			p := reflect.New(t)
			p.Elem().Set(x)
			v.Field(1).Set(p)
		case 2:
			s := reflect.MakeSlice(ft, 1, 1)
			s.Index(0).Set(x)
			v.Field(1).Set(s)
		}
		if pointer {
			return v.Addr().Interface()
		}
		return v.Interface()
	}
	v := set(tags[0])
	_, werr := json.Marshal(set(tags[1]))
	isNil := false
	switch ft.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		isNil = how == 0 && x.IsNil()
	}
	got, err := jettison.Marshal(v)
	sym.Assert("fails as without omitnil", (err != nil) == (werr != nil && !isNil))
	if err == nil {
		sym.Assert("valid JSON", json.Valid(got))
	}
	sym.Reach("end")
}

// Q_C19_years: times around the years 0 and 10000, by value, pointer, in a map, a list or an embedded struct, with the default
// layout or a standard one: an error exactly when encoding/json gives one.
func Q_C19_years() {
	y := []int{-292277022399, -10000, -1, 0, 1, 9999, 10000, 10001, 19999, 65536, 292277026596}[sym.Choose("year", 11)]
	tm := time.Date(y, time.Month(1+11*sym.Choose("month", 2)), 31, 23*sym.Choose("hour", 2), 0, 0, 0, time.FixedZone("z", 3600*(1-sym.Choose("zone", 3))))
	var v interface{}
	switch sym.Choose("in", 6) {
	case 0:
		v = tm
	case 1:
		v = &tm
	case 2:
		v = map[string]time.Time{"k": tm}
	case 3:
		v = []interface{}{tm}
	case 4:
		v = struct{ *keyTime }{&keyTime{tm}}
	case 5:
		v = map[time.Time]int{tm: 1}
	}
	o := [][]jettison.Option{nil, {jettison.TimeLayout(time.RFC3339)}, {jettison.TimeLayout(time.RFC3339Nano)}}[sym.Choose("layout", 3)]
	_, werr := json.Marshal(v)
	valid(v, o, werr != nil)
}
