package main

import (
	"encoding/json"
	"reflect"
	"unicode/utf8"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// stringOpts are the string options of bits: 1 NoStringEscaping, 2 NoHTMLEscaping, 4 NoUTF8Coercion.
func stringOpts(bits int) []jettison.Option {
	var o []jettison.Option
	if bits&1 != 0 {
		o = append(o, jettison.NoStringEscaping())
	}
	if bits&2 != 0 {
		o = append(o, jettison.NoHTMLEscaping())
	}
	if bits&4 != 0 {
		o = append(o, jettison.NoUTF8Coercion())
	}
	return o
}

// specOpts is the string s under the string options of bits.
func specOpts(s string, bits int) string {
	if bits&1 != 0 {
		return `"` + s + `"`
	}
	return string(specString(nil, s, bits&2 == 0, bits&4 == 0))
}

// Q_C03_value: every string of at most 3 bytes (thorough: 4) under each of the 8 combinations of the string options.
func Q_C03_value() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	bits := sym.Choose("options", 8)
	s := symString("s", max)
	noBF(s)
	is("string", specOpts(s, bits), s, stringOpts(bits)...)
	sym.Reach("end")
}

// Q_C03_window: strings of 8 to 65 bytes with 3 symbolic bytes at any position, under each combination.
func Q_C03_window() {
	n := []int{8, 17, 33, 65}[sym.Choose("n", 4)]
	bits := sym.Choose("options", 8)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc\xc3\xa9fgh"[i%8]
	}
	copy(b[sym.Choose("position", n-2):], sym.Bytes("s", 3))
	s := string(b)
	noBF(s)
	is("string", specOpts(s, bits), s, stringOpts(bits)...)
}

// Q_C03_long: strings of 63 to 4097 bytes made of plain letters, runes, escaped characters or invalid bytes, in which 2
// bytes near the ends or the middle are symbolic, under each combination.
func Q_C03_long() {
	s := long("s", longSizes()[sym.Choose("n", len(longSizes()))], 2)
	noBF(s)
	bits := sym.Choose("options", 8)
	is("string", specOpts(s, bits), s, stringOpts(bits)...)
}

// Q_C03_positions: every string of at most 2 bytes (thorough: 3) in every position string content is emitted, under
// each of the 8 combinations.
func Q_C03_positions() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	bits := sym.Choose("options", 8)
	where := sym.Choose("where", 9)
	s := symString("s", max)
	noBF(s)
	o := stringOpts(bits)
	q := specOpts(s, bits)
	switch where {
	case 0:
		is("map key and value", `{`+q+`:`+q+`}`, map[string]string{s: s}, o...)
	case 1:
		is("named map key", `{`+q+`:1}`, map[nStr]int{nStr(s): 1}, o...)
	case 2:
		is("raw byte slice", q, []byte(s), append(o, jettison.RawByteSlice())...)
	case 3:
		var a [2]byte
		copy(a[:], s)
		is("byte array", specOpts(string(a[:]), bits), a, append(o, jettison.ByteArrayAsString())...)
	case 4:
		is("field", `{"A":`+q+`,"B":[`+q+`]}`, struct {
			A string
			B []nStr
		}{s, []nStr{nStr(s)}}, o...)
	case 5:
		is("text", q, textVal{s}, o...)
	case 6:
		is("text key", `{`+q+`:0}`, map[textIntKey]int{{1, s}: 0}, o...)
	case 7:
		is("interface", `[`+q+`]`, []interface{}{&s}, o...)
	case 8:
		is("unsorted map key", `{`+q+`:`+q+`}`, map[string]interface{}{s: s}, append(o, jettison.UnsortedMap())...)
	}
	sym.Reach("end")
}

// Q_C03_quoted: string fields with the string option under NoHTMLEscaping and NoUTF8Coercion: both levels of
// escaping follow the options; every string of at most 2 bytes.
func Q_C03_quoted() {
	bits := 2 * sym.Choose("options", 4)
	s := symString("s", 2)
	noBF(s)
	is("string option", `{"A":`+specOpts(specOpts(s, bits), bits)+`}`, struct {
		A string `json:",string"`
	}{s}, stringOpts(bits)...)
}

// Q_C03_nohtml: NoHTMLEscaping against encoding/json's Encoder with SetEscapeHTML(false), keys of structs included;
// every string of at most 2 bytes (thorough: 3).
func Q_C03_nohtml() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := symString("s", max)
	noBF(s)
	v := struct {
		A string `json:"<&>"`
		B map[string]interface{}
		C string `json:"c,string"`
	}{s, map[string]interface{}{s: s}, s}
	want, werr := stdNoHTML(v)
	got, err := jettison.MarshalOpts(v, jettison.NoHTMLEscaping())
	agree("nohtml", want, werr, got, err)
}

// Q_C03_decode: with escaping and coercion on, decoding the output of a valid string gives the string back, with
// and without NoHTMLEscaping; every string of at most 2 bytes (thorough: 3).
func Q_C03_decode() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	bits := sym.Choose("html", 2) * 2
	s := symString("s", max)
	sym.Assume(utf8.ValidString(s))
	got, err := jettison.MarshalOpts(s, stringOpts(bits)...)
	sym.Assert("no error", err == nil)
	var back string
	sym.Assert("decodes", json.Unmarshal(got, &back) == nil)
	sym.Assert("decodes to the original", back == s)
	sym.Out("got", got)
}

// Q_C03_names: the names of fields (from tags with every sort of character, and letters of several bytes) under NoHTMLEscaping and
// NoUTF8Coercion, alone and together, next to options on other things; also promoted and omitted ones.
func Q_C03_names() {
	bits := 2 * sym.Choose("options", 4)
	o := stringOpts(bits)
	switch sym.Choose("more", 4) {
	case 1:
		o = append(o, jettison.UnsortedMap(), jettison.NoCompact())
	case 2:
		o = append(o, jettison.RawByteSlice(), jettison.ByteArrayAsString(), jettison.UnixTime())
	case 3:
		o = append(o, jettison.NilMapEmpty(), jettison.NoNumberValidation(), jettison.DenyList([]string{"D<"}))
	}
	names := []string{"<", ">", "&", "a&b", "é<", "<<>>&&", "!#$%&()*+-./:;<=>?@[]^_{|}~ ", "日本", "<&", "x"}
	n := names[sym.Choose("name", len(names))]
	s := letter("s")
	in := reflect.StructOf([]reflect.StructField{{Name: "E", Type: typeOf[string](), Tag: reflect.StructTag(`json:"E` + n + `"`)}})
	v := reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: typeOf[string](), Tag: reflect.StructTag(`json:"` + n + `"`)},
		{Name: "B", Type: typeOf[string](), Tag: reflect.StructTag(`json:"B` + n + `,omitempty"`)},
		{Name: "C", Type: typeOf[string](), Tag: reflect.StructTag(`json:"C` + n + `,string"`)},
		{Name: "P", Type: reflect.PtrTo(in), Anonymous: true},
	})).Elem()
	v.Field(0).SetString(s)
	v.Field(2).SetString(s)
	v.Field(3).Set(reflect.New(in))
	q := specOpts(s, bits)
	want := `{` + specOpts(n, bits) + `:` + q + `,` + specOpts("C"+n, bits) + `:` + specOpts(q, bits) + `,` + specOpts("E"+n, bits) + `:""}`
	is("struct", want, v.Interface(), o...)
	is("in a map", `{"k":`+want+`}`, map[string]interface{}{"k": v.Addr().Interface()}, o...)
	sym.Reach("end")
}
