package main

import (
	"encoding/json"
	"reflect"
	"sync"
	"unsafe"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// untouched encodes a value of type t, held directly or through a pointer, that must not be written; every
// access outside of the parts of the value is an error of the engine.
func untouched(t reflect.Type, max, depth int, opts [][]jettison.Option) {
	p := sym.New(t)
	f := &filler{max: max, alone: true}
	f.fill(p.Elem(), depth)
	v := p.Interface()
	if sym.Choose("directly", 2) == 0 {
		v = sym.Boxed(p)
	}
	var want []byte
	var werr error
	o := opts[sym.Choose("options", len(opts))]
	if o == nil {
		want, werr = json.Marshal(v)
	}
	sym.Freeze(v)
	got, err := jettison.MarshalOpts(v, o...)
	if o == nil && !omitsNil(t, 6) {
		agree("value", want, werr, got, err)
	}
	sym.Assert("result or error", (err == nil) != (got == nil))
	sym.Reach("end")
}

func omitsNil(t reflect.Type, depth int) bool {
	if depth == 0 {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return omitsNil(t.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag == `json:"f,omitnil"` || omitsNil(t.Field(i).Type, depth-1) {
				return true
			}
		}
	}
	return false
}

var c18Opts = [][]jettison.Option{
	nil,
	{jettison.RawByteSlice(), jettison.ByteArrayAsString(), jettison.NoHTMLEscaping(), jettison.UnsortedMap(), jettison.UnixTime(), jettison.DurationFormat(jettison.DurationString), jettison.NilMapEmpty(), jettison.AllowList([]string{"F", "f", "X"})},
	{jettison.NoStringEscaping(), jettison.NoCompact(), jettison.NoNumberValidation(), jettison.NoUTF8Coercion(), jettison.NilSliceEmpty(), jettison.DenyList([]string{"G"})},
}

// Q_C18_leaf: 35 leaf types alone and under each of 14 type constructors, with up to 2 elements; three option sets.
func Q_C18_leaf() {
	untouched(anyType(len(leaves), sym.Choose("depth", 2), nWraps), 2, 2, c18Opts)
}

// Q_C18_deep: 10 leaf types under two (thorough: 35 leaves) of 14 type constructors, with up to 1 element.
func Q_C18_deep() {
	n := 10
	if sym.Thorough() {
		n = len(leaves)
	}
	untouched(anyType(n, 2, nWraps), 1, 2, c18Opts[:1])
}

// Q_C18_catalog: the catalogue of 37 values (13 failing) under 5 option sets and in 3 positions: no panic, no write to
// the value (except for sync.Map), no access outside.
func Q_C18_catalog() {
	it := catalog[sym.Choose("value", len(catalog))]
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	x := it.mk(s, n)
	v := x
	switch sym.Choose("how", 3) {
	case 1:
		v = []interface{}{x, &x}
	case 2:
		v = &struct {
			A interface{} `json:",omitempty"`
			B map[string]interface{}
		}{x, map[string]interface{}{"x": x}}
	}
	switch it.name {
	case "sync.Map", "bad sync.Map", "bad sync.Map value":
	default:
		sym.Freeze(v)
	}
	jettison.MarshalOpts(v, catOpts[sym.Choose("options", len(catOpts))]...)
	jettison.Append(nil, v)
	sym.Assert("done", true)
}

// Q_C18_text: strings, numbers, raw messages, byte slices and arrays, keys and method results of at most 4 (thorough: 5) symbolic
// bytes, followed by a few others or not, alone in memory (or the start of an array) and read-only, under 6 option sets.
func Q_C18_text() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	l := sym.Choose("length", max+1)
	b := sym.Bytes("b", l)
	switch sym.Choose("tail", 3) {
	case 1:
		b = append(b, []string{" x", "1,2]"}[l&1]...)
		b = b[:len(b):len(b)]
	case 2:
		// a part of a larger array
		c := sym.Bytes("larger", l+3)
		sym.Assume(string(c[:l]) == string(b))
		b = c[:l]
	}
	str := ""
	if len(b) > 0 {
		str = unsafe.String(&b[0], len(b))
	}
	var v interface{}
	switch sym.Choose("kind", 9) {
	case 0:
		v = str
	case 1:
		v = json.Number(str)
	case 2:
		v = json.RawMessage(b)
	case 3:
		v = b
	case 4:
		v = map[string]bool{str: true}
	case 5:
		v = jsonVal{b}
	case 6:
		v = sharedText{b}
	case 7:
		v = map[sharedKey]int{{&b}: 1}
	case 8:
		v = struct {
			S string `json:",string"`
		}{str}
	}
	o := []jettison.Option(nil)
	switch sym.Choose("options", 6) {
	case 1:
		o = append(o, jettison.NoStringEscaping(), jettison.RawByteSlice())
	case 2:
		o = append(o, jettison.NoHTMLEscaping(), jettison.RawByteSlice())
	case 3:
		o = append(o, jettison.NoUTF8Coercion(), jettison.RawByteSlice())
	case 4:
		o = append(o, jettison.NoCompact(), jettison.NoNumberValidation())
	case 5:
		o = append(o, jettison.UnsortedMap())
	}
	sym.Freeze(v)
	jettison.MarshalOpts(v, o...)
	sym.Assert("done", true)
	sym.Reach("end")
}

// Q_C18_recursive: the recursive and nested types of C04, every part alone in memory, pointers followed to depth 2
// (thorough: 3).
func Q_C18_recursive() {
	d := 2
	if sym.Thorough() {
		d = 3
	}
	untouched(c04Deep[sym.Choose("type", len(c04Deep))], 1, d, c18Opts)
}

type spareKey struct{ b *[]byte }

func (k spareKey) MarshalText() ([]byte, error) { return *k.b, nil }

type spareApp struct{ b []byte }

func (a spareApp) AppendJSON(dst []byte) ([]byte, error) { return append(dst, a.b...), nil }

// Q_C18_spare: what a method returns, or the value holds, may be a part of a larger array (2 to 40 bytes, one of them symbolic, more on
// both sides): the whole array is unchanged after two calls, under 3 option sets, as key, value, in maps of 1 to 3 entries, sync.Map.
func Q_C18_spare() {
	n := []int{2, 8, 17, 40}[sym.Choose("length", 4)]
	mem := make([]byte, n+100)
	for i := range mem {
		mem[i] = 'm'
	}
	mem[4], mem[4+n-1] = '"', '"'
	if n > 2 {
		mem[5] = sym.Bytes("b", 1)[0]
	}
	keep := string(mem)
	b := mem[4 : 4+n]
	var v interface{}
	switch sym.Choose("kind", 10) {
	case 0:
		v = map[spareKey]string{{&b}: "value"}
	case 1:
		c := mem[4 : 5+n]
		v = map[spareKey]interface{}{{&b}: []byte("value"), {&c}: map[string]int{"k": 1}, {new([]byte)}: nil}
	case 2:
		v = []sharedText{{b}, {b}}
	case 3:
		v = map[string]interface{}{"k": sharedText{b}, "l": jsonVal{b}, "m": json.RawMessage(b)}
	case 4:
		v = []jsonVal{{b}, {b}}
	case 5:
		v = []json.RawMessage{b, b}
	case 6:
		v = struct {
			A []byte
			B *[]byte `json:",omitempty"`
			C interface{}
		}{b, &b, b}
	case 7:
		m := &sync.Map{}
		m.Store(spareKey{&b}, sharedText{b})
		m.Store("k", jsonVal{b})
		v = m
	case 8:
		v = []spareApp{{b}, {b}}
	case 9:
		v = map[spareKey]spareApp{{&b}: {b}, {&mem}: {b}}
	}
	o := c18Opts[sym.Choose("options", 3)]
	jettison.MarshalOpts(v, o...)
	r, _ := jettison.MarshalOpts(v, o...)
	for i := range r {
		r[i] = 'X'
	}
	jettison.Marshal(map[string]map[string]string{"a": {"b": "c"}})
	sym.Assert("unchanged", string(mem) == keep)
}

// Q_C18_maps: maps and sync.Maps of 3 entries, one of which may fail in 9 ways, or panic, hold the same entries after a
// call, sorted or not; so do those in their values.
func Q_C18_maps() {
	k := sym.Choose("part", 10)
	var x interface{} = boom{"b"}
	if k < 9 {
		x = part(k)
	}
	in := map[string]int{"<": 1, "a": int(sym.I8("n"))}
	was := in["a"]
	m := map[string]interface{}{"b": x, "c": in, "a": nil}
	sm := toSync(m)
	var v interface{} = m
	how := sym.Choose("how", 4)
	if how >= 2 {
		v = sm
	}
	var o []jettison.Option
	if how%2 == 1 {
		o = append(o, jettison.UnsortedMap())
	}
	try(func() { jettison.MarshalOpts(v, o...) })
	try(func() { jettison.MarshalOpts([]interface{}{v, m, sm}, o...) })
	n := 0
	sm.Range(func(key, val interface{}) bool {
		w, ok := m[key.(string)]
		sym.Assert("entry", ok && reflect.TypeOf(w) == reflect.TypeOf(val))
		n++
		return true
	})
	_, a := m["a"]
	_, b := m["b"]
	_, c := m["c"]
	sym.Assert("entries", n == 3 && len(m) == 3 && a && b && c && len(in) == 2 && in["<"] == 1 && in["a"] == was)
}
