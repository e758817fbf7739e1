package main

import (
	"encoding/json"
	"math"
	"reflect"
	"time"
	"unsafe"

	"verifharness/sym"
)

// filler sets every component of a value: scalars are symbolic (letters, small or full-range numbers), the shape
// (nil or not, number of elements, dynamic type of interfaces) is chosen.
type filler struct {
	max   int // elements of slices and maps
	depth int // pointers followed
	wide  bool
	n     int
	alone bool // every part by itself in memory
	bad   bool // floats, numbers and raw messages may be invalid
	short bool // a few such texts only
}

var timeType = reflect.TypeOf(time.Time{})
var rawType = reflect.TypeOf(json.RawMessage{})

func (f *filler) alloc(t reflect.Type) reflect.Value {
	if f.alone {
		return sym.New(t)
	}
	return reflect.New(t)
}

func (f *filler) slice(t reflect.Type, n int) reflect.Value {
	if f.alone && n > 0 {
		return reflect.SliceAt(t.Elem(), sym.New(reflect.ArrayOf(n, t.Elem())).UnsafePointer(), n).Convert(t)
	}
	return reflect.MakeSlice(t, n, n)
}

func letter(name string) string {
	s := sym.String(name, 1)
	sym.Assume(s[0] >= 'a' && s[0] <= 'z')
	return s
}

func (f *filler) fill(v reflect.Value, depth int) {
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if f.bad && f.unsure(v) {
		return
	}
	switch v.Type() {
	case timeType:
		v.Set(reflect.ValueOf(time.Unix(int64(f.digit()), 0).UTC()))
		return
	case rawType:
		v.SetBytes([]byte([]string{"null", " [1, 2 ] ", `"<"`}[sym.Choose("raw", 3)]))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(sym.Bool("bool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.n++
		v.SetInt(int64(f.digit()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.n++
		v.SetUint(uint64(f.digit()))
	case reflect.Float32, reflect.Float64:
		f.n++
		v.SetFloat(float64(f.n) + 0.5)
	case reflect.String:
		if v.Type() == numberType {
			v.SetString("12")
			return
		}
		v.SetString(letter("s"))
	case reflect.Ptr:
		if depth <= 0 || sym.Choose("nil pointer", 2) == 1 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := f.alloc(v.Type().Elem())
		f.fill(p.Elem(), depth-1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.fill(v.Field(i), depth)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth)
		}
	case reflect.Slice:
		n := f.count("slice length", depth)
		if n < 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		s := f.slice(v.Type(), n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Map:
		n := f.count("map length", depth)
		if n < 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			switch k.Kind() {
			case reflect.String:
				k.SetString(string(rune('b' - i)))
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				k.SetInt(int64(10 - i))
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				k.SetUint(uint64(10 - i))
			default:
				f.fill(k, depth-1)
			}
			e := reflect.New(v.Type().Elem()).Elem()
			f.fill(e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		f.iface(v, depth)
	}
}

// unsure sets v to something that may not be encodable.
func (f *filler) unsure(v reflect.Value) bool {
	switch t := v.Type(); {
	case f.short && (t == numberType || t == rawType || t == typeOf[jsonVal]()):
		x := []string{"[ ]", "-", "0"}
		if t == rawType {
			v.SetBytes([]byte(x[sym.Choose("raw", 2)]))
		} else if t == numberType {
			v.SetString(x[1+sym.Choose("number", 2)])
		} else {
			v.Set(reflect.ValueOf(jsonVal{[]byte(x[sym.Choose("json", 2)])}))
		}
		return true
	}
	switch v.Type() {
	case numberType:
		v.SetString(sym.String("number", sym.Choose("length", 3)))
		return true
	case rawType:
		v.SetBytes(sym.Bytes("raw", sym.Choose("length", 3)))
		return true
	case typeOf[jsonVal]():
		v.Set(reflect.ValueOf(jsonVal{sym.Bytes("json", sym.Choose("length", 3))}))
		return true
	case timeType:
		v.Set(reflect.ValueOf(time.Date([]int{-1, 0, 9999, 10000}[sym.Choose("year", 4)], 1, 1, 0, 0, 0, 0, time.UTC)))
		return true
	}
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		n := 4
		if f.short {
			n = 2
		}
		v.SetFloat([]float64{1.5, math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choose("float", n)])
		return true
	case reflect.Chan:
		if sym.Choose("nil channel", 2) == 0 {
			v.Set(reflect.MakeChan(v.Type(), 0))
		}
		return true
	case reflect.Func:
		if sym.Choose("nil func", 2) == 0 {
			v.Set(reflect.ValueOf(func() {}).Convert(v.Type()))
		}
		return true
	case reflect.Complex64, reflect.Complex128:
		return true
	}
	return false
}

// digit is a symbolic number of one decimal digit.
func (f *filler) digit() uint8 {
	x := sym.U8("n")
	sym.Assume(x < 10)
	return x
}

func (f *filler) count(name string, depth int) int {
	if depth <= 0 {
		return -1
	}
	return sym.Choose(name, f.max+2) - 1
}

func (f *filler) iface(v reflect.Value, depth int) {
	var vs []interface{}
	if v.NumMethod() == 0 {
		n := int(f.digit())
		vs = []interface{}{nil, n}
		if depth > 0 {
			vs = append(vs, &n, letter("is"), []interface{}{letter("is2"), nil}, map[string]interface{}{"k": n})
		}
	} else {
		x := implInt(f.digit())
		vs = []interface{}{nil, x}
		if depth > 0 {
			vs = append(vs, &x, implStruct{A: letter("m")}, &implStruct{A: letter("m2")}, implMap{"q": 1}, implPtrStruct{&implStruct{A: "z"}})
		}
	}
	x := vs[sym.Choose("dynamic type", len(vs))]
	if x == nil {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	v.Set(reflect.ValueOf(x))
}

// talker is a non-empty interface that is no marshaler.
type talker interface{ Talk() string }

type (
	implInt       int
	implStruct    struct{ A string }
	implMap       map[string]int
	implPtrStruct struct{ P *implStruct }
)

func (implInt) Talk() string       { return "" }
func (implStruct) Talk() string    { return "" }
func (implMap) Talk() string       { return "" }
func (implPtrStruct) Talk() string { return "" }

// made is a filled value of type t.
func made(t reflect.Type, max, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	f := &filler{max: max}
	f.fill(v, depth)
	return v
}

// everyWay checks the value v against encoding/json directly, through a pointer, and inside interfaces and slices.
func everyWay(v reflect.Value) {
	same("direct", v.Interface())
	same("pointer", v.Addr().Interface())
	same("nested", []interface{}{v.Interface(), v.Addr().Interface(), map[string]interface{}{"k": v.Interface()}})
	sym.Reach("end")
}
