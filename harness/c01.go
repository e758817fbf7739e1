package main

import (
	"math"
	"reflect"

	"verifharness/sym"
)

// scalarPos holds one scalar in every position a value can take.
type scalarPos[T any] struct {
	A T
	B T  `json:"b"`
	C T  `json:",string"`
	D *T `json:"d,string"`
	E *T
	F interface{}
	G []T
	H [2]T
	I **T
	J struct{ X T }
	K map[string]T
	L []interface{}
}

func positions[T any](x T) scalarPos[T] {
	p := &x
	return scalarPos[T]{A: x, B: x, C: x, D: &x, E: &x, F: x, G: []T{x, x}, H: [2]T{x, x}, I: &p, J: struct{ X T }{x}, K: map[string]T{"k": x}, L: []interface{}{x, &x}}
}

func scalar[T any](x T) {
	same("direct", x)
	same("pointer", &x)
	same("everywhere", positions(x))
	pp := positions(x)
	same("everywhere, addressable", &pp)
	sym.Reach("end")
}

type (
	nBool   bool
	nInt    int
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nUint   uint
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
	nUptr   uintptr
	nF32    float32
	nF64    float64
	nStr    string
)

// Q_C01_bool: both values of bool and of a named bool, in every position.
func Q_C01_bool() {
	x := sym.Bool("x")
	if sym.Choose("named", 2) == 1 {
		scalar(nBool(x))
		return
	}
	scalar(x)
}

// Q_C01_int64: every value of int and int64 (named and not), in every position.
func Q_C01_int64() {
	x := sym.I64("x")
	switch sym.Choose("type", 4) {
	case 0:
		scalar(x)
	case 1:
		scalar(nInt64(x))
	case 2:
		scalar(int(x))
	case 3:
		scalar(nInt(x))
	}
}

// Q_C01_uint64: every value of uint, uint64 and uintptr (named and not), in every position.
func Q_C01_uint64() {
	x := sym.U64("x")
	switch sym.Choose("type", 6) {
	case 0:
		scalar(x)
	case 1:
		scalar(nUint64(x))
	case 2:
		scalar(uint(x))
	case 3:
		scalar(nUint(x))
	case 4:
		scalar(uintptr(x))
	case 5:
		scalar(nUptr(x))
	}
}

// Q_C01_small: every value of the 8, 16 and 32 bit integer types (named and not), in every position.
func Q_C01_small() {
	switch sym.Choose("type", 12) {
	case 0:
		scalar(sym.I8("x"))
	case 1:
		scalar(sym.I16("x"))
	case 2:
		scalar(sym.I32("x"))
	case 3:
		// a plain uint8 slice is a byte slice: covered by C13
		x := sym.U8("x")
		same("u8", x)
		same("u8 pointer", &x)
		same("u8 fields", struct {
			A uint8
			B uint8 `json:",string"`
			C *uint8
			D interface{}
			E [2]uint8
			F map[string]uint8
		}{x, x, &x, x, [2]uint8{x, x}, map[string]uint8{"k": x}})
		sym.Reach("u8")
	case 4:
		scalar(sym.U16("x"))
	case 5:
		scalar(sym.U32("x"))
	case 6:
		scalar(nInt8(sym.I8("x")))
	case 7:
		scalar(nInt16(sym.I16("x")))
	case 8:
		scalar(nInt32(sym.I32("x")))
	case 9:
		x := nUint8(sym.U8("x"))
		same("named u8", x)
		same("named u8 fields", struct {
			A nUint8
			B nUint8 `json:",string"`
			C *nUint8
			D interface{}
			F map[string]nUint8
		}{x, x, &x, x, map[string]nUint8{"k": x}})
	case 10:
		scalar(nUint16(sym.U16("x")))
	case 11:
		scalar(nUint32(sym.U32("x")))
	}
}

// Q_C01_float64: every bit pattern of float64 (named and not), including NaN and infinities;
// the digits strconv produces are uninterpreted, the choice of format and the exponent
// clean-up are not.
func Q_C01_float64() {
	x := sym.F64("x")
	if sym.Choose("named", 2) == 1 {
		scalar(nF64(x))
		return
	}
	scalar(x)
}

// Q_C01_float32: every bit pattern of float32 (named and not).
func Q_C01_float32() {
	x := sym.F32("x")
	if sym.Choose("named", 2) == 1 {
		scalar(nF32(x))
		return
	}
	scalar(x)
}

// Q_C01_special: NaN and the infinities are errors wherever they occur (two element values,
// one of which may be special).
func Q_C01_special() {
	x, y := sym.F64("x"), sym.F64("y")
	if sym.Choose("finite", 2) == 0 {
		sym.Assume(math.IsNaN(x) || math.IsInf(x, 0))
	} else {
		sym.Assume(math.IsNaN(y) || math.IsInf(y, 0))
	}
	switch sym.Choose("where", 5) {
	case 0:
		fails("slice", []float64{x, y})
	case 1:
		fails("array", [2]float64{x, y})
	case 2:
		fails("map", map[string]interface{}{"a": x, "b": y})
	case 3:
		fails("struct", struct {
			X float64
			Y *float64 `json:"y,string"`
		}{x, &y})
	case 4:
		fails("interface", []interface{}{struct{ F float64 }{x}, &y})
	}
	sym.Reach("end")
}

// Q_C01_lists: arrays and slices of each of 14 integer, boolean and float kinds, of 1 to 65 elements, one of which has any
// value of 16 bits (or its extension to the size of the kind), the others values next to the bounds of smaller kinds.
func Q_C01_lists() {
	ts := []reflect.Type{typeOf[bool](), typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[uint](), typeOf[uint16](), typeOf[uint32](),
		typeOf[uint64](), typeOf[uintptr](), typeOf[float32](), typeOf[float64](), typeOf[nInt]()}
	t := ts[sym.Choose("kind", len(ts))]
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 64, 65}
	n := ns[sym.Choose("n", len(ns))]
	a := reflect.New(reflect.ArrayOf(n, t)).Elem()
	at := 0
	if n > 1 {
		at = []int{0, n - 1}[sym.Choose("at", 2)]
	}
	x := int64(sym.I16("x"))
	sym.Assume(x > 32765 || x < -32766 || x == 255)
	for i := 0; i < n; i++ {
		k := []int64{300, -70000, 1 << 33, 127, -1, 65535}[i%6]
		if i == at {
			k = x
		}
		switch e := a.Index(i); t.Kind() {
		case reflect.Bool:
			e.SetBool(k > 0)
		case reflect.Float32, reflect.Float64:
			e.SetFloat(float64(int8(i)) / 4)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			e.SetInt(k)
		default:
			e.SetUint(uint64(k))
		}
	}
	same("array", a.Interface())
	same("pointer", a.Addr().Interface())
	same("slice", a.Slice(0, n).Interface())
	same("part", a.Slice(n/2, n).Interface())
	sym.Reach("end")
}
