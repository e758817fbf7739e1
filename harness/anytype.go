package main

import (
	"encoding/json"
	"reflect"
	"time"

	"verifharness/sym"
)

// Any type: leaves wrapped in type constructors.

type (
	leafMV struct{ A int8 }  // MarshalJSON by value
	leafMP struct{ A int8 }  // by pointer
	leafTV int16             // MarshalText by value
	leafTP struct{ A bool }  // by pointer
	leafPV struct{ P *int8 } // pointer-shaped, MarshalJSON by value
)

func leafText(c string, n int8) []byte { return []byte{'[', ' ', c[0], c[1], ',', byte('0' + n), ']'} }

func (x leafMV) MarshalJSON() ([]byte, error)  { return leafText("10", x.A), nil }
func (x *leafMP) MarshalJSON() ([]byte, error) { return leafText("11", x.A), nil }
func (x leafTV) MarshalText() ([]byte, error)  { return []byte{'<', byte('0' + x)}, nil }
func (x *leafTP) MarshalText() ([]byte, error) {
	if x.A {
		return nil, nil
	}
	return []byte("ab"), nil
}
func (x leafPV) MarshalJSON() ([]byte, error) {
	if x.P == nil {
		return []byte("null"), nil
	}
	return leafText("12", *x.P), nil
}

var leaves = []reflect.Type{
	typeOf[int8](), typeOf[string](), typeOf[interface{}](), typeOf[leafMP](), typeOf[*int8](), typeOf[struct{}](), typeOf[leafPV](), typeOf[[]byte](), typeOf[leafTV](), typeOf[map[string]int8](),
	// the first 10 are enough for deep types
	typeOf[bool](), typeOf[uint16](), typeOf[int32](), typeOf[uint64](), typeOf[int](), typeOf[float32](), typeOf[float64](), typeOf[json.Number](), typeOf[json.RawMessage](),
	typeOf[[3]byte](), typeOf[[0]int](), typeOf[talker](), typeOf[time.Duration](), typeOf[time.Time](), typeOf[leafMV](), typeOf[leafTP](), typeOf[[]byteJP](), typeOf[map[leafTV]int8](), typeOf[map[uint8]bool](),
	typeOf[map[int64]*int8](), typeOf[catNull](), typeOf[uintptr](), typeOf[[]struct{}](), typeOf[map[textVal]bool](), typeOf[[2]byteJV](),
}

const nWraps = 14

func field(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = tagOf(tag)
	}
	return f
}

// wrap applies the type constructor k.
func wrap(k int, t reflect.Type) reflect.Type {
	st := reflect.StructOf
	type fs = []reflect.StructField
	b := typeOf[bool]()
	switch k {
	case 0:
		return reflect.PtrTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		return reflect.ArrayOf(1, t)
	case 3:
		return reflect.ArrayOf(2, t)
	case 4:
		return reflect.ArrayOf(0, t)
	case 5:
		return reflect.MapOf(typeOf[string](), t)
	case 6:
		return st(fs{field("F", t, "")})
	case 7:
		return st(fs{field("X", b, ""), field("F", t, "f")})
	case 8:
		return st(fs{field("F", t, ""), field("X", b, "x,omitempty")})
	case 9:
		return st(fs{field("F", t, ",omitempty"), field("G", t, "g")})
	case 10:
		return st(fs{field("F", t, ",string")})
	case 11:
		e := field("E", st(fs{field("F", t, "")}), "")
		e.Anonymous = true
		return st(fs{field("X", b, ""), e})
	case 12:
		e := field("E", reflect.PtrTo(st(fs{field("F", t, "")})), "")
		e.Anonymous = true
		return st(fs{e})
	default:
		return st(fs{field("X", b, ""), field("F", t, "f,omitnil"), field("G", b, "")})
	}
}

// anyType is one of n leaves under depth constructors, the last of them below max.
func anyType(n, depth, max int) reflect.Type {
	t := leaves[sym.Choose("leaf", n)]
	for i := 0; i < depth; i++ {
		k := nWraps - 1
		if i == depth-1 {
			k = max
		}
		t = wrap(sym.Choose("constructor", k), t)
	}
	return t
}
