package main

import (
	"encoding/base64"
	"encoding/json"
	"reflect"
	"strconv"
	"strings"

	"verifharness/sym"
)

var numberType = reflect.TypeOf(json.Number(""))

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type (
	rList struct {
		V    int
		Next *rList
	}
	rTree struct {
		V string
		L []rTree
	}
	rMap struct {
		V string
		M map[string]rMap
	}
	rIface struct {
		V interface{}
		N *rIface
	}
	rA struct {
		V int
		B *rB
	}
	rB struct {
		A []rA
		P *rA
	}
	onePtr   struct{ P *int }
	oneMap   struct{ M map[string]int }
	oneArr   struct{ A [1]*string }
	oneOne   struct{ O onePtr }
	oneEmb   struct{ *onePtr2 }
	onePtr2  struct{ X, Y int }
	oneIface struct{ I interface{} }
	oneSlice struct{ S []int }
	oneStr   struct{ S string }
	zeroFld  struct {
		Z struct{}
		P *int
		E [0]int
	}
	ptrTail struct {
		P *int
		Z struct{}
	}
	talkers struct {
		A talker
		B []talker
		C map[string]talker
		D *talker
		E [2]talker
	}
	nSlice []int
	nMap   map[string]int
	nPtr   *int
	nArr   [2]nStr
)

var c04Flat = []reflect.Type{
	typeOf[*int](), typeOf[**string](), typeOf[***int](), typeOf[nPtr](), typeOf[[]string](), typeOf[nSlice](), typeOf[*[]int](), typeOf[[]*int](),
	typeOf[[0]int](), typeOf[[1]int](), typeOf[[2]string](), typeOf[nArr](), typeOf[[1]*int](), typeOf[*[1]*int](), typeOf[[2]*int](), typeOf[[1][1]*int](), typeOf[[1]onePtr](), typeOf[[1]map[string]int](), typeOf[[2][2]int](),
	typeOf[map[string]int](), typeOf[nMap](), typeOf[*map[string]int](), typeOf[map[string]*int](), typeOf[map[int]string](), typeOf[map[uint8][]int](),
	typeOf[interface{}](), typeOf[*interface{}](), typeOf[[]interface{}](), typeOf[[1]interface{}](), typeOf[map[string]interface{}](),
	typeOf[struct{}](), typeOf[*struct{}](), typeOf[[]struct{}](), typeOf[[2]struct{}](), typeOf[map[string]struct{}](),
	typeOf[onePtr](), typeOf[*onePtr](), typeOf[oneMap](), typeOf[oneArr](), typeOf[oneOne](), typeOf[oneEmb](), typeOf[oneIface](), typeOf[oneSlice](), typeOf[oneStr](), typeOf[zeroFld](), typeOf[ptrTail](),
	typeOf[[]onePtr](), typeOf[[]oneMap](), typeOf[map[string]onePtr](), typeOf[map[string]oneOne](), typeOf[struct{ F func() }](), typeOf[struct{ C chan int }](),
}

// Q_C04_flat: 50 types of depth one and two (pointers, pointer-shaped structs and arrays, slices, arrays, maps,
// interfaces, empty structs), directly, through a pointer and inside interfaces; at most 2 elements, scalars symbolic.
func Q_C04_flat() {
	t := c04Flat[sym.Choose("type", len(c04Flat))]
	everyWay(made(t, 2, 2))
}

var c04Deep = []reflect.Type{
	typeOf[rList](), typeOf[*rList](), typeOf[rTree](), typeOf[rMap](), typeOf[rIface](), typeOf[rA](), typeOf[*rB](), typeOf[[]rList](), typeOf[map[string]*rA](),
	typeOf[struct {
		A []map[string][]int
		B *struct{ C []*string }
	}](),
	typeOf[struct {
		A [2]struct {
			X *int
			Y []string
		}
		Z map[string]struct{ P *int }
	}](),
	typeOf[[][]map[string]*int](), typeOf[map[string]map[string][]int](), typeOf[*[]*[]*int](),
}

// Q_C04_deep: recursive and nested types, pointers and collections followed to depth 3 (thorough: 4), at most 1 element
// per collection (thorough: 2).
func Q_C04_deep() {
	t := c04Deep[sym.Choose("type", len(c04Deep))]
	max, depth := 1, 3
	if sym.Thorough() {
		max, depth = 2, 4
	}
	everyWay(made(t, max, depth))
}

// Q_C04_iface: non-empty interface types that are no marshalers, holding nil, scalars, pointers, structs, maps and
// pointer-shaped structs, in fields, slices, arrays, maps and behind pointers.
func Q_C04_iface() {
	ts := []reflect.Type{typeOf[talker](), typeOf[[]talker](), typeOf[[1]talker](), typeOf[[2]talker](), typeOf[map[string]talker](), typeOf[struct{ T talker }](), typeOf[struct {
		A int
		T talker
		B string
	}](), typeOf[*talker](), typeOf[struct{ talker }](), typeOf[struct{ P *talker }]()}
	t := ts[sym.Choose("type", len(ts))]
	v := made(t, 1, 2)
	same("pointer", v.Addr().Interface())
	same("nested", []interface{}{v.Interface()})
	sym.Reach("end")
}

type longRec struct {
	A uint8
	P *int `json:",omitempty"`
	S string
}

// Q_C04_chain: one constructor (pointer, slice, array, map, struct field, interface) applied 1 to 10 (thorough: 24) times to an
// integer, or alternating with a second one.
func Q_C04_chain() {
	lens := []int{1, 2, 3, 4, 5, 7, 10}
	if sym.Thorough() {
		lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 24}
	}
	n := lens[sym.Choose("depth", len(lens))]
	a, b := sym.Choose("first", 6), sym.Choose("second", 6)
	v := reflect.ValueOf(int(sym.U8("x")))
	for i := 0; i < n; i++ {
		k := a
		if i%2 == 1 {
			k = b
		}
		v = chainLink(v, k)
	}
	same("chain", v.Interface())
}

func chainLink(v reflect.Value, k int) reflect.Value {
	t := v.Type()
	switch k {
	case 0:
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	case 1:
		s := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		s.Index(1).Set(v)
		if t.Kind() == reflect.Slice || t.Kind() == reflect.Map || t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
			return s
		}
		return s.Slice(1, 2)
	case 2:
		a := reflect.New(reflect.ArrayOf(1, t)).Elem()
		a.Index(0).Set(v)
		return a
	case 3:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m
	case 4:
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f,omitempty"`}})).Elem()
		s.Field(0).Set(v)
		return s
	}
	i := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
	i.Set(v)
	return i
}

// Q_C04_long: slices, arrays and maps of 0 to 1025 elements keep count and order; one element symbolic.
func Q_C04_long() {
	lens := []int{0, 1, 2, 3, 8, 9, 16, 17, 40, 64, 65, 129, 257, 513, 1025}
	n := lens[sym.Choose("n", len(lens))]
	x := sym.U8("x")
	s := make([]int, n)
	ss := make([]string, n)
	m := map[int]int{}
	var arr [1025]uint16
	recs := make([]longRec, n)
	for i := range s {
		s[i] = i * 7
		m[i] = i
		ss[i] = "e"
		arr[i] = uint16(i)
		recs[i] = longRec{uint8(i), &s[i], "r"}
	}
	if n > 0 {
		at := n / 2
		s[at] = int(x)
		m[at] = int(x)
		arr[at] = uint16(x)
	}
	same("slice", s)
	same("strings", ss)
	same("map", m)
	same("array", arr)
	same("structs", recs)
	same("pointers", []*int{nil, nil})
}

// Q_C04_tree: 10 leaf types (scalars, pointers, interfaces, structs, maps, marshalers) under two (thorough: three, for 5
// leaves) of 13 type constructors, at most 1 element per collection, directly and through a pointer.
func Q_C04_tree() {
	n, d := 10, 2
	if sym.Thorough() {
		n, d = 5, 3
	}
	v := reflect.New(anyType(n, d, nWraps-1))
	f := &filler{max: 1}
	f.fill(v.Elem(), 2)
	if sym.Choose("directly", 2) == 0 {
		same("direct", v.Elem().Interface())
	} else {
		same("pointer", v.Interface())
	}
	sym.Reach("end")
}

type (
	deepNode struct {
		V uint8
		N *deepNode
	}
	deepSlice []deepSlice
	deepMap   map[string]deepMap
	deepTree  struct {
		C []deepTree `json:",omitempty"`
		V uint8
	}
)

// Q_C04_nested: lists, nested slices, maps, interfaces and trees of depth 50 to 1100 (thorough: 3000), which are deep but
// not cyclic, with a symbolic number at the end; twice, the second time after the other kinds.
func Q_C04_nested() {
	x := sym.U8("x")
	depths := []int{50, 200, 999, 1001, 1100}
	if sym.Thorough() {
		depths = append(depths, 2000, 3000)
	}
	n := depths[sym.Choose("depth", len(depths))]
	k := sym.Choose("kind", 6)
	v, want := deepValue(k, n, x)
	is("deep", want, v)
	w, wantw := deepValue((k+1)%6, 3, x)
	is("shallow", wantw, w)
	is("again", want, v)
}

func deepValue(k, n int, x uint8) (interface{}, string) {
	num := strconv.Itoa(int(x))
	switch k {
	case 0:
		l := &deepNode{V: x}
		for i := 0; i < n; i++ {
			l = &deepNode{V: 1, N: l}
		}
		return l, strings.Repeat(`{"V":1,"N":`, n) + `{"V":` + num + `,"N":null}` + strings.Repeat("}", n)
	case 1:
		l := deepSlice{nil}
		for i := 0; i < n; i++ {
			l = deepSlice{l}
		}
		return l, strings.Repeat("[", n) + "[null]" + strings.Repeat("]", n)
	case 2:
		m := deepMap{"": nil}
		for i := 0; i < n; i++ {
			m = deepMap{"k": m}
		}
		return m, strings.Repeat(`{"k":`, n) + `{"":null}` + strings.Repeat("}", n)
	case 3:
		var i interface{} = x
		for j := 0; j < n; j++ {
			i = []interface{}{i}
		}
		return i, strings.Repeat("[", n) + num + strings.Repeat("]", n)
	case 4:
		t := deepTree{V: x}
		for i := 0; i < n; i++ {
			t = deepTree{C: []deepTree{t}, V: 2}
		}
		return t, strings.Repeat(`{"C":[`, n) + `{"V":` + num + `}` + strings.Repeat(`],"V":2}`, n)
	default:
		var i interface{} = x
		for j := 0; j < n; j++ {
			k := i
			if j%2 == 0 {
				i = &k
			} else {
				i = map[string]interface{}{"a": &k}
			}
		}
		return i, strings.Repeat(`{"a":`, n/2) + num + strings.Repeat("}", n/2)
	}
}

type (
	wideRec struct {
		A   uint8
		Pad [1 << 15]byte `json:"-"`
		B   string
	}
	widerRec struct {
		P   *uint8
		Pad [1 << 16]byte `json:"-"`
		S   []int         `json:",omitempty"`
	}
)

// Q_C04_wide: arrays, slices and structs of elements that take 32 and 64 KiB, of which a few bytes are symbolic.
func Q_C04_wide() {
	x := sym.U8("x")
	switch sym.Choose("kind", 4) {
	case 0:
		s := make([]wideRec, 4)
		s[1].A, s[2].A, s[3].B = x, 1, "b"
		same("slice", s)
	case 1:
		var a [3]widerRec
		a[0].S, a[1].P, a[2].S = []int{1}, &x, []int{int(x)}
		same("array", &a)
	case 2:
		s := make([][1<<16 + 1]struct{}, 3)
		same("sizeless", len(s[1]) == 1<<16+1)
		same("fields", struct {
			A widerRec
			B wideRec
			C uint8
			D [2]wideRec
		}{C: x, D: [2]wideRec{{B: "q"}, {A: x}}})
	case 3:
		same("map", map[string][2]widerRec{"k": {{P: &x}, {S: []int{2}}}})
	}
}

func sized[T any](v ...T) {
	same("slice", v)
	same("shorter", v[1:3])
	same("array", [3]T{v[0], v[1], v[2]})
	same("pointer to array", &[2]T{v[0], v[1]})
	same("field", struct {
		A uint8
		B []T
		C [2]T
		D uint8
		E T
		F map[string][]T
	}{1, v, [2]T{v[2], v[1]}, 2, v[0], map[string][]T{"k": v}})
}

type (
	size9 struct {
		A int8
		B [7]int8
		C bool
	}
	size10 struct{ A, B, C, D, E int16 }
	size12 struct {
		A int32
		B bool
		C float32
	}
	size20 struct {
		A [3]int32
		B bool
		C uint16
		D int32
	}
	size24 struct {
		A string
		B uint8
	}
	size40 struct {
		A []int8
		B bool
		C *int8
	}
)

// Q_C04_sizes: slices, arrays and fields of elements of every size from 0 to 40 bytes and of alignments 1, 2, 4 and 8, a
// symbolic byte in the second element.
func Q_C04_sizes() {
	x := int8(sym.U8("x") & 127)
	switch sym.Choose("type", 40) {
	case 0:
		sized(struct{}{}, struct{}{}, struct{}{}, struct{}{})
	case 1:
		sized(1, x, 2, 3)
	case 2:
		sized([2]int8{1}, [2]int8{x, 1}, [2]int8{2, 3}, [2]int8{})
	case 3:
		sized([3]int8{1}, [3]int8{x, 1}, [3]int8{2, 3, 4}, [3]int8{})
	case 4:
		sized([5]int8{1}, [5]int8{x, 1}, [5]int8{4: 2}, [5]int8{})
	case 5:
		sized([6]int8{1}, [6]int8{x, 1}, [6]int8{5: 2}, [6]int8{})
	case 6:
		sized([7]int8{1}, [7]int8{x, 1}, [7]int8{6: 2}, [7]int8{})
	case 7:
		sized([9]int8{1}, [9]int8{x, 1}, [9]int8{8: 2}, [9]int8{})
	case 8:
		sized([11]int8{1}, [11]int8{x, 1}, [11]int8{10: 2}, [11]int8{})
	case 9:
		sized([13]int8{1}, [13]int8{x, 1}, [13]int8{12: 2}, [13]int8{})
	case 10:
		sized([15]int8{1}, [15]int8{x, 1}, [15]int8{14: 2}, [15]int8{})
	case 11:
		sized([17]int8{1}, [17]int8{x, 1}, [17]int8{16: 2}, [17]int8{})
	case 12:
		sized([23]int8{1}, [23]int8{x, 1}, [23]int8{22: 2}, [23]int8{})
	case 13:
		sized([33]int8{1}, [33]int8{x, 1}, [33]int8{32: 2}, [33]int8{})
	case 14:
		sized[int16](1, int16(x), 2, 3)
	case 15:
		sized([3]int16{1}, [3]int16{int16(x), 1}, [3]int16{2: 2}, [3]int16{})
	case 16:
		sized([5]int16{1}, [5]int16{int16(x), 1}, [5]int16{4: 2}, [5]int16{})
	case 17:
		sized([7]int16{1}, [7]int16{int16(x), 1}, [7]int16{6: 2}, [7]int16{})
	case 18:
		sized([9]uint16{1}, [9]uint16{uint16(x), 1}, [9]uint16{8: 2}, [9]uint16{})
	case 19:
		sized[int32](1, int32(x), 2, 3)
	case 20:
		sized([3]int32{1}, [3]int32{int32(x), 1}, [3]int32{2: 2}, [3]int32{})
	case 21:
		sized([5]uint32{1}, [5]uint32{uint32(x), 1}, [5]uint32{4: 2}, [5]uint32{})
	case 22:
		sized([7]int32{1}, [7]int32{int32(x), 1}, [7]int32{6: 2}, [7]int32{})
	case 23:
		sized([9]int32{1}, [9]int32{int32(x), 1}, [9]int32{8: 2}, [9]int32{})
	case 24:
		sized(1, int64(x), 2, 3)
	case 25:
		sized([2]int{1}, [2]int{int(x), 1}, [2]int{2, 3}, [2]int{})
	case 26:
		sized([3]int{1}, [3]int{int(x), 1}, [3]int{2, 3}, [3]int{})
	case 27:
		sized([5]int{1}, [5]int{int(x), 1}, [5]int{4: 3}, [5]int{})
	case 28:
		sized(size9{A: 1}, size9{x, [7]int8{6: 1}, true}, size9{C: true}, size9{})
	case 29:
		sized(size10{A: 1}, size10{int16(x), 1, 2, 3, 4}, size10{E: 1}, size10{})
	case 30:
		sized(size12{A: 1}, size12{int32(x), true, 0.5}, size12{C: 1}, size12{})
	case 31:
		sized(size20{D: 1}, size20{[3]int32{1, 2, int32(x)}, true, 2, 3}, size20{D: 2}, size20{})
	case 32:
		sized(size24{"a", 1}, size24{"b", uint8(x)}, size24{"", 2}, size24{})
	case 33:
		sized(size40{[]int8{1}, true, &x}, size40{[]int8{x}, true, nil}, size40{nil, false, &x}, size40{})
	case 34:
		sized("a", "bc", "", "d")
	case 35:
		sized[interface{}](1, x, nil, "a")
	case 36:
		sized([]int8{1}, []int8{x, 1}, nil, []int8{})
	case 37:
		sized([1]string{"a"}, [1]string{"b"}, [1]string{}, [1]string{"c"})
	case 38:
		sized([3]bool{true}, [3]bool{1: x > 3}, [3]bool{}, [3]bool{2: true})
	case 39:
		sized([3]string{"a"}, [3]string{"", "b", "c"}, [3]string{}, [3]string{"c"})
	}
	sym.Reach("end")
}

// Q_C04_huge: slices and arrays of 255 to 66000 elements, strings and byte slices of as many bytes, of which one is symbolic.
func Q_C04_huge() {
	x := sym.U8("x")
	n := []int{255, 257, 32769, 65537, 66000}[sym.Choose("n", 5)]
	at := []int{0, 200, n - 1}[sym.Choose("at", 3)]
	list := func(elem, other string) string {
		return "[" + strings.Repeat(elem+",", at) + other + strings.Repeat(","+elem, n-1-at) + "]"
	}
	switch sym.Choose("kind", 5) {
	case 0:
		l := make([]bool, n)
		l[at] = x > 127
		is("bools", list("false", bol(x > 127)), l)
	case 1:
		sym.Assume(x < 10)
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(uint8(0))))
		a.Elem().Index(at).SetUint(uint64(x))
		is("array", list("0", dig(int(x))), a.Interface())
	case 2:
		sym.Assume(n < 40000)
		l := make([]struct{ A bool }, n)
		l[at].A = x > 127
		is("structs", list(`{"A":false}`, `{"A":`+bol(x > 127)+`}`), l)
	case 3:
		b := make([]byte, n)
		b[at] = x
		want := make([]byte, base64.StdEncoding.EncodedLen(n))
		base64.StdEncoding.Encode(want, b)
		is("bytes", `"`+string(want)+`"`, b)
	case 4:
		sym.Assume(x >= 'a' && x <= 'z')
		is("string", `"`+strings.Repeat("t", n)+string(rune(x))+`\u003c\ufffd\u2028\""`, strings.Repeat("t", n)+string(rune(x))+"<\xff\u2028\"")
	}
	sym.Reach("end")
}

// Q_C04_bulk: maps of 2 or 3 values, each a string of 0 to 9000 bytes, a list of as many bytes or a map with one, with the last
// byte symbolic, in any order of sizes; in a list of two such maps, and as fields.
func Q_C04_bulk() {
	x := letter("x")
	ns := []int{0, 300, 1100, 2100, 4200}
	if sym.Thorough() {
		ns = append(ns, 1030, 2050, 9000)
	}
	val := func(name string) interface{} {
		s := strings.Repeat("v", ns[sym.Choose(name, len(ns))]) + x
		return s
	}
	a, b, c := val("a"), val("b"), val("c")
	switch sym.Choose("kind", 3) {
	case 1:
		a = map[string]interface{}{"in": a}
		b = []interface{}{b, 1}
	case 2:
		c = []byte(c.(string))
		b = struct{ F interface{} }{b}
	}
	m := map[string]interface{}{"b": b, "a": a}
	same("two", m)
	m["c"] = c
	same("list", []interface{}{m, map[string]interface{}{"x": m}})
	same("fields", struct{ A, B, C interface{} }{a, m, c})
}
