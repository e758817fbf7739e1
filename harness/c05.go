package main

import (
	"reflect"

	"verifharness/sym"
)

func tagOf(s string) reflect.StructTag { return reflect.StructTag(`json:"` + s + `"`) }

// Q_C05_tag: a struct whose first field has a json tag of at most 2 symbolic bytes (thorough: 3), whose second field
// may clash with it, compared with encoding/json.
func Q_C05_tag() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	t := symString("tag", max)
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: typeOf[int](), Tag: tagOf(t)},
		{Name: "B", Type: typeOf[string]()},
	})
	v := reflect.New(st).Elem()
	v.Field(0).SetInt(5)
	v.Field(1).SetString("x")
	same("struct", v.Interface())
	sym.Reach("end")
}

// Q_C05_rawtag: the whole tag text (at most 3 symbolic bytes between the json key's letters) is arbitrary.
func Q_C05_rawtag() {
	x := sym.String("x", 2)
	var tag string
	switch sym.Choose("shape", 4) {
	case 0:
		tag = `json:` + x[:1] + `a` + x[1:]
	case 1:
		tag = `x:"y"` + x[:1] + `json:"b` + x[1:]
	case 2:
		tag = x[:1] + `json:"b"` + x[1:]
	case 3:
		tag = `json:"a` + x + `" json:"z"`
	}
	for i := 0; i < len(tag); i++ {
		sym.Assume(tag[i] < 0x80)
	}
	st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: typeOf[int](), Tag: reflect.StructTag(tag)}})
	same("struct", reflect.New(st).Elem().Interface())
}

// Q_C05_options: the option part of a tag after the name: 3 symbolic bytes (thorough: 4) replacing part of known options,
// on bool, int, float, string and pointer fields that are zero or not.
func Q_C05_options() {
	w := 2
	if sym.Thorough() {
		w = 3
	}
	base := []string{"n,string", "n,omitempty", ",omitempty,string", "n,strings,string", "-,", "n,omitemptyx"}[sym.Choose("base", 6)]
	if w > len(base)-1 {
		w = len(base) - 1
	}
	at := sym.Choose("at", len(base)-w)
	x := sym.String("x", w)
	for i := 0; i < w; i++ {
		sym.Assume(x[i] < 0x80)
	}
	t := base[:at+1] + x + base[at+1+w:]
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: typeOf[int](), Tag: tagOf(t)},
		{Name: "B", Type: typeOf[bool]()},
	})
	v := reflect.New(st).Elem()
	if sym.Choose("zero", 2) == 0 {
		v.Field(0).SetInt(5)
	}
	same("struct", v.Interface())
}

// Q_C05_string: the string option on a field of every kind: it applies to exactly those encoding/json applies it to.
func Q_C05_string() {
	ts := []reflect.Type{typeOf[bool](), typeOf[int8](), typeOf[uint32](), typeOf[uintptr](), typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[nStr](), typeOf[nInt](),
		typeOf[*bool](), typeOf[*int](), typeOf[*float64](), typeOf[*string](), typeOf[**int](), typeOf[**string](), typeOf[nPtr](), typeOf[[]int](), typeOf[[2]int](), typeOf[map[string]int](), typeOf[interface{}](),
		typeOf[struct{ X int }](), typeOf[*struct{ X string }](), typeOf[[]string](), typeOf[[]byte](), typeOf[[2]byte](), typeOf[textVal](), typeOf[jsonVal](), typeOf[talker](), typeOf[nNamedPtr]()}
	t := ts[sym.Choose("type", len(ts))]
	st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: tagOf(",string")}, {Name: "B", Type: typeOf[int](), Tag: tagOf("b,string")}, {Name: "C", Type: t, Tag: tagOf("c,omitempty,string")}})
	if t == typeOf[jsonVal]() {
		v := reflect.New(st).Elem()
		v.Field(0).Set(reflect.ValueOf(jsonVal{[]byte("1")}))
		v.Field(2).Set(reflect.ValueOf(jsonVal{[]byte(`"x"`)}))
		same("json", v.Interface())
		return
	}
	v := made(st, 1, 2)
	same("direct", v.Interface())
	same("pointer", v.Addr().Interface())
	sym.Reach("end")
}

type nNamedPtr *string

func fieldTag(name string) reflect.StructTag {
	ts := []reflect.StructTag{"", `json:"x"`, `json:"A"`, `json:"-"`}
	return ts[sym.Choose(name, len(ts))]
}

// Q_C05_embed: struct types with one or two embedded structs (by value, pointer, nil pointer; tagged or not) whose
// fields clash in every way: each of the tags is absent, x, A or -.
func Q_C05_embed() {
	inner := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: typeOf[int](), Tag: fieldTag("tag1")},
		{Name: "B", Type: typeOf[string](), Tag: fieldTag("tag2")},
	})
	inner2 := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: typeOf[int](), Tag: fieldTag("tag3")},
		{Name: "C", Type: inner, Anonymous: true},
	})
	kind := sym.Choose("embedding", 4)
	e1, e2 := inner, inner2
	if kind&1 != 0 {
		e1 = reflect.PtrTo(e1)
	}
	if kind&2 != 0 {
		e2 = reflect.PtrTo(e2)
	}
	outer := reflect.StructOf([]reflect.StructField{
		{Name: "E1", Type: e1, Anonymous: true, Tag: fieldTag("tag4")},
		{Name: "A", Type: typeOf[int](), Tag: fieldTag("tag5")},
		{Name: "E2", Type: e2, Anonymous: true},
	})
	v := reflect.New(outer).Elem()
	n := int64(0)
	var set func(v reflect.Value)
	set = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Int:
			n++
			v.SetInt(n)
		case reflect.String:
			n++
			v.SetString(string(rune('a' + n)))
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				set(v.Field(i))
			}
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			set(v.Elem())
		}
	}
	set(v)
	same("all set", v.Interface())
	same("all set, pointer", v.Addr().Interface())
	same("zero", reflect.Zero(outer).Interface())
	sym.Reach("end")
}

type (
	eInt    int
	EInt    int
	EStr    string
	ESlice  []int
	EMap    map[string]int
	eStruct struct {
		X int
		y int
	}
	EStruct struct {
		X int
		Z string `json:"z,omitempty"`
	}
	ePtrIn  struct{ *eDeep }
	eDeep   struct{ D1, D2 int }
	EChain1 struct {
		A1 int
		EChain2
	}
	EChain2 struct {
		A2 int
		*EChain3
	}
	EChain3 struct {
		A3 int
		EChain4
		*EChain5
	}
	EChain4 struct {
		A4 int
		EChain6
	}
	EChain5 struct {
		A5 int
		*EChain7
	}
	EChain6 struct{ A6 string }
	EChain7 struct{ A7 string }
	// several embedded structs at several depths of the same parent
	Wide0 struct {
		P0 [3]int64
		Wide1
		*Wide2
		Wide3
	}
	Wide1 struct {
		P1 int8
		Wide11
		*Wide12
		Wide13
	}
	Wide2 struct {
		P2 int32
		Wide21
		Wide22
		*Wide23
	}
	Wide3  struct{ P3 string }
	Wide11 struct{ W11 int }
	Wide12 struct {
		Q   int16
		W12 int
		WideDeep
		WideDeep2
	}
	Wide13 struct{ W13 string }
	Wide21 struct{ W21 int }
	Wide22 struct {
		Pad [2]int8
		W22 int8
	}
	Wide23    struct{ W23 int }
	WideDeep  struct{ WD int }
	WideDeep2 struct {
		Pad2 int64
		WD2  int
	}
	// the same struct reached twice at one depth annihilates
	Dup1  struct{ DupIn }
	Dup2  struct{ DupIn }
	DupIn struct{ U int }
	Rec   struct {
		V int
		*Rec
		W string
	}
	RecA struct {
		VA int
		*RecB
	}
	RecB struct {
		VB int
		*RecA
	}
	Tagged struct {
		EStruct  `json:"emb"`
		*EChain6 `json:",omitempty"`
	}
	Fn struct{ F int }
)

var c05Static = []reflect.Type{
	typeOf[struct {
		eInt
		EInt
		EStr
		ESlice
		EMap
		X int
	}](),
	typeOf[struct {
		*EInt
		*EStr
		*eInt
	}](),
	typeOf[struct {
		eStruct
		Y int
	}](),
	typeOf[struct {
		*EStruct
		X string
	}](),
	typeOf[struct {
		EStruct
		X string `json:"z"`
	}](),
	typeOf[ePtrIn](), typeOf[EChain1](), typeOf[*EChain2](), typeOf[Wide0](), typeOf[*Wide0](),
	typeOf[struct {
		Dup1
		Dup2
	}](),
	typeOf[struct {
		Dup1
		Dup2
		U string
	}](),
	typeOf[struct {
		*Dup1
		DupIn
	}](),
	typeOf[Rec](), typeOf[RecA](), typeOf[Tagged](), typeOf[*Tagged](),
	typeOf[struct {
		talker
		A int
	}](),
	typeOf[struct {
		Fn
		f  int
		F2 int `json:"F"`
	}](),
	typeOf[struct {
		A int `json:"<&>"`
		B int `json:"é;x"`
		C int `json:"a\u2028b"`
		D int `json:"tab\t"`
		E int `json:"quote\"q"`
		F int `json:"back\\slash"`
		G int `json:"日本"`
		H int `json:"a'b"`
		I int `json:"x y"`
		J int `json:"p.q/r#%"`
	}](),
	typeOf[struct {
		B int `json:"b"`
		A int `json:"a"`
		C int
		a int
		b *int
		D int `json:"-,"`
		E int `json:"-"`
		F int `json:","`
		G int `json:",,omitempty"`
		H int `json:" h"`
		I int `json:"i, omitempty"`
	}](),
	typeOf[struct {
		A int `xml:"x" json:"q"`
		B int `json:q`
		C int `json:"c" json:"d"`
		D int `JSON:"e"`
		E int `json: "f"`
	}](),
}

// Q_C05_static: 22 struct types with embedding to depth 4, promoted fields through pointers at every level, clashes,
// recursion, unexported parts and unusual tags; each pointer nil or not, values symbolic.
func Q_C05_static() {
	t := c05Static[sym.Choose("type", len(c05Static))]
	v := made(t, 1, 4)
	same("direct", v.Interface())
	same("pointer", v.Addr().Interface())
	sym.Reach("end")
}

// Chains of embedded structs.
type (
	chain0 struct {
		X0, Z int
		Y     string
	}
	chain1 struct {
		X1 int
		chain0
	}
	chain2 struct {
		*Chain1p
		X2 int
	}
	Chain1p struct {
		*chain1
		X1p int
	}
	chain3 struct {
		A3 int
		chain2
		Y int `json:"y3"`
	}
	chain4 struct {
		*Chain3p
		Z int
	}
	Chain3p struct {
		chain3
		X3p *int
	}
	chain5 struct {
		X5 int
		chain4
		Chain3q
	}
	Chain3q struct{ X3p, Q int }
	chain6  struct {
		chain5
		*Chain6b
		X6 int
	}
	Chain6b struct{ X6b, X5 int }
	Chain7  struct {
		X7 []byte
		*Chain6p
	}
	Chain6p struct {
		chain6
		X1p string
	}
	Chain8 struct {
		Chain7
		X8 int
	}
)

// Q_C05_chain: chains of embedded structs to depth 11, by value and pointer, with fields shadowed and ambiguous at
// several depths; one of the pointers may be nil.
func Q_C05_chain() {
	n := 0
	num := func() int { n++; return n }
	x := int(sym.U8("x"))
	nilAt := sym.Choose("nil", 6)
	c1 := &chain1{x, chain0{num(), num(), "y"}}
	c1p := &Chain1p{c1, num()}
	if nilAt == 1 {
		c1p.chain1 = nil
	}
	c3p := &Chain3p{chain3{num(), chain2{c1p, x + 1}, num()}, &x}
	if nilAt == 2 {
		c3p.Chain1p = nil
	}
	c6p := &Chain6p{chain6{chain5{x + 2, chain4{c3p, num()}, Chain3q{num(), num()}}, &Chain6b{num(), num()}, num()}, "p"}
	switch nilAt {
	case 3:
		c6p.Chain3p = nil
	case 4:
		c6p.Chain6b = nil
	}
	v := Chain8{Chain7{[]byte("ab"), c6p}, num()}
	if nilAt == 5 {
		v.Chain6p = nil
	}
	same("value", v)
	same("pointer", &v)
	same("middle", c6p)
	same("inner", c3p.chain3)
}

// Q_C05_many: structs of 1 to 300 fields keep their order and contents.
func Q_C05_many() {
	n := []int{1, 2, 11, 12, 13, 24, 63, 64, 65, 70, 129, 300}[sym.Choose("n", 12)]
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + string(rune('A'+i/26)) + string(rune('A'+i%26)), Type: []reflect.Type{typeOf[int8](), typeOf[string](), typeOf[bool](), typeOf[int64]()}[i%4]}
		if i%5 == 3 {
			f.Tag = tagOf("z" + string(rune('z'-i%26)) + string(rune('a'+i/26)))
		}
		fs = append(fs, f)
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	x := sym.U8("x")
	for i := 0; i < n; i++ {
		switch v.Field(i).Kind() {
		case reflect.Int8, reflect.Int64:
			v.Field(i).SetInt(int64(i))
		case reflect.String:
			v.Field(i).SetString(string(rune('a' + i%26)))
		}
	}
	v.Field(0).SetInt(int64(int8(x)))
	same("struct", v.Interface())
}

// part of an embedding graph: how a struct is embedded.
func embedIn(name string, t reflect.Type, how int) []reflect.StructField {
	switch how {
	case 0:
		return nil
	case 2:
		t = reflect.PtrTo(t)
	}
	return []reflect.StructField{{Name: name, Type: t, Anonymous: true}}
}

func setAll(v reflect.Value, n *int64) {
	switch v.Kind() {
	case reflect.Int:
		*n++
		v.SetInt(*n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			setAll(v.Field(i), n)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		setAll(v.Elem(), n)
	}
}

// Q_C05_graph: two structs embedded in one, each of which embeds (or not) one of two structs having a field of the same
// name, tagged or not, directly or through a third, which may also be embedded in the outer one: each by value or pointer.
func Q_C05_graph() {
	leaf := func(n int) reflect.Type {
		tag := reflect.StructTag("")
		if n == 1 {
			tag = `json:"X"`
		}
		return reflect.StructOf([]reflect.StructField{{Name: "X", Type: typeOf[int](), Tag: tag}, {Name: "Y" + string(rune('0'+n)), Type: typeOf[int]()}})
	}
	leaves := []reflect.Type{leaf(0), leaf(1)}
	node := func(name string) reflect.Type {
		f := []reflect.StructField{{Name: "N" + name, Type: typeOf[int]()}}
		k := sym.Choose(name+" embeds", 9)
		if k == 0 {
			return reflect.StructOf(f)
		}
		k--
		l, how := leaves[k%2], 1+k/2%2
		e := embedIn("L", l, how)
		if k/4 == 1 {
			e = embedIn("M", reflect.StructOf(e), how)
		}
		return reflect.StructOf(append(f, e...))
	}
	f := embedIn("P", node("a"), 1+sym.Choose("first", 2))
	f = append(f, embedIn("Q", node("b"), 1+sym.Choose("second", 2))...)
	f = append(f, embedIn("L", leaves[0], sym.Choose("direct", 3))...)
	t := reflect.StructOf(f)
	v := reflect.New(t)
	var n int64
	setAll(v.Elem(), &n)
	same("all set", v.Interface())
	same("zero", reflect.Zero(t).Interface())
}

type (
	tagIn    struct{ A, B int }
	tagIn2   struct{ C, D int }
	TagOut   struct{ E int }
	tagInt   int
	TagStr   string
	tagOther struct {
		tagIn   `yaml:"in"`
		*tagIn2 `xml:",any"`
		*TagOut `json:"" db:"out"`
		tagInt  `yaml:"x"`
		TagStr  `json:",omitempty"`
		F       int `xml:"f" json:"ff"`
		G       int `JSON:"x"`
		H       int `json:"h"yaml:"y"`
		I       int `json`
		J       int `json:"j,omitempty" json:"k"`
		K       int `yaml:"k,omitempty" binding:"required"`
		L       int `:"l"`
		M       int `json: "m"`
		n       int `json:"n"`
	}
	tagOther2 struct {
		*tagIn  `json:",inline"`
		tagIn2  `mapstructure:",squash"`
		*TagStr `yaml:"str"`
		*tagInt
		TagOut `json:",omitempty,string"`
	}
	tagOther3 struct {
		*tagOther  `yaml:"other"`
		*tagOther2 `validate:"-"`
	}
)

// Q_C05_othertags: tags of other packages, malformed ones and options only, on embedded fields (exported or not, structs
// or not, by value or pointer) and other fields; pointers nil or not.
func Q_C05_othertags() {
	x := int(sym.U8("x"))
	s := TagStr(letter("s"))
	y := tagInt(2)
	a := tagOther{tagIn: tagIn{x, 1}, tagInt: 1, TagStr: s, F: x, G: 1, H: 2, I: 3, J: x, K: 5, L: 6, M: 7, n: 8}
	b := tagOther2{tagIn2: tagIn2{x, 1}, tagInt: &y}
	p := sym.Choose("pointers", 16)
	if p&1 != 0 {
		a.tagIn2, a.TagOut = &tagIn2{1, x}, &TagOut{5}
	}
	if p&2 != 0 {
		b.tagIn, b.TagStr = &tagIn{3, x}, &s
	}
	same("a", a)
	same("b", &b)
	var c tagOther3
	if p&4 != 0 {
		c.tagOther = &a
	}
	if p&8 != 0 {
		c.tagOther2 = &b
	}
	same("c", c)
	same("list", []tagOther3{c, {}, {&a, &b}})
	sym.Reach("end")
}

// Q_C05_names: 11 names with 11 lists of options, on fields (zero or not) and embedded fields next to others they clash with.
func Q_C05_names() {
	names := []string{"", "-", "--", "-a", "a", "A", "B", "é", "<", " ", "a b"}
	opts := []string{"", ",", ",omitempty", ",string", ",omitempty,string", ",string,omitempty", ", omitempty", ",,omitempty", ",omitempty,", ",Omitempty", ",-"}
	tag := tagOf(names[sym.Choose("name", len(names))] + opts[sym.Choose("options", len(opts))])
	var f []reflect.StructField
	switch sym.Choose("field", 4) {
	case 0:
		f = []reflect.StructField{{Name: "A", Type: typeOf[int](), Tag: tag}}
	case 1:
		f = []reflect.StructField{{Name: "A", Type: typeOf[*string](), Tag: tag}}
	case 2:
		f = []reflect.StructField{{Name: "TagOut", Type: typeOf[TagOut](), Anonymous: true, Tag: tag}}
	case 3:
		f = []reflect.StructField{{Name: "TagOut", Type: typeOf[*TagOut](), Anonymous: true, Tag: tag}}
	}
	if sym.Choose("clash", 2) == 1 {
		f = append(f, reflect.StructField{Name: "B", Type: typeOf[int]()}, reflect.StructField{Name: "E", Type: typeOf[bool](), Tag: `json:"a"`})
	}
	v := reflect.New(reflect.StructOf(f))
	same("zero", v.Interface())
	switch e := v.Elem().Field(0).Addr().Interface().(type) {
	case *int:
		*e = 3
	case **string:
		x := "<"
		*e = &x
	case *TagOut:
		e.E = 4
	case **TagOut:
		*e = &TagOut{5}
	}
	same("set", v.Elem().Interface())
	same("pointer", v.Interface())
	sym.Reach("end")
}

// Q_C05_multi: a struct that embeds 4 structs, each of which embeds (by value or pointer) one of two structs having a field
// of the same name, tagged or not, or a struct that does, or none; the outer one also has a field of that name or not.
func Q_C05_multi() {
	leaf := reflect.StructOf([]reflect.StructField{{Name: "X", Type: typeOf[int]()}, {Name: "Y", Type: typeOf[int]()}})
	tagged := reflect.StructOf([]reflect.StructField{{Name: "X", Type: typeOf[int](), Tag: `json:"X"`}, {Name: "Z", Type: typeOf[int]()}})
	var f []reflect.StructField
	for i := 0; i < 4; i++ {
		n := string(rune('a' + i))
		in := []reflect.StructField{{Name: "N" + n, Type: typeOf[int]()}}
		switch sym.Choose(n, 5) {
		case 1:
			in = append(in, embedIn("L", leaf, 1)...)
		case 2:
			in = append(in, embedIn("L", leaf, 2)...)
		case 3:
			in = append(in, embedIn("L", tagged, 1)...)
		case 4:
			in = append(in, embedIn("M", reflect.StructOf(embedIn("L", leaf, 1)), 1)...)
		}
		f = append(f, embedIn("P"+n, reflect.StructOf(in), 1+i%2)...)
	}
	if sym.Choose("outer", 2) == 1 {
		f = append(f, reflect.StructField{Name: "Y", Type: typeOf[int](), Tag: `json:"X"`})
	}
	t := reflect.StructOf(f)
	v := reflect.New(t)
	var n int64
	setAll(v.Elem(), &n)
	same("all set", v.Interface())
}
