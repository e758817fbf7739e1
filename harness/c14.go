package main

import (
	"context"
	"encoding/json"
	"errors"
	"strconv"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type spacedJSON struct{}

func (spacedJSON) MarshalJSON() ([]byte, error) { return []byte(" [ \"<\" ,\n1 ]"), nil }

type quotedText struct{}

func (quotedText) MarshalText() ([]byte, error) { return []byte("&\""), nil }

type optAll struct {
	T time.Time
	D time.Duration
	B []byte
	A [2]byte
	M map[string]int
	S []int
	X string
	J spacedJSON
	R json.RawMessage
	N json.Number
	K map[string]string
	U quotedText
	F bool `json:"F&"`
	P *int
	I interface{}
	C mS_vnnn
}

// optSet is a set of options, as the documentation reads.
type optSet struct {
	unix, unsorted, rawBytes, byteArr, nilMap, nilSlice, noStr, noHTML, noUTF8, noCompact, noNum bool
	year, durStr, ctx                                                                            bool
}

func (o *optSet) str(s string) string {
	if o.noStr {
		return `"` + s + `"`
	}
	return string(specString(nil, s, !o.noHTML, !o.noUTF8))
}

func pick(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// want is the encoding of the sample value.
func (o *optSet) want() string {
	lt := pick(o.noHTML, "<", `\u003c`)
	w := `{"T":` + pick(o.unix, `1000000000`, pick(o.year, `"2001"`, `"2001-09-09T01:46:40.5Z"`))
	w += `,"D":` + pick(o.durStr, `"1.5s"`, `1500000000`)
	w += `,"B":` + pick(o.rawBytes, o.str("<"), `"PA=="`)
	w += `,"A":` + pick(o.byteArr, o.str("a\xff"), `[97,255]`)
	w += `,"M":` + pick(o.nilMap, "{}", "null") + `,"S":` + pick(o.nilSlice, "[]", "null")
	w += `,"X":` + o.str("<\xff\u2028\"")
	w += `,"J":` + pick(o.noCompact, " [ \"<\" ,\n1 ]", `["`+lt+`",1]`)
	w += `,"R":` + pick(o.noCompact, `{ "a": 1 }`, `{"a":1}`)
	w += `,"N":12,"K":{` + o.str("<") + `:` + o.str("&") + `},"U":` + o.str("&\"")
	w += `,"F` + pick(o.noHTML, "&", `\u0026`) + `":true,"P":null,"I":null,"C":"` + pick(o.ctx, "Xq", "D") + `c"}`
	return w
}

func (o *optSet) opts() (l []jettison.Option) {
	add := func(c bool, f jettison.Option) {
		if c {
			l = append(l, f)
		}
	}
	add(o.unix, jettison.UnixTime())
	add(o.unsorted, jettison.UnsortedMap())
	add(o.rawBytes, jettison.RawByteSlice())
	add(o.byteArr, jettison.ByteArrayAsString())
	add(o.nilMap, jettison.NilMapEmpty())
	add(o.nilSlice, jettison.NilSliceEmpty())
	add(o.noStr, jettison.NoStringEscaping())
	add(o.noHTML, jettison.NoHTMLEscaping())
	add(o.noUTF8, jettison.NoUTF8Coercion())
	add(o.noCompact, jettison.NoCompact())
	add(o.noNum, jettison.NoNumberValidation())
	add(o.year, jettison.TimeLayout("2006"))
	add(o.durStr, jettison.DurationFormat(jettison.DurationString))
	add(o.ctx, jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, "q")))
	return l
}

func (o *optSet) flag(i int) *bool {
	return []*bool{&o.unix, &o.unsorted, &o.rawBytes, &o.byteArr, &o.nilMap, &o.nilSlice, &o.noStr, &o.noHTML, &o.noUTF8, &o.noCompact, &o.noNum, &o.year, &o.durStr, &o.ctx}[i]
}

const nOpts = 14

func optSample() *optAll {
	return &optAll{T: time.Unix(1e9, 5e8).UTC(), D: 1500 * time.Millisecond, B: []byte("<"), A: [2]byte{'a', 0xff}, X: "<\xff\u2028\"",
		R: json.RawMessage(`{ "a": 1 }`), N: "12", K: map[string]string{"<": "&"}, F: true, C: mS_vnnn{"c", 1}}
}

// Q_C14_subsets: every one of the 2^14 subsets of the 14 options (11 flags, a layout, a duration format, a context), in
// order, over a value with a field for each: each field follows its own options only.
func Q_C14_subsets() {
	v := optSample()
	jettison.Marshal(v)
	failing = false
	var o optSet
	n := nOpts
	for i := 0; i < n; i++ {
		*o.flag(i) = sym.Choose("option", 2) == 1
	}
	is("subset", o.want(), v, o.opts()...)
}

// Q_C14_order: every pair (thorough: triple) of distinct options in every order, with nil options in between: the same
// as the specification of the set. Applied to the value directly, in an interface and in a slice.
func Q_C14_order() {
	v := optSample()
	jettison.Marshal([]interface{}{v, *v})
	failing = false
	k := 2
	if sym.Thorough() {
		k = 3
	}
	var o optSet
	var l []jettison.Option
	used := map[int]bool{}
	for j := 0; j < k; j++ {
		i := sym.Choose("option", nOpts)
		sym.Assume(!used[i])
		used[i] = true
		var one optSet
		*o.flag(i) = true
		*one.flag(i) = true
		l = append(l, one.opts()...)
		if sym.Choose("nil", 2) == 1 {
			l = append(l, nil)
		}
	}
	w := o.want()
	is("order", "["+w+","+w+"]", []interface{}{v, *v}, l...)
	b, err := jettison.AppendOpts([]byte("x"), v, l...)
	sym.Assert("append", err == nil && string(b) == "x"+w)
}

// Q_C14_twice: options given 2 to 4 times, as the same value or made anew, one after the other or around another
// option: the same as once.
func Q_C14_twice() {
	v := optSample()
	jettison.Marshal(v)
	failing = false
	var o, two optSet
	i, j := sym.Choose("option", nOpts), sym.Choose("other", nOpts+1)
	*o.flag(i) = true
	a, b := o.opts(), o.opts()
	l := append([]jettison.Option(nil), a...)
	if sym.Choose("same value", 2) == 1 {
		b = a
	}
	if j < nOpts {
		*two.flag(j) = true
		*o.flag(j) = true
		l = append(l, two.opts()...)
	}
	l = append(l, b...)
	switch sym.Choose("more", 3) {
	case 1:
		l = append(l, a...)
	case 2:
		l = append(append(l, two.opts()...), b...)
	}
	is("repeated", o.want(), v, l...)
}

// Q_C14_number: NoNumberValidation alone decides whether an invalid number is accepted, whatever other option is given.
func Q_C14_number() {
	v := optSample()
	v.N = "1e"
	var o optSet
	if i := sym.Choose("other", nOpts+1); i < nOpts {
		*o.flag(i) = true
	}
	if sym.Choose("no validation", 2) == 1 {
		o.noNum = true
	}
	b, err := jettison.MarshalOpts(v, o.opts()...)
	sym.Assert("number", (err == nil) == o.noNum && (len(b) > 0) == o.noNum)
}

type (
	listLeaf struct {
		A int
		B int    `json:"b"`
		C string `json:"c<"`
	}
	listEmb struct {
		D int `json:"d"`
		A int
	}
	listTop struct {
		A int
		listEmb
		*listPtr
		L listLeaf            `json:"l"`
		P *listLeaf           `json:"p"`
		S []listLeaf          `json:"s"`
		M map[string]listLeaf `json:"m"`
		I interface{}         `json:"i"`
		O int                 `json:"b,omitempty"`
	}
	listPtr struct {
		E int `json:"e"`
	}
)

func (o *listSet) keep(name string) bool {
	if o.hasDeny {
		for _, d := range o.deny {
			if d == name {
				return false
			}
		}
	}
	if o.hasAllow {
		for _, a := range o.allow {
			if a == name {
				return true
			}
		}
		return false
	}
	return true
}

type listSet struct {
	hasAllow, hasDeny bool
	allow, deny       []string
}

type objw struct {
	o   *listSet
	buf []byte
	n   int
}

func (w *objw) f(name, key, val string) {
	if !w.o.keep(name) {
		return
	}
	if w.n > 0 {
		w.buf = append(w.buf, ',')
	}
	w.n++
	w.buf = append(w.buf, '"')
	w.buf = append(w.buf, key...)
	w.buf = append(w.buf, `":`...)
	w.buf = append(w.buf, val...)
}

func (w *objw) end() string { return "{" + string(w.buf) + "}" }

func (o *listSet) leaf() string {
	w := &objw{o: o}
	w.f("A", "A", "1")
	w.f("b", "b", "2")
	w.f("c<", `c\u003c`, `"x"`)
	return w.end()
}

func (o *listSet) top(omit bool) string {
	w := &objw{o: o}
	w.f("A", "A", "7")
	w.f("d", "d", "8")
	w.f("e", "e", "9")
	w.f("l", "l", o.leaf())
	w.f("p", "p", o.leaf())
	w.f("s", "s", "["+o.leaf()+","+o.leaf()+"]")
	w.f("m", "m", `{"A":`+o.leaf()+`}`)
	w.f("i", "i", o.leaf())
	if !omit {
		w.f("b", "b", "5")
	}
	return w.end()
}

func listSample(omit bool) *listTop {
	l := listLeaf{1, 2, "x"}
	v := &listTop{A: 7, listEmb: listEmb{8, 99}, listPtr: &listPtr{9}, L: l, P: &l, S: []listLeaf{l, l}, M: map[string]listLeaf{"A": l}, I: l, O: 5}
	if omit {
		v.O = 0
	}
	return v
}

var listNames = []string{"A", "b", "c<", "d", "e", "l", "p", "s", "m", "i", "B", `c\u003c`, "", "listEmb", "L"}

func pickNames(name string, k int) []string {
	l := []string{}
	n := sym.Choose(name+" length", k+1)
	for i := 0; i < n; i++ {
		l = append(l, listNames[sym.Choose(name, len(listNames))])
	}
	return l
}

// Q_C14_lists: AllowList and DenyList of up to 2 names each (quick: 2 and 1), from all names of a nested type and some
// that name nothing (Go names, escaped names, the empty one), in both orders: every level of nesting, embedded structs,
// pointers, slices, map values and interfaces; map keys are untouched.
func Q_C14_lists() {
	omit := sym.Choose("omitted field", 2) == 1
	v := listSample(omit)
	jettison.Marshal(v)
	k := 1
	if sym.Thorough() {
		k = 2
	}
	var o listSet
	var l []jettison.Option
	if o.hasAllow = sym.Choose("allow list", 2) == 1; o.hasAllow {
		o.allow = pickNames("allow", 2)
		l = append(l, jettison.AllowList(o.allow))
	}
	if o.hasDeny = sym.Choose("deny list", 2) == 1; o.hasDeny {
		o.deny = pickNames("deny", k)
		l = append(l, jettison.DenyList(o.deny))
	}
	if len(l) == 2 && sym.Choose("order", 2) == 1 {
		l[0], l[1] = l[1], l[0]
	}
	is("lists", o.top(omit), v, l...)
}

// Q_C14_longlists: AllowList and DenyList of 1 to 40 names, in ascending, descending or mixed order, some of them
// duplicates, with one or two names of the type at any two places among names that are not.
func Q_C14_longlists() {
	n := []int{1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 40}[sym.Choose("length", 11)]
	names := make([]string, n)
	order := sym.Choose("order", 3)
	for i := range names {
		k := i
		switch order {
		case 1:
			k = n - i
		case 2:
			k = i * 7 % 5
		}
		names[i] = string(rune('a'+k%26)) + string(rune('B'+k/26))
	}
	hit := listNames[sym.Choose("name", 10)]
	names[sym.Choose("place", 4)*(n-1)/3] = hit
	names[n/2] = "c<"
	names[0], names[n-1] = names[n-1], names[0]
	v := listSample(false)
	var o listSet
	switch sym.Choose("lists", 3) {
	case 0:
		o = listSet{hasAllow: true, allow: names}
		is("lists", o.top(false), v, jettison.AllowList(names))
	case 1:
		o = listSet{hasDeny: true, deny: names}
		is("lists", o.top(false), v, jettison.DenyList(names))
	case 2:
		o = listSet{hasAllow: true, hasDeny: true, deny: names, allow: listNames}
		is("lists", o.top(false), v, jettison.DenyList(names), jettison.AllowList(listNames))
	}
}

// Q_C14_listsym: one allowed and one denied name of 1 or 2 symbolic bytes each.
func Q_C14_listsym() {
	v := listSample(false)
	jettison.Marshal(v)
	o := listSet{hasAllow: true, hasDeny: true}
	o.allow = []string{sym.String("allowed", sym.Choose("length", 2)+1), "l", "c<"}
	o.deny = []string{sym.String("denied", 1)}
	is("lists", o.top(false), v, jettison.DenyList(o.deny), jettison.AllowList(o.allow))
	is("lists", `{"k":`+o.leaf()+`}`, map[string]interface{}{"k": listLeaf{1, 2, "x"}}, jettison.DenyList(o.deny), jettison.AllowList(o.allow))
}

type (
	nMapT   map[int]nSliceT
	nSliceT []string
	nilAll  struct {
		M  map[string]int
		N  nMapT
		S  []int
		T  nSliceT
		SS [][]int
		MM map[string]map[string]int
		A  [2][]int
		P  *[]int
		Q  *map[string]int
		I  interface{}
		J  interface{}
		O  []int          `json:",omitempty"`
		R  map[string]int `json:",omitempty"`
		U  []int          `json:",omitnil"`
		V  map[string]int `json:",omitnil"`
		W  *int
		X  json.Marshaler
		Y  json.RawMessage
	}
)

// Q_C14_nil: NilMapEmpty and NilSliceEmpty affect nil maps and slices only, in every position (fields, elements, map
// values, behind pointers, in interfaces); empty, omitted and other nil values stay as they are.
func Q_C14_nil() {
	v := nilAll{}
	jettison.Marshal(v)
	nm, ns := sym.Choose("NilMapEmpty", 2) == 1, sym.Choose("NilSliceEmpty", 2) == 1
	var l []jettison.Option
	if nm {
		l = append(l, jettison.NilMapEmpty())
	}
	if ns {
		l = append(l, jettison.NilSliceEmpty())
	}
	em, es := pick(nm, "{}", "null"), pick(ns, "[]", "null")
	M, N, S, T, SS, MM, P, Q, I, J := em, em, es, es, es, em, "null", "null", "null", "null"
	bits := sym.Choose("set", 16)
	if bits&1 != 0 {
		v.M, v.N, v.S, v.T = map[string]int{}, nMapT{}, []int{}, nSliceT{}
		M, N, S, T = "{}", "{}", "[]", "[]"
	}
	if bits&2 != 0 {
		v.SS, v.MM = [][]int{nil, {}, {1}}, map[string]map[string]int{"a": nil, "b": {}, "c": {"d": 1}}
		SS, MM = "["+es+",[],[1]]", `{"a":`+em+`,"b":{},"c":{"d":1}}`
	}
	if bits&4 != 0 {
		var s []int
		var m map[string]int
		v.P, v.Q, v.I, v.J = &s, &m, s, m
		P, Q, I, J = es, em, es, em
	}
	if bits&8 != 0 {
		v.I, v.J = nSliceT(nil), nMapT{1: nil}
		I, J = es, `{"1":`+es+`}`
	}
	w := `{"M":` + M + `,"N":` + N + `,"S":` + S + `,"T":` + T + `,"SS":` + SS + `,"MM":` + MM + `,"A":[` + es + `,` + es + `],"P":` + P + `,"Q":` + Q +
		`,"I":` + I + `,"J":` + J + `,"W":null,"X":null,"Y":null}`
	if sym.Choose("pointer", 2) == 1 {
		is("nil", w, &v, l...)
	} else {
		is("nil", w, v, l...)
	}
	is("top map", em, map[string]int(nil), l...)
	is("top slice", es, nSliceT(nil), l...)
	is("top pointers", `[null,null,`+es+`]`, []interface{}{(*[]int)(nil), (*nilAll)(nil), []nilAll(nil)}, l...)
}

// Q_C14_invalid: a nil context, an empty layout and every duration format outside of the six are refused with an
// InvalidOptionError and no output, whatever other option is given, before or after; valid ones never are.
func Q_C14_invalid() {
	v := optSample()
	jettison.Marshal(v)
	var l []jettison.Option
	bad := false
	other := sym.Choose("other", nOpts+1)
	switch sym.Choose("kind", 4) {
	case 0:
		l, bad = append(l, jettison.WithContext(nil)), true
		sym.Assume(other != 13)
	case 1:
		n := sym.Choose("layout length", 2)
		l = append(l, jettison.TimeLayout(sym.String("layout", n)))
		bad = n == 0
		sym.Assume(other != 11)
	case 2:
		d := int(sym.I64("format"))
		bad = d < 0 || d > 5
		l = append(l, jettison.DurationFormat(jettison.DurationFmt(d)))
		sym.Assume(other != 12)
	case 3:
		l = append(l, nil)
	}
	if other < nOpts {
		var o optSet
		*o.flag(other) = true
		if sym.Choose("order", 2) == 1 {
			l = append(o.opts(), l...)
		} else {
			l = append(l, o.opts()...)
		}
	}
	var x interface{} = v
	switch sym.Choose("value", 3) {
	case 1:
		x = 1
	case 2:
		x = make(chan int) // the options are checked first
	}
	b, err := jettison.MarshalOpts(x, l...)
	c, err2 := jettison.AppendOpts(nil, x, l...)
	var ie *jettison.InvalidOptionError
	sym.Assert("refused exactly when invalid", errors.As(err, &ie) == bad)
	sym.Assert("AppendOpts agrees", errors.As(err2, &ie) == bad && (err == nil) == (err2 == nil))
	if bad {
		sym.Assert("no output", len(b) == 0 && len(c) == 0 && ie.Err != nil)
	}
	sym.Reach("end")
}

// Q_C14_reuse: the same Option values used in several calls, together and alone, do in each what new ones would.
func Q_C14_reuse() { reuse() }

// promoted fields
type (
	LE3 struct {
		X int
		Y string `json:"y<,omitempty"`
	}
	LEP struct {
		P int
		Q *LE3 `json:"q,omitnil"`
	}
	le2 struct {
		LE3
		W int
		*LEP
	}
	LE1 struct {
		*le2
		V []LE3
	}
	LE0 struct {
		LE1
		U int
		A *LE1
		B interface{} `json:"X2"`
	}
)

var promotedNames = []string{"X", "y<", "W", "P", "q", "V", "U", "A", "X2", "LE1", "LE3", "le2", "y", "none"}

// object is the object of the fields (name and value, in turn) that o keeps; no value is a field left out.
func (o listSet) object(fields ...string) string {
	s := ""
	for i := 0; i < len(fields); i += 2 {
		n := fields[i]
		if fields[i+1] == "" || !o.keep(n) {
			continue
		}
		if s != "" {
			s += ","
		}
		s += `"` + pick(n == "y<", `y\u003c`, n) + `":` + fields[i+1]
	}
	return "{" + s + "}"
}

// Q_C14_promoted: AllowList and DenyList of up to 2 names (quick: 2, the second one of 2, and 1) for a type with fields promoted through up to
// three structs and pointers, nil or not, reached by value or pointer, in maps and interfaces.
func Q_C14_promoted() {
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	var o listSet
	var l []jettison.Option
	names := func(id string, max int) (s []string) {
		for i := 0; i < max; i++ {
			c := len(promotedNames)
			if i > 0 && !sym.Thorough() {
				c = 2
			}
			k := sym.Choose(id+strconv.Itoa(i), c+1)
			if k == c {
				break
			}
			s = append(s, promotedNames[k])
		}
		return
	}
	k := 1
	if sym.Thorough() {
		k = 2
	}
	if o.hasAllow = sym.Choose("allow list", 2) == 1; o.hasAllow {
		o.allow = names("allow", 2)
		l = append(l, jettison.AllowList(o.allow))
	}
	if o.hasDeny = sym.Choose("deny list", 2) == 1; o.hasDeny {
		o.deny = names("deny", k)
		l = append(l, jettison.DenyList(o.deny))
	}
	leaf := LE3{n, "s"}
	x := o.object("X", dig(n), "y<", `"s"`)
	in := &le2{LE3{n, ""}, 2, &LEP{3, &leaf}}
	parts := []string{"X", dig(n), "y<", "", "W", "2", "P", "3", "q", x}
	switch sym.Choose("nil", 3) {
	case 1:
		in.LEP, parts = nil, parts[:6]
	case 2:
		in, parts = nil, nil
	}
	e := LE1{in, []LE3{leaf, {}}}
	v := LE0{e, 4, &e, map[string]LE3{"X": leaf}}
	es := append(append([]string{}, parts...), "V", "["+x+","+o.object("X", "0")+"]")
	want := o.object(append(append([]string{}, es...), "U", "4", "A", o.object(es...), "X2", `{"X":`+x+`}`)...)
	if sym.Choose("pointer", 2) == 1 {
		is("promoted", want, &v, l...)
	} else {
		is("promoted", `{"X":[`+want+`]}`, map[string]interface{}{"X": []interface{}{v}}, l...)
	}
	sym.Reach("end")
}
