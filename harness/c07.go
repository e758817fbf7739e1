package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"math"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// distinct letters-only or arbitrary keys
func symKey(name string, n int) string {
	s := sym.String(name, n)
	noBF(s)
	return s
}

// checkMap compares the map m (and the sync.Map with the same entries) with encoding/json, in any iteration order.
func checkMap[K comparable, V any](m map[K]V, sorted bool) {
	want, werr := json.Marshal(m)
	jettison.Marshal(m) // the instructions are built outside of the exploration of the orders
	sym.MapOrder(true)
	got, err := jettison.Marshal(m)
	agree("sorted", want, werr, got, err)
	sym.MapOrder(false)
}

// mapOf makes a map by successive assignments (in a literal, the order of equal keys is that of the compiler).
func mapOf[K comparable, V any](k []K, v ...V) map[K]V {
	m := map[K]V{}
	for i := range k {
		m[k[i]] = v[i]
	}
	return m
}

func toSync[K comparable, V any](m map[K]V) *sync.Map {
	var sm sync.Map
	for k, v := range m {
		sm.Store(k, v)
	}
	return &sm
}

// Q_C07_string: maps with up to 3 string keys (one of 2, two of 1 symbolic bytes; equal keys collapse), every
// iteration order of the runtime.
func Q_C07_string() {
	n := sym.Choose("n", 4)
	m := map[string]int{}
	names := []string{"k0", "k1", "k2"}
	for i := 0; i < n; i++ {
		k := 1
		if i == 0 {
			k = 2
		}
		m[symKey(names[i], k)] = i
	}
	checkMap(m, true)
	sym.Reach("end")
}

// Q_C07_named: the same for a named string type with methods of its own, whose keys are used directly.
func Q_C07_named() {
	m := map[textKey]string{textKey(symKey("k0", 1)): "a", textKey(symKey("k1", 1)): "b"}
	checkMap(m, true)
}

// Q_C07_escape: keys whose escaped form sorts differently from the key: two keys of 2 and 1 symbolic bytes.
func Q_C07_escape() {
	m := map[string]bool{symKey("k0", 2): true, symKey("k1", 1): false}
	o := []jettison.Option{nil, jettison.NoHTMLEscaping()}[sym.Choose("nohtml", 2)]
	var want []byte
	var werr error
	if o == nil {
		want, werr = json.Marshal(m)
	} else {
		want, werr = stdNoHTML(m)
	}
	jettison.Marshal(m)
	sm := toSync(m)
	jettison.Marshal(sm)
	sym.MapOrder(true)
	got, err := jettison.MarshalOpts(m, o)
	agree("escaped keys", want, werr, got, err)
	sg, err := jettison.MarshalOpts(sm, o)
	agree("sync.Map", want, werr, sg, err)
}

// Q_C07_int: maps with 3 symbolic integer keys of each width and signedness (8 bits: all values; others: all 16-bit
// values and extremes), every iteration order.
func Q_C07_int() {
	switch sym.Choose("type", 8) {
	case 0:
		checkMap(mapOf([]int8{sym.I8("a"), sym.I8("b")}, 1, 2), true)
	case 1:
		checkMap(mapOf([]uint8{sym.U8("a"), sym.U8("b"), 255}, 1, 2, 3), true)
	case 2:
		checkMap(mapOf([]int16{sym.I16("a"), -5}, "x", "y"), true)
	case 3:
		checkMap(mapOf([]uint16{sym.U16("a"), 10, 9}, "x", "y", "z"), true)
	case 4:
		checkMap(map[int]int{sym.Choose("k", 3) - 1: 1, math.MaxInt64: 2, math.MinInt64: 3}, true)
	case 5:
		checkMap(map[uint64]int{uint64(sym.U8("a")): 1, math.MaxUint64: 2}, true)
	case 6:
		checkMap(mapOf([]nInt32{nInt32(sym.I8("a")), -100}, 1, 2), true)
	case 7:
		checkMap(mapOf([]uintptr{uintptr(sym.U8("a")), 20, 3}, 1, 2, 3), true)
	}
	sym.Reach("end")
}

type (
	textInt    int
	textPtrKey struct{ s string }
	jsonKey    int
	jsonStrKey string
	appKey     int
)

func (t textInt) MarshalText() ([]byte, error)       { return []byte("t" + strconv.Itoa(int(t))), nil }
func (t *textPtrKey) MarshalText() ([]byte, error)   { return []byte(t.s), nil }
func (j jsonKey) MarshalJSON() ([]byte, error)       { return []byte(`{"bad":1}`), nil }
func (j jsonStrKey) MarshalJSON() ([]byte, error)    { return []byte(`{"bad":1}`), nil }
func (j appKey) AppendJSON(b []byte) ([]byte, error) { return append(b, `[]`...), nil }

// Q_C07_text: keys with MarshalText (value and pointer receivers, integer kinds, nil pointers), and keys whose type has
// JSON marshalers, is a Duration, a Number or a Time: precedence of string kind, MarshalText, integer.
func Q_C07_text() {
	x := sym.I8("x")
	switch sym.Choose("type", 9) {
	case 0:
		checkMap(mapOf([]textInt{textInt(x), 3}, 1, 2), true)
	case 1:
		s := symKey("s", 1)
		sym.Assume(s != "b") // equal texts of distinct keys have no defined order
		checkMap(map[*textPtrKey]int{{s}: 1, {"b"}: 2, nil: 3}, true)
	case 2:
		checkMap(map[jsonKey]int{jsonKey(x): 1}, true)
	case 3:
		checkMap(map[jsonStrKey]int{jsonStrKey(symKey("s", 1)): 1}, true)
	case 4:
		checkMap(map[appKey]int{appKey(x): 1}, true)
	case 5:
		checkMap(map[time.Duration]int{time.Duration(x): 1}, true)
	case 6:
		checkMap(map[json.Number]int{json.Number(symKey("s", 2)): 1}, true)
	case 7:
		s := symKey("s", 1)
		sym.Assume(s != "q")
		checkMap(map[textIntKey]string{{1, s}: "a", {2, "q"}: "b"}, true)
	case 8:
		checkMap(map[time.Time]int{time.Unix(int64(x), 0).UTC(): 1}, true)
	}
	sym.Reach("end")
}

// Q_C07_sync: a sync.Map encodes as the map with the same entries, sorted or not, for string, integer, text and mixed
// keys and any values (nil included); every order.
func Q_C07_sync() {
	x := sym.I8("x")
	check := func(id string, sm *sync.Map, want []byte, werr error) {
		sym.MapOrder(true)
		got, err := jettison.Marshal(sm)
		agree(id, want, werr, got, err)
		sym.MapOrder(false)
		same2, err := jettison.Marshal(&struct{ M *sync.Map }{sm})
		agree(id+" in a struct", append(append([]byte(`{"M":`), want...), '}'), werr, same2, err)
	}
	switch sym.Choose("keys", 7) {
	case 0:
		m := map[string]interface{}{"b": nil}
		m[symKey("k", 1)] = 1
		want, werr := json.Marshal(m)
		check("strings", toSync(m), want, werr)
	case 1:
		m := mapOf([]int8{x, 5}, interface{}("v"), interface{}([]int{1}))
		want, werr := json.Marshal(m)
		check("integers", toSync(m), want, werr)
	case 2:
		m := mapOf([]textInt{textInt(x), 2}, 1, 2)
		want, werr := json.Marshal(m)
		check("text", toSync(m), want, werr)
	case 3:
		m := map[textKey]int{textKey(symKey("k", 1)): 1}
		want, werr := json.Marshal(m)
		check("string kind text", toSync(m), want, werr)
	case 4:
		check("empty", &sync.Map{}, []byte("{}"), nil)
	case 5:
		m := map[time.Duration]int{time.Duration(x): 1}
		want, werr := json.Marshal(m)
		check("duration", toSync(m), want, werr)
	case 6:
		m := map[*textPtrKey]int{{symKey("k", 1)}: 1, nil: 2}
		want, werr := json.Marshal(m)
		check("text pointers", toSync(m), want, werr)
	}
	sym.Reach("end")
}

// Q_C07_unsorted: with UnsortedMap exactly the same entries appear, once each, in some order (maps and sync.Map of
// up to 3 entries, every order).
func Q_C07_unsorted() {
	a, b := sym.U8("a"), sym.U8("b")
	sym.Assume(a < 10 && b < 10 && a != b)
	m := map[int]string{int(a): "p", int(b): "q"}
	e := func(k uint8, v string) string { return `"` + string(rune('0'+k)) + `":"` + v + `"` }
	w1, w2 := "{"+e(a, "p")+","+e(b, "q")+"}", "{"+e(b, "q")+","+e(a, "p")+"}"
	sym.MapOrder(true)
	got, err := jettison.MarshalOpts(m, jettison.UnsortedMap())
	sym.Assert("unsorted", err == nil && (string(got) == w1 || string(got) == w2))
	sm := toSync(m)
	got, err = jettison.MarshalOpts(sm, jettison.UnsortedMap())
	sym.Assert("unsorted sync.Map", err == nil && (string(got) == w1 || string(got) == w2))
	sym.Reach("end")
}

// Q_C07_nested: maps in maps (3 levels), in interfaces and in slices, with one symbolic key, use separate state, in
// every order of the three iterations.
func Q_C07_nested() {
	k := letter("k")
	var m map[string]interface{}
	switch sym.Choose("shape", 3) {
	case 0:
		m = map[string]interface{}{k: map[string]map[string]int{"y": {"b": 1, k: 2}, "x": {}}, "aa": 1}
	case 1:
		m = map[string]interface{}{k: 1, "aa": []interface{}{map[int]string{2: "b", 1: "a"}, nil, map[string]string(nil)}}
	case 2:
		m = map[string]interface{}{k: "v", "zz": map[string]interface{}{k: map[textInt]bool{1: true, 0: false}}}
	}
	if sym.Choose("sync", 2) == 0 {
		checkMap(m, true)
		return
	}
	sm := toSync(m)
	want, werr := json.Marshal(map[string]interface{}{"s": m})
	jettison.Marshal(map[string]interface{}{"s": sm})
	sym.MapOrder(true)
	got, err := jettison.Marshal(map[string]interface{}{"s": sm})
	agree("sync.Map in a map", want, werr, got, err)
}

// Q_C07_unsupported: other key types are an error, whatever the content (none, nil included).
func Q_C07_unsupported() {
	var vs = []interface{}{map[bool]int{true: 1}, map[float64]int{1: 1}, map[interface{}]int{"a": 1}, map[struct{ A int }]int{{1}: 1}, map[*int]int{nil: 1}, map[[1]string]int{{"a"}: 1}, map[complex128]int{}, map[bool]int(nil), map[textPtrKey]int{{"a"}: 1}}
	v := vs[sym.Choose("type", len(vs))]
	same("direct", v)
	same("in a struct", struct{ M interface{} }{v})
	want, werr := json.Marshal(v)
	got, err := jettison.MarshalOpts(v, jettison.UnsortedMap())
	agree("unsorted", want, werr, got, err)
	var sm sync.Map
	switch sym.Choose("sync", 4) {
	case 0:
		sm.Store(true, 1)
	case 1:
		sm.Store(1.5, 1)
	case 2:
		sm.Store(struct{ X int }{1}, 1)
	case 3:
		sm.Store([2]int{}, 1)
	}
	_, err = jettison.Marshal(&sm)
	sym.Assert("unsupported sync.Map key", err != nil)
	_, err = jettison.MarshalOpts(&sm, jettison.UnsortedMap())
	sym.Assert("unsupported sync.Map key, unsorted", err != nil)
}

// Q_C07_prefix: two keys that share a prefix of 0 to 40 bytes and differ in one symbolic byte that follows, or one
// of which is the prefix of the other; string, text and sync.Map keys, every order.
func Q_C07_prefix() {
	n := []int{0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 40}[sym.Choose("prefix", 12)]
	p := strings.Repeat("p", n)
	a, b := p+sym.String("a", 1), p+sym.String("b", sym.Choose("length", 2))
	if sym.Choose("more", 2) == 1 {
		a += "x"
		b += "y"
	}
	noBF(a)
	noBF(b)
	switch sym.Choose("kind", 3) {
	case 0:
		checkMap(map[string]int{a: 1, b: 2}, true)
	case 1:
		checkMap(map[keyText]int{{a}: 1, {b}: 2}, a != b)
	case 2:
		m := map[string]interface{}{a: 1, b: nil}
		want, werr := json.Marshal(m)
		sm := toSync(m)
		sym.MapOrder(true)
		got, err := jettison.Marshal(sm)
		agree("sync", want, werr, got, err)
	}
}

type keyText struct{ s string }

func (k keyText) MarshalText() ([]byte, error) { return []byte(k.s), nil }

// Q_C07_many: maps of 9 to 120 entries, so that several table groups are used; one key symbolic.
func Q_C07_many() {
	n := []int{9, 20, 40, 120}[sym.Choose("n", 4)]
	m := map[int]int{}
	sm := map[string]int{}
	for i := 0; i < n; i++ {
		m[i*37%101] = i
		sm["k"+strconv.Itoa(i*7)] = i
	}
	x := sym.U8("x")
	m[int(x)] = 1000
	sm[letter("k")] = 7
	same("int", m)
	same("string", sm)
	got, err := jettison.Marshal(toSync(m))
	want, werr := json.Marshal(m)
	agree("sync", want, werr, got, err)
	sym.Assert("valid", bytes.Equal(got, want))
}

// Q_C07_large: maps of 12 to 140 entries whose keys are prefixes of each other, need escapes or differ in one byte that sorts
// differently once escaped; one more key of 1 or 2 symbolic bytes; with and without HTML escaping, string, text and sync.Map keys.
func Q_C07_large() {
	n := []int{12, 13, 33, 65, 140}[sym.Choose("n", 5)]
	m := map[string]int{}
	add := func(s string) {
		if len(m) < n {
			m[s] = len(m)
		}
	}
	for i := 0; len(m) < n; i++ {
		switch i % 6 {
		case 0:
			add(strings.Repeat("\t", i/6))
		case 1:
			add("k" + strings.Repeat("<", i/6))
		case 2:
			add("!" + strconv.Itoa(i))
		case 3:
			add("\u2028" + string(rune('A'+i/6)))
		case 4:
			add("k\"" + strings.Repeat("k", i/6))
		case 5:
			add("\\" + string(rune(0x1f+i/6)))
		}
	}
	k := symKey("k", 1)
	if sym.Choose("length", 2) == 1 {
		k = "k" + k
	}
	m[k] = -1
	o := []jettison.Option{nil, jettison.NoHTMLEscaping()}[sym.Choose("nohtml", 2)]
	var want []byte
	var werr error
	if o == nil {
		want, werr = json.Marshal(m)
	} else {
		want, werr = stdNoHTML(m)
	}
	var got []byte
	var err error
	switch sym.Choose("kind", 3) {
	case 0:
		got, err = jettison.MarshalOpts(m, o)
	case 1:
		t := map[keyText]int{}
		for k, v := range m {
			t[keyText{k}] = v
		}
		got, err = jettison.MarshalOpts(t, o)
	case 2:
		got, err = jettison.MarshalOpts(toSync(m), o)
	}
	agree("large", want, werr, got, err)
}

// Q_C07_huge: maps and sync.Maps of 257 to 300 entries (thorough: to 1100), one key symbolic, sorted as encoding/json does; with
// UnsortedMap every entry is there and nothing else.
func Q_C07_huge() {
	n := []int{257, 300, 513, 1100}[sym.Choose("n", map[bool]int{false: 2, true: 4}[sym.Thorough()])]
	m := map[string]int{}
	for i := 1; i < n; i++ {
		m["k"+strconv.Itoa(i*7)] = i
	}
	m[letter("k")] = 7
	want, werr := json.Marshal(m)
	var v interface{} = m
	if sym.Choose("sync", 2) == 1 {
		v = toSync(m)
	}
	got, err := jettison.Marshal(v)
	agree("sorted", want, werr, got, err)
	un, err := jettison.MarshalOpts(v, jettison.UnsortedMap())
	sym.Assert("unsorted", err == nil && len(un) == len(want))
	un = append(un[:len(un)-1:len(un)-1], ',')
	for i := 1; i < n; i++ {
		sym.Assert("entry", bytes.Contains(un, []byte(`"k`+strconv.Itoa(i*7)+`":`+strconv.Itoa(i)+`,`)))
	}
}

type (
	keyNum  json.Number
	keyRaw  string
	keyJSON int
	keyAll  struct{ N int }
	keyDur  time.Duration
	keyTime struct{ time.Time }
	keyApp  uint16
)

func (k keyRaw) MarshalJSON() ([]byte, error)        { return []byte(`"raw"`), nil }
func (k keyRaw) MarshalText() ([]byte, error)        { return []byte("text"), nil }
func (k keyJSON) MarshalJSON() ([]byte, error)       { return []byte("7"), nil }
func (k keyAll) MarshalJSON() ([]byte, error)        { return []byte(`"json"`), nil }
func (k keyAll) MarshalText() ([]byte, error)        { return []byte("t" + strconv.Itoa(k.N)), nil }
func (k keyAll) AppendJSON(b []byte) ([]byte, error) { return append(b, `"app"`...), nil }
func (k keyApp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"app"`...), nil }

var _ encoding.TextMarshaler = keyTime{}

// Q_C07_keyopts: no option but those of strings changes a key: keys of 14 types (times, durations, numbers, with all sorts of
// methods), in a map and in a sync.Map, with each of 17 options alone, all of them, and none.
func Q_C07_keyopts() {
	opts := []jettison.Option{jettison.UnixTime(), jettison.UnsortedMap(), jettison.RawByteSlice(), jettison.ByteArrayAsString(), jettison.NilMapEmpty(), jettison.NilSliceEmpty(),
		jettison.NoHTMLEscaping(), jettison.NoUTF8Coercion(), jettison.NoCompact(), jettison.NoNumberValidation(), jettison.TimeLayout(time.RFC3339), jettison.TimeLayout("2006"),
		jettison.DurationFormat(jettison.DurationString), jettison.DurationFormat(jettison.DurationSeconds), jettison.AllowList([]string{"x"}), jettison.DenyList([]string{"t", "k", "1"}),
		jettison.NoStringEscaping()}
	switch i := sym.Choose("option", len(opts)+2); i {
	case len(opts):
	case len(opts) + 1:
		opts = nil
	default:
		opts = opts[i : i+1]
	}
	x := sym.U8("x")
	tm := time.Unix(int64(1e9), 5e6).UTC()
	switch sym.Choose("keys", 14) {
	case 0:
		keyOpts(time.Duration(x)*time.Second, opts)
	case 1:
		keyOpts(tm, opts)
	case 2:
		keyOpts(tm.In(time.FixedZone("z", 3600)), opts)
	case 3:
		keyOpts(json.Number("x"), opts)
	case 4:
		keyOpts(keyNum("k"), opts)
	case 5:
		keyOpts(keyRaw("k"), opts)
	case 6:
		keyOpts(keyJSON(x), opts)
	case 7:
		keyOpts(keyAll{int(x)}, opts)
	case 8:
		keyOpts(keyDur(x), opts)
	case 9:
		keyOpts(keyTime{tm}, opts)
	case 10:
		keyOpts(keyApp(x), opts)
	case 11:
		keyOpts(&tm, opts)
	case 12:
		keyOpts(encoding.TextMarshaler(tm), opts)
	case 13:
		keyOpts(encoding.TextMarshaler(&keyAll{2}), opts)
	}
	sym.Reach("end")
}

func keyOpts[K comparable](k K, opts []jettison.Option) {
	m := map[K]int{k: 1}
	want, werr := json.Marshal(m)
	sym.Assert("encoding/json takes it", werr == nil)
	is("map", string(want), m, opts...)
	is("map in a list", "["+string(want)+"]", []interface{}{m}, opts...)
	is("sync", string(want), toSync(m), opts...)
}

// entries checks that got is an object of the given entries in one of all possible orders.
func entries(id string, got []byte, want []string) {
	ok := false
	var try func(n int, s string, rest []string)
	try = func(n int, s string, rest []string) {
		if len(rest) == 0 {
			ok = ok || string(got) == s+"}"
			return
		}
		if n > 0 {
			s += ","
		}
		for i, e := range rest {
			try(n+1, s+e, append(append([]string(nil), rest[:i]...), rest[i+1:]...))
		}
	}
	try(0, "{", want)
	sym.Assert(id, ok)
}

// Q_C07_alike: keys that are different but have the same text, with equal or different values: every entry is there; sorted or
// not, in maps and sync.Map.
func Q_C07_alike() {
	x, y := letter("x"), letter("y")
	k := symKey("k", 1)
	q := spec(k) + ":"
	m := map[textIntKey]string{{1, k}: x, {2, k}: y, {3, k}: x}
	want := []string{q + spec(x), q + spec(y), q + spec(x)}
	var o []jettison.Option
	if sym.Choose("unsorted", 2) == 1 {
		o = append(o, jettison.UnsortedMap())
	}
	var v interface{} = m
	switch sym.Choose("kind", 4) {
	case 1:
		v = toSync(m)
	case 2:
		sm := &sync.Map{}
		sm.Store(1, x)
		sm.Store("1", y)
		sm.Store(uint8(1), x)
		v, want = sm, []string{`"1":` + spec(x), `"1":` + spec(y), `"1":` + spec(x)}
	case 3:
		v, want = map[*textPtrKey]string{{""}: x, nil: y, {k}: x}, []string{`"":` + spec(x), `"":` + spec(y), q + spec(x)}
	}
	got, err := jettison.MarshalOpts(v, o...)
	sym.Assert("no error", err == nil)
	entries("every entry", got, want)
}

// intKey compares a map and a sync.Map with one key of type K, one of 5 extreme values or a symbolic byte.
func intKey[K int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | nInt32 | nUint64 | time.Month](min, max K) {
	var k K
	switch sym.Choose("key", 6) {
	case 0:
		k = min
	case 1:
		k = max
	case 2:
		k = max - 1
	case 3:
		k = max/2 + 1
	case 4:
		k = min + 1
	case 5:
		k = K(sym.U8("x"))
	}
	m := map[K]string{k: "v"}
	checkMap(m, true)
	want, werr := json.Marshal(m)
	got, err := jettison.Marshal(toSync(m))
	agree("sync.Map", want, werr, got, err)
	got, err = jettison.MarshalOpts([]interface{}{toSync(m), m}, jettison.UnsortedMap())
	w := append(append(append([]byte("["), want...), ','), want...)
	agree("unsorted", append(w, ']'), werr, got, err)
}

// Q_C07_intkinds: the extreme values and all 8-bit ones of keys of the 11 integer types and 3 named ones, in maps and sync.Maps.
func Q_C07_intkinds() {
	switch sym.Choose("type", 14) {
	case 0:
		intKey[int](math.MinInt64, math.MaxInt64)
	case 1:
		intKey[int8](math.MinInt8, math.MaxInt8)
	case 2:
		intKey[int16](math.MinInt16, math.MaxInt16)
	case 3:
		intKey[int32](math.MinInt32, math.MaxInt32)
	case 4:
		intKey[int64](math.MinInt64, math.MaxInt64)
	case 5:
		intKey[uint](0, math.MaxUint64)
	case 6:
		intKey[uint8](0, math.MaxUint8)
	case 7:
		intKey[uint16](0, math.MaxUint16)
	case 8:
		intKey[uint32](0, math.MaxUint32)
	case 9:
		intKey[uint64](0, math.MaxUint64)
	case 10:
		intKey[uintptr](0, math.MaxUint64)
	case 11:
		intKey[nInt32](math.MinInt32, math.MaxInt32)
	case 12:
		intKey[nUint64](0, math.MaxUint64)
	case 13:
		intKey[time.Month](1, 12)
	}
	sym.Reach("end")
}
