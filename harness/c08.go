package main

import (
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type ctxKey struct{}

var (
	errSay     = errors.New("marshaler failed")
	failing    bool
	calls      int
	concurrent bool // several goroutines: do not count
	seenPtr    unsafe.Pointer
)

func dig(n int) string {
	if n < 0 || n > 9 {
		return "?"
	}
	return string(rune('0' + n))
}

func bol(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func ctxText(c context.Context) string {
	if c == nil {
		return "nil!"
	}
	if s, ok := c.Value(ctxKey{}).(string); ok {
		return "X" + s
	}
	return "D"
}

func sayApp(b []byte, s string) []byte {
	b = append(b, '"')
	b = append(b, s...)
	return append(b, '"')
}

func sayErr() error {
	if !concurrent {
		calls++
	}
	if failing {
		return errSay
	}
	return nil
}

func first(l []int) int {
	if len(l) == 0 {
		return -1
	}
	return l[0]
}

func deref(p *int) int {
	if p == nil {
		return -1
	}
	return *p
}

func callF(f func() int) int {
	if f == nil {
		return -1
	}
	return f()
}

// mtype is a type implementing the marshaler interfaces as its code tells: for AppendJSONContext, AppendJSON, MarshalJSON
// and MarshalText in this order, n: no method, v: value receiver, p: pointer receiver.
type mtype struct {
	name, code, kind string
	mk               func(s string, n int) *mcase
	zero             func() *mcase // of the zero value
}

type mcase struct {
	recv, def string
	defOK     bool
	typ       reflect.Type
	pos       func(i int) mpos
	null      func(i int) mpos
}

// mpos is a value holding x somewhere: the encoded x stands between pre and post.
type mpos struct {
	v         interface{}
	pre, post string
	addr      bool
	ptr       unsafe.Pointer
	quoted    bool
	none      bool // x is not in it
}

type (
	mField[T any] struct{ F T }
	mMid[T any]   struct {
		B int
		F T
		G int
	}
	mQuoted[T any] struct {
		F T `json:",string"`
	}
	mEmb[T any] struct {
		mField[T]
		Z int
	}
	mEmbPtr[T any] struct {
		*mField[T]
		Z int
	}
	mEmbVV[T any] struct {
		mEmb[T]
		Y int
	}
	mEmbPV[T any] struct {
		*mEmb[T]
		Y int
	}
	mEmbVP[T any] struct {
		Y int
		mEmbPtr[T]
	}
	mEmbPP[T any] struct {
		*mEmbPtr[T]
		Y int
	}
	mEmbPVV[T any] struct {
		*mEmbVV[T]
		X int
	}
	mEmbVPV[T any] struct {
		X int
		mEmbPV[T]
	}
)

const mPositions, mChains = 32, 10

func newCase[T any](x T, code, recv, def string, defOK bool) *mcase {
	c := &mcase{recv: recv, def: def, defOK: defOK, typ: typeOf[T]()}
	c.pos = func(i int) mpos {
		p := &x
		at := unsafe.Pointer(p)
		switch i {
		case 0:
			return mpos{v: x}
		case 1:
			return mpos{v: p, addr: true, ptr: at}
		case 2:
			return mpos{v: &p, addr: true, ptr: at}
		case 3:
			s := []T{x}
			return mpos{v: s, pre: `[`, post: `]`, addr: true, ptr: unsafe.Pointer(&s[0])}
		case 4:
			return mpos{v: [1]T{x}, pre: `[`, post: `]`}
		case 5:
			a := &[1]T{x}
			return mpos{v: a, pre: `[`, post: `]`, addr: true, ptr: unsafe.Pointer(a)}
		case 6:
			return mpos{v: map[string]T{"k": x}, pre: `{"k":`, post: `}`}
		case 7:
			return mpos{v: map[string]*T{"k": p}, pre: `{"k":`, post: `}`, addr: true, ptr: at}
		case 8:
			return mpos{v: mField[T]{x}, pre: `{"F":`, post: `}`}
		case 9:
			s := &mField[T]{x}
			return mpos{v: s, pre: `{"F":`, post: `}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 10:
			return mpos{v: mField[*T]{p}, pre: `{"F":`, post: `}`, addr: true, ptr: at}
		case 11:
			return mpos{v: mMid[T]{1, x, 2}, pre: `{"B":1,"F":`, post: `,"G":2}`}
		case 12:
			s := &mMid[T]{1, x, 2}
			return mpos{v: s, pre: `{"B":1,"F":`, post: `,"G":2}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 13:
			return mpos{v: mEmb[T]{mField[T]{x}, 3}, pre: `{"F":`, post: `,"Z":3}`}
		case 14:
			s := &mEmb[T]{mField[T]{x}, 3}
			return mpos{v: s, pre: `{"F":`, post: `,"Z":3}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 15:
			f := &mField[T]{x}
			return mpos{v: mEmbPtr[T]{f, 3}, pre: `{"F":`, post: `,"Z":3}`, addr: true, ptr: unsafe.Pointer(&f.F)}
		case 16:
			return mpos{v: []interface{}{x}, pre: `[`, post: `]`}
		case 17:
			return mpos{v: []interface{}{p}, pre: `[`, post: `]`, addr: true, ptr: at}
		case 18:
			return mpos{v: &mField[interface{}]{x}, pre: `{"F":`, post: `}`}
		case 19:
			return mpos{v: mQuoted[T]{x}, pre: `{"F":`, post: `}`, quoted: true}
		case 20:
			return mpos{v: &mQuoted[*T]{p}, pre: `{"F":`, post: `}`, addr: true, ptr: at, quoted: true}
		case 21:
			s := []T{x, x}
			return mpos{v: map[string][]T{"k": s[:1]}, pre: `{"k":[`, post: `]}`, addr: true, ptr: unsafe.Pointer(&s[0])}
		case 22:
			return mpos{v: []map[string]T{{"k": x}}, pre: `[{"k":`, post: `}]`}
		case 23:
			s := [][1]T{{x}}
			return mpos{v: s, pre: `[[`, post: `]]`, addr: true, ptr: unsafe.Pointer(&s[0])}
		case 24:
			return mpos{v: mField[[1]T]{[1]T{x}}, pre: `{"F":[`, post: `]}`}
		case 25:
			s := []T{x}
			return mpos{v: mField[[]T]{s}, pre: `{"F":[`, post: `]}`, addr: true, ptr: unsafe.Pointer(&s[0])}
		case 26:
			var i interface{} = x
			return mpos{v: &i}
		case 27:
			m := &sync.Map{}
			m.Store("k", x)
			return mpos{v: m, pre: `{"k":`, post: `}`}
		case 28:
			return mpos{v: map[string]mField[T]{"k": {x}}, pre: `{"k":{"F":`, post: `}}`}
		case 29:
			s := []mField[T]{{x}}
			return mpos{v: s, pre: `[{"F":`, post: `}]`, addr: true, ptr: unsafe.Pointer(&s[0])}
		case 30:
			return mpos{v: mField[**T]{&p}, pre: `{"F":`, post: `}`, addr: true, ptr: at}
		case 32:
			return mpos{v: mEmbVV[T]{mEmb[T]{mField[T]{x}, 3}, 4}, pre: `{"F":`, post: `,"Z":3,"Y":4}`}
		case 33:
			s := &mEmbVV[T]{mEmb[T]{mField[T]{x}, 3}, 4}
			return mpos{v: s, pre: `{"F":`, post: `,"Z":3,"Y":4}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 34:
			s := &mEmb[T]{mField[T]{x}, 3}
			return mpos{v: mEmbPV[T]{s, 4}, pre: `{"F":`, post: `,"Z":3,"Y":4}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 35:
			f := &mField[T]{x}
			return mpos{v: mEmbVP[T]{4, mEmbPtr[T]{f, 3}}, pre: `{"Y":4,"F":`, post: `,"Z":3}`, addr: true, ptr: unsafe.Pointer(&f.F)}
		case 36:
			f := &mField[T]{x}
			return mpos{v: mEmbPP[T]{&mEmbPtr[T]{f, 3}, 4}, pre: `{"F":`, post: `,"Z":3,"Y":4}`, addr: true, ptr: unsafe.Pointer(&f.F)}
		case 37:
			s := &mEmbVV[T]{mEmb[T]{mField[T]{x}, 3}, 4}
			return mpos{v: mEmbPVV[T]{s, 5}, pre: `{"F":`, post: `,"Z":3,"Y":4,"X":5}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 38:
			s := &mEmb[T]{mField[T]{x}, 3}
			return mpos{v: mEmbVPV[T]{5, mEmbPV[T]{s, 4}}, pre: `{"X":5,"F":`, post: `,"Z":3,"Y":4}`, addr: true, ptr: unsafe.Pointer(&s.F)}
		case 39:
			return mpos{v: mEmbPP[T]{&mEmbPtr[T]{nil, 3}, 4}, pre: `{"Z":3,"Y":4}`, none: true}
		case 40:
			m := mField[map[string]mEmbPV[T]]{map[string]mEmbPV[T]{"k": {&mEmb[T]{mField[T]{x}, 3}, 4}}}
			return mpos{v: m, pre: `{"F":{"k":{"F":`, post: `,"Z":3,"Y":4}}}`, addr: true, ptr: unsafe.Pointer(&m.F["k"].F)}
		case 41:
			return mpos{v: mField[mEmbVV[T]]{mEmbVV[T]{mEmb[T]{mField[T]{x}, 3}, 4}}, pre: `{"F":{"F":`, post: `,"Z":3,"Y":4}}`}
		default:
			return mpos{v: []mEmbPtr[T]{{nil, 1}, {&mField[T]{x}, 3}}, pre: `[{"Z":1},{"F":`, post: `,"Z":3}]`, addr: true}
		}
	}
	c.null = func(i int) mpos {
		var p *T
		switch i {
		case 0:
			return mpos{v: p}
		case 1:
			return mpos{v: &p}
		case 2:
			return mpos{v: mField[*T]{}, pre: `{"F":`, post: `}`}
		case 3:
			return mpos{v: []*T{p}, pre: `[`, post: `]`}
		case 4:
			return mpos{v: map[string]*T{"k": nil}, pre: `{"k":`, post: `}`}
		case 5:
			return mpos{v: []interface{}{p}, pre: `[`, post: `]`}
		case 6:
			return mpos{v: [1]*T{}, pre: `[`, post: `]`}
		default:
			return mpos{v: &mMid[*T]{}, pre: `{"B":0,"F":`, post: `,"G":0}`}
		}
	}
	return c
}

// expect is the encoding of x: text, the receiver is a pointer, failure.
func (t *mtype) expect(c *mcase, p mpos, ctx string) (text string, viaPtr, ok bool) {
	for i, m := range t.code {
		if m == 'v' || m == 'p' && p.addr {
			text = []string{`"` + ctx, `"A`, `"J`, `"T`}[i] + c.recv + `"`
			return text, m == 'p', true
		}
	}
	text = c.def
	if p.quoted {
		switch t.kind {
		case "I", "B":
			text = `"` + text + `"`
		case "Str":
			text = `"\` + text[:len(text)-1] + `\""`
		}
	}
	return text, false, c.defOK
}

func (t *mtype) check(i int) {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	t.checkPos(t.mk(s, n), i)
}

func (t *mtype) checkPos(c *mcase, i int) {
	p := c.pos(i)
	failing, calls, seenPtr = false, 0, nil
	var o []jettison.Option
	ctx := "D"
	if t.code[0] != 'n' && sym.Choose("context", 2) == 1 {
		ctx = "Xq"
		o = append(o, jettison.WithContext(context.WithValue(context.Background(), ctxKey{}, "q")))
	}
	text, viaPtr, ok := t.expect(c, p, ctx)
	if p.none {
		text, viaPtr, ok = "", false, true
	}
	if !ok {
		fails(t.name, p.v, o...)
		return
	}
	is(t.name, p.pre+text+p.post, p.v, o...)
	if viaPtr {
		sym.Assert("called once", calls == 1)
		if p.ptr != nil {
			sym.Assert("the receiver is the address of the value", seenPtr == p.ptr)
		}
	}
	sym.Reach("end")
}

func c08Types(structs bool) []*mtype {
	var ts []*mtype
	for i := range marshalTypes {
		if (marshalTypes[i].kind == "S") == structs {
			ts = append(ts, &marshalTypes[i])
		}
	}
	return ts
}

// Q_C08_struct: struct types implementing every combination of the four interfaces by value or pointer receiver (80), in
// 32 positions: method chosen, receiver content and address, context (default or given), symbolic content.
func Q_C08_struct() {
	ts := c08Types(true)
	t := ts[sym.Choose("type", len(ts))]
	t.check(sym.Choose("position", mPositions))
}

// Q_C08_kinds: the same for types of 11 other kinds (int, string, bool, map, slice, pointer-shaped struct and array,
// func, chan, empty struct, array) implementing 12 combinations of the interfaces.
func Q_C08_kinds() {
	ts := c08Types(false)
	t := ts[sym.Choose("type", len(ts))]
	t.check(sym.Choose("position", mPositions))
}

// Q_C08_chains: the struct types in 10 positions reached through two and three levels of embedding, by value and by
// pointer (nil at the end, too), from values and pointers.
func Q_C08_chains() {
	ts := c08Types(true)
	t := ts[sym.Choose("type", len(ts))]
	t.check(mPositions + sym.Choose("position", mChains))
}

// Q_C08_zero: the zero values of the same types (nil maps, slices, functions and channels, structs and arrays holding a
// nil pointer) in the 32 positions: a method with a value receiver is called on them.
func Q_C08_zero() {
	ts := c08Types(false)
	t := ts[sym.Choose("type", len(ts))]
	t.checkPos(t.zero(), sym.Choose("position", mPositions))
}

// Q_C08_nil: nil pointers to the types give null without a call, in 8 positions.
func Q_C08_nil() {
	t := &marshalTypes[sym.Choose("type", len(marshalTypes))]
	p := t.mk("s", 1).null(sym.Choose("position", 8))
	calls = 0
	is(t.name, p.pre+"null"+p.post, p.v)
	sym.Assert("no call", calls == 0)
}

// Q_C08_errors: an error of the method is returned, found by errors.Is, whatever the position; nothing is output.
func Q_C08_errors() {
	t := &marshalTypes[sym.Choose("type", len(marshalTypes))]
	c := t.mk("s", 1)
	var ps []int
	if sym.Thorough() {
		for i := 0; i < mPositions; i++ {
			ps = append(ps, i)
		}
	} else {
		ps = []int{0, 1, 3, 6, 9, 13, 15, 17, 27}
	}
	p := c.pos(ps[sym.Choose("position", len(ps))])
	failing, calls = true, 0
	var o []jettison.Option
	if k := sym.Choose("options", 3); k > 0 {
		o = append(o, []jettison.Option{jettison.UnsortedMap(), jettison.NoCompact()}[k-1])
	}
	got, err := jettison.MarshalOpts(p.v, o...)
	called := false
	for _, m := range t.code {
		called = called || m == 'v' || m == 'p' && p.addr
	}
	if called {
		sym.Assert("the error is returned", errors.Is(err, errSay))
		var me *jettison.MarshalerError
		sym.Assert("the error is a MarshalerError", errors.As(err, &me) && me.Err == errSay && me.Type != nil)
		sym.Assert("no output", len(got) == 0)
	} else {
		sym.Assert("not called", calls == 0 && (err == nil) == c.defOK)
	}
	dst := []byte("head")
	dst, err = jettison.AppendOpts(dst, p.v, o...)
	sym.Assert("Append keeps the destination", len(dst) >= 4 && string(dst[:4]) == "head" && (err != nil) == (called || !c.defOK))
	failing = false
}

// interface types
type jsonAndTalk interface {
	json.Marshaler
	Talk() string
}
type talkJSON struct{ S string }

func (t talkJSON) MarshalJSON() ([]byte, error) { return []byte(`"TJ` + t.S + `"`), sayErr() }
func (talkJSON) Talk() string                   { return "" }

type ifaces struct {
	J json.Marshaler
	T encoding.TextMarshaler
	A jettison.AppendMarshaler
	C jettison.AppendMarshalerCtx
	K jsonAndTalk
	Z *json.Marshaler
}

// Q_C08_iface: fields, elements and map values of marshaler interface types, holding values, pointers, pointer-shaped
// values or nil.
func Q_C08_iface() {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	failing = false
	var v ifaces
	j, t, a, c, k, z := "null", "null", "null", "null", "null", "null"
	switch sym.Choose("json", 6) {
	case 1:
		v.J, j = mS_nnvn{s, 1}, `"J`+s+`"`
	case 2:
		v.J, j = &mS_nnpn{s, 1}, `"J`+s+`"`
	case 3:
		v.J, j = mP_nnvn{&n}, `"J`+dig(n)+`"`
	case 4:
		v.J, j = mM_nnvn{"k": n}, `"J`+dig(n)+`"`
	case 5:
		v.J, j = mI_nnvn(n), `"J`+dig(n)+`"`
	}
	switch sym.Choose("text", 4) {
	case 1:
		v.T, t = mS_nnnv{s, 1}, `"T`+s+`"`
	case 2:
		v.T, t = &mS_nnnp{s, 1}, `"T`+s+`"`
	case 3:
		v.T, t = mA_nnnv{&n}, `"T`+dig(n)+`"`
	}
	switch sym.Choose("append", 3) {
	case 1:
		v.A, a = mP_nvnn{&n}, `"A`+dig(n)+`"`
		v.C, c = mStr_vnnn(s), `"D`+s+`"`
	case 2:
		v.A, a = &mS_npnn{s, 2}, `"A`+s+`"`
		v.C, c = &mM_pnnn{"k": n}, `"D`+dig(n)+`"`
	}
	if sym.Choose("talk", 2) == 1 {
		v.K, k = talkJSON{s}, `"TJ`+s+`"`
		v.Z, z = &v.J, j
	}
	want := `{"J":` + j + `,"T":` + t + `,"A":` + a + `,"C":` + c + `,"K":` + k + `,"Z":` + z + `}`
	if sym.Choose("pointer", 2) == 1 {
		is("interfaces", want, &v)
	} else {
		is("interfaces", want, v)
	}
}

// Q_C08_ifaceElems: slices, arrays, maps and pointers of marshaler interface types.
func Q_C08_ifaceElems() {
	s := letter("s")
	failing = false
	var j json.Marshaler
	w := "null"
	switch sym.Choose("json", 4) {
	case 1:
		j, w = mS_nnvn{s, 1}, `"J`+s+`"`
	case 2:
		j, w = &mS_nnpn{s, 1}, `"J`+s+`"`
	case 3:
		x := 4
		j, w = mA_nnvn{&x}, `"J4"`
	}
	switch sym.Choose("position", 8) {
	case 0:
		is("slice", `[`+w+`,null]`, []json.Marshaler{j, nil})
	case 1:
		is("array", `[`+w+`]`, [1]json.Marshaler{j})
	case 2:
		is("array pointer", `[null,`+w+`]`, &[2]json.Marshaler{nil, j})
	case 3:
		is("map", `{"k":`+w+`}`, map[string]json.Marshaler{"k": j})
	case 4:
		is("pointer", w, &j)
	case 5:
		p := &j
		is("pointer to pointer", w, &p)
	case 6:
		sym.Assume(j != nil)
		is("embedded", w, struct{ json.Marshaler }{j})
	case 7:
		sym.Assume(j != nil)
		is("embedded with others", w, &struct {
			json.Marshaler
			X int
		}{j, 1})
	}
}

// embedding promotes the methods
type (
	embV  struct{ mS_nnvn }
	embVX struct {
		mS_nnvn
		X int
	}
	embPV struct {
		X int
		*mS_nnvn
	}
	embP  struct{ mS_nnpn }
	embPP struct{ *mS_nnpn }
	embTx struct {
		A string
		mStr_nnnv
	}
	embTwo struct {
		mS_nnvn
		mI_nnvn
	}
	embTime2 struct {
		time.Time
		X int
	}
	embDur struct {
		time.Duration
	}
	embNum struct {
		json.Number
	}
	embRaw struct {
		json.RawMessage
	}
	embRawP struct {
		*json.RawMessage
		X int
	}
	shadow struct {
		mS_nnvn
		MarshalJSON int
	}
)

// Q_C08_embed: structs embedding marshalers (promoted methods, ambiguous or shadowed ones, time.Time, Duration, Number,
// RawMessage), by value and behind pointers, exactly as encoding/json.
func Q_C08_embed() {
	s := letter("s")
	failing = false
	raw := json.RawMessage(`[1, "` + s + `"]`)
	switch sym.Choose("value", 19) {
	case 0:
		embedded(embV{mS_nnvn{s, 1}})
	case 1:
		embedded(&embV{mS_nnvn{s, 1}})
	case 2:
		embedded(embVX{mS_nnvn{s, 1}, 2})
	case 3:
		embedded(embPV{1, &mS_nnvn{s, 1}})
	case 4:
		embedded(&embPV{1, &mS_nnvn{s, 1}})
	case 5:
		embedded(embP{mS_nnpn{s, 1}})
	case 6:
		embedded(&embP{mS_nnpn{s, 1}})
	case 7:
		embedded(embPP{&mS_nnpn{s, 1}})
	case 8:
		embedded(embTx{"a", mStr_nnnv(s)})
	case 9:
		embedded(&embTx{"a", mStr_nnnv(s)})
	case 10:
		embedded(embTwo{mS_nnvn{s, 1}, 3})
	case 11:
		embedded(embTime2{time.Unix(1e9, 5).UTC(), 1})
	case 12:
		embedded(&embTime2{time.Unix(1e9, 5).UTC(), 1})
	case 13:
		embedded(embDur{time.Second})
	case 14:
		embedded(embNum{"12"})
	case 15:
		embedded(embRaw{raw})
	case 16:
		embedded(&embRaw{raw})
	case 17:
		embedded(embRawP{&raw, 1})
	case 18:
		embedded(shadow{mS_nnvn{s, 1}, 5})
	}
}

func embedded[T any](v T) {
	same("direct", v)
	same("pointer", &v)
	same("interfaces", []interface{}{v, struct{ F interface{} }{v}})
	same("slice", []T{v})
	same("array", [1]T{v})
	same("map", map[string]T{"k": v})
	same("field", struct{ F T }{v})
}

// Q_C08_context: a nil context is refused, the given context reaches every AppendJSONContext, also after options.
func Q_C08_context() {
	s := letter("s")
	failing = false
	ctx := context.WithValue(context.Background(), ctxKey{}, s)
	v := map[string]interface{}{"a": mS_vnnn{"u", 1}, "b": []mS_pnnn{{"w", 2}}, "c": struct{ F mI_vnnn }{3}}
	want := func(c string) string { return `{"a":"` + c + `u","b":["` + c + `w"],"c":{"F":"` + c + `3"}}` }
	is("given", want("X"+s), v, jettison.WithContext(ctx))
	is("default", want("D"), v)
	is("default after given", want("D"), v, jettison.NoCompact())
	is("last given", want("D"), v, jettison.WithContext(ctx), jettison.WithContext(context.Background()))
	b, err := jettison.Append(nil, v)
	sym.Assert("Append", err == nil && string(b) == want("D"))
	fails("nil context", v, jettison.WithContext(nil))
}

// keys with a MarshalText method
type (
	keyT1 struct{ p *string } // one pointer wide
	keyT2 struct {
		p *string
		n int
	}
	keyTA [1]*string
	keyTM struct { // the method is promoted
		keyT1
	}
	keyTB   bool
	keyTC   chan int
	keyTF   float64
	keyBoth string
)

func textOfKey(p *string, pre string) ([]byte, error) {
	if p == nil {
		return []byte(pre + "-"), sayErr()
	}
	return []byte(pre + *p), sayErr()
}

func (k keyT1) MarshalText() ([]byte, error)   { return textOfKey(k.p, "t1") }
func (k keyT2) MarshalText() ([]byte, error)   { return textOfKey(k.p, "t2"+dig(k.n)) }
func (k keyTA) MarshalText() ([]byte, error)   { return textOfKey(k[0], "ta") }
func (k keyTB) MarshalText() ([]byte, error)   { return textOfKey(nil, "tb"+bol(bool(k))) }
func (k keyTC) MarshalText() ([]byte, error)   { return textOfKey(nil, "tc"+bol(k == nil)) }
func (k keyTF) MarshalText() ([]byte, error)   { return textOfKey(nil, "tf"+bol(k == 0)) }
func (k keyBoth) MarshalText() ([]byte, error) { return textOfKey(nil, "never") }
func (k keyBoth) MarshalJSON() ([]byte, error) { return []byte(`1`), sayErr() }

// keyed compares the map {k: 1} with encoding/json, sorted and not, the methods failing or not.
func keyed[K comparable](k K) {
	m := map[K]int8{k: 1}
	var v interface{} = m
	switch sym.Choose("in", 4) {
	case 1:
		v = &m
	case 2:
		v = struct {
			F map[K]int8 `json:"f,omitempty"`
		}{m}
	case 3:
		v = []interface{}{nil, m}
	}
	failing = sym.Choose("failing", 2) == 1
	calls = 0
	want, werr := json.Marshal(v)
	wcalls := calls
	calls = 0
	got, err := jettison.Marshal(v)
	agree("key", want, werr, got, err)
	sym.Assert("calls", calls == wcalls)
	got, err = jettison.MarshalOpts(v, jettison.UnsortedMap())
	agree("unsorted", want, werr, got, err)
	if failing && werr != nil && wcalls > 0 {
		_, err := jettison.Marshal(v)
		var me *jettison.MarshalerError
		sym.Assert("the error is returned", errors.Is(err, errSay))
		sym.Assert("the error is a MarshalerError", errors.As(err, &me) && errors.Unwrap(me) == errSay && me.Type != nil)
	}
	failing = false
}

// Q_C08_keys: the MarshalText method of map keys is called with the key, and only when encoding/json calls it: 19 keys
//
//	(pointer-shaped and wide structs, arrays, booleans, channels, floats, strings, interfaces, pointers, nil ones).
func Q_C08_keys() {
	s := letter("s")
	switch sym.Choose("key", 19) {
	case 0:
		keyed(keyT1{&s})
	case 1:
		keyed(keyT1{})
	case 2:
		keyed(keyT2{&s, 3})
	case 3:
		keyed(keyTA{&s})
	case 4:
		keyed(keyTA{})
	case 5:
		keyed(keyTM{keyT1{&s}})
	case 6:
		keyed(keyTM{})
	case 7:
		keyed(keyTB(true))
	case 8:
		keyed(keyTC(nil))
	case 9:
		keyed(make(keyTC))
	case 10:
		keyed(keyTF(0))
	case 11:
		keyed(keyBoth(s))
	case 12:
		keyed(&keyT1{&s})
	case 13:
		keyed((*keyT2)(nil))
	case 14:
		keyed(encoding.TextMarshaler(keyTA{}))
	case 15:
		keyed(encoding.TextMarshaler(keyT2{&s, 4}))
	case 16:
		keyed(encoding.TextMarshaler(keyTC(nil)))
	case 17:
		keyed(encoding.TextMarshaler(&keyTM{}))
	case 18:
		k := keyTC(nil)
		keyed(&k)
	}
	sym.Reach("end")
}

// Q_C08_keyTypes: maps whose keys are values of, or pointers to, the types of every combination of the interfaces, as
// encoding/json: the text of the key, or an unsupported type.
func Q_C08_keyTypes() {
	t := &marshalTypes[sym.Choose("type", len(marshalTypes))]
	c := t.mk("s", 1)
	v := reflect.ValueOf(c.pos(0).v)
	if sym.Choose("pointer", 2) == 1 {
		p := reflect.New(c.typ)
		p.Elem().Set(v)
		v = p
	}
	sym.Assume(v.Type().Comparable())
	m := reflect.MakeMap(reflect.MapOf(v.Type(), typeOf[int8]()))
	m.SetMapIndex(v, reflect.ValueOf(int8(5)))
	failing = false
	same("map", m.Interface())
	sym.Reach("end")
}

// methods that return what they are given
type (
	resText struct{ b *[]byte }
	resPtrT struct{ b []byte }
	resJSON struct{ b *[]byte }
	resPtrJ struct{ b []byte }
)

func (r resText) MarshalText() ([]byte, error)  { return *r.b, nil }
func (r *resPtrT) MarshalText() ([]byte, error) { return r.b, nil }
func (r resJSON) MarshalJSON() ([]byte, error)  { return *r.b, nil }
func (r *resPtrJ) MarshalJSON() ([]byte, error) { return r.b, nil }

func resultIn[T any](v T, key interface{}) {
	switch sym.Choose("in", 9) {
	case 0:
		same("value", v)
	case 1:
		same("pointer", &v)
	case 2:
		same("slice", []T{v, v})
	case 3:
		same("map", map[string]T{"k": v})
	case 4:
		same("field", &struct {
			A T
			B T  `json:"b,omitempty"`
			C *T `json:",string"`
		}{v, v, &v})
	case 5:
		same("field of a value", struct {
			F T `json:",string"`
			X int
		}{v, 1})
	case 6:
		same("interface", []interface{}{v, &v, 1})
	case 7:
		same("array", [2]T{v, v})
	case 8:
		sym.Assume(key != nil)
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(key), typeOf[int8]()))
		m.SetMapIndex(reflect.ValueOf(key), reflect.ValueOf(int8(1)))
		same("key", m.Interface())
	}
	sym.Reach("end")
}

// Q_C08_results: MarshalText and MarshalJSON methods returning nil, nothing, or up to 2 symbolic bytes, in 9 positions, keys
// among them, as encoding/json.
func Q_C08_results() {
	var b []byte
	if n := sym.Choose("result", 4); n > 0 {
		b = sym.Bytes("b", n-1)
		for _, c := range b {
			sym.Assume(c != '\b' && c != '\f') // spelled differently
		}
	}
	switch sym.Choose("method", 4) {
	case 0:
		resultIn(resText{&b}, resText{&b})
	case 1:
		resultIn(resPtrT{b}, &resPtrT{b})
	case 2:
		resultIn(resJSON{&b}, nil)
	case 3:
		resultIn(resPtrJ{b}, nil)
	}
}

// interface types with each combination of the methods
type (
	ifC interface {
		jettison.AppendMarshalerCtx
	}
	ifA interface {
		jettison.AppendMarshaler
	}
	ifCA interface {
		jettison.AppendMarshalerCtx
		jettison.AppendMarshaler
	}
	ifJ interface {
		json.Marshaler
	}
	ifCJ interface {
		jettison.AppendMarshalerCtx
		json.Marshaler
	}
	ifAJ interface {
		jettison.AppendMarshaler
		json.Marshaler
	}
	ifCAJ interface {
		jettison.AppendMarshalerCtx
		jettison.AppendMarshaler
		json.Marshaler
	}
	ifT interface {
		encoding.TextMarshaler
	}
	ifCT interface {
		jettison.AppendMarshalerCtx
		encoding.TextMarshaler
	}
	ifAT interface {
		jettison.AppendMarshaler
		encoding.TextMarshaler
	}
	ifCAT interface {
		jettison.AppendMarshalerCtx
		jettison.AppendMarshaler
		encoding.TextMarshaler
	}
	ifJT interface {
		json.Marshaler
		encoding.TextMarshaler
	}
	ifCJT interface {
		jettison.AppendMarshalerCtx
		json.Marshaler
		encoding.TextMarshaler
	}
	ifAJT interface {
		jettison.AppendMarshaler
		json.Marshaler
		encoding.TextMarshaler
	}
	ifCAJT interface {
		jettison.AppendMarshalerCtx
		jettison.AppendMarshaler
		json.Marshaler
		encoding.TextMarshaler
	}
)

func ifaceOf[T any](v, p T, want string) {
	var none T
	if sym.Choose("pointer", 2) == 1 {
		v = p
	}
	is("field", `{"F":`+want+`,"G":null}`, struct{ F, G T }{F: v})
	is("slice", `[null,`+want+`]`, []T{none, v})
	is("array", `[`+want+`,null]`, [2]T{v})
	is("map", `{"k":`+want+`}`, map[string]T{"k": v})
	is("pointer", want, &v)
	is("pointers", `[`+want+`,null]`, []*T{&v, &none})
	is("one pointer wide", `{"F":[`+want+`]}`, struct{ F *[1]T }{&[1]T{v}})
}

// Q_C08_ifaceMethods: the 15 interface types with a combination of the four methods, holding a value or pointer that has
// these, in 7 positions, next to nil ones.
func Q_C08_ifaceMethods() {
	s := letter("s")
	failing = false
	switch sym.Choose("methods", 15) {
	case 0:
		ifaceOf[ifC](mS_vnnn{s, 1}, &mS_pnnn{s, 1}, `"D`+s+`"`)
	case 1:
		ifaceOf[ifA](mS_nvnn{s, 1}, &mS_npnn{s, 1}, `"A`+s+`"`)
	case 2:
		ifaceOf[ifCA](mS_vvnn{s, 1}, &mS_ppnn{s, 1}, `"D`+s+`"`)
	case 3:
		ifaceOf[ifJ](mS_nnvn{s, 1}, &mS_nnpn{s, 1}, `"J`+s+`"`)
	case 4:
		ifaceOf[ifCJ](mS_vnvn{s, 1}, &mS_pnpn{s, 1}, `"D`+s+`"`)
	case 5:
		ifaceOf[ifAJ](mS_nvvn{s, 1}, &mS_nppn{s, 1}, `"A`+s+`"`)
	case 6:
		ifaceOf[ifCAJ](mS_vvvn{s, 1}, &mS_pppn{s, 1}, `"D`+s+`"`)
	case 7:
		ifaceOf[ifT](mS_nnnv{s, 1}, &mS_nnnp{s, 1}, `"T`+s+`"`)
	case 8:
		ifaceOf[ifCT](mS_vnnv{s, 1}, &mS_pnnp{s, 1}, `"D`+s+`"`)
	case 9:
		ifaceOf[ifAT](mS_nvnv{s, 1}, &mS_npnp{s, 1}, `"A`+s+`"`)
	case 10:
		ifaceOf[ifCAT](mS_vvnv{s, 1}, &mS_ppnp{s, 1}, `"D`+s+`"`)
	case 11:
		ifaceOf[ifJT](mS_nnvv{s, 1}, &mS_nnpp{s, 1}, `"J`+s+`"`)
	case 12:
		ifaceOf[ifCJT](mS_vnvv{s, 1}, &mS_pnpp{s, 1}, `"D`+s+`"`)
	case 13:
		ifaceOf[ifAJT](mS_nvvv{s, 1}, &mS_nppp{s, 1}, `"A`+s+`"`)
	case 14:
		ifaceOf[ifCAJT](mS_vvvv{s, 1}, &mS_pppp{s, 1}, `"D`+s+`"`)
	}
}

// types of all nilable kinds with methods
type (
	nkAJ []interface{}
	nkAT []interface{}
	nkBJ []byte
	nkBT []byte
	nkCJ []string
	nkCT []string
	nkDJ []*int
	nkDT []*int
	nkEJ [][]int
	nkET [][]int
	nkFJ []struct{ A int }
	nkFT []struct{ A int }
	nkGJ map[string]interface{}
	nkGT map[string]interface{}
	nkHJ map[int]*int
	nkHT map[int]*int
	nkIJ chan int
	nkIT chan int
	nkKJ func()
	nkKT func()
	nkLJ []json.Marshaler
	nkLT []json.Marshaler
	nkMJ [0]*int
	nkMT [0]*int
	nkNJ []struct{}
	nkNT []struct{}
)

func (nkAJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkAT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkBJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkBT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkCJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkCT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkDJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkDT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkEJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkET) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkFJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkFT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkGJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkGT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkHJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkHT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkIJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkIT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkKJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkKT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkLJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkLT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkMJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkMT) MarshalText() ([]byte, error) { return []byte(`x`), nil }
func (nkNJ) MarshalJSON() ([]byte, error) { return []byte(`[1]`), nil }
func (nkNT) MarshalText() ([]byte, error) { return []byte(`x`), nil }

func nilKind[T any]() {
	var v T
	same("direct", v)
	same("pointer", &v)
	same("nil pointer", (*T)(nil))
	same("fields", struct {
		A T
		B *T
		C interface{}
		D T `json:",omitempty"`
		E []T
	}{B: &v, C: v, E: []T{v}})
	same("list", []T{v, v})
	same("array", [2]T{})
	same("map", map[string]T{"k": v})
	same("interfaces", []interface{}{v, &v, [1]T{}, struct{ X T }{}})
}

// Q_C08_nilKinds: zero values of 13 kinds of types (slices of all sorts, maps, channels, functions, empty arrays) that have
// MarshalJSON or MarshalText: called wherever encoding/json calls it.
func Q_C08_nilKinds() {
	switch sym.Choose("type", 26) {
	case 0:
		nilKind[nkAJ]()
	case 1:
		nilKind[nkAT]()
	case 2:
		nilKind[nkBJ]()
	case 3:
		nilKind[nkBT]()
	case 4:
		nilKind[nkCJ]()
	case 5:
		nilKind[nkCT]()
	case 6:
		nilKind[nkDJ]()
	case 7:
		nilKind[nkDT]()
	case 8:
		nilKind[nkEJ]()
	case 9:
		nilKind[nkET]()
	case 10:
		nilKind[nkFJ]()
	case 11:
		nilKind[nkFT]()
	case 12:
		nilKind[nkGJ]()
	case 13:
		nilKind[nkGT]()
	case 14:
		nilKind[nkHJ]()
	case 15:
		nilKind[nkHT]()
	case 16:
		nilKind[nkIJ]()
	case 17:
		nilKind[nkIT]()
	case 18:
		nilKind[nkKJ]()
	case 19:
		nilKind[nkKT]()
	case 20:
		nilKind[nkLJ]()
	case 21:
		nilKind[nkLT]()
	case 22:
		nilKind[nkMJ]()
	case 23:
		nilKind[nkMT]()
	case 24:
		nilKind[nkNJ]()
	case 25:
		nilKind[nkNT]()
	}
}
