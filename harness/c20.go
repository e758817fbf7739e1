package main

import (
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

var (
	jsonIface = typeOf[json.Marshaler]()
	textIface = typeOf[encoding.TextMarshaler]()
)

// sameCause checks that err tells the same cause as werr, the error of encoding/json.
func sameCause(werr, err error) {
	sym.Assert("both fail", (werr == nil) == (err == nil))
	if err == nil || werr == nil {
		return
	}
	sym.Assert("there is a message", err.Error() != "")
	var (
		wt *json.UnsupportedTypeError
		wv *json.UnsupportedValueError
		wm *json.MarshalerError
		t  *jettison.UnsupportedTypeError
		v  *jettison.UnsupportedValueError
		m  *jettison.MarshalerError
	)
	isT, isV, isM := errors.As(err, &t), errors.As(err, &v), errors.As(err, &m)
	if errors.As(werr, &wt) {
		sym.Assert("unsupported type", isT && t.Type == wt.Type && err.Error() == werr.Error())
		return
	}
	if errors.As(werr, &wv) {
		sym.Assert("unsupported value", isV && v.Str == wv.Str && err.Error() == werr.Error())
		return
	}
	sym.Assert("neither unsupported type nor value", !isT && !isV)
	sym.Assert("the method's error", !errors.Is(werr, errSay) || errors.Is(err, errSay))
	if errors.As(werr, &wm) && wm.Type != timeType {
		// Methods with a pointer receiver are those of the pointer type.
		own := wm.Type.Implements(textIface)
		if strings.Contains(werr.Error(), " MarshalJSON ") {
			own = wm.Type.Implements(jsonIface)
		}
		sym.Assert("marshaler error", isM && m.Err != nil && (m.Type == wm.Type || !own && m.Type == reflect.PtrTo(wm.Type)))
		var s *jettison.SyntaxError
		sym.Assert("syntax error", errors.As(err, &s) != errors.Is(err, errSay))
	}
}

// Q_C20_leaf: 21 types of parts that may not be encodable, alone and under each of 13 type constructors: the error names the
// same type or value, or wraps the method's error, as that of encoding/json.
func Q_C20_leaf() {
	t := doubtful[sym.Choose("leaf", len(doubtful))]
	if k := sym.Choose("constructor", nWraps); k < nWraps-1 {
		t = wrap(k, t)
	}
	v := reflect.New(t)
	f := &filler{max: 1, bad: true, short: true}
	f.fill(v.Elem(), 2)
	var x interface{} = v.Interface()
	switch sym.Choose("how", 3) {
	case 0:
		x = v.Elem().Interface()
	case 1:
		x = []interface{}{"a", v.Elem().Interface(), nil}
	}
	_, werr := json.Marshal(x)
	_, err := jettison.Marshal(x)
	sameCause(werr, err)
	sym.Reach("end")
}

// part is the k-th of 9 parts, the first of which can be encoded.
func part(k int) interface{} {
	switch k {
	case 0:
		return "fine"
	case 1:
		return make(chan bool)
	case 2:
		return math.Inf(-1)
	case 3:
		return badText{true}
	case 4:
		return jsonVal{[]byte("[")}
	case 5:
		return float32(math.NaN())
	case 6:
		return map[float64]int{1: 2}
	case 7:
		return json.Number("x")
	default:
		return &badPtr{true}
	}
}

// Q_C20_first: of three parts, each encodable or failing in one of 8 ways, in a struct, slice, array, or nested, the error is
// that of the first that fails.
func Q_C20_first() {
	a, b, c := part(sym.Choose("first", 9)), part(sym.Choose("second", 9)), part(sym.Choose("third", 9))
	var x interface{}
	switch sym.Choose("in", 5) {
	case 0:
		x = []interface{}{a, b, c}
	case 1:
		x = [3]interface{}{a, b, c}
	case 2:
		x = struct{ X, Y, Z interface{} }{a, b, c}
	case 3:
		x = &struct {
			X interface{} `json:"b,omitempty"`
			Y *[]interface{}
			Z map[string]interface{}
		}{a, &[]interface{}{b}, map[string]interface{}{"k": c}}
	case 4:
		x = []interface{}{map[string]interface{}{"k": []interface{}{a}}, &b, []interface{}{struct{ C interface{} }{c}}}
	}
	_, werr := json.Marshal(x)
	_, err := jettison.Marshal(x)
	sameCause(werr, err)
	_, err2 := jettison.Append([]byte("x"), x)
	sameCause(werr, err2)
}

// Q_C20_marshaler: the failing method of each of 212 types in 10 positions is named, along with the type it was called for.
func Q_C20_marshaler() {
	t := &marshalTypes[sym.Choose("type", len(marshalTypes))]
	c := t.mk("s", 1)
	ps := []int{0, 1, 3, 6, 9, 13, 15, 17, 24, 27}
	p := c.pos(ps[sym.Choose("position", len(ps))])
	name := ""
	for i, m := range t.code {
		if m == 'v' || m == 'p' && p.addr {
			name = []string{"AppendJSONContext", "AppendJSON", "MarshalJSON", "MarshalText"}[i]
			break
		}
	}
	sym.Assume(name != "")
	failing = true
	_, err := jettison.Marshal(p.v)
	_, werr := json.Marshal(p.v)
	failing = false
	var m *jettison.MarshalerError
	sym.Assert("marshaler error", errors.As(err, &m) && m.Err == errSay && errors.Unwrap(err) == errSay)
	sym.Assert("type", m.Type == c.typ || m.Type == reflect.PtrTo(c.typ))
	if _, ok := p.v.(*sync.Map); name[0] == 'M' && !ok {
		sameCause(werr, err)
	}
	msg := err.Error()
	sym.Assert("message", strings.Contains(msg, " "+name+" ") && strings.Contains(msg, m.Type.String()) && strings.Contains(msg, errSay.Error()))
}

// Q_C20_syntax: what is not valid JSON among the results of at most 2 bytes of a MarshalJSON method, or held by a
// RawMessage, is reported as a SyntaxError in a MarshalerError of the type; not with NoCompact.
func Q_C20_syntax() {
	b := sym.Bytes("b", sym.Choose("length", 3))
	sym.Assume(!json.Valid(b))
	var x interface{}
	t := typeOf[jsonVal]()
	switch sym.Choose("holder", 4) {
	case 0:
		x = jsonVal{b}
	case 1:
		x, t = &jsonPtr{b}, typeOf[jsonPtr]()
	case 2:
		x, t = json.RawMessage(b), rawType
	case 3:
		x = map[string]interface{}{"k": []jsonVal{{b}}}
	}
	_, err := jettison.Marshal(x)
	var (
		m *jettison.MarshalerError
		s *jettison.SyntaxError
	)
	sym.Assert("marshaler error", errors.As(err, &m) && (m.Type == t || m.Type == reflect.PtrTo(t)))
	sym.Assert("syntax error", errors.As(err, &s) && s.Error() != "" && strings.Contains(err.Error(), "MarshalJSON"))
	_, err = jettison.MarshalOpts(x, jettison.NoCompact())
	sym.Assert("no error without compaction", err == nil)
}

// Q_C20_floats: the error of every float32 and float64 that is not finite gives its text.
func Q_C20_floats() {
	var x interface{}
	var want string
	if sym.Choose("size", 2) == 0 {
		f := math.Float32frombits(sym.U32("f"))
		sym.Assume(f != f || f > math.MaxFloat32 || f < -math.MaxFloat32)
		x, want = f, nonFinite(f != f, f > 0)
	} else {
		f := math.Float64frombits(sym.U64("f"))
		sym.Assume(f != f || f > math.MaxFloat64 || f < -math.MaxFloat64)
		x, want = f, nonFinite(f != f, f > 0)
	}
	switch sym.Choose("in", 4) {
	case 1:
		x = []interface{}{1, x}
	case 2:
		x = map[string]interface{}{"k": x}
	case 3:
		m := &sync.Map{}
		m.Store(1, x)
		x = m
	}
	_, err := jettison.Marshal(x)
	var v *jettison.UnsupportedValueError
	sym.Assert("unsupported value", errors.As(err, &v) && v.Str == want && err.Error() == "json: unsupported value: "+want)
	sym.Assert("value", v.Value.Kind() == reflect.Float64 && nonFinite(v.Value.Float() != v.Value.Float(), v.Value.Float() > 0) == want)
}

func nonFinite(nan, pos bool) string {
	if nan {
		return "NaN"
	}
	if pos {
		return "+Inf"
	}
	return "-Inf"
}

// Q_C20_numbers: the error of 12 invalid number literals quotes the literal.
func Q_C20_numbers() {
	s := []string{"x", "01", "1.", "-", "+1", "1e", " 1", "1 ", "0x1", "1e+", ".5", "\x00\"<é"}[sym.Choose("literal", 12)]
	var x interface{} = json.Number(s)
	if sym.Choose("in", 2) == 1 {
		x = map[string]interface{}{"k": []json.Number{"1", json.Number(s)}}
	}
	_, err := jettison.Marshal(x)
	sym.Assert("literal", err != nil && strings.Contains(err.Error(), strconv.Quote(s)))
}

// Q_C20_options: a nil context, an empty layout and every unknown duration format, alone or together, first or last among
// others, give an InvalidOptionError with a cause, whichever entry point; the value is not encoded.
func Q_C20_options() {
	failing, calls = false, 0
	var o []jettison.Option
	bad := false
	others := []jettison.Option{jettison.UnixTime(), nil, jettison.NoCompact()}
	if sym.Choose("before", 2) == 1 {
		o = append(o, others...)
	}
	if sym.Choose("context", 2) == 1 {
		o, bad = append(o, jettison.WithContext(nil)), true
	}
	if sym.Choose("layout", 2) == 1 {
		o, bad = append(o, jettison.TimeLayout("")), true
	}
	if sym.Choose("duration", 2) == 1 {
		f := jettison.DurationFmt(sym.I64("format"))
		known := f >= jettison.DurationString && f <= jettison.DurationNanoseconds
		o, bad = append(o, jettison.DurationFormat(f)), bad || !known
		sym.Assert("name of the format", f.String() != "" && (f.String() == "unknown") == !known)
	}
	if sym.Choose("after", 2) == 1 {
		o = append(o, others...)
	}
	v := []interface{}{mS_vnnn{"s", 1}, map[string]int{"a": 1}}
	var err error
	if sym.Choose("entry", 2) == 0 {
		_, err = jettison.MarshalOpts(v, o...)
	} else {
		_, err = jettison.AppendOpts([]byte("x"), v, o...)
	}
	sym.Assert("fails exactly with an invalid option", (err != nil) == bad)
	if bad {
		var e *jettison.InvalidOptionError
		sym.Assert("invalid option", errors.As(err, &e) && e.Err != nil && e.Error() != "" && calls == 0)
	}
}

type (
	errJ  struct{ e *error }
	errT  struct{ e *error }
	errA  struct{ e *error }
	errC  struct{ e *error }
	errPJ struct{ e error }
	errPT struct{ e error }
	errPA struct{ e error }
	errPC struct{ e error }
)

func (x errJ) MarshalJSON() ([]byte, error)        { return []byte("1"), *x.e }
func (x errT) MarshalText() ([]byte, error)        { return []byte("1"), *x.e }
func (x errA) AppendJSON(b []byte) ([]byte, error) { return append(b, '1'), *x.e }
func (x errC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, '1'), *x.e
}
func (x *errPJ) MarshalJSON() ([]byte, error)                                  { return nil, x.e }
func (x *errPT) MarshalText() ([]byte, error)                                  { return nil, x.e }
func (x *errPA) AppendJSON(b []byte) ([]byte, error)                           { return nil, x.e }
func (x *errPC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) { return nil, x.e }

// Q_C20_wrapped: whatever error a method returns (6 kinds: plain, wrapping, the error types of the library itself), in 8 types and
// 8 positions, keys of maps among them: the MarshalerError holds that very error.
func Q_C20_wrapped() {
	_, inner := jettison.Marshal(func() {})
	_, inner2 := jettison.Marshal(json.RawMessage("]"))
	_, inner3 := jettison.MarshalOpts(1, jettison.TimeLayout(""))
	_, inner4 := jettison.Marshal([]float64{math.NaN()})
	e := []error{errSay, fmt.Errorf("more: %w", errSay), inner, inner2, inner3, inner4}[sym.Choose("error", 6)]
	var x interface{}
	k := sym.Choose("type", 8)
	switch k {
	case 0:
		x = errJ{&e}
	case 1:
		x = errT{&e}
	case 2:
		x = errA{&e}
	case 3:
		x = errC{&e}
	case 4:
		x = &errPJ{e}
	case 5:
		x = &errPT{e}
	case 6:
		x = &errPA{e}
	case 7:
		x = &errPC{e}
	}
	t := reflect.TypeOf(x)
	switch sym.Choose("in", 8) {
	case 7:
		sym.Assume(k%4 == 1)
		v := reflect.MakeMap(reflect.MapOf(t, typeOf[int8]()))
		v.SetMapIndex(reflect.ValueOf(x), reflect.ValueOf(int8(1)))
		x = v.Interface()
		if sym.Choose("nested", 2) == 1 {
			x = []interface{}{x, 1}
		}
	case 1:
		y := x
		x = &y
	case 2:
		x = []interface{}{1, x}
	case 3:
		x = map[string]interface{}{"a": x, "b": 1}
	case 4:
		x = struct {
			A int
			B interface{} `json:",omitempty"`
		}{1, x}
	case 5:
		m := &sync.Map{}
		m.Store("k", x)
		x = []interface{}{m}
	case 6:
		v := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(x)), 2, 2)
		v.Index(0).Set(reflect.ValueOf(x))
		v.Index(1).Set(reflect.ValueOf(x))
		x = v.Interface()
	}
	var o []jettison.Option
	if sym.Choose("options", 2) == 1 {
		o = []jettison.Option{jettison.NoCompact(), jettison.UnsortedMap(), jettison.WithContext(context.WithValue(context.Background(), "k", 1))}
	}
	_, err := jettison.MarshalOpts(x, o...)
	m, ok := err.(*jettison.MarshalerError)
	sym.Assert("marshaler error", ok && m.Err == e && errors.Unwrap(err) == e && errors.Is(err, e))
	sym.Assert("type", m.Type == t)
	sym.Assert("message", strings.Contains(err.Error(), []string{" MarshalJSON ", " MarshalText ", " AppendJSON ", " AppendJSONContext "}[k%4]) && strings.HasSuffix(err.Error(), e.Error()))
}

type (
	doneCtx struct{ err error }
	okCtx   struct{ s string }
)

func (c doneCtx) Deadline() (time.Time, bool) { return time.Time{}, true }
func (c doneCtx) Done() <-chan struct{}       { return closedChan }
func (c doneCtx) Err() error                  { return c.err }
func (c doneCtx) Value(interface{}) interface{} {
	return nil
}

var closedChan = func() chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}()

func (o okCtx) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	if c.Err() == nil {
		return append(b, `"alive"`...), nil
	}
	return append(b, `"`+o.s+c.Err().Error()+`"`...), nil
}

// Q_C20_context: a context that is cancelled or past its deadline is passed on like any other: methods that succeed give
// their output, those that fail their own errors, which are wrapped (also when it is the context's).
func Q_C20_context() {
	s := letter("s")
	own := errors.New("own")
	cause := []error{context.Canceled, context.DeadlineExceeded, own, nil}[sym.Choose("cause", 4)]
	ctx := doneCtx{cause}
	text := `"alive"`
	if cause != nil {
		text = `"` + s + cause.Error() + `"`
	}
	o := jettison.WithContext(ctx)
	is("succeeds", text, okCtx{s}, o)
	is("all kinds", `{"A":[`+text+`],"B":1,"C":"t","D":{"k":`+text+`}}`, struct {
		A []okCtx
		B int
		C string
		D map[string]interface{}
	}{[]okCtx{{s}}, 1, "t", map[string]interface{}{"k": &okCtx{s}}}, o)
	other := errors.New("other")
	fail := []error{other, context.Canceled, context.DeadlineExceeded, own}[sym.Choose("fail", 4)]
	v := []interface{}{errC{&fail}, &errC{&fail}, []errC{{&fail}}, map[string]errC{s: {&fail}}, struct{ A errC }{errC{&fail}}}[sym.Choose("value", 5)]
	_, err := jettison.MarshalOpts(v, o)
	var me *jettison.MarshalerError
	sym.Assert("the method's error", errors.As(err, &me) && me.Err == fail && errors.Is(err, fail))
	for _, e := range []error{other, own, context.Canceled, context.DeadlineExceeded} {
		sym.Assert("no other error", e == fail || !errors.Is(err, e))
	}
	sym.Reach("end")
}

type (
	keyErrS struct{ N int }
	keyErrI int
	keyErrP struct{ N int }
)

func (keyErrS) MarshalText() ([]byte, error)  { return []byte("s"), errSay }
func (keyErrI) MarshalText() ([]byte, error)  { return []byte("i"), errSay }
func (*keyErrP) MarshalText() ([]byte, error) { return []byte("p"), errSay }

// Q_C20_keys: the failing MarshalText of a key (struct, integer, pointer with a method of its own or not) in a map or a
// sync.Map, sorted or not, is reported as a MarshalerError of the key's type that wraps the method's error.
func Q_C20_keys() {
	n := int(sym.U8("n"))
	switch sym.Choose("key", 4) {
	case 0:
		keyErr(keyErrS{n})
	case 1:
		keyErr(keyErrI(n))
	case 2:
		keyErr(&keyErrP{n})
	case 3:
		keyErr(&keyErrS{n})
	}
}

func keyErr[K comparable](k K) {
	m := map[K]interface{}{k: "v"}
	var v interface{} = m
	if sym.Choose("sync", 2) == 1 {
		v = toSync(m)
	}
	if sym.Choose("in a list", 2) == 1 {
		v = []interface{}{1, v}
	}
	var o []jettison.Option
	if sym.Choose("unsorted", 2) == 1 {
		o = append(o, jettison.UnsortedMap())
	}
	_, err := jettison.MarshalOpts(v, o...)
	var me *jettison.MarshalerError
	sym.Assert("marshaler error", errors.Is(err, errSay) && errors.As(err, &me) && me.Err == errSay)
	sym.Assert("type", me.Type == reflect.TypeOf(k) || me.Type == reflect.PtrTo(reflect.TypeOf(k)))
	sym.Assert("message", strings.Contains(err.Error(), "MarshalText") && strings.Contains(err.Error(), me.Type.String()))
}
