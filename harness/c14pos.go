package main

import (
	"context"
	"encoding/json"
	"reflect"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type (
	posText struct{ s string }
	posJSON struct{ s string }
	posApp  struct{ s string }
	posCtx  struct{ s string }
	posFlds struct {
		A int      `json:"a"`
		N *posFlds `json:"n,omitempty"`
		X string   `json:"x"`
		M map[string]struct {
			X int `json:"x"`
		} `json:"m,omitempty"`
	}
	posBytes []byte
	posMap   map[string]bool
	posSlice []string
	posStr   string
)

func (p posText) MarshalText() ([]byte, error)       { return []byte(p.s), nil }
func (p posJSON) MarshalJSON() ([]byte, error)       { return []byte(p.s), nil }
func (p posApp) AppendJSON(b []byte) ([]byte, error) { return append(b, p.s...), nil }
func (p posCtx) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	s, _ := c.Value("key").(string)
	return append(b, `"`+p.s+s+`"`...), nil
}

// posLeaf is a value with an option that matters to it, and what it encodes to with that option.
type posLeaf struct {
	c     *mcase
	o     []jettison.Option
	want  string
	basic bool // the string option applies
}

func mkLeaf[T any](x T, want string, o ...jettison.Option) func() posLeaf {
	return func() posLeaf {
		k := typeOf[T]().Kind()
		basic := k <= reflect.Float64 && k != reflect.Invalid || k == reflect.String
		return posLeaf{c: newCase(x, "", "", "", true), o: o, want: want, basic: basic}
	}
}

var (
	posTime = time.Unix(1e9, 5e8).In(time.FixedZone("<x>", 3600))
	posT    = time.Unix(1e9, 0).UTC()
)

var posLeaves = []func() posLeaf{
	mkLeaf(posTime, "1000000000", jettison.UnixTime()),
	mkLeaf(posTime, `"2001-09-09T02:46:40+01:00"`, jettison.TimeLayout(time.RFC3339)),
	mkLeaf(posTime, `"2:46AM \u003cx\u003e"`, jettison.TimeLayout("3:04PM MST")),
	mkLeaf(posTime, `"2:46AM <x>"`, jettison.TimeLayout("3:04PM MST"), jettison.NoHTMLEscaping()),
	mkLeaf(&posT, "1000000000", jettison.TimeLayout("x"), jettison.UnixTime()),
	mkLeaf(posTime, `"2001-09-09T02:46:40.5+01:00"`, jettison.DurationFormat(jettison.DurationString)),
	mkLeaf(90*time.Second, `"1m30s"`, jettison.DurationFormat(jettison.DurationString)),
	mkLeaf(90*time.Second, `1.5`, jettison.DurationFormat(jettison.DurationMinutes)),
	mkLeaf(90*time.Second, `90`, jettison.DurationFormat(jettison.DurationSeconds)),
	mkLeaf(90*time.Second, `90000`, jettison.DurationFormat(jettison.DurationMilliseconds)),
	mkLeaf(90*time.Second, `90000000`, jettison.DurationFormat(jettison.DurationMicroseconds)),
	mkLeaf([]byte("<a\xff"), `"\u003ca\ufffd"`, jettison.RawByteSlice()),
	mkLeaf(posBytes("<a\xff"), `"<a\ufffd"`, jettison.RawByteSlice(), jettison.NoHTMLEscaping()),
	mkLeaf([]byteT("ab"), `"ab"`, jettison.RawByteSlice()),
	mkLeaf([]byte("ab"), `"YWI="`, jettison.ByteArrayAsString()),
	mkLeaf([]byte{}, `""`, jettison.RawByteSlice()),
	mkLeaf([]byte(nil), `null`, jettison.RawByteSlice()),
	mkLeaf([3]byte{'<', 'a', 0xff}, `"\u003ca\ufffd"`, jettison.ByteArrayAsString()),
	mkLeaf([3]byteT{'<', 'a', 0xff}, `"<a`+"\xff"+`"`, jettison.ByteArrayAsString(), jettison.NoHTMLEscaping(), jettison.NoUTF8Coercion()),
	mkLeaf([2]byte{1, 2}, `[1,2]`, jettison.RawByteSlice()),
	mkLeaf([0]byte{}, `""`, jettison.ByteArrayAsString()),
	mkLeaf(map[string]int(nil), `{}`, jettison.NilMapEmpty()),
	mkLeaf(posMap(nil), `{}`, jettison.NilMapEmpty()),
	mkLeaf(map[string]int(nil), `null`, jettison.NilSliceEmpty()),
	mkLeaf([]int(nil), `[]`, jettison.NilSliceEmpty()),
	mkLeaf(posSlice(nil), `[]`, jettison.NilSliceEmpty()),
	mkLeaf([]struct{}(nil), `[]`, jettison.NilSliceEmpty()),
	mkLeaf([]int(nil), `null`, jettison.NilMapEmpty()),
	mkLeaf("<\xff\"", `"<\ufffd\""`, jettison.NoHTMLEscaping()),
	mkLeaf("<\xff\u2028", `"\u003c`+"\xff"+`\u2028"`, jettison.NoUTF8Coercion()),
	mkLeaf(posStr("<\xff\n"), "\"<\xff\n\"", jettison.NoStringEscaping()),
	mkLeaf(posText{"<\""}, `"<\""`, jettison.NoHTMLEscaping()),
	mkLeaf(posText{"<\xff"}, "\"<\xff\"", jettison.NoStringEscaping()),
	mkLeaf(posText{"<\xff"}, "\"\\u003c\xff\"", jettison.NoUTF8Coercion()),
	mkLeaf(json.Number("01x"), `01x`, jettison.NoNumberValidation()),
	mkLeaf(json.Number(""), `0`, jettison.NoCompact()),
	mkLeaf(json.RawMessage(" [ ]"), ` [ ]`, jettison.NoCompact()),
	mkLeaf(json.RawMessage(` [ "<" ]`), `["<"]`, jettison.NoHTMLEscaping()),
	mkLeaf(posJSON{` [ "<" `}, ` [ "<" `, jettison.NoCompact()),
	mkLeaf(posJSON{` [ "<" ]`}, `["<"]`, jettison.NoHTMLEscaping()),
	mkLeaf(posJSON{` [ "<" ]`}, `["\u003c"]`, jettison.NoStringEscaping()),
	mkLeaf(posApp{`"<"`}, `"<"`, jettison.NoStringEscaping()),
	mkLeaf(posCtx{"c"}, `"cval"`, jettison.WithContext(context.WithValue(context.Background(), "key", "val"))),
	mkLeaf(map[string]string{"<\xff": "<"}, `{"<\ufffd":"<"}`, jettison.NoHTMLEscaping()),
	mkLeaf(map[posText]int{{"<"}: 1}, `{"<":1}`, jettison.NoHTMLEscaping()),
	mkLeaf(map[string]int{"<": 1}, `{"\u003c":1}`, jettison.UnsortedMap()),
	mkLeaf(posFlds{1, &posFlds{X: "q"}, "y", map[string]struct {
		X int `json:"x"`
	}{"x": {}}}, `{"a":1,"n":{"a":0},"m":{"x":{}}}`, jettison.DenyList([]string{"x"})),
	mkLeaf(posFlds{1, &posFlds{X: "q"}, "y", map[string]struct {
		X int `json:"x"`
	}{"q": {}}}, `{"n":{"x":"q"},"x":"y","m":{"q":{"x":0}}}`, jettison.AllowList([]string{"F", "B", "G", "Z", "x", "n", "m"})),
}

// Options that do not matter to any of these values along with their own.
var posOthers = [][]jettison.Option{
	nil,
	{nil, nil},
	{jettison.UnsortedMap()},
	{jettison.WithContext(context.WithValue(context.Background(), "key", "val"))},
}

// Q_C14_everywhere: each option has its effect on each of 48 values it matters to (or not), in each of 32 positions, alone or along with
// options that do not matter, given after or before them.
func Q_C14_everywhere() {
	l := posLeaves[sym.Choose("leaf", len(posLeaves))]()
	p := l.c.pos(sym.Choose("position", mPositions))
	sym.Assume(!(p.quoted && l.basic))
	other := posOthers[sym.Choose("others", len(posOthers))]
	o := append(append([]jettison.Option(nil), other...), l.o...)
	if len(other) > 0 && sym.Choose("others last", 2) == 1 {
		o = append(append([]jettison.Option(nil), l.o...), other...)
	}
	is("effect", p.pre+l.want+p.post, p.v, o...)
}
