package main

import (
	"encoding/json"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// symString is a string of a length in [0,max], every byte symbolic.
func symString(name string, max int) string {
	n := sym.Choose(name+" length", max+1)
	return sym.String(name, n)
}

// window is a string of n bytes, all equal to a filler except w symbolic ones at a chosen place.
func window(name string, n, w int) string {
	if n < w {
		w = n
	}
	b := make([]byte, n)
	fill := byte('a')
	for i := range b {
		b[i] = fill
	}
	at := sym.Choose(name+" at", n-w+1)
	copy(b[at:], sym.Bytes(name, w))
	return string(b)
}

// expand replaces the spellings \b and \f, which are left open, by \u0008 and \u000c.
func expand(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) {
			switch b[i+1] {
			case 'b':
				out = append(out, `\u0008`...)
			case 'f':
				out = append(out, `\u000c`...)
			default:
				out = append(out, b[i], b[i+1])
			}
			i++
			continue
		}
		out = append(out, b[i])
	}
	return out
}

func spec(s string) string { return string(specString(nil, s, true, true)) }

type textVal struct{ s string }

func (t textVal) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type textPtr struct{ s string }

func (t *textPtr) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type textKey string

func (t textKey) MarshalText() ([]byte, error) { return []byte("k" + string(t)), nil }

type textIntKey struct {
	n int
	s string
}

func (t textIntKey) MarshalText() ([]byte, error) { return []byte(t.s), nil }

// Q_C02_value: every string of at most 3 bytes (thorough: 5), compared with encoding/json and with the
// independent specification; backspace and form feed excluded (see Q_C02_bf).
func Q_C02_value() {
	max := 3
	if sym.Thorough() {
		max = 5
	}
	s := symString("s", max)
	noBF(s)
	want, err := json.Marshal(s)
	got, jerr := jettison.Marshal(s)
	agree("string", want, err, got, jerr)
	sym.Assert("string specification", string(got) == spec(s))
	sym.Reach("end")
}

// Q_C02_bf: every string of at most 2 bytes (thorough: 3) including backspace and form feed, in either spelling.
func Q_C02_bf() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := symString("s", max)
	got, err := jettison.Marshal(nStr(s))
	sym.Assert("no error", err == nil)
	sym.Out("got", got)
	sym.Assert("string specification", string(expand(got)) == spec(s))
}

// Q_C02_window: strings of 4 to 70 bytes in which 2 adjacent bytes (thorough: 3) at every position are symbolic.
func Q_C02_window() {
	lens := []int{4, 8, 9, 17, 33}
	w := 2
	if sym.Thorough() {
		lens = []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 70}
		w = 3
	}
	s := window("s", lens[sym.Choose("n", len(lens))], w)
	noBF(s)
	got, err := jettison.Marshal(s)
	sym.Assert("no error", err == nil)
	sym.Out("got", got)
	sym.Assert("string specification", string(got) == spec(s))
}

func longSizes() []int {
	if !sym.Thorough() {
		return []int{64, 129, 255, 1024, 4097}
	}
	return []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097}
}

// long is a string of about n bytes made of one of four fillers, with w symbolic bytes at one of 6 places.
func long(name string, n, w int) string {
	fill := []string{"a", "é", "<", "ÿ"}[sym.Choose("filler", 4)]
	var b []byte
	at := []int{0, 1, n/2 - 1, n/2 + 2, n - w - 1, n - w}[sym.Choose("place", 6)]
	for len(b) < at {
		b = append(b, fill...)
	}
	b = append(b, sym.Bytes(name, w)...)
	for len(b) < n {
		b = append(b, fill...)
	}
	return string(b)
}

// Q_C02_long: strings of 63 to 4097 bytes made of plain letters, runes, escaped characters or invalid bytes, in which 2
// (thorough: 3) bytes near the ends or the middle are symbolic, as value, key, text and with the string option.
func Q_C02_long() {
	w := 2
	if sym.Thorough() {
		w = 3
	}
	s := long("s", longSizes()[sym.Choose("n", len(longSizes()))], w)
	noBF(s)
	q := spec(s)
	switch sym.Choose("where", 4) {
	case 3:
		is("string option", `{"A":`+spec(q)+`}`, struct {
			A string `json:",string"`
		}{s})
	case 0:
		is("string", q, s)
	case 1:
		is("key", `{`+q+`:1}`, map[string]int{s: 1})
	case 2:
		is("text", `[`+q+`]`, []textVal{{s}})
	}
}

// Q_C02_positions: every string of at most 2 bytes (thorough: 3) wherever string content is emitted: pointer, interface, slice,
// array, struct field, map value, map key, sync.Map-like text of MarshalText (value and pointer receiver, as value,
// as map key), and fields with the string option; compared with encoding/json.
func Q_C02_positions() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := symString("s", max)
	noBF(s)
	switch sym.Choose("where", 12) {
	case 0:
		same("pointer", &s)
	case 1:
		same("interface", []interface{}{s, nStr(s)})
	case 2:
		same("slice", []string{s, s})
	case 3:
		same("array", [2]nStr{nStr(s), nStr(s)})
	case 4:
		same("field", struct {
			A string
			B *string `json:"b,omitempty"`
		}{s, &s})
	case 5:
		same("map value", map[string]string{"k": s})
	case 6:
		same("map key", map[string]int{s: 1})
	case 7:
		same("named map key", map[nStr]interface{}{nStr(s): s})
	case 8:
		same("text", textVal{s})
		same("text slice", []textVal{{s}})
	case 9:
		same("text pointer", &textPtr{s})
		same("text in fields", struct {
			A textVal
			B *textPtr
			C interface{}
		}{textVal{s}, &textPtr{s}, textVal{s}})
	case 10:
		same("text key", map[textIntKey]int{{1, s}: 1})
		same("string kind text key", map[textKey]int{textKey(s): 1})
	case 11:
		same("string option", struct {
			A string  `json:",string"`
			B *string `json:",string"`
			C nStr    `json:"c,string"`
		}{s, &s, nStr(s)})
	}
	sym.Reach("end")
}

// Q_C02_quoted: the string option applies string encoding twice: every string of at most 2 bytes (thorough: 3),
// against the specification.
func Q_C02_quoted() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := symString("s", max)
	noBF(s)
	is("string option", `{"A":`+spec(spec(s))+`}`, struct {
		A string `json:",string"`
	}{s})
	sym.Reach("end")
}

// Q_C02_pairs: two characters of 2 to 4 bytes, valid or not, one after the other, all their bytes symbolic.
func Q_C02_pairs() {
	n := 2 + sym.Choose("first", 3)
	m := 2 + sym.Choose("second", 3)
	b := sym.Bytes("b", n+m)
	lead := []byte{0xc2, 0xe0, 0xf0}
	for i, c := range b {
		switch i {
		case 0:
			sym.Assume(c >= lead[n-2])
		case n:
			sym.Assume(c >= lead[m-2])
		default:
			sym.Assume(c >= 0x80)
		}
	}
	s := string(b)
	got, err := jettison.Marshal(s)
	sym.Assert("no error", err == nil)
	sym.Out("got", got)
	sym.Assert("string specification", string(got) == spec(s))
}

// Q_C02_repeat: 1 to 3 symbolic bytes (thorough: 4), valid or not, repeated 2 or 3 times in a row, after 0 to 2 plain letters,
// with or without a letter after each; as value and as key.
func Q_C02_repeat() {
	w := 3
	if sym.Thorough() {
		w = 4
	}
	b := sym.String("b", 1+sym.Choose("w", w))
	s := "xy"[:sym.Choose("before", 3)]
	sep := []string{"", "x"}[sym.Choose("between", 2)]
	n := 2 + sym.Choose("times", 2)
	for i := 0; i < n; i++ {
		s += b + sep
	}
	noBF(b)
	got, err := jettison.Marshal(s)
	sym.Assert("no error", err == nil)
	sym.Out("got", got)
	sym.Assert("string specification", string(got) == spec(s))
}
