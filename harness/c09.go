package main

import (
	"bytes"
	"encoding/json"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

type jsonVal struct{ b []byte }

func (j jsonVal) MarshalJSON() ([]byte, error) { return j.b, nil }

type jsonPtr struct{ b []byte }

func (j *jsonPtr) MarshalJSON() ([]byte, error) { return j.b, nil }

// specCompact is the compacted form of the valid JSON text b: whitespace outside strings removed,
// U+2028/U+2029 and, if html, the HTML characters escaped.
func specCompact(b []byte, html bool) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if !in && (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
			continue
		}
		if in && c == '\\' {
			out = append(out, c, b[i+1])
			i++
			continue
		}
		if c == '"' {
			in = !in
		}
		switch {
		case html && (c == '<' || c == '>' || c == '&'):
			out = append(out, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
		case c == 0xe2 && i+2 < len(b) && b[i+1] == 0x80 && (b[i+2] == 0xa8 || b[i+2] == 0xa9):
			out = append(out, '\\', 'u', '2', '0', '2', hexDigits[b[i+2]&15])
			i += 2
		default:
			out = append(out, c)
		}
	}
	return out
}

// embedText checks one marshaler text b in all positions against encoding/json and the specification.
func embedText(b []byte, where int) {
	valid := json.Valid(b)
	html := true
	var o []jettison.Option
	if sym.Choose("nohtml", 2) == 1 {
		html = false
		o = append(o, jettison.NoHTMLEscaping())
	}
	var v interface{}
	pre, post := "", ""
	switch where {
	case 0:
		v = json.RawMessage(b)
	case 1:
		v = jsonVal{b}
	case 2:
		v = &jsonPtr{b}
	case 3:
		pre, post = `{"A":`, `,"B":1}`
		v = struct {
			A json.RawMessage
			B int
		}{b, 1}
	case 4:
		pre, post = `{"k":`, `}`
		v = map[string]jsonVal{"k": {b}}
	case 5:
		pre, post = `[`, `]`
		v = []interface{}{json.RawMessage(b)}
	case 6:
		pre, post = `{"A":`, `}`
		v = &struct{ A jsonPtr }{jsonPtr{b}}
	case 7:
		pre, post = `{"A":`, `}`
		r := json.RawMessage(b)
		v = struct{ A *json.RawMessage }{&r}
	}
	got, err := jettison.MarshalOpts(v, o...)
	if html {
		want, werr := json.Marshal(v)
		agree("encoding/json", want, werr, got, err)
	}
	sym.Assert("error exactly when invalid", (err == nil) == valid)
	if err == nil && valid {
		sym.Out("got", got)
		sym.Assert("compacted", string(got) == pre+string(specCompact(b, html))+post)
	}
	raw, err := jettison.MarshalOpts(v, append(o, jettison.NoCompact())...)
	sym.Assert("NoCompact never fails", err == nil)
	sym.Assert("NoCompact is verbatim", string(raw) == pre+string(b)+post)
	sym.Reach("end")
}

// Q_C09_bytes: every byte sequence of 1 to 3 bytes (thorough: 4), from a RawMessage and from MarshalJSON methods, with
// and without NoHTMLEscaping and NoCompact.
func Q_C09_bytes() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Choose("n", max) + 1
	where := sym.Choose("where", 3)
	embedText(sym.Bytes("b", n), where)
}

// Q_C09_string: texts holding a JSON string with 3 symbolic bytes (thorough: 4) between its quotes, in every position.
func Q_C09_string() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	where := sym.Choose("where", 8)
	b := append([]byte(`"`), sym.Bytes("b", n)...)
	embedText(append(b, '"'), where)
}

// Q_C09_space: texts with symbolic bytes around and inside an object, an array and strings holding spaces and escapes.
func Q_C09_space() {
	where := sym.Choose("where", 3)
	x := sym.Bytes("b", 2)
	var b []byte
	switch sym.Choose("shape", 6) {
	case 0:
		b = join(x[:1], `{"a b":`, x[1:], `1}`)
	case 1:
		b = join(`[1,`, x, `2]`)
	case 2:
		b = join(`{"\"`, x[:1], ` ":"\\"`, x[1:], `}`)
	case 3:
		b = join(`"`, x[:1], "\xe2\x80", x[1:], `"`)
	case 4:
		b = join(`["<`, x[:1], "\u2028", `" ,`, x[1:], `]`)
	case 5:
		b = join(`{"k":"x`, x[:1], `"`, x[1:], "}\n ")
	}
	embedText(b, where)
}

// Q_C09_long: long texts: strings of 63 to 4097 bytes with 2 symbolic bytes near the ends or the middle, runs of spaces,
// arrays and objects nested to depth 40, long arrays.
func Q_C09_long() {
	where := sym.Choose("where", 3)
	n := []int{63, 64, 127, 255, 511, 1024, 4097}[sym.Choose("n", 7)]
	x := sym.Bytes("b", 2)
	fill := func(s string, k int) []byte { return bytes.Repeat([]byte(s), k/len(s)) }
	var b []byte
	switch sym.Choose("shape", 6) {
	case 0:
		at := []int{0, n / 2, n - 1, n}[sym.Choose("place", 4)]
		b = join(`{"k":"`, fill("t", at), x[:1], fill("u", n-at), `" }`)
	case 1:
		b = join(`"`, fill(`\\`, n), x, fill(`\u003c`, n), `"`)
	case 2:
		b = join(x[:1], fill(" \t\n", n), `1`, x[1:])
	case 3:
		b = join(fill("[", 40), x, fill("]", 40))
	case 4:
		b = join(fill(`{"a": `, 240), x, fill("}", 40))
	case 5:
		b = join(`[`, fill(`1 ,`, n), x, `]`)
	}
	embedText(b, where)
}

// Q_C09_nesting: arrays and objects nested to depth 66 to 302, with a symbolic byte at the deepest place, another in the middle.
func Q_C09_nesting() {
	d := []int{32, 64, 127, 129, 150}[sym.Choose("depth", 5)]
	x := sym.Bytes("b", 2)
	b, e := "[", "]"
	if sym.Choose("object", 2) == 1 {
		b, e = `{"k":`, "}"
	}
	var t []byte
	if sym.Choose("place", 2) == 0 {
		t = join(bytes.Repeat([]byte(b), 2*d+2), `"a "`, x[:1], bytes.Repeat([]byte(e), 2*d+1), ` `, x[1:], e)
	} else {
		t = join(bytes.Repeat([]byte(b), 2*d+2), "1 ", bytes.Repeat([]byte(e), d), x, ` `, bytes.Repeat([]byte(e), d+2))
	}
	embedText(t, sym.Choose("where", 2))
}

func join(parts ...interface{}) []byte {
	var b []byte
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			b = append(b, p...)
		case []byte:
			b = append(b, p...)
		}
	}
	return b
}

// Q_C09_nil: a nil RawMessage is null in every position; an empty one and a marshaler returning nothing are errors.
func Q_C09_nil() {
	same("nil", json.RawMessage(nil))
	same("nil field", struct {
		A json.RawMessage
		B *json.RawMessage
		C []json.RawMessage
	}{C: []json.RawMessage{nil}})
	is("nil NoCompact", "null", json.RawMessage(nil), jettison.NoCompact())
	switch sym.Choose("empty", 4) {
	case 0:
		same("empty", json.RawMessage{})
	case 1:
		same("no text", jsonVal{})
	case 2:
		same("empty text", &jsonPtr{[]byte{}})
	case 3:
		same("empty field", struct{ A json.RawMessage }{json.RawMessage{}})
	}
	sym.Reach("end")
}

// Q_C09_untouched: the bytes a marshaler returns and a RawMessage holds are never written to (2 symbolic bytes).
func Q_C09_untouched() {
	x := sym.Bytes("b", 2)
	b := join(` ["<`, x, "\" ,\u2028 ]  ")
	keep := append([]byte(nil), b...)
	sym.ReadOnly(b)
	jettison.Marshal(json.RawMessage(b))
	jettison.MarshalOpts([]jsonVal{{b}}, jettison.NoHTMLEscaping())
	out, err := jettison.MarshalOpts(jsonVal{b}, jettison.NoCompact())
	if err == nil && len(out) > 0 {
		out[0] = 'x'
	}
	sym.Assert("unchanged", bytes.Equal(b, keep))
}

// Q_C09_runs: runs of plain text, of spaces or of escapes of lengths within 2 of 32, 64, 128, ... 8192, right after the
// start or after something dropped, followed by 2 symbolic bytes, a space, a quoted quote and an HTML character.
func Q_C09_runs() {
	n := 32<<sym.Choose("size", 9) - 2 + sym.Choose("less", 5)
	x := sym.Bytes("b", 2)
	run := func(s string) []byte { return bytes.Repeat([]byte(s), n)[:n] }
	tail := join(x, []byte(` \" < " , 1 ]`))
	var b []byte
	switch sym.Choose("shape", 4) {
	case 0:
		b = join(`["`, run("t"), tail)
	case 1:
		b = join(`[ "<`, run("t"), tail)
	case 2:
		b = join(`[1 `, run(" "), `,"`, tail)
	case 3:
		b = join(`["`, run(`\\`)[:n&^1], tail)
	}
	embedText(b, 0)
}
