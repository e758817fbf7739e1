package main

import (
	"bytes"
	"encoding/json"
	"unicode/utf8"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// same asserts that jettison encodes v as encoding/json does, or fails when it fails.
func same(id string, v interface{}) {
	want, werr := json.Marshal(v)
	got, err := jettison.Marshal(v)
	agree(id, want, werr, got, err)
}

// stdNoHTML is encoding/json without HTML escaping.
func stdNoHTML(v interface{}) ([]byte, error) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	err := enc.Encode(v)
	b := buf.Bytes()
	if n := len(b); n > 0 && b[n-1] == '\n' {
		b = b[:n-1]
	}
	return b, err
}

func agree(id string, want []byte, werr error, got []byte, err error) {
	if werr != nil || err != nil {
		sym.Assert(id+": fails exactly when encoding/json fails", (werr == nil) == (err == nil))
		sym.Assert(id+": no output on error", len(got) == 0)
		sym.Out(id, []byte("error"))
		return
	}
	sym.Assert(id+": output", bytes.Equal(got, want))
	sym.Out(id, got)
}

// is asserts that encoding v succeeds with the given text.
func is(id, want string, v interface{}, opts ...jettison.Option) {
	got, err := jettison.MarshalOpts(v, opts...)
	sym.Assert(id+": no error", err == nil)
	sym.Assert(id+": output", string(got) == want)
	sym.Out(id, got)
}

// fails asserts that encoding v is an error and gives no output.
func fails(id string, v interface{}, opts ...jettison.Option) {
	got, err := jettison.MarshalOpts(v, opts...)
	sym.Assert(id+": must fail", err != nil)
	sym.Assert(id+": no output", len(got) == 0)
}

const hexDigits = "0123456789abcdef"

// specString is the JSON string for the bytes s: what the documentation of the string
// options and of encoding/json promise, written independently of both. Control characters
// without a short form used by jettison (including \b and \f) are spelled \u00xx.
func specString(dst []byte, s string, html, coerce bool) []byte {
	dst = append(dst, '"')
	dst = specEscape(dst, s, html, coerce)
	return append(dst, '"')
}

func specEscape(dst []byte, s string, html, coerce bool) []byte {
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			i++
			switch {
			case c == '"' || c == '\\':
				dst = append(dst, '\\', c)
			case c == '\n':
				dst = append(dst, '\\', 'n')
			case c == '\r':
				dst = append(dst, '\\', 'r')
			case c == '\t':
				dst = append(dst, '\\', 't')
			case c < 0x20 || html && (c == '<' || c == '>' || c == '&'):
				dst = append(dst, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
			default:
				dst = append(dst, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			if coerce {
				dst = append(dst, `\ufffd`...)
			} else {
				dst = append(dst, c)
			}
		case r == 0x2028:
			dst = append(dst, `\u2028`...)
		case r == 0x2029:
			dst = append(dst, `\u2029`...)
		default:
			dst = append(dst, s[i:i+n]...)
		}
		i += n
	}
	return dst
}

// noBF excludes backspace and form feed, whose spelling is left open.
func noBF(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 8 && s[i] != 12)
	}
}
