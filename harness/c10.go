package main

import (
	"bytes"
	"encoding/json"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// specNumber tells whether s is a JSON number: a separate reading of the grammar.
func specNumber(s string) bool {
	i := 0
	digits := func() bool {
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > k
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		i++
	} else if !digits() {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !digits() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digits() {
			return false
		}
	}
	return i == len(s)
}

func number(s string) {
	v := json.Number(s)
	ok := s == "" || specNumber(s)
	text := s
	if text == "" {
		text = "0"
	}
	got, err := jettison.Marshal(v)
	sym.Assert("accepted exactly when a number", (err == nil) == ok)
	if err == nil && ok {
		sym.Assert("unchanged", string(got) == text)
		sym.Out("got", got)
	}
	want, werr := json.Marshal(v)
	agree("encoding/json", want, werr, got, err)
	raw, err := jettison.MarshalOpts(v, jettison.NoNumberValidation())
	sym.Assert("no validation, no error", err == nil)
	sym.Assert("no validation, unchanged", string(raw) == text)
	sym.Reach("end")
}

// Q_C10_short: every string of at most 4 bytes (thorough: 6).
func Q_C10_short() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	number(symString("s", max))
}

// Q_C10_long: numbers of 6 to 24 bytes with 3 symbolic bytes (thorough: 4) at chosen places of a number with every part.
func Q_C10_long() {
	base := []string{"-12.34e+56", "0.5", "100000000000000000000000", "1E5", "-0.0e-0", "123456.7"}[sym.Choose("base", 6)]
	w := 3
	if sym.Thorough() {
		w = 4
	}
	if w > len(base) {
		w = len(base)
	}
	at := sym.Choose("at", len(base)-w+1)
	b := []byte(base)
	copy(b[at:], sym.Bytes("b", w))
	number(string(b))
}

// Q_C10_digits: numbers of 20 to 600 digits in one part (integer, fraction or exponent) with 2 symbolic bytes near the
// ends or the middle.
func Q_C10_digits() {
	n := []int{20, 32, 64, 65, 128, 300, 600}[sym.Choose("n", 7)]
	b := bytes.Repeat([]byte{'7'}, n)
	part := sym.Choose("part", 3)
	at := []int{0, n/2 - 1, n - 2}[sym.Choose("place", 3)]
	copy(b[at:], sym.Bytes("b", 2))
	s := string(b)
	switch part {
	case 1:
		s = "-0." + s + "E2"
	case 2:
		s = "1.5e-" + s
	}
	number(s)
}

// Q_C10_alphabet: every string of 7 bytes (thorough: 9) over the characters "-+.eE0" and "7".
func Q_C10_alphabet() {
	n := 7
	if sym.Thorough() {
		n = 9
	}
	s := sym.String("s", n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c == '0' || c == '7')
	}
	number(s)
}

// Q_C10_positions: every string of at most 3 bytes in every position, with the string and omitempty tag options, as
// map key and behind pointers and interfaces.
func Q_C10_positions() {
	s := symString("s", 3)
	noBF(s)
	v := json.Number(s)
	switch sym.Choose("where", 7) {
	case 0:
		same("slice", []json.Number{v, "1"})
	case 1:
		same("pointer", &v)
	case 2:
		same("fields", struct {
			A json.Number
			B *json.Number
			C json.Number `json:",omitempty"`
			D interface{}
		}{v, &v, v, v})
	case 3:
		same("string option", struct {
			A json.Number `json:",string"`
			B int
		}{v, 1})
	case 4:
		same("string option, pointer", struct {
			A *json.Number `json:"a,string,omitempty"`
		}{&v})
	case 5:
		same("map", map[string]json.Number{"a": v})
	case 6:
		same("map key", map[json.Number]int{v: 1})
	}
	sym.Reach("end")
}

// Q_C10_quoted: the string option quotes the number, also without validation; every string of at most 2 bytes.
func Q_C10_quoted() {
	s := symString("s", 2)
	v := struct {
		A json.Number `json:",string"`
	}{json.Number(s)}
	text := s
	if text == "" {
		text = "0"
	}
	is("quoted, no validation", `{"A":"`+text+`"}`, v, jettison.NoNumberValidation())
}
