package main

import (
	"encoding/json"
	"math"
	"strconv"
	"time"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// specDuration is the duration d in the format f.
func specDuration(d time.Duration, f jettison.DurationFmt) string {
	switch f {
	case jettison.DurationString:
		return `"` + d.String() + `"`
	case jettison.DurationMinutes:
		b, _ := json.Marshal(d.Minutes())
		return string(b)
	case jettison.DurationSeconds:
		b, _ := json.Marshal(d.Seconds())
		return string(b)
	case jettison.DurationMilliseconds:
		return strconv.FormatInt(d.Milliseconds(), 10)
	case jettison.DurationMicroseconds:
		return strconv.FormatInt(d.Microseconds(), 10)
	}
	return strconv.FormatInt(int64(d), 10)
}

// Q_C12_value: every int64 duration (the two extremes are in Q_C12_min) in each of the five numeric formats.
func Q_C12_value() {
	f := jettison.DurationFmt(sym.Choose("format", 5) + 1)
	d := time.Duration(sym.Upto("d", math.MaxInt64))
	if sym.Choose("negative", 2) == 1 {
		d = -d - 1
	}
	is("duration", specDuration(d, f), d, jettison.DurationFormat(f))
	if f == jettison.DurationNanoseconds {
		is("default", specDuration(d, f), d)
		same("encoding/json", d)
	}
	sym.Reach("end")
}

// symFrac is any fraction of a second in nanoseconds, written as digits followed by zeros.
func symFrac() int64 {
	z := sym.Choose("zeros", 10)
	if z == 9 {
		return 0
	}
	e := int64(1)
	for i := 0; i < z; i++ {
		e *= 10
	}
	n := sym.Upto("digits", 1000000000/e)
	sym.Assume(n%10 != 0)
	return n * e
}

func stringFormat(d int64) {
	if sym.Choose("negative", 2) == 1 {
		d = -d
	}
	t := time.Duration(d)
	is("string", `"`+t.String()+`"`, t, jettison.DurationFormat(jettison.DurationString))
	sym.Reach("end")
}

// Q_C12_string: the String format of every duration below a second, of every duration of less than 2562047 hours with
// a concrete fraction, and of every fraction above a second.
func Q_C12_string() {
	switch sym.Choose("part", 4) {
	case 0:
		stringFormat(symFrac())
	case 1:
		stringFormat((int64(1+sym.Choose("second", 2)*59)+sym.Upto("minutes", 2)*60)*1e9 + symFrac())
	case 2:
		f := []int64{0, 1, 120000000, 999999999}[sym.Choose("fraction", 4)]
		stringFormat((sym.Upto("hours", 2562047)*3600+sym.Upto("minutes", 60)*60+sym.Upto("seconds", 60))*1e9 + f + 1e9)
	case 3: // near the largest values
		stringFormat(9223372036*1e9 + 854775000 + sym.Upto("last", 808))
	}
}

// T_C12_string: hours, minutes, seconds and fraction together, which is every int64 but the last 5708 seconds of the
// range.
func T_C12_string() {
	stringFormat((sym.Upto("hours", 2562047)*3600+sym.Upto("minutes", 60)*60+sym.Upto("seconds", 60))*1e9 + symFrac())
}

// Q_C12_min: the most negative duration, which has no opposite, and the largest one, in every format.
func Q_C12_min() {
	f := jettison.DurationFmt(sym.Choose("format", 6))
	d := time.Duration([]int64{math.MinInt64, math.MaxInt64}[sym.Choose("d", 2)])
	is("min", specDuration(d, f), d, jettison.DurationFormat(f))
}

// Q_C12_positions: durations of 256 values in four scales (four values in the floating-point formats) in each of the six formats, behind pointers and interfaces,
// in fields, slices, arrays and maps, left out by omitempty when zero only, and with the string option.
func Q_C12_positions() {
	f := jettison.DurationFmt(sym.Choose("format", 6))
	scale := []int64{1, 1e4, 1e8, 3607e9}[sym.Choose("scale", 4)]
	var d time.Duration
	if f == jettison.DurationMinutes || f == jettison.DurationSeconds {
		d = time.Duration([]int64{0, 1, 60, -128}[sym.Choose("d", 4)] * scale)
	} else {
		d = time.Duration(sym.Upto("d", 128) * scale)
		if sym.Choose("negative", 2) == 1 {
			d = -d
		}
	}
	t := specDuration(d, f)
	if sym.Choose("omitempty", 2) == 1 {
		want := `{}`
		if d != 0 {
			want = `{"A":` + t + `,"C":` + t + `}`
		}
		is("omitempty", want, struct {
			A time.Duration  `json:",omitempty"`
			B *time.Duration `json:",omitempty"`
			C time.Duration  `json:",omitempty"`
		}{d, nil, d}, jettison.DurationFormat(f))
		return
	}
	q := t
	if f != jettison.DurationString {
		q = `"` + t + `"`
	}
	is("positions", `{"A":`+t+`,"B":`+t+`,"C":`+t+`,"D":[`+t+`],"E":[`+t+`],"F":{"k":`+t+`},"G":`+q+`}`, struct {
		A time.Duration
		B *time.Duration
		C interface{}
		D []time.Duration
		E [1]time.Duration
		F map[string]time.Duration
		G time.Duration `json:",string"`
	}{d, &d, d, []time.Duration{d}, [1]time.Duration{d}, map[string]time.Duration{"k": d}, d}, jettison.DurationFormat(f))
	sym.Reach("end")
}

type (
	durA   time.Duration
	durStr struct {
		A *time.Duration  `json:",string"`
		B **time.Duration `json:",string"`
		C interface{}     `json:",string"`
		D []time.Duration `json:",string"`
		E *time.Duration  `json:",string,omitempty"`
		F *time.Duration  `json:",string,omitnil"`
		G durA            `json:",string"`
		H *durA           `json:",string"`
		I time.Duration   `json:"i,omitempty,string"`
	}
	durEmb struct {
		*durStr
		time.Duration `json:",string"`
	}
)

// Q_C12_quoted: the string option on durations behind one pointer (quoted), and on what is no duration (not, or an
// integer's): two pointers, interfaces, lists, types defined from Duration; in each of the six formats, 128 values in two
// scales, promoted or not, nil pointers.
func Q_C12_quoted() {
	f := jettison.DurationFmt(sym.Choose("format", 6))
	d := time.Duration([]int64{1, 1e9, -3600e9, 60e9, 90061001001001}[sym.Choose("d", 5)])
	if f != jettison.DurationMinutes && f != jettison.DurationSeconds && sym.Choose("symbolic", 2) == 1 {
		d = time.Duration((1 + sym.Upto("n", 127)) * []int64{1, 1e6}[sym.Choose("scale", 2)])
	}
	t := specDuration(d, f)
	q := t
	if f != jettison.DurationString {
		q = `"` + t + `"`
	}
	n := specDuration(d, jettison.DurationNanoseconds)
	a, p := durA(d), &d
	s := durStr{A: p, B: &p, C: d, D: []time.Duration{d}, E: p, F: p, G: a, H: &a, I: d}
	w := `"A":` + q + `,"B":` + t + `,"C":` + t + `,"D":[` + t + `],"E":` + q + `,"F":` + q + `,"G":"` + n + `","H":"` + n + `","i":` + q
	o := jettison.DurationFormat(f)
	is("value", `{`+w+`}`, s, o)
	is("pointer", `{`+w+`}`, &s, o)
	is("promoted", `{`+w+`,"Duration":`+q+`}`, durEmb{&s, d}, o)
	is("nil", `{"A":null,"B":null,"C":null,"D":null,"G":"0","H":null}`, durStr{}, o)
	sym.Reach("end")
}
