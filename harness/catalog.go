package main

import (
	"context"
	"encoding/json"
	"errors"
	"math"
	"sync"
	"time"

	"github.com/wI2L/jettison"
)

// The catalogue: values of every kind, with a symbolic letter s and digit n inside; the failing ones fail after some output.

type (
	catSmall struct {
		A int
		B string
		C *int
	}
	catOmit struct {
		A int     `json:"a,omitempty"`
		B *int    `json:"b,omitnil"`
		C catNull `json:"c,omitnil"`
		D string  `json:"d"`
		E []int   `json:"e,omitempty"`
		F catNull `json:",omitnil"`
	}
	catNull struct{ null bool }
	catList struct {
		V    string
		Next *catList
		M    map[string]*catList
	}
	catNamed []catNamed
	catTimes struct {
		T time.Time
		D time.Duration
		P *time.Time
	}
	catNums struct {
		A int8
		B uint64
		C float64
		D float32
		E json.Number
		F int    `json:",string"`
		G string `json:",string"`
		H bool   `json:",string"`
	}
	catBad struct {
		A string
		B interface{}
		C chan int `json:"c,omitempty"`
	}
	catEmb struct {
		catSmall
		*catOmit
		X interface{}
	}
	catApp struct{ s string }
)

func (c catNull) MarshalJSON() ([]byte, error) {
	if c.null {
		return []byte("null"), nil
	}
	return []byte(`{ "k" : 1 }`), nil
}

func (c catApp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	if c.s == "" {
		return append(b, "partial"...), errSay
	}
	return sayApp(b, c.s), nil
}

type catItem struct {
	name string
	mk   func(s string, n int) interface{}
	fail bool // encoding is an error
}

type failText struct{}

func (failText) MarshalText() ([]byte, error) { return []byte("x"), errors.New("no text") }

type badJSON struct{ s string }

func (b *badJSON) MarshalJSON() ([]byte, error) { return []byte(`{"a":` + b.s), nil }

var catalog = []catItem{
	{"nil", func(s string, n int) interface{} { return nil }, false},
	{"int", func(s string, n int) interface{} { return n - 5 }, false},
	{"string", func(s string, n int) interface{} { return "<" + s + "\"\xff\u2028" }, false},
	{"small", func(s string, n int) interface{} { return catSmall{n, s, &n} }, false},
	{"small pointer", func(s string, n int) interface{} { return &catSmall{n, s, nil} }, false},
	{"omit", func(s string, n int) interface{} {
		return catOmit{A: n % 2, C: catNull{n > 4}, D: s, F: catNull{n > 2}}
	}, false},
	{"omit pointer", func(s string, n int) interface{} {
		return &catOmit{B: &n, C: catNull{n > 4}, D: s, E: []int{1}, F: catNull{true}}
	}, false},
	{"list", func(s string, n int) interface{} {
		return &catList{s, &catList{"b", nil, nil}, map[string]*catList{"x": {s, nil, nil}}}
	}, false},
	{"named", func(s string, n int) interface{} { return catNamed{nil, {}, {{}, nil}} }, false},
	{"times", func(s string, n int) interface{} {
		t := time.Unix(int64(n), 5e8).UTC()
		return &catTimes{t, time.Duration(n) * 1500, &t}
	}, false},
	{"numbers", func(s string, n int) interface{} {
		return &catNums{int8(-n), math.MaxUint64, 1e-9, 1.5e22, "-1.5e3", n, s, n > 4}
	}, false},
	{"bytes", func(s string, n int) interface{} { return []byte(s + "bcd") }, false},
	{"bytes in a slice", func(s string, n int) interface{} { return [][]byte{nil, {}, {1}, []byte(s + "b"), []byte(s + "bc")} }, false},
	{"byte array", func(s string, n int) interface{} { return [3]byte{1, byte(n), s[0]} }, false},
	{"map", func(s string, n int) interface{} { return map[string]int{"<b": n, "A" + s: 2, "": 3} }, false},
	{"map of maps", func(s string, n int) interface{} { return map[int]map[string][]byte{n: {s: []byte("x")}, -1: nil} }, false},
	{"empty map", func(s string, n int) interface{} { return []map[string]int{nil, {}} }, false},
	{"sync.Map", func(s string, n int) interface{} {
		m := &sync.Map{}
		m.Store(s, n)
		m.Store("B", map[string]int{"k": n})
		return m
	}, false},
	{"raw", func(s string, n int) interface{} { return json.RawMessage(` { "` + s + `<" : [ 1 ] } `) }, false},
	{"marshaler", func(s string, n int) interface{} {
		return []interface{}{catNull{false}, &catNull{true}, mS_nnnv{s, n}, catApp{s}}
	}, false},
	{"embedded", func(s string, n int) interface{} {
		return catEmb{catSmall{n, s, nil}, &catOmit{D: s, C: catNull{true}}, []interface{}{s, nil, 1.5}}
	}, false},
	{"pointer-shaped", func(s string, n int) interface{} { return [1]*int{&n} }, false},
	{"array", func(s string, n int) interface{} {
		return [2]interface{}{map[string]interface{}{s: []string{s, s}}, &n}
	}, false},
	{"empty struct", func(s string, n int) interface{} { return []interface{}{struct{}{}, [0]int{}, []struct{}{{}, {}}} }, false},
	{"typed nil", func(s string, n int) interface{} { return (*catSmall)(nil) }, false},

	{"channel", func(s string, n int) interface{} { return make(chan int, 1) }, true},
	{"channel field", func(s string, n int) interface{} { return catBad{A: s, C: make(chan int, 1)} }, true},
	{"func inside", func(s string, n int) interface{} { return []interface{}{1, s, catBad{s, func() {}, nil}} }, true},
	{"bad number", func(s string, n int) interface{} {
		return map[string]interface{}{"a": s, "b": json.Number(s), "c": []byte("x")}
	}, true},
	{"bad float", func(s string, n int) interface{} { return []float64{1, math.NaN()} }, true},
	{"bad marshaler", func(s string, n int) interface{} { return []*badJSON{nil, {s + "]"}} }, true},
	{"bad text", func(s string, n int) interface{} {
		return map[string]interface{}{"a": map[string]interface{}{"b": failText{}}}
	}, true},
	{"bad append", func(s string, n int) interface{} { return &catEmb{X: []interface{}{s, catApp{}}} }, true},
	{"bad key", func(s string, n int) interface{} { return []interface{}{s, map[float64]int{1: 1}} }, true},
	{"bad raw", func(s string, n int) interface{} { return struct{ A, B interface{} }{s, json.RawMessage("{")} }, true},
	{"bad sync.Map", func(s string, n int) interface{} {
		m := &sync.Map{}
		m.Store("a", 1)
		m.Store(1.5, s)
		return []interface{}{s, m}
	}, true},
	{"bad sync.Map value", func(s string, n int) interface{} {
		m := &sync.Map{}
		m.Store("a", map[int]interface{}{1: func() {}})
		return m
	}, true},
	{"year", func(s string, n int) interface{} { return map[string]time.Time{s: time.Unix(1<<40, 0).UTC()} }, true},
}

var catOpts = [][]jettison.Option{
	nil,
	{nil},
	{jettison.NoHTMLEscaping(), jettison.RawByteSlice()},
	{jettison.UnixTime(), jettison.NoNumberValidation(), jettison.NilMapEmpty(), jettison.ByteArrayAsString()},
	{jettison.DenyList([]string{"A", "d"}), jettison.DurationFormat(jettison.DurationString), jettison.NilSliceEmpty()},
}
