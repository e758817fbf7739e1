meths=['Error() string { calls++; return "!" }','String() string { calls++; return "!" }','GoString() string { calls++; return "!" }',
'MarshalBinary() ([]byte, error) { calls++; return []byte("1"), nil }','GobEncode() ([]byte, error) { calls++; return []byte("1"), nil }',
'MarshalYAML() (interface{}, error) { calls++; return "!", nil }','Value() (interface{}, error) { calls++; return "!", nil }','IsZero() bool { calls++; return true }','IsNil() bool { calls++; return true }',
'Unwrap() error { calls++; return nil }','Len() int { calls++; return 0 }','UnmarshalJSON([]byte) error { calls++; return nil }','UnmarshalText([]byte) error { calls++; return nil }','JSON() []byte { calls++; return []byte("1") }','WriteTo(io.Writer) (int64, error) { calls++; return 0, nil }']
wrong=['MarshalJSON() []byte { calls++; return []byte("1") }','MarshalText() (string, error) { calls++; return "!", nil }','AppendJSON([]byte) []byte { calls++; return []byte("1") }','AppendJSONContext([]byte) ([]byte, error) { calls++; return []byte("1"), nil }', 'AppendText([]byte) ([]byte, error) { calls++; return []byte("1"), nil }','EncodeJSON() ([]byte, error) { calls++; return []byte("1"), nil }','MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }','marshalJSON() ([]byte, error) { calls++; return []byte("1"), nil }']
types=[('S','struct{ A int }'),('I','int'),('Str','string'),('M','map[string]int'),('L','[]int'),('B','bool'),('F','float64'),('A','[1]int'),('P','struct{ P *int }')]
out=['''package main

import (
	"context"
	"fmt"
	"io"
	"sync"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// Types with methods that have nothing to do with marshaling, or that are named as the marshalers' but have other
// signatures: none may be called.
type (''']
for n,u in types:
    for v in ('v','p','w'):
        out.append(f'\talien{v}{n} {u}')
out.append(')\n')
for n,u in types:
    for v in ('v','p','w'):
        r='*' if v=='p' else ''
        for m in (wrong if v=='w' else meths):
            out.append(f'func ({r}alien{v}{n}) {m}')
        out.append('')
out.append('''type (
	alienT[T any] struct {
		F T
		O T `json:",omitempty"`
		Q T `json:",string"`
	}
	alienEmb[T any] struct {
		alienT[T]
		P *T `json:"p,omitnil"`
	}
	alienKept struct {
		E error        `json:",omitempty"`
		S fmt.Stringer `json:",string"`
		Z interface{ IsZero() bool }
		I interface{} `json:",omitempty"`
	}
)

// aliens is x, of which the encoding is want, in several positions: how it is encoded is in w.
func aliens[T any](x T, want, quoted string) func(i int) (v interface{}, w string) {
	if quoted == "" {
		quoted = want
	}
	f := `"F":` + want + `,"O":` + want + `,"Q":` + quoted
	return func(i int) (interface{}, string) {
		switch i {
		case 0:
			return x, want
		case 1:
			return &x, want
		case 2:
			return []T{x, x}, `[` + want + `,` + want + `]`
		case 3:
			return [1]T{x}, `[` + want + `]`
		case 4:
			return map[string]T{"k": x}, `{"k":` + want + `}`
		case 5:
			return alienT[T]{x, x, x}, `{` + f + `}`
		case 6:
			return &alienT[T]{x, x, x}, `{` + f + `}`
		case 7:
			return &alienEmb[T]{alienT[T]{x, x, x}, &x}, `{` + f + `,"p":` + want + `}`
		case 8:
			return []*T{&x, nil}, `[` + want + `,null]`
		case 9:
			return []interface{}{x, &x}, `[` + want + `,` + want + `]`
		case 10:
			m := &sync.Map{}
			m.Store("k", x)
			return m, `{"k":` + want + `}`
		case 11:
			e, _ := interface{}(&x).(error)
			s, _ := interface{}(&x).(fmt.Stringer)
			z, _ := interface{}(&x).(interface{ IsZero() bool })
			if e == nil {
				return nil, "null"
			}
			return alienKept{e, s, z, &x}, `{"E":` + want + `,"S":` + want + `,"Z":` + want + `,"I":` + want + `}`
		case 12:
			e, _ := interface{}(x).(error)
			s, _ := interface{}(x).(fmt.Stringer)
			z, _ := interface{}(x).(interface{ IsZero() bool })
			if e == nil {
				return nil, "null"
			}
			return &alienKept{e, s, z, x}, `{"E":` + want + `,"S":` + want + `,"Z":` + want + `,"I":` + want + `}`
		case 13:
			e, _ := interface{}(&x).(error)
			s, _ := interface{}(&x).(fmt.Stringer)
			if e == nil {
				return nil, "null"
			}
			return map[string]interface{}{"a": []error{e, nil}, "b": [1]fmt.Stringer{s}, "c": map[string]error{"k": e}, "d": &e}, `{"a":[` + want + `,null],"b":[` + want + `],"c":{"k":` + want + `},"d":` + want + `}`
		default:
			e, _ := interface{}(x).(error)
			s, _ := interface{}(x).(fmt.Stringer)
			if e == nil {
				return nil, "null"
			}
			return []interface{}{[]error{e, nil}, [2]fmt.Stringer{s, s}, map[string]fmt.Stringer{"k": s}, &s}, `[[` + want + `,null],[` + want + `,` + want + `],{"k":` + want + `},` + want + `]`
		}
	}
}

// Q_C08_aliens: values of 27 types of 9 kinds with methods that are no marshaler's (Error, String, IsZero, MarshalBinary,
// and MarshalJSON, AppendJSON and so on with other signatures; by value or pointer receiver) in 15 positions, of which
// 4 are in interface types with such methods: encoded as their kind, no method is called.
func Q_C08_aliens() {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	d := dig(n)
	var f func(int) (interface{}, string)
	switch sym.Choose("type", 27) {''')
k=0
vals={'S':('{n}','`{"A":` + d + `}`','""'),'I':('(n)','d','`"` + d + `"`'),'Str':('(s)','`"` + s + `"`','`"\\"` + s + `\\""`'),'M':('{s: n}','`{"` + s + `":` + d + `}`','""'),
'L':('{n}','`[` + d + `]`','""'),'B':('(true)','"true"','`"true"`'),'F':('(1.5)','"1.5"','`"1.5"`'),'A':('{n}','`[` + d + `]`','""'),'P':('{&n}','`{"P":` + d + `}`','""')}
for n,u in types:
    for v in ('v','p','w'):
        a=vals[n]
        if k==0: pass
        out.append(f'\tcase {k}:\n\t\tf = aliens(alien{v}{n}{a[0]}, {a[1]}, {a[2]})')
        k+=1
out.append('''	}
	sym.Assume(n > 0 || sym.Bool("zero"))
	p := sym.Choose("position", 15)
	v, w := f(p)
	calls = 0
	if n == 0 && p != 10 || w == "null" {
		// Zero values are left out: how encoding/json does.
		same("zero", v)
	} else {
		is("alien", w, v)
	}
	sym.Assert("no method is called", calls == 0)
	sym.Reach("end")
}

// Q_C08_alienKeys: the same types as map keys.
func Q_C08_alienKeys() {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	m := &sync.Map{}
	var v interface{}
	w := dig(n)
	switch sym.Choose("type", 7) {
	case 0:
		v = map[alienvI]int{alienvI(n): 1}
		m.Store(alienvI(n), 1)
	case 1:
		v = map[alienpI]int{alienpI(n): 1}
		m.Store(alienpI(n), 1)
	case 2:
		v = map[alienwI]int{alienwI(n): 1}
		m.Store(alienwI(n), 1)
	case 3:
		v, w = map[alienvStr]int{alienvStr(s): 1}, s
		m.Store(alienvStr(s), 1)
	case 4:
		v, w = map[alienpStr]int{alienpStr(s): 1}, s
		m.Store(alienpStr(s), 1)
	case 5:
		v, w = map[alienwStr]int{alienwStr(s): 1}, s
		m.Store(alienwStr(s), 1)
	case 6:
		// Keys of these interface types are no strings, integers or text marshalers.
		fails("error keys", map[error]int{alienvStr(s): 1})
		fails("struct key", map[alienvS]int{{n}: 1})
		v = map[string]int{w: 1}
		m.Store(w, 1)
	}
	calls = 0
	var o []jettison.Option
	if sym.Choose("unsorted", 2) == 1 {
		o = append(o, jettison.UnsortedMap())
	}
	is("map", `{"`+w+`":1}`, v, o...)
	is("sync.Map", `{"`+w+`":1}`, m, o...)
	is("in a field", `{"E":{"`+w+`":1}}`, struct{ E interface{} }{v}, o...)
	sym.Assert("no method is called", calls == 0)
	sym.Reach("end")
}
''')
open(__file__.rsplit('/',2)[0]+'/harness/c08alien.go','w').write('\n'.join(out))
