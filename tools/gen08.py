#!/usr/bin/env python3
"""Generates harness/c08types.go: types implementing the marshaler interfaces by value (v) or pointer (p) receiver."""
import itertools, os
M = ["AppendJSONContext", "AppendJSON", "MarshalJSON", "MarshalText"]
kinds = {  # kind: (go type, receiver text expr of x, constructor of (s string, n int), default JSON expr or None)
 "S": ("struct {\n\tS string\n\tN int\n}", "x.S", "{T}{{s, n}}", '`{"S":"` + s + `","N":` + dig(n) + `}`'),
 "I": ("int", "dig(int(x))", "{T}(n)", "dig(n)"),
 "Str": ("string", "string(x)", "{T}(s)", '`"` + s + `"`'),
 "M": ("map[string]int", "dig(x[\"k\"])", "{T}{{\"k\": n}}", '`{"k":` + dig(n) + `}`'),
 "L": ("[]int", "dig(len(x)) + dig(first(x))", "{T}{{n}}", '`[` + dig(n) + `]`'),
 "P": ("struct{ P *int }", "dig(deref(x.P))", "{T}{{&n}}", '`{"P":` + dig(n) + `}`'),
 "A": ("[1]*int", "dig(deref(x[0]))", "{T}{{&n}}", '`[` + dig(n) + `]`'),
 "F": ("func() int", "dig(callF(x))", "{T}(func() int {{ return n }})", '""'),
 "C": ("chan int", "dig(cap(x))", "{T}(make(chan int, 2))", '""'),
 "E": ("struct{}", '"e"', "{T}{{}}", '"{}"'),
 "B": ("bool", 'bol(bool(x))', "{T}(n > 4)", "bol(n > 4)"),
 "A3": ("[3]uint16", "dig(int(x[2]))", "{T}{{1, 2, uint16(n)}}", '`[1,2,` + dig(n) + `]`'),
}
zeros = {"S": '{"S":"","N":0}', "I": "0", "Str": '""', "M": "null", "L": "null", "P": '{"P":null}', "A": "[null]", "F": "", "C": "", "E": "{}", "B": "false", "A3": "[0,0,0]"}
few = ["vnnn", "pnnn", "nvnn", "npnn", "nnvn", "nnpn", "nnnv", "nnnp", "npvn", "pvnn", "nnpv", "pnnv"]
out = ["// Code generated by tools/gen08.py. DO NOT EDIT.", "", "package main", "", 'import (\n\t"context"\n\n\t"verifharness/sym"\n)', ""]
tab = []
for k, (ty, rx, con, dj) in kinds.items():
    codes = ["".join(c) for c in itertools.product("nvp", repeat=4) if set(c) != {"n"}] if k == "S" else few
    for c in codes:
        T = f"m{k}_{c}"
        out.append(f"type {T} {ty}\n")
        for m, r in zip(M, c):
            if r == "n": continue
            if r == "v":
                recv, pre = f"(x {T})", ""
            else:
                recv, pre = f"(p *{T})", "seenPtr = unsafe.Pointer(p)\n\tx := *p\n\t_ = x\n\t"
            if m == "AppendJSONContext":
                out.append(f"func {recv} {m}(c context.Context, b []byte) ([]byte, error) {{\n\t{pre}return sayApp(b, ctxText(c)+{rx}), sayErr()\n}}\n")
            elif m == "AppendJSON":
                out.append(f"func {recv} {m}(b []byte) ([]byte, error) {{\n\t{pre}return sayApp(b, \"A\"+{rx}), sayErr()\n}}\n")
            elif m == "MarshalJSON":
                out.append(f"func {recv} {m}() ([]byte, error) {{\n\t{pre}return []byte(`\"J` + {rx} + `\"`), sayErr()\n}}\n")
            else:
                out.append(f"func {recv} {m}() ([]byte, error) {{\n\t{pre}return []byte(`T` + {rx}), sayErr()\n}}\n")
        cexp = con.format(T=T)
        rexp = "x" 
        tab.append((k, f'\t{{"{T}", "{c}", "{k}", func(s string, n int) *mcase {{ x := {cexp}; return newCase(x, "{c}", {rx}, {dj}, {"false" if k in "FC" else "true"}) }}, func() *mcase {{ var x {T}; return newCase(x, "{c}", {rx}, `{zeros[k]}`, {"false" if k in "FC" else "true"}) }}}},'))
out.append("var marshalTypes = []mtype{")
out += [t for _, t in tab]
out.append("}")
src = "\n".join(out)
src = src.replace('"context"\n\n\t"verifharness/sym"\n', '"context"\n\t"unsafe"\n')
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/c08types.go")
open(p, "w").write(src + "\n")
print(len(tab))
