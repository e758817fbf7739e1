// Code generated by tools/gen08.py. DO NOT EDIT.

package main

import (
	"context"
	"unsafe"
)

type mS_nnnv struct {
	S string
	N int
}

func (x mS_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nnnp struct {
	S string
	N int
}

func (p *mS_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nnvn struct {
	S string
	N int
}

func (x mS_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_nnvv struct {
	S string
	N int
}

func (x mS_nnvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_nnvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nnvp struct {
	S string
	N int
}

func (x mS_nnvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_nnvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nnpn struct {
	S string
	N int
}

func (p *mS_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_nnpv struct {
	S string
	N int
}

func (p *mS_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nnpp struct {
	S string
	N int
}

func (p *mS_nnpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_nnpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nvnn struct {
	S string
	N int
}

func (x mS_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_nvnv struct {
	S string
	N int
}

func (x mS_nvnv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_nvnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nvnp struct {
	S string
	N int
}

func (x mS_nvnp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nvnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nvvn struct {
	S string
	N int
}

func (x mS_nvvn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_nvvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_nvvv struct {
	S string
	N int
}

func (x mS_nvvv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_nvvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_nvvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nvvp struct {
	S string
	N int
}

func (x mS_nvvp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_nvvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_nvvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nvpn struct {
	S string
	N int
}

func (x mS_nvpn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nvpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_nvpv struct {
	S string
	N int
}

func (x mS_nvpv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nvpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_nvpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nvpp struct {
	S string
	N int
}

func (x mS_nvpp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nvpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_nvpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_npnn struct {
	S string
	N int
}

func (p *mS_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_npnv struct {
	S string
	N int
}

func (p *mS_npnv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_npnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_npnp struct {
	S string
	N int
}

func (p *mS_npnp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_npnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_npvn struct {
	S string
	N int
}

func (p *mS_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_npvv struct {
	S string
	N int
}

func (p *mS_npvv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_npvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_npvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_npvp struct {
	S string
	N int
}

func (p *mS_npvp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_npvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_npvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_nppn struct {
	S string
	N int
}

func (p *mS_nppn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nppn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_nppv struct {
	S string
	N int
}

func (p *mS_nppv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nppv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_nppv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_nppp struct {
	S string
	N int
}

func (p *mS_nppp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_nppp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_nppp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vnnn struct {
	S string
	N int
}

func (x mS_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

type mS_vnnv struct {
	S string
	N int
}

func (x mS_vnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vnnp struct {
	S string
	N int
}

func (x mS_vnnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vnvn struct {
	S string
	N int
}

func (x mS_vnvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vnvv struct {
	S string
	N int
}

func (x mS_vnvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vnvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vnvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vnvp struct {
	S string
	N int
}

func (x mS_vnvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vnvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vnvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vnpn struct {
	S string
	N int
}

func (x mS_vnpn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vnpv struct {
	S string
	N int
}

func (x mS_vnpv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vnpp struct {
	S string
	N int
}

func (x mS_vnpp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vnpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vnpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vvnn struct {
	S string
	N int
}

func (x mS_vvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_vvnv struct {
	S string
	N int
}

func (x mS_vvnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvnv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vvnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vvnp struct {
	S string
	N int
}

func (x mS_vvnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvnp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vvnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vvvn struct {
	S string
	N int
}

func (x mS_vvvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvvn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vvvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vvvv struct {
	S string
	N int
}

func (x mS_vvvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvvv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vvvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vvvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vvvp struct {
	S string
	N int
}

func (x mS_vvvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvvp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vvvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vvvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vvpn struct {
	S string
	N int
}

func (x mS_vvpn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvpn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vvpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vvpv struct {
	S string
	N int
}

func (x mS_vvpv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvpv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vvpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vvpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vvpp struct {
	S string
	N int
}

func (x mS_vvpp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_vvpp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vvpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vvpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vpnn struct {
	S string
	N int
}

func (x mS_vpnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_vpnv struct {
	S string
	N int
}

func (x mS_vpnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpnv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vpnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vpnp struct {
	S string
	N int
}

func (x mS_vpnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpnp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vpnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vpvn struct {
	S string
	N int
}

func (x mS_vpvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vpvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vpvv struct {
	S string
	N int
}

func (x mS_vpvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpvv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vpvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vpvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vpvp struct {
	S string
	N int
}

func (x mS_vpvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vpvp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_vpvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vpvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_vppn struct {
	S string
	N int
}

func (x mS_vppn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vppn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vppn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_vppv struct {
	S string
	N int
}

func (x mS_vppv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vppv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vppv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_vppv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_vppp struct {
	S string
	N int
}

func (x mS_vppp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_vppp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_vppp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_vppp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pnnn struct {
	S string
	N int
}

func (p *mS_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

type mS_pnnv struct {
	S string
	N int
}

func (p *mS_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pnnp struct {
	S string
	N int
}

func (p *mS_pnnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pnvn struct {
	S string
	N int
}

func (p *mS_pnvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_pnvv struct {
	S string
	N int
}

func (p *mS_pnvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pnvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_pnvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pnvp struct {
	S string
	N int
}

func (p *mS_pnvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pnvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_pnvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pnpn struct {
	S string
	N int
}

func (p *mS_pnpn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_pnpv struct {
	S string
	N int
}

func (p *mS_pnpv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_pnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pnpp struct {
	S string
	N int
}

func (p *mS_pnpp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pnpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_pnpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pvnn struct {
	S string
	N int
}

func (p *mS_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_pvnv struct {
	S string
	N int
}

func (p *mS_pvnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvnv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_pvnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pvnp struct {
	S string
	N int
}

func (p *mS_pvnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvnp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pvnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pvvn struct {
	S string
	N int
}

func (p *mS_pvvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvvn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_pvvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_pvvv struct {
	S string
	N int
}

func (p *mS_pvvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvvv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_pvvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_pvvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pvvp struct {
	S string
	N int
}

func (p *mS_pvvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvvp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_pvvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_pvvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pvpn struct {
	S string
	N int
}

func (p *mS_pvpn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvpn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pvpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_pvpv struct {
	S string
	N int
}

func (p *mS_pvpv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvpv) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pvpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_pvpv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pvpp struct {
	S string
	N int
}

func (p *mS_pvpp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (x mS_pvpp) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pvpp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_pvpp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_ppnn struct {
	S string
	N int
}

func (p *mS_ppnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

type mS_ppnv struct {
	S string
	N int
}

func (p *mS_ppnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppnv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_ppnv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_ppnp struct {
	S string
	N int
}

func (p *mS_ppnp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppnp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_ppnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_ppvn struct {
	S string
	N int
}

func (p *mS_ppvn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_ppvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_ppvv struct {
	S string
	N int
}

func (p *mS_ppvv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppvv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_ppvv) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_ppvv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_ppvp struct {
	S string
	N int
}

func (p *mS_ppvp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_ppvp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (x mS_ppvp) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_ppvp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mS_pppn struct {
	S string
	N int
}

func (p *mS_pppn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pppn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pppn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

type mS_pppv struct {
	S string
	N int
}

func (p *mS_pppv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pppv) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pppv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (x mS_pppv) MarshalText() ([]byte, error) {
	return []byte(`T` + x.S), sayErr()
}

type mS_pppp struct {
	S string
	N int
}

func (p *mS_pppp) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+x.S), sayErr()
}

func (p *mS_pppp) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+x.S), sayErr()
}

func (p *mS_pppp) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + x.S + `"`), sayErr()
}

func (p *mS_pppp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + x.S), sayErr()
}

type mI_vnnn int

func (x mI_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(int(x))), sayErr()
}

type mI_pnnn int

func (p *mI_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x))), sayErr()
}

type mI_nvnn int

func (x mI_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(int(x))), sayErr()
}

type mI_npnn int

func (p *mI_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(int(x))), sayErr()
}

type mI_nnvn int

func (x mI_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(int(x)) + `"`), sayErr()
}

type mI_nnpn int

func (p *mI_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(int(x)) + `"`), sayErr()
}

type mI_nnnv int

func (x mI_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x))), sayErr()
}

type mI_nnnp int

func (p *mI_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(int(x))), sayErr()
}

type mI_npvn int

func (p *mI_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(int(x))), sayErr()
}

func (x mI_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(int(x)) + `"`), sayErr()
}

type mI_pvnn int

func (p *mI_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x))), sayErr()
}

func (x mI_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(int(x))), sayErr()
}

type mI_nnpv int

func (p *mI_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(int(x)) + `"`), sayErr()
}

func (x mI_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x))), sayErr()
}

type mI_pnnv int

func (p *mI_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x))), sayErr()
}

func (x mI_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x))), sayErr()
}

type mStr_vnnn string

func (x mStr_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+string(x)), sayErr()
}

type mStr_pnnn string

func (p *mStr_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+string(x)), sayErr()
}

type mStr_nvnn string

func (x mStr_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+string(x)), sayErr()
}

type mStr_npnn string

func (p *mStr_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+string(x)), sayErr()
}

type mStr_nnvn string

func (x mStr_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + string(x) + `"`), sayErr()
}

type mStr_nnpn string

func (p *mStr_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + string(x) + `"`), sayErr()
}

type mStr_nnnv string

func (x mStr_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + string(x)), sayErr()
}

type mStr_nnnp string

func (p *mStr_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + string(x)), sayErr()
}

type mStr_npvn string

func (p *mStr_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+string(x)), sayErr()
}

func (x mStr_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + string(x) + `"`), sayErr()
}

type mStr_pvnn string

func (p *mStr_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+string(x)), sayErr()
}

func (x mStr_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+string(x)), sayErr()
}

type mStr_nnpv string

func (p *mStr_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + string(x) + `"`), sayErr()
}

func (x mStr_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + string(x)), sayErr()
}

type mStr_pnnv string

func (p *mStr_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+string(x)), sayErr()
}

func (x mStr_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + string(x)), sayErr()
}

type mM_vnnn map[string]int

func (x mM_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(x["k"])), sayErr()
}

type mM_pnnn map[string]int

func (p *mM_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(x["k"])), sayErr()
}

type mM_nvnn map[string]int

func (x mM_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(x["k"])), sayErr()
}

type mM_npnn map[string]int

func (p *mM_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(x["k"])), sayErr()
}

type mM_nnvn map[string]int

func (x mM_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(x["k"]) + `"`), sayErr()
}

type mM_nnpn map[string]int

func (p *mM_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(x["k"]) + `"`), sayErr()
}

type mM_nnnv map[string]int

func (x mM_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(x["k"])), sayErr()
}

type mM_nnnp map[string]int

func (p *mM_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(x["k"])), sayErr()
}

type mM_npvn map[string]int

func (p *mM_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(x["k"])), sayErr()
}

func (x mM_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(x["k"]) + `"`), sayErr()
}

type mM_pvnn map[string]int

func (p *mM_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(x["k"])), sayErr()
}

func (x mM_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(x["k"])), sayErr()
}

type mM_nnpv map[string]int

func (p *mM_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(x["k"]) + `"`), sayErr()
}

func (x mM_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(x["k"])), sayErr()
}

type mM_pnnv map[string]int

func (p *mM_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(x["k"])), sayErr()
}

func (x mM_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(x["k"])), sayErr()
}

type mL_vnnn []int

func (x mL_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(len(x))+dig(first(x))), sayErr()
}

type mL_pnnn []int

func (p *mL_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(len(x))+dig(first(x))), sayErr()
}

type mL_nvnn []int

func (x mL_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(len(x))+dig(first(x))), sayErr()
}

type mL_npnn []int

func (p *mL_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(len(x))+dig(first(x))), sayErr()
}

type mL_nnvn []int

func (x mL_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(len(x)) + dig(first(x)) + `"`), sayErr()
}

type mL_nnpn []int

func (p *mL_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(len(x)) + dig(first(x)) + `"`), sayErr()
}

type mL_nnnv []int

func (x mL_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(len(x)) + dig(first(x))), sayErr()
}

type mL_nnnp []int

func (p *mL_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(len(x)) + dig(first(x))), sayErr()
}

type mL_npvn []int

func (p *mL_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(len(x))+dig(first(x))), sayErr()
}

func (x mL_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(len(x)) + dig(first(x)) + `"`), sayErr()
}

type mL_pvnn []int

func (p *mL_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(len(x))+dig(first(x))), sayErr()
}

func (x mL_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(len(x))+dig(first(x))), sayErr()
}

type mL_nnpv []int

func (p *mL_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(len(x)) + dig(first(x)) + `"`), sayErr()
}

func (x mL_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(len(x)) + dig(first(x))), sayErr()
}

type mL_pnnv []int

func (p *mL_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(len(x))+dig(first(x))), sayErr()
}

func (x mL_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(len(x)) + dig(first(x))), sayErr()
}

type mP_vnnn struct{ P *int }

func (x mP_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(deref(x.P))), sayErr()
}

type mP_pnnn struct{ P *int }

func (p *mP_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x.P))), sayErr()
}

type mP_nvnn struct{ P *int }

func (x mP_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(deref(x.P))), sayErr()
}

type mP_npnn struct{ P *int }

func (p *mP_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(deref(x.P))), sayErr()
}

type mP_nnvn struct{ P *int }

func (x mP_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(deref(x.P)) + `"`), sayErr()
}

type mP_nnpn struct{ P *int }

func (p *mP_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(deref(x.P)) + `"`), sayErr()
}

type mP_nnnv struct{ P *int }

func (x mP_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x.P))), sayErr()
}

type mP_nnnp struct{ P *int }

func (p *mP_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(deref(x.P))), sayErr()
}

type mP_npvn struct{ P *int }

func (p *mP_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(deref(x.P))), sayErr()
}

func (x mP_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(deref(x.P)) + `"`), sayErr()
}

type mP_pvnn struct{ P *int }

func (p *mP_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x.P))), sayErr()
}

func (x mP_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(deref(x.P))), sayErr()
}

type mP_nnpv struct{ P *int }

func (p *mP_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(deref(x.P)) + `"`), sayErr()
}

func (x mP_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x.P))), sayErr()
}

type mP_pnnv struct{ P *int }

func (p *mP_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x.P))), sayErr()
}

func (x mP_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x.P))), sayErr()
}

type mA_vnnn [1]*int

func (x mA_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(deref(x[0]))), sayErr()
}

type mA_pnnn [1]*int

func (p *mA_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x[0]))), sayErr()
}

type mA_nvnn [1]*int

func (x mA_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(deref(x[0]))), sayErr()
}

type mA_npnn [1]*int

func (p *mA_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(deref(x[0]))), sayErr()
}

type mA_nnvn [1]*int

func (x mA_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(deref(x[0])) + `"`), sayErr()
}

type mA_nnpn [1]*int

func (p *mA_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(deref(x[0])) + `"`), sayErr()
}

type mA_nnnv [1]*int

func (x mA_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x[0]))), sayErr()
}

type mA_nnnp [1]*int

func (p *mA_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(deref(x[0]))), sayErr()
}

type mA_npvn [1]*int

func (p *mA_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(deref(x[0]))), sayErr()
}

func (x mA_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(deref(x[0])) + `"`), sayErr()
}

type mA_pvnn [1]*int

func (p *mA_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x[0]))), sayErr()
}

func (x mA_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(deref(x[0]))), sayErr()
}

type mA_nnpv [1]*int

func (p *mA_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(deref(x[0])) + `"`), sayErr()
}

func (x mA_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x[0]))), sayErr()
}

type mA_pnnv [1]*int

func (p *mA_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(deref(x[0]))), sayErr()
}

func (x mA_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(deref(x[0]))), sayErr()
}

type mF_vnnn func() int

func (x mF_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(callF(x))), sayErr()
}

type mF_pnnn func() int

func (p *mF_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(callF(x))), sayErr()
}

type mF_nvnn func() int

func (x mF_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(callF(x))), sayErr()
}

type mF_npnn func() int

func (p *mF_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(callF(x))), sayErr()
}

type mF_nnvn func() int

func (x mF_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(callF(x)) + `"`), sayErr()
}

type mF_nnpn func() int

func (p *mF_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(callF(x)) + `"`), sayErr()
}

type mF_nnnv func() int

func (x mF_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(callF(x))), sayErr()
}

type mF_nnnp func() int

func (p *mF_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(callF(x))), sayErr()
}

type mF_npvn func() int

func (p *mF_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(callF(x))), sayErr()
}

func (x mF_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(callF(x)) + `"`), sayErr()
}

type mF_pvnn func() int

func (p *mF_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(callF(x))), sayErr()
}

func (x mF_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(callF(x))), sayErr()
}

type mF_nnpv func() int

func (p *mF_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(callF(x)) + `"`), sayErr()
}

func (x mF_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(callF(x))), sayErr()
}

type mF_pnnv func() int

func (p *mF_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(callF(x))), sayErr()
}

func (x mF_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(callF(x))), sayErr()
}

type mC_vnnn chan int

func (x mC_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(cap(x))), sayErr()
}

type mC_pnnn chan int

func (p *mC_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(cap(x))), sayErr()
}

type mC_nvnn chan int

func (x mC_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(cap(x))), sayErr()
}

type mC_npnn chan int

func (p *mC_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(cap(x))), sayErr()
}

type mC_nnvn chan int

func (x mC_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(cap(x)) + `"`), sayErr()
}

type mC_nnpn chan int

func (p *mC_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(cap(x)) + `"`), sayErr()
}

type mC_nnnv chan int

func (x mC_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(cap(x))), sayErr()
}

type mC_nnnp chan int

func (p *mC_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(cap(x))), sayErr()
}

type mC_npvn chan int

func (p *mC_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(cap(x))), sayErr()
}

func (x mC_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(cap(x)) + `"`), sayErr()
}

type mC_pvnn chan int

func (p *mC_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(cap(x))), sayErr()
}

func (x mC_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(cap(x))), sayErr()
}

type mC_nnpv chan int

func (p *mC_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(cap(x)) + `"`), sayErr()
}

func (x mC_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(cap(x))), sayErr()
}

type mC_pnnv chan int

func (p *mC_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(cap(x))), sayErr()
}

func (x mC_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(cap(x))), sayErr()
}

type mE_vnnn struct{}

func (x mE_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+"e"), sayErr()
}

type mE_pnnn struct{}

func (p *mE_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+"e"), sayErr()
}

type mE_nvnn struct{}

func (x mE_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+"e"), sayErr()
}

type mE_npnn struct{}

func (p *mE_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+"e"), sayErr()
}

type mE_nnvn struct{}

func (x mE_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + "e" + `"`), sayErr()
}

type mE_nnpn struct{}

func (p *mE_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + "e" + `"`), sayErr()
}

type mE_nnnv struct{}

func (x mE_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + "e"), sayErr()
}

type mE_nnnp struct{}

func (p *mE_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + "e"), sayErr()
}

type mE_npvn struct{}

func (p *mE_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+"e"), sayErr()
}

func (x mE_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + "e" + `"`), sayErr()
}

type mE_pvnn struct{}

func (p *mE_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+"e"), sayErr()
}

func (x mE_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+"e"), sayErr()
}

type mE_nnpv struct{}

func (p *mE_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + "e" + `"`), sayErr()
}

func (x mE_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + "e"), sayErr()
}

type mE_pnnv struct{}

func (p *mE_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+"e"), sayErr()
}

func (x mE_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + "e"), sayErr()
}

type mB_vnnn bool

func (x mB_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+bol(bool(x))), sayErr()
}

type mB_pnnn bool

func (p *mB_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+bol(bool(x))), sayErr()
}

type mB_nvnn bool

func (x mB_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+bol(bool(x))), sayErr()
}

type mB_npnn bool

func (p *mB_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+bol(bool(x))), sayErr()
}

type mB_nnvn bool

func (x mB_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + bol(bool(x)) + `"`), sayErr()
}

type mB_nnpn bool

func (p *mB_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + bol(bool(x)) + `"`), sayErr()
}

type mB_nnnv bool

func (x mB_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + bol(bool(x))), sayErr()
}

type mB_nnnp bool

func (p *mB_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + bol(bool(x))), sayErr()
}

type mB_npvn bool

func (p *mB_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+bol(bool(x))), sayErr()
}

func (x mB_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + bol(bool(x)) + `"`), sayErr()
}

type mB_pvnn bool

func (p *mB_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+bol(bool(x))), sayErr()
}

func (x mB_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+bol(bool(x))), sayErr()
}

type mB_nnpv bool

func (p *mB_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + bol(bool(x)) + `"`), sayErr()
}

func (x mB_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + bol(bool(x))), sayErr()
}

type mB_pnnv bool

func (p *mB_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+bol(bool(x))), sayErr()
}

func (x mB_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + bol(bool(x))), sayErr()
}

type mA3_vnnn [3]uint16

func (x mA3_vnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return sayApp(b, ctxText(c)+dig(int(x[2]))), sayErr()
}

type mA3_pnnn [3]uint16

func (p *mA3_pnnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x[2]))), sayErr()
}

type mA3_nvnn [3]uint16

func (x mA3_nvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(int(x[2]))), sayErr()
}

type mA3_npnn [3]uint16

func (p *mA3_npnn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(int(x[2]))), sayErr()
}

type mA3_nnvn [3]uint16

func (x mA3_nnvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(int(x[2])) + `"`), sayErr()
}

type mA3_nnpn [3]uint16

func (p *mA3_nnpn) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(int(x[2])) + `"`), sayErr()
}

type mA3_nnnv [3]uint16

func (x mA3_nnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x[2]))), sayErr()
}

type mA3_nnnp [3]uint16

func (p *mA3_nnnp) MarshalText() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`T` + dig(int(x[2]))), sayErr()
}

type mA3_npvn [3]uint16

func (p *mA3_npvn) AppendJSON(b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, "A"+dig(int(x[2]))), sayErr()
}

func (x mA3_npvn) MarshalJSON() ([]byte, error) {
	return []byte(`"J` + dig(int(x[2])) + `"`), sayErr()
}

type mA3_pvnn [3]uint16

func (p *mA3_pvnn) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x[2]))), sayErr()
}

func (x mA3_pvnn) AppendJSON(b []byte) ([]byte, error) {
	return sayApp(b, "A"+dig(int(x[2]))), sayErr()
}

type mA3_nnpv [3]uint16

func (p *mA3_nnpv) MarshalJSON() ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return []byte(`"J` + dig(int(x[2])) + `"`), sayErr()
}

func (x mA3_nnpv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x[2]))), sayErr()
}

type mA3_pnnv [3]uint16

func (p *mA3_pnnv) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	seenPtr = unsafe.Pointer(p)
	x := *p
	_ = x
	return sayApp(b, ctxText(c)+dig(int(x[2]))), sayErr()
}

func (x mA3_pnnv) MarshalText() ([]byte, error) {
	return []byte(`T` + dig(int(x[2]))), sayErr()
}

var marshalTypes = []mtype{
	{"mS_nnnv", "nnnv", "S", func(s string, n int) *mcase {
		x := mS_nnnv{s, n}
		return newCase(x, "nnnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnnv; return newCase(x, "nnnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnnp", "nnnp", "S", func(s string, n int) *mcase {
		x := mS_nnnp{s, n}
		return newCase(x, "nnnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnnp; return newCase(x, "nnnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnvn", "nnvn", "S", func(s string, n int) *mcase {
		x := mS_nnvn{s, n}
		return newCase(x, "nnvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnvn; return newCase(x, "nnvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnvv", "nnvv", "S", func(s string, n int) *mcase {
		x := mS_nnvv{s, n}
		return newCase(x, "nnvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnvv; return newCase(x, "nnvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnvp", "nnvp", "S", func(s string, n int) *mcase {
		x := mS_nnvp{s, n}
		return newCase(x, "nnvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnvp; return newCase(x, "nnvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnpn", "nnpn", "S", func(s string, n int) *mcase {
		x := mS_nnpn{s, n}
		return newCase(x, "nnpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnpn; return newCase(x, "nnpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnpv", "nnpv", "S", func(s string, n int) *mcase {
		x := mS_nnpv{s, n}
		return newCase(x, "nnpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnpv; return newCase(x, "nnpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nnpp", "nnpp", "S", func(s string, n int) *mcase {
		x := mS_nnpp{s, n}
		return newCase(x, "nnpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nnpp; return newCase(x, "nnpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvnn", "nvnn", "S", func(s string, n int) *mcase {
		x := mS_nvnn{s, n}
		return newCase(x, "nvnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvnn; return newCase(x, "nvnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvnv", "nvnv", "S", func(s string, n int) *mcase {
		x := mS_nvnv{s, n}
		return newCase(x, "nvnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvnv; return newCase(x, "nvnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvnp", "nvnp", "S", func(s string, n int) *mcase {
		x := mS_nvnp{s, n}
		return newCase(x, "nvnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvnp; return newCase(x, "nvnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvvn", "nvvn", "S", func(s string, n int) *mcase {
		x := mS_nvvn{s, n}
		return newCase(x, "nvvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvvn; return newCase(x, "nvvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvvv", "nvvv", "S", func(s string, n int) *mcase {
		x := mS_nvvv{s, n}
		return newCase(x, "nvvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvvv; return newCase(x, "nvvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvvp", "nvvp", "S", func(s string, n int) *mcase {
		x := mS_nvvp{s, n}
		return newCase(x, "nvvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvvp; return newCase(x, "nvvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvpn", "nvpn", "S", func(s string, n int) *mcase {
		x := mS_nvpn{s, n}
		return newCase(x, "nvpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvpn; return newCase(x, "nvpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvpv", "nvpv", "S", func(s string, n int) *mcase {
		x := mS_nvpv{s, n}
		return newCase(x, "nvpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvpv; return newCase(x, "nvpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nvpp", "nvpp", "S", func(s string, n int) *mcase {
		x := mS_nvpp{s, n}
		return newCase(x, "nvpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nvpp; return newCase(x, "nvpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npnn", "npnn", "S", func(s string, n int) *mcase {
		x := mS_npnn{s, n}
		return newCase(x, "npnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npnn; return newCase(x, "npnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npnv", "npnv", "S", func(s string, n int) *mcase {
		x := mS_npnv{s, n}
		return newCase(x, "npnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npnv; return newCase(x, "npnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npnp", "npnp", "S", func(s string, n int) *mcase {
		x := mS_npnp{s, n}
		return newCase(x, "npnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npnp; return newCase(x, "npnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npvn", "npvn", "S", func(s string, n int) *mcase {
		x := mS_npvn{s, n}
		return newCase(x, "npvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npvn; return newCase(x, "npvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npvv", "npvv", "S", func(s string, n int) *mcase {
		x := mS_npvv{s, n}
		return newCase(x, "npvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npvv; return newCase(x, "npvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_npvp", "npvp", "S", func(s string, n int) *mcase {
		x := mS_npvp{s, n}
		return newCase(x, "npvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_npvp; return newCase(x, "npvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nppn", "nppn", "S", func(s string, n int) *mcase {
		x := mS_nppn{s, n}
		return newCase(x, "nppn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nppn; return newCase(x, "nppn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nppv", "nppv", "S", func(s string, n int) *mcase {
		x := mS_nppv{s, n}
		return newCase(x, "nppv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nppv; return newCase(x, "nppv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_nppp", "nppp", "S", func(s string, n int) *mcase {
		x := mS_nppp{s, n}
		return newCase(x, "nppp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_nppp; return newCase(x, "nppp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnnn", "vnnn", "S", func(s string, n int) *mcase {
		x := mS_vnnn{s, n}
		return newCase(x, "vnnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnnn; return newCase(x, "vnnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnnv", "vnnv", "S", func(s string, n int) *mcase {
		x := mS_vnnv{s, n}
		return newCase(x, "vnnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnnv; return newCase(x, "vnnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnnp", "vnnp", "S", func(s string, n int) *mcase {
		x := mS_vnnp{s, n}
		return newCase(x, "vnnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnnp; return newCase(x, "vnnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnvn", "vnvn", "S", func(s string, n int) *mcase {
		x := mS_vnvn{s, n}
		return newCase(x, "vnvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnvn; return newCase(x, "vnvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnvv", "vnvv", "S", func(s string, n int) *mcase {
		x := mS_vnvv{s, n}
		return newCase(x, "vnvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnvv; return newCase(x, "vnvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnvp", "vnvp", "S", func(s string, n int) *mcase {
		x := mS_vnvp{s, n}
		return newCase(x, "vnvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnvp; return newCase(x, "vnvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnpn", "vnpn", "S", func(s string, n int) *mcase {
		x := mS_vnpn{s, n}
		return newCase(x, "vnpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnpn; return newCase(x, "vnpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnpv", "vnpv", "S", func(s string, n int) *mcase {
		x := mS_vnpv{s, n}
		return newCase(x, "vnpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnpv; return newCase(x, "vnpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vnpp", "vnpp", "S", func(s string, n int) *mcase {
		x := mS_vnpp{s, n}
		return newCase(x, "vnpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vnpp; return newCase(x, "vnpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvnn", "vvnn", "S", func(s string, n int) *mcase {
		x := mS_vvnn{s, n}
		return newCase(x, "vvnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvnn; return newCase(x, "vvnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvnv", "vvnv", "S", func(s string, n int) *mcase {
		x := mS_vvnv{s, n}
		return newCase(x, "vvnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvnv; return newCase(x, "vvnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvnp", "vvnp", "S", func(s string, n int) *mcase {
		x := mS_vvnp{s, n}
		return newCase(x, "vvnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvnp; return newCase(x, "vvnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvvn", "vvvn", "S", func(s string, n int) *mcase {
		x := mS_vvvn{s, n}
		return newCase(x, "vvvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvvn; return newCase(x, "vvvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvvv", "vvvv", "S", func(s string, n int) *mcase {
		x := mS_vvvv{s, n}
		return newCase(x, "vvvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvvv; return newCase(x, "vvvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvvp", "vvvp", "S", func(s string, n int) *mcase {
		x := mS_vvvp{s, n}
		return newCase(x, "vvvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvvp; return newCase(x, "vvvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvpn", "vvpn", "S", func(s string, n int) *mcase {
		x := mS_vvpn{s, n}
		return newCase(x, "vvpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvpn; return newCase(x, "vvpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvpv", "vvpv", "S", func(s string, n int) *mcase {
		x := mS_vvpv{s, n}
		return newCase(x, "vvpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvpv; return newCase(x, "vvpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vvpp", "vvpp", "S", func(s string, n int) *mcase {
		x := mS_vvpp{s, n}
		return newCase(x, "vvpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vvpp; return newCase(x, "vvpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpnn", "vpnn", "S", func(s string, n int) *mcase {
		x := mS_vpnn{s, n}
		return newCase(x, "vpnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpnn; return newCase(x, "vpnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpnv", "vpnv", "S", func(s string, n int) *mcase {
		x := mS_vpnv{s, n}
		return newCase(x, "vpnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpnv; return newCase(x, "vpnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpnp", "vpnp", "S", func(s string, n int) *mcase {
		x := mS_vpnp{s, n}
		return newCase(x, "vpnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpnp; return newCase(x, "vpnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpvn", "vpvn", "S", func(s string, n int) *mcase {
		x := mS_vpvn{s, n}
		return newCase(x, "vpvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpvn; return newCase(x, "vpvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpvv", "vpvv", "S", func(s string, n int) *mcase {
		x := mS_vpvv{s, n}
		return newCase(x, "vpvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpvv; return newCase(x, "vpvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vpvp", "vpvp", "S", func(s string, n int) *mcase {
		x := mS_vpvp{s, n}
		return newCase(x, "vpvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vpvp; return newCase(x, "vpvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vppn", "vppn", "S", func(s string, n int) *mcase {
		x := mS_vppn{s, n}
		return newCase(x, "vppn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vppn; return newCase(x, "vppn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vppv", "vppv", "S", func(s string, n int) *mcase {
		x := mS_vppv{s, n}
		return newCase(x, "vppv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vppv; return newCase(x, "vppv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_vppp", "vppp", "S", func(s string, n int) *mcase {
		x := mS_vppp{s, n}
		return newCase(x, "vppp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_vppp; return newCase(x, "vppp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnnn", "pnnn", "S", func(s string, n int) *mcase {
		x := mS_pnnn{s, n}
		return newCase(x, "pnnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnnn; return newCase(x, "pnnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnnv", "pnnv", "S", func(s string, n int) *mcase {
		x := mS_pnnv{s, n}
		return newCase(x, "pnnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnnv; return newCase(x, "pnnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnnp", "pnnp", "S", func(s string, n int) *mcase {
		x := mS_pnnp{s, n}
		return newCase(x, "pnnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnnp; return newCase(x, "pnnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnvn", "pnvn", "S", func(s string, n int) *mcase {
		x := mS_pnvn{s, n}
		return newCase(x, "pnvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnvn; return newCase(x, "pnvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnvv", "pnvv", "S", func(s string, n int) *mcase {
		x := mS_pnvv{s, n}
		return newCase(x, "pnvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnvv; return newCase(x, "pnvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnvp", "pnvp", "S", func(s string, n int) *mcase {
		x := mS_pnvp{s, n}
		return newCase(x, "pnvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnvp; return newCase(x, "pnvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnpn", "pnpn", "S", func(s string, n int) *mcase {
		x := mS_pnpn{s, n}
		return newCase(x, "pnpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnpn; return newCase(x, "pnpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnpv", "pnpv", "S", func(s string, n int) *mcase {
		x := mS_pnpv{s, n}
		return newCase(x, "pnpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnpv; return newCase(x, "pnpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pnpp", "pnpp", "S", func(s string, n int) *mcase {
		x := mS_pnpp{s, n}
		return newCase(x, "pnpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pnpp; return newCase(x, "pnpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvnn", "pvnn", "S", func(s string, n int) *mcase {
		x := mS_pvnn{s, n}
		return newCase(x, "pvnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvnn; return newCase(x, "pvnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvnv", "pvnv", "S", func(s string, n int) *mcase {
		x := mS_pvnv{s, n}
		return newCase(x, "pvnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvnv; return newCase(x, "pvnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvnp", "pvnp", "S", func(s string, n int) *mcase {
		x := mS_pvnp{s, n}
		return newCase(x, "pvnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvnp; return newCase(x, "pvnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvvn", "pvvn", "S", func(s string, n int) *mcase {
		x := mS_pvvn{s, n}
		return newCase(x, "pvvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvvn; return newCase(x, "pvvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvvv", "pvvv", "S", func(s string, n int) *mcase {
		x := mS_pvvv{s, n}
		return newCase(x, "pvvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvvv; return newCase(x, "pvvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvvp", "pvvp", "S", func(s string, n int) *mcase {
		x := mS_pvvp{s, n}
		return newCase(x, "pvvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvvp; return newCase(x, "pvvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvpn", "pvpn", "S", func(s string, n int) *mcase {
		x := mS_pvpn{s, n}
		return newCase(x, "pvpn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvpn; return newCase(x, "pvpn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvpv", "pvpv", "S", func(s string, n int) *mcase {
		x := mS_pvpv{s, n}
		return newCase(x, "pvpv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvpv; return newCase(x, "pvpv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pvpp", "pvpp", "S", func(s string, n int) *mcase {
		x := mS_pvpp{s, n}
		return newCase(x, "pvpp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pvpp; return newCase(x, "pvpp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppnn", "ppnn", "S", func(s string, n int) *mcase {
		x := mS_ppnn{s, n}
		return newCase(x, "ppnn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppnn; return newCase(x, "ppnn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppnv", "ppnv", "S", func(s string, n int) *mcase {
		x := mS_ppnv{s, n}
		return newCase(x, "ppnv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppnv; return newCase(x, "ppnv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppnp", "ppnp", "S", func(s string, n int) *mcase {
		x := mS_ppnp{s, n}
		return newCase(x, "ppnp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppnp; return newCase(x, "ppnp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppvn", "ppvn", "S", func(s string, n int) *mcase {
		x := mS_ppvn{s, n}
		return newCase(x, "ppvn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppvn; return newCase(x, "ppvn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppvv", "ppvv", "S", func(s string, n int) *mcase {
		x := mS_ppvv{s, n}
		return newCase(x, "ppvv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppvv; return newCase(x, "ppvv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_ppvp", "ppvp", "S", func(s string, n int) *mcase {
		x := mS_ppvp{s, n}
		return newCase(x, "ppvp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_ppvp; return newCase(x, "ppvp", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pppn", "pppn", "S", func(s string, n int) *mcase {
		x := mS_pppn{s, n}
		return newCase(x, "pppn", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pppn; return newCase(x, "pppn", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pppv", "pppv", "S", func(s string, n int) *mcase {
		x := mS_pppv{s, n}
		return newCase(x, "pppv", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pppv; return newCase(x, "pppv", x.S, `{"S":"","N":0}`, true) }},
	{"mS_pppp", "pppp", "S", func(s string, n int) *mcase {
		x := mS_pppp{s, n}
		return newCase(x, "pppp", x.S, `{"S":"`+s+`","N":`+dig(n)+`}`, true)
	}, func() *mcase { var x mS_pppp; return newCase(x, "pppp", x.S, `{"S":"","N":0}`, true) }},
	{"mI_vnnn", "vnnn", "I", func(s string, n int) *mcase { x := mI_vnnn(n); return newCase(x, "vnnn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_vnnn; return newCase(x, "vnnn", dig(int(x)), `0`, true) }},
	{"mI_pnnn", "pnnn", "I", func(s string, n int) *mcase { x := mI_pnnn(n); return newCase(x, "pnnn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_pnnn; return newCase(x, "pnnn", dig(int(x)), `0`, true) }},
	{"mI_nvnn", "nvnn", "I", func(s string, n int) *mcase { x := mI_nvnn(n); return newCase(x, "nvnn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nvnn; return newCase(x, "nvnn", dig(int(x)), `0`, true) }},
	{"mI_npnn", "npnn", "I", func(s string, n int) *mcase { x := mI_npnn(n); return newCase(x, "npnn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_npnn; return newCase(x, "npnn", dig(int(x)), `0`, true) }},
	{"mI_nnvn", "nnvn", "I", func(s string, n int) *mcase { x := mI_nnvn(n); return newCase(x, "nnvn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nnvn; return newCase(x, "nnvn", dig(int(x)), `0`, true) }},
	{"mI_nnpn", "nnpn", "I", func(s string, n int) *mcase { x := mI_nnpn(n); return newCase(x, "nnpn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nnpn; return newCase(x, "nnpn", dig(int(x)), `0`, true) }},
	{"mI_nnnv", "nnnv", "I", func(s string, n int) *mcase { x := mI_nnnv(n); return newCase(x, "nnnv", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nnnv; return newCase(x, "nnnv", dig(int(x)), `0`, true) }},
	{"mI_nnnp", "nnnp", "I", func(s string, n int) *mcase { x := mI_nnnp(n); return newCase(x, "nnnp", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nnnp; return newCase(x, "nnnp", dig(int(x)), `0`, true) }},
	{"mI_npvn", "npvn", "I", func(s string, n int) *mcase { x := mI_npvn(n); return newCase(x, "npvn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_npvn; return newCase(x, "npvn", dig(int(x)), `0`, true) }},
	{"mI_pvnn", "pvnn", "I", func(s string, n int) *mcase { x := mI_pvnn(n); return newCase(x, "pvnn", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_pvnn; return newCase(x, "pvnn", dig(int(x)), `0`, true) }},
	{"mI_nnpv", "nnpv", "I", func(s string, n int) *mcase { x := mI_nnpv(n); return newCase(x, "nnpv", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_nnpv; return newCase(x, "nnpv", dig(int(x)), `0`, true) }},
	{"mI_pnnv", "pnnv", "I", func(s string, n int) *mcase { x := mI_pnnv(n); return newCase(x, "pnnv", dig(int(x)), dig(n), true) }, func() *mcase { var x mI_pnnv; return newCase(x, "pnnv", dig(int(x)), `0`, true) }},
	{"mStr_vnnn", "vnnn", "Str", func(s string, n int) *mcase { x := mStr_vnnn(s); return newCase(x, "vnnn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_vnnn; return newCase(x, "vnnn", string(x), `""`, true) }},
	{"mStr_pnnn", "pnnn", "Str", func(s string, n int) *mcase { x := mStr_pnnn(s); return newCase(x, "pnnn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_pnnn; return newCase(x, "pnnn", string(x), `""`, true) }},
	{"mStr_nvnn", "nvnn", "Str", func(s string, n int) *mcase { x := mStr_nvnn(s); return newCase(x, "nvnn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nvnn; return newCase(x, "nvnn", string(x), `""`, true) }},
	{"mStr_npnn", "npnn", "Str", func(s string, n int) *mcase { x := mStr_npnn(s); return newCase(x, "npnn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_npnn; return newCase(x, "npnn", string(x), `""`, true) }},
	{"mStr_nnvn", "nnvn", "Str", func(s string, n int) *mcase { x := mStr_nnvn(s); return newCase(x, "nnvn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nnvn; return newCase(x, "nnvn", string(x), `""`, true) }},
	{"mStr_nnpn", "nnpn", "Str", func(s string, n int) *mcase { x := mStr_nnpn(s); return newCase(x, "nnpn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nnpn; return newCase(x, "nnpn", string(x), `""`, true) }},
	{"mStr_nnnv", "nnnv", "Str", func(s string, n int) *mcase { x := mStr_nnnv(s); return newCase(x, "nnnv", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nnnv; return newCase(x, "nnnv", string(x), `""`, true) }},
	{"mStr_nnnp", "nnnp", "Str", func(s string, n int) *mcase { x := mStr_nnnp(s); return newCase(x, "nnnp", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nnnp; return newCase(x, "nnnp", string(x), `""`, true) }},
	{"mStr_npvn", "npvn", "Str", func(s string, n int) *mcase { x := mStr_npvn(s); return newCase(x, "npvn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_npvn; return newCase(x, "npvn", string(x), `""`, true) }},
	{"mStr_pvnn", "pvnn", "Str", func(s string, n int) *mcase { x := mStr_pvnn(s); return newCase(x, "pvnn", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_pvnn; return newCase(x, "pvnn", string(x), `""`, true) }},
	{"mStr_nnpv", "nnpv", "Str", func(s string, n int) *mcase { x := mStr_nnpv(s); return newCase(x, "nnpv", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_nnpv; return newCase(x, "nnpv", string(x), `""`, true) }},
	{"mStr_pnnv", "pnnv", "Str", func(s string, n int) *mcase { x := mStr_pnnv(s); return newCase(x, "pnnv", string(x), `"`+s+`"`, true) }, func() *mcase { var x mStr_pnnv; return newCase(x, "pnnv", string(x), `""`, true) }},
	{"mM_vnnn", "vnnn", "M", func(s string, n int) *mcase {
		x := mM_vnnn{"k": n}
		return newCase(x, "vnnn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_vnnn; return newCase(x, "vnnn", dig(x["k"]), `null`, true) }},
	{"mM_pnnn", "pnnn", "M", func(s string, n int) *mcase {
		x := mM_pnnn{"k": n}
		return newCase(x, "pnnn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_pnnn; return newCase(x, "pnnn", dig(x["k"]), `null`, true) }},
	{"mM_nvnn", "nvnn", "M", func(s string, n int) *mcase {
		x := mM_nvnn{"k": n}
		return newCase(x, "nvnn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nvnn; return newCase(x, "nvnn", dig(x["k"]), `null`, true) }},
	{"mM_npnn", "npnn", "M", func(s string, n int) *mcase {
		x := mM_npnn{"k": n}
		return newCase(x, "npnn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_npnn; return newCase(x, "npnn", dig(x["k"]), `null`, true) }},
	{"mM_nnvn", "nnvn", "M", func(s string, n int) *mcase {
		x := mM_nnvn{"k": n}
		return newCase(x, "nnvn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nnvn; return newCase(x, "nnvn", dig(x["k"]), `null`, true) }},
	{"mM_nnpn", "nnpn", "M", func(s string, n int) *mcase {
		x := mM_nnpn{"k": n}
		return newCase(x, "nnpn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nnpn; return newCase(x, "nnpn", dig(x["k"]), `null`, true) }},
	{"mM_nnnv", "nnnv", "M", func(s string, n int) *mcase {
		x := mM_nnnv{"k": n}
		return newCase(x, "nnnv", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nnnv; return newCase(x, "nnnv", dig(x["k"]), `null`, true) }},
	{"mM_nnnp", "nnnp", "M", func(s string, n int) *mcase {
		x := mM_nnnp{"k": n}
		return newCase(x, "nnnp", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nnnp; return newCase(x, "nnnp", dig(x["k"]), `null`, true) }},
	{"mM_npvn", "npvn", "M", func(s string, n int) *mcase {
		x := mM_npvn{"k": n}
		return newCase(x, "npvn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_npvn; return newCase(x, "npvn", dig(x["k"]), `null`, true) }},
	{"mM_pvnn", "pvnn", "M", func(s string, n int) *mcase {
		x := mM_pvnn{"k": n}
		return newCase(x, "pvnn", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_pvnn; return newCase(x, "pvnn", dig(x["k"]), `null`, true) }},
	{"mM_nnpv", "nnpv", "M", func(s string, n int) *mcase {
		x := mM_nnpv{"k": n}
		return newCase(x, "nnpv", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_nnpv; return newCase(x, "nnpv", dig(x["k"]), `null`, true) }},
	{"mM_pnnv", "pnnv", "M", func(s string, n int) *mcase {
		x := mM_pnnv{"k": n}
		return newCase(x, "pnnv", dig(x["k"]), `{"k":`+dig(n)+`}`, true)
	}, func() *mcase { var x mM_pnnv; return newCase(x, "pnnv", dig(x["k"]), `null`, true) }},
	{"mL_vnnn", "vnnn", "L", func(s string, n int) *mcase {
		x := mL_vnnn{n}
		return newCase(x, "vnnn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_vnnn; return newCase(x, "vnnn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_pnnn", "pnnn", "L", func(s string, n int) *mcase {
		x := mL_pnnn{n}
		return newCase(x, "pnnn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_pnnn; return newCase(x, "pnnn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nvnn", "nvnn", "L", func(s string, n int) *mcase {
		x := mL_nvnn{n}
		return newCase(x, "nvnn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nvnn; return newCase(x, "nvnn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_npnn", "npnn", "L", func(s string, n int) *mcase {
		x := mL_npnn{n}
		return newCase(x, "npnn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_npnn; return newCase(x, "npnn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nnvn", "nnvn", "L", func(s string, n int) *mcase {
		x := mL_nnvn{n}
		return newCase(x, "nnvn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nnvn; return newCase(x, "nnvn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nnpn", "nnpn", "L", func(s string, n int) *mcase {
		x := mL_nnpn{n}
		return newCase(x, "nnpn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nnpn; return newCase(x, "nnpn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nnnv", "nnnv", "L", func(s string, n int) *mcase {
		x := mL_nnnv{n}
		return newCase(x, "nnnv", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nnnv; return newCase(x, "nnnv", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nnnp", "nnnp", "L", func(s string, n int) *mcase {
		x := mL_nnnp{n}
		return newCase(x, "nnnp", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nnnp; return newCase(x, "nnnp", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_npvn", "npvn", "L", func(s string, n int) *mcase {
		x := mL_npvn{n}
		return newCase(x, "npvn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_npvn; return newCase(x, "npvn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_pvnn", "pvnn", "L", func(s string, n int) *mcase {
		x := mL_pvnn{n}
		return newCase(x, "pvnn", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_pvnn; return newCase(x, "pvnn", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_nnpv", "nnpv", "L", func(s string, n int) *mcase {
		x := mL_nnpv{n}
		return newCase(x, "nnpv", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_nnpv; return newCase(x, "nnpv", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mL_pnnv", "pnnv", "L", func(s string, n int) *mcase {
		x := mL_pnnv{n}
		return newCase(x, "pnnv", dig(len(x))+dig(first(x)), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mL_pnnv; return newCase(x, "pnnv", dig(len(x))+dig(first(x)), `null`, true) }},
	{"mP_vnnn", "vnnn", "P", func(s string, n int) *mcase {
		x := mP_vnnn{&n}
		return newCase(x, "vnnn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_vnnn; return newCase(x, "vnnn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_pnnn", "pnnn", "P", func(s string, n int) *mcase {
		x := mP_pnnn{&n}
		return newCase(x, "pnnn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_pnnn; return newCase(x, "pnnn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nvnn", "nvnn", "P", func(s string, n int) *mcase {
		x := mP_nvnn{&n}
		return newCase(x, "nvnn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nvnn; return newCase(x, "nvnn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_npnn", "npnn", "P", func(s string, n int) *mcase {
		x := mP_npnn{&n}
		return newCase(x, "npnn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_npnn; return newCase(x, "npnn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nnvn", "nnvn", "P", func(s string, n int) *mcase {
		x := mP_nnvn{&n}
		return newCase(x, "nnvn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nnvn; return newCase(x, "nnvn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nnpn", "nnpn", "P", func(s string, n int) *mcase {
		x := mP_nnpn{&n}
		return newCase(x, "nnpn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nnpn; return newCase(x, "nnpn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nnnv", "nnnv", "P", func(s string, n int) *mcase {
		x := mP_nnnv{&n}
		return newCase(x, "nnnv", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nnnv; return newCase(x, "nnnv", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nnnp", "nnnp", "P", func(s string, n int) *mcase {
		x := mP_nnnp{&n}
		return newCase(x, "nnnp", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nnnp; return newCase(x, "nnnp", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_npvn", "npvn", "P", func(s string, n int) *mcase {
		x := mP_npvn{&n}
		return newCase(x, "npvn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_npvn; return newCase(x, "npvn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_pvnn", "pvnn", "P", func(s string, n int) *mcase {
		x := mP_pvnn{&n}
		return newCase(x, "pvnn", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_pvnn; return newCase(x, "pvnn", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_nnpv", "nnpv", "P", func(s string, n int) *mcase {
		x := mP_nnpv{&n}
		return newCase(x, "nnpv", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_nnpv; return newCase(x, "nnpv", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mP_pnnv", "pnnv", "P", func(s string, n int) *mcase {
		x := mP_pnnv{&n}
		return newCase(x, "pnnv", dig(deref(x.P)), `{"P":`+dig(n)+`}`, true)
	}, func() *mcase { var x mP_pnnv; return newCase(x, "pnnv", dig(deref(x.P)), `{"P":null}`, true) }},
	{"mA_vnnn", "vnnn", "A", func(s string, n int) *mcase {
		x := mA_vnnn{&n}
		return newCase(x, "vnnn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_vnnn; return newCase(x, "vnnn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_pnnn", "pnnn", "A", func(s string, n int) *mcase {
		x := mA_pnnn{&n}
		return newCase(x, "pnnn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_pnnn; return newCase(x, "pnnn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nvnn", "nvnn", "A", func(s string, n int) *mcase {
		x := mA_nvnn{&n}
		return newCase(x, "nvnn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nvnn; return newCase(x, "nvnn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_npnn", "npnn", "A", func(s string, n int) *mcase {
		x := mA_npnn{&n}
		return newCase(x, "npnn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_npnn; return newCase(x, "npnn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nnvn", "nnvn", "A", func(s string, n int) *mcase {
		x := mA_nnvn{&n}
		return newCase(x, "nnvn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nnvn; return newCase(x, "nnvn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nnpn", "nnpn", "A", func(s string, n int) *mcase {
		x := mA_nnpn{&n}
		return newCase(x, "nnpn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nnpn; return newCase(x, "nnpn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nnnv", "nnnv", "A", func(s string, n int) *mcase {
		x := mA_nnnv{&n}
		return newCase(x, "nnnv", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nnnv; return newCase(x, "nnnv", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nnnp", "nnnp", "A", func(s string, n int) *mcase {
		x := mA_nnnp{&n}
		return newCase(x, "nnnp", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nnnp; return newCase(x, "nnnp", dig(deref(x[0])), `[null]`, true) }},
	{"mA_npvn", "npvn", "A", func(s string, n int) *mcase {
		x := mA_npvn{&n}
		return newCase(x, "npvn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_npvn; return newCase(x, "npvn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_pvnn", "pvnn", "A", func(s string, n int) *mcase {
		x := mA_pvnn{&n}
		return newCase(x, "pvnn", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_pvnn; return newCase(x, "pvnn", dig(deref(x[0])), `[null]`, true) }},
	{"mA_nnpv", "nnpv", "A", func(s string, n int) *mcase {
		x := mA_nnpv{&n}
		return newCase(x, "nnpv", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_nnpv; return newCase(x, "nnpv", dig(deref(x[0])), `[null]`, true) }},
	{"mA_pnnv", "pnnv", "A", func(s string, n int) *mcase {
		x := mA_pnnv{&n}
		return newCase(x, "pnnv", dig(deref(x[0])), `[`+dig(n)+`]`, true)
	}, func() *mcase { var x mA_pnnv; return newCase(x, "pnnv", dig(deref(x[0])), `[null]`, true) }},
	{"mF_vnnn", "vnnn", "F", func(s string, n int) *mcase {
		x := mF_vnnn(func() int { return n })
		return newCase(x, "vnnn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_vnnn; return newCase(x, "vnnn", dig(callF(x)), ``, false) }},
	{"mF_pnnn", "pnnn", "F", func(s string, n int) *mcase {
		x := mF_pnnn(func() int { return n })
		return newCase(x, "pnnn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_pnnn; return newCase(x, "pnnn", dig(callF(x)), ``, false) }},
	{"mF_nvnn", "nvnn", "F", func(s string, n int) *mcase {
		x := mF_nvnn(func() int { return n })
		return newCase(x, "nvnn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nvnn; return newCase(x, "nvnn", dig(callF(x)), ``, false) }},
	{"mF_npnn", "npnn", "F", func(s string, n int) *mcase {
		x := mF_npnn(func() int { return n })
		return newCase(x, "npnn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_npnn; return newCase(x, "npnn", dig(callF(x)), ``, false) }},
	{"mF_nnvn", "nnvn", "F", func(s string, n int) *mcase {
		x := mF_nnvn(func() int { return n })
		return newCase(x, "nnvn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nnvn; return newCase(x, "nnvn", dig(callF(x)), ``, false) }},
	{"mF_nnpn", "nnpn", "F", func(s string, n int) *mcase {
		x := mF_nnpn(func() int { return n })
		return newCase(x, "nnpn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nnpn; return newCase(x, "nnpn", dig(callF(x)), ``, false) }},
	{"mF_nnnv", "nnnv", "F", func(s string, n int) *mcase {
		x := mF_nnnv(func() int { return n })
		return newCase(x, "nnnv", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nnnv; return newCase(x, "nnnv", dig(callF(x)), ``, false) }},
	{"mF_nnnp", "nnnp", "F", func(s string, n int) *mcase {
		x := mF_nnnp(func() int { return n })
		return newCase(x, "nnnp", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nnnp; return newCase(x, "nnnp", dig(callF(x)), ``, false) }},
	{"mF_npvn", "npvn", "F", func(s string, n int) *mcase {
		x := mF_npvn(func() int { return n })
		return newCase(x, "npvn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_npvn; return newCase(x, "npvn", dig(callF(x)), ``, false) }},
	{"mF_pvnn", "pvnn", "F", func(s string, n int) *mcase {
		x := mF_pvnn(func() int { return n })
		return newCase(x, "pvnn", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_pvnn; return newCase(x, "pvnn", dig(callF(x)), ``, false) }},
	{"mF_nnpv", "nnpv", "F", func(s string, n int) *mcase {
		x := mF_nnpv(func() int { return n })
		return newCase(x, "nnpv", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_nnpv; return newCase(x, "nnpv", dig(callF(x)), ``, false) }},
	{"mF_pnnv", "pnnv", "F", func(s string, n int) *mcase {
		x := mF_pnnv(func() int { return n })
		return newCase(x, "pnnv", dig(callF(x)), "", false)
	}, func() *mcase { var x mF_pnnv; return newCase(x, "pnnv", dig(callF(x)), ``, false) }},
	{"mC_vnnn", "vnnn", "C", func(s string, n int) *mcase {
		x := mC_vnnn(make(chan int, 2))
		return newCase(x, "vnnn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_vnnn; return newCase(x, "vnnn", dig(cap(x)), ``, false) }},
	{"mC_pnnn", "pnnn", "C", func(s string, n int) *mcase {
		x := mC_pnnn(make(chan int, 2))
		return newCase(x, "pnnn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_pnnn; return newCase(x, "pnnn", dig(cap(x)), ``, false) }},
	{"mC_nvnn", "nvnn", "C", func(s string, n int) *mcase {
		x := mC_nvnn(make(chan int, 2))
		return newCase(x, "nvnn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nvnn; return newCase(x, "nvnn", dig(cap(x)), ``, false) }},
	{"mC_npnn", "npnn", "C", func(s string, n int) *mcase {
		x := mC_npnn(make(chan int, 2))
		return newCase(x, "npnn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_npnn; return newCase(x, "npnn", dig(cap(x)), ``, false) }},
	{"mC_nnvn", "nnvn", "C", func(s string, n int) *mcase {
		x := mC_nnvn(make(chan int, 2))
		return newCase(x, "nnvn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nnvn; return newCase(x, "nnvn", dig(cap(x)), ``, false) }},
	{"mC_nnpn", "nnpn", "C", func(s string, n int) *mcase {
		x := mC_nnpn(make(chan int, 2))
		return newCase(x, "nnpn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nnpn; return newCase(x, "nnpn", dig(cap(x)), ``, false) }},
	{"mC_nnnv", "nnnv", "C", func(s string, n int) *mcase {
		x := mC_nnnv(make(chan int, 2))
		return newCase(x, "nnnv", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nnnv; return newCase(x, "nnnv", dig(cap(x)), ``, false) }},
	{"mC_nnnp", "nnnp", "C", func(s string, n int) *mcase {
		x := mC_nnnp(make(chan int, 2))
		return newCase(x, "nnnp", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nnnp; return newCase(x, "nnnp", dig(cap(x)), ``, false) }},
	{"mC_npvn", "npvn", "C", func(s string, n int) *mcase {
		x := mC_npvn(make(chan int, 2))
		return newCase(x, "npvn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_npvn; return newCase(x, "npvn", dig(cap(x)), ``, false) }},
	{"mC_pvnn", "pvnn", "C", func(s string, n int) *mcase {
		x := mC_pvnn(make(chan int, 2))
		return newCase(x, "pvnn", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_pvnn; return newCase(x, "pvnn", dig(cap(x)), ``, false) }},
	{"mC_nnpv", "nnpv", "C", func(s string, n int) *mcase {
		x := mC_nnpv(make(chan int, 2))
		return newCase(x, "nnpv", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_nnpv; return newCase(x, "nnpv", dig(cap(x)), ``, false) }},
	{"mC_pnnv", "pnnv", "C", func(s string, n int) *mcase {
		x := mC_pnnv(make(chan int, 2))
		return newCase(x, "pnnv", dig(cap(x)), "", false)
	}, func() *mcase { var x mC_pnnv; return newCase(x, "pnnv", dig(cap(x)), ``, false) }},
	{"mE_vnnn", "vnnn", "E", func(s string, n int) *mcase { x := mE_vnnn{}; return newCase(x, "vnnn", "e", "{}", true) }, func() *mcase { var x mE_vnnn; return newCase(x, "vnnn", "e", `{}`, true) }},
	{"mE_pnnn", "pnnn", "E", func(s string, n int) *mcase { x := mE_pnnn{}; return newCase(x, "pnnn", "e", "{}", true) }, func() *mcase { var x mE_pnnn; return newCase(x, "pnnn", "e", `{}`, true) }},
	{"mE_nvnn", "nvnn", "E", func(s string, n int) *mcase { x := mE_nvnn{}; return newCase(x, "nvnn", "e", "{}", true) }, func() *mcase { var x mE_nvnn; return newCase(x, "nvnn", "e", `{}`, true) }},
	{"mE_npnn", "npnn", "E", func(s string, n int) *mcase { x := mE_npnn{}; return newCase(x, "npnn", "e", "{}", true) }, func() *mcase { var x mE_npnn; return newCase(x, "npnn", "e", `{}`, true) }},
	{"mE_nnvn", "nnvn", "E", func(s string, n int) *mcase { x := mE_nnvn{}; return newCase(x, "nnvn", "e", "{}", true) }, func() *mcase { var x mE_nnvn; return newCase(x, "nnvn", "e", `{}`, true) }},
	{"mE_nnpn", "nnpn", "E", func(s string, n int) *mcase { x := mE_nnpn{}; return newCase(x, "nnpn", "e", "{}", true) }, func() *mcase { var x mE_nnpn; return newCase(x, "nnpn", "e", `{}`, true) }},
	{"mE_nnnv", "nnnv", "E", func(s string, n int) *mcase { x := mE_nnnv{}; return newCase(x, "nnnv", "e", "{}", true) }, func() *mcase { var x mE_nnnv; return newCase(x, "nnnv", "e", `{}`, true) }},
	{"mE_nnnp", "nnnp", "E", func(s string, n int) *mcase { x := mE_nnnp{}; return newCase(x, "nnnp", "e", "{}", true) }, func() *mcase { var x mE_nnnp; return newCase(x, "nnnp", "e", `{}`, true) }},
	{"mE_npvn", "npvn", "E", func(s string, n int) *mcase { x := mE_npvn{}; return newCase(x, "npvn", "e", "{}", true) }, func() *mcase { var x mE_npvn; return newCase(x, "npvn", "e", `{}`, true) }},
	{"mE_pvnn", "pvnn", "E", func(s string, n int) *mcase { x := mE_pvnn{}; return newCase(x, "pvnn", "e", "{}", true) }, func() *mcase { var x mE_pvnn; return newCase(x, "pvnn", "e", `{}`, true) }},
	{"mE_nnpv", "nnpv", "E", func(s string, n int) *mcase { x := mE_nnpv{}; return newCase(x, "nnpv", "e", "{}", true) }, func() *mcase { var x mE_nnpv; return newCase(x, "nnpv", "e", `{}`, true) }},
	{"mE_pnnv", "pnnv", "E", func(s string, n int) *mcase { x := mE_pnnv{}; return newCase(x, "pnnv", "e", "{}", true) }, func() *mcase { var x mE_pnnv; return newCase(x, "pnnv", "e", `{}`, true) }},
	{"mB_vnnn", "vnnn", "B", func(s string, n int) *mcase {
		x := mB_vnnn(n > 4)
		return newCase(x, "vnnn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_vnnn; return newCase(x, "vnnn", bol(bool(x)), `false`, true) }},
	{"mB_pnnn", "pnnn", "B", func(s string, n int) *mcase {
		x := mB_pnnn(n > 4)
		return newCase(x, "pnnn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_pnnn; return newCase(x, "pnnn", bol(bool(x)), `false`, true) }},
	{"mB_nvnn", "nvnn", "B", func(s string, n int) *mcase {
		x := mB_nvnn(n > 4)
		return newCase(x, "nvnn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nvnn; return newCase(x, "nvnn", bol(bool(x)), `false`, true) }},
	{"mB_npnn", "npnn", "B", func(s string, n int) *mcase {
		x := mB_npnn(n > 4)
		return newCase(x, "npnn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_npnn; return newCase(x, "npnn", bol(bool(x)), `false`, true) }},
	{"mB_nnvn", "nnvn", "B", func(s string, n int) *mcase {
		x := mB_nnvn(n > 4)
		return newCase(x, "nnvn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nnvn; return newCase(x, "nnvn", bol(bool(x)), `false`, true) }},
	{"mB_nnpn", "nnpn", "B", func(s string, n int) *mcase {
		x := mB_nnpn(n > 4)
		return newCase(x, "nnpn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nnpn; return newCase(x, "nnpn", bol(bool(x)), `false`, true) }},
	{"mB_nnnv", "nnnv", "B", func(s string, n int) *mcase {
		x := mB_nnnv(n > 4)
		return newCase(x, "nnnv", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nnnv; return newCase(x, "nnnv", bol(bool(x)), `false`, true) }},
	{"mB_nnnp", "nnnp", "B", func(s string, n int) *mcase {
		x := mB_nnnp(n > 4)
		return newCase(x, "nnnp", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nnnp; return newCase(x, "nnnp", bol(bool(x)), `false`, true) }},
	{"mB_npvn", "npvn", "B", func(s string, n int) *mcase {
		x := mB_npvn(n > 4)
		return newCase(x, "npvn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_npvn; return newCase(x, "npvn", bol(bool(x)), `false`, true) }},
	{"mB_pvnn", "pvnn", "B", func(s string, n int) *mcase {
		x := mB_pvnn(n > 4)
		return newCase(x, "pvnn", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_pvnn; return newCase(x, "pvnn", bol(bool(x)), `false`, true) }},
	{"mB_nnpv", "nnpv", "B", func(s string, n int) *mcase {
		x := mB_nnpv(n > 4)
		return newCase(x, "nnpv", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_nnpv; return newCase(x, "nnpv", bol(bool(x)), `false`, true) }},
	{"mB_pnnv", "pnnv", "B", func(s string, n int) *mcase {
		x := mB_pnnv(n > 4)
		return newCase(x, "pnnv", bol(bool(x)), bol(n > 4), true)
	}, func() *mcase { var x mB_pnnv; return newCase(x, "pnnv", bol(bool(x)), `false`, true) }},
	{"mA3_vnnn", "vnnn", "A3", func(s string, n int) *mcase {
		x := mA3_vnnn{1, 2, uint16(n)}
		return newCase(x, "vnnn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_vnnn; return newCase(x, "vnnn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_pnnn", "pnnn", "A3", func(s string, n int) *mcase {
		x := mA3_pnnn{1, 2, uint16(n)}
		return newCase(x, "pnnn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_pnnn; return newCase(x, "pnnn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nvnn", "nvnn", "A3", func(s string, n int) *mcase {
		x := mA3_nvnn{1, 2, uint16(n)}
		return newCase(x, "nvnn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nvnn; return newCase(x, "nvnn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_npnn", "npnn", "A3", func(s string, n int) *mcase {
		x := mA3_npnn{1, 2, uint16(n)}
		return newCase(x, "npnn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_npnn; return newCase(x, "npnn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nnvn", "nnvn", "A3", func(s string, n int) *mcase {
		x := mA3_nnvn{1, 2, uint16(n)}
		return newCase(x, "nnvn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nnvn; return newCase(x, "nnvn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nnpn", "nnpn", "A3", func(s string, n int) *mcase {
		x := mA3_nnpn{1, 2, uint16(n)}
		return newCase(x, "nnpn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nnpn; return newCase(x, "nnpn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nnnv", "nnnv", "A3", func(s string, n int) *mcase {
		x := mA3_nnnv{1, 2, uint16(n)}
		return newCase(x, "nnnv", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nnnv; return newCase(x, "nnnv", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nnnp", "nnnp", "A3", func(s string, n int) *mcase {
		x := mA3_nnnp{1, 2, uint16(n)}
		return newCase(x, "nnnp", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nnnp; return newCase(x, "nnnp", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_npvn", "npvn", "A3", func(s string, n int) *mcase {
		x := mA3_npvn{1, 2, uint16(n)}
		return newCase(x, "npvn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_npvn; return newCase(x, "npvn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_pvnn", "pvnn", "A3", func(s string, n int) *mcase {
		x := mA3_pvnn{1, 2, uint16(n)}
		return newCase(x, "pvnn", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_pvnn; return newCase(x, "pvnn", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_nnpv", "nnpv", "A3", func(s string, n int) *mcase {
		x := mA3_nnpv{1, 2, uint16(n)}
		return newCase(x, "nnpv", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_nnpv; return newCase(x, "nnpv", dig(int(x[2])), `[0,0,0]`, true) }},
	{"mA3_pnnv", "pnnv", "A3", func(s string, n int) *mcase {
		x := mA3_pnnv{1, 2, uint16(n)}
		return newCase(x, "pnnv", dig(int(x[2])), `[1,2,`+dig(n)+`]`, true)
	}, func() *mcase { var x mA3_pnnv; return newCase(x, "pnnv", dig(int(x[2])), `[0,0,0]`, true) }},
}
