package main

import (
	"context"
	"fmt"
	"io"
	"sync"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

// Types with methods that have nothing to do with marshaling, or that are named as the marshalers' but have other
// signatures: none may be called.
type (
	alienvS   struct{ A int }
	alienpS   struct{ A int }
	alienwS   struct{ A int }
	alienvI   int
	alienpI   int
	alienwI   int
	alienvStr string
	alienpStr string
	alienwStr string
	alienvM   map[string]int
	alienpM   map[string]int
	alienwM   map[string]int
	alienvL   []int
	alienpL   []int
	alienwL   []int
	alienvB   bool
	alienpB   bool
	alienwB   bool
	alienvF   float64
	alienpF   float64
	alienwF   float64
	alienvA   [1]int
	alienpA   [1]int
	alienwA   [1]int
	alienvP   struct{ P *int }
	alienpP   struct{ P *int }
	alienwP   struct{ P *int }
)

func (alienvS) Error() string                     { calls++; return "!" }
func (alienvS) String() string                    { calls++; return "!" }
func (alienvS) GoString() string                  { calls++; return "!" }
func (alienvS) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvS) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvS) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvS) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvS) IsZero() bool                      { calls++; return true }
func (alienvS) IsNil() bool                       { calls++; return true }
func (alienvS) Unwrap() error                     { calls++; return nil }
func (alienvS) Len() int                          { calls++; return 0 }
func (alienvS) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvS) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvS) JSON() []byte                      { calls++; return []byte("1") }
func (alienvS) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpS) Error() string                     { calls++; return "!" }
func (*alienpS) String() string                    { calls++; return "!" }
func (*alienpS) GoString() string                  { calls++; return "!" }
func (*alienpS) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpS) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpS) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpS) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpS) IsZero() bool                      { calls++; return true }
func (*alienpS) IsNil() bool                       { calls++; return true }
func (*alienpS) Unwrap() error                     { calls++; return nil }
func (*alienpS) Len() int                          { calls++; return 0 }
func (*alienpS) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpS) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpS) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpS) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwS) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwS) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwS) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwS) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwS) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwS) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwS) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwS) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvI) Error() string                     { calls++; return "!" }
func (alienvI) String() string                    { calls++; return "!" }
func (alienvI) GoString() string                  { calls++; return "!" }
func (alienvI) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvI) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvI) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvI) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvI) IsZero() bool                      { calls++; return true }
func (alienvI) IsNil() bool                       { calls++; return true }
func (alienvI) Unwrap() error                     { calls++; return nil }
func (alienvI) Len() int                          { calls++; return 0 }
func (alienvI) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvI) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvI) JSON() []byte                      { calls++; return []byte("1") }
func (alienvI) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpI) Error() string                     { calls++; return "!" }
func (*alienpI) String() string                    { calls++; return "!" }
func (*alienpI) GoString() string                  { calls++; return "!" }
func (*alienpI) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpI) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpI) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpI) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpI) IsZero() bool                      { calls++; return true }
func (*alienpI) IsNil() bool                       { calls++; return true }
func (*alienpI) Unwrap() error                     { calls++; return nil }
func (*alienpI) Len() int                          { calls++; return 0 }
func (*alienpI) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpI) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpI) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpI) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwI) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwI) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwI) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwI) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwI) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwI) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwI) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwI) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvStr) Error() string                     { calls++; return "!" }
func (alienvStr) String() string                    { calls++; return "!" }
func (alienvStr) GoString() string                  { calls++; return "!" }
func (alienvStr) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvStr) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvStr) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvStr) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvStr) IsZero() bool                      { calls++; return true }
func (alienvStr) IsNil() bool                       { calls++; return true }
func (alienvStr) Unwrap() error                     { calls++; return nil }
func (alienvStr) Len() int                          { calls++; return 0 }
func (alienvStr) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvStr) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvStr) JSON() []byte                      { calls++; return []byte("1") }
func (alienvStr) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpStr) Error() string                     { calls++; return "!" }
func (*alienpStr) String() string                    { calls++; return "!" }
func (*alienpStr) GoString() string                  { calls++; return "!" }
func (*alienpStr) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpStr) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpStr) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpStr) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpStr) IsZero() bool                      { calls++; return true }
func (*alienpStr) IsNil() bool                       { calls++; return true }
func (*alienpStr) Unwrap() error                     { calls++; return nil }
func (*alienpStr) Len() int                          { calls++; return 0 }
func (*alienpStr) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpStr) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpStr) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpStr) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwStr) MarshalJSON() []byte                      { calls++; return []byte("1") }
func (alienwStr) MarshalText() (string, error)             { calls++; return "!", nil }
func (alienwStr) AppendJSON([]byte) []byte                 { calls++; return []byte("1") }
func (alienwStr) AppendJSONContext([]byte) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwStr) AppendText([]byte) ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienwStr) EncodeJSON() ([]byte, error)              { calls++; return []byte("1"), nil }
func (alienwStr) MarshalJSONContext(context.Context) ([]byte, error) {
	calls++
	return []byte("1"), nil
}
func (alienwStr) marshalJSON() ([]byte, error) { calls++; return []byte("1"), nil }

func (alienvM) Error() string                     { calls++; return "!" }
func (alienvM) String() string                    { calls++; return "!" }
func (alienvM) GoString() string                  { calls++; return "!" }
func (alienvM) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvM) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvM) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvM) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvM) IsZero() bool                      { calls++; return true }
func (alienvM) IsNil() bool                       { calls++; return true }
func (alienvM) Unwrap() error                     { calls++; return nil }
func (alienvM) Len() int                          { calls++; return 0 }
func (alienvM) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvM) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvM) JSON() []byte                      { calls++; return []byte("1") }
func (alienvM) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpM) Error() string                     { calls++; return "!" }
func (*alienpM) String() string                    { calls++; return "!" }
func (*alienpM) GoString() string                  { calls++; return "!" }
func (*alienpM) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpM) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpM) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpM) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpM) IsZero() bool                      { calls++; return true }
func (*alienpM) IsNil() bool                       { calls++; return true }
func (*alienpM) Unwrap() error                     { calls++; return nil }
func (*alienpM) Len() int                          { calls++; return 0 }
func (*alienpM) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpM) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpM) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpM) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwM) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwM) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwM) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwM) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwM) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwM) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwM) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwM) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvL) Error() string                     { calls++; return "!" }
func (alienvL) String() string                    { calls++; return "!" }
func (alienvL) GoString() string                  { calls++; return "!" }
func (alienvL) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvL) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvL) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvL) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvL) IsZero() bool                      { calls++; return true }
func (alienvL) IsNil() bool                       { calls++; return true }
func (alienvL) Unwrap() error                     { calls++; return nil }
func (alienvL) Len() int                          { calls++; return 0 }
func (alienvL) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvL) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvL) JSON() []byte                      { calls++; return []byte("1") }
func (alienvL) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpL) Error() string                     { calls++; return "!" }
func (*alienpL) String() string                    { calls++; return "!" }
func (*alienpL) GoString() string                  { calls++; return "!" }
func (*alienpL) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpL) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpL) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpL) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpL) IsZero() bool                      { calls++; return true }
func (*alienpL) IsNil() bool                       { calls++; return true }
func (*alienpL) Unwrap() error                     { calls++; return nil }
func (*alienpL) Len() int                          { calls++; return 0 }
func (*alienpL) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpL) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpL) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpL) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwL) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwL) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwL) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwL) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwL) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwL) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwL) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwL) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvB) Error() string                     { calls++; return "!" }
func (alienvB) String() string                    { calls++; return "!" }
func (alienvB) GoString() string                  { calls++; return "!" }
func (alienvB) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvB) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvB) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvB) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvB) IsZero() bool                      { calls++; return true }
func (alienvB) IsNil() bool                       { calls++; return true }
func (alienvB) Unwrap() error                     { calls++; return nil }
func (alienvB) Len() int                          { calls++; return 0 }
func (alienvB) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvB) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvB) JSON() []byte                      { calls++; return []byte("1") }
func (alienvB) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpB) Error() string                     { calls++; return "!" }
func (*alienpB) String() string                    { calls++; return "!" }
func (*alienpB) GoString() string                  { calls++; return "!" }
func (*alienpB) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpB) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpB) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpB) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpB) IsZero() bool                      { calls++; return true }
func (*alienpB) IsNil() bool                       { calls++; return true }
func (*alienpB) Unwrap() error                     { calls++; return nil }
func (*alienpB) Len() int                          { calls++; return 0 }
func (*alienpB) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpB) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpB) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpB) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwB) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwB) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwB) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwB) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwB) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwB) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwB) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwB) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvF) Error() string                     { calls++; return "!" }
func (alienvF) String() string                    { calls++; return "!" }
func (alienvF) GoString() string                  { calls++; return "!" }
func (alienvF) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvF) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvF) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvF) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvF) IsZero() bool                      { calls++; return true }
func (alienvF) IsNil() bool                       { calls++; return true }
func (alienvF) Unwrap() error                     { calls++; return nil }
func (alienvF) Len() int                          { calls++; return 0 }
func (alienvF) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvF) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvF) JSON() []byte                      { calls++; return []byte("1") }
func (alienvF) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpF) Error() string                     { calls++; return "!" }
func (*alienpF) String() string                    { calls++; return "!" }
func (*alienpF) GoString() string                  { calls++; return "!" }
func (*alienpF) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpF) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpF) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpF) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpF) IsZero() bool                      { calls++; return true }
func (*alienpF) IsNil() bool                       { calls++; return true }
func (*alienpF) Unwrap() error                     { calls++; return nil }
func (*alienpF) Len() int                          { calls++; return 0 }
func (*alienpF) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpF) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpF) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpF) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwF) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwF) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwF) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwF) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwF) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwF) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwF) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwF) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvA) Error() string                     { calls++; return "!" }
func (alienvA) String() string                    { calls++; return "!" }
func (alienvA) GoString() string                  { calls++; return "!" }
func (alienvA) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvA) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvA) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvA) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvA) IsZero() bool                      { calls++; return true }
func (alienvA) IsNil() bool                       { calls++; return true }
func (alienvA) Unwrap() error                     { calls++; return nil }
func (alienvA) Len() int                          { calls++; return 0 }
func (alienvA) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvA) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvA) JSON() []byte                      { calls++; return []byte("1") }
func (alienvA) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpA) Error() string                     { calls++; return "!" }
func (*alienpA) String() string                    { calls++; return "!" }
func (*alienpA) GoString() string                  { calls++; return "!" }
func (*alienpA) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpA) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpA) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpA) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpA) IsZero() bool                      { calls++; return true }
func (*alienpA) IsNil() bool                       { calls++; return true }
func (*alienpA) Unwrap() error                     { calls++; return nil }
func (*alienpA) Len() int                          { calls++; return 0 }
func (*alienpA) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpA) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpA) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpA) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwA) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwA) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwA) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwA) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwA) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwA) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwA) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwA) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

func (alienvP) Error() string                     { calls++; return "!" }
func (alienvP) String() string                    { calls++; return "!" }
func (alienvP) GoString() string                  { calls++; return "!" }
func (alienvP) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (alienvP) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (alienvP) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (alienvP) Value() (interface{}, error)       { calls++; return "!", nil }
func (alienvP) IsZero() bool                      { calls++; return true }
func (alienvP) IsNil() bool                       { calls++; return true }
func (alienvP) Unwrap() error                     { calls++; return nil }
func (alienvP) Len() int                          { calls++; return 0 }
func (alienvP) UnmarshalJSON([]byte) error        { calls++; return nil }
func (alienvP) UnmarshalText([]byte) error        { calls++; return nil }
func (alienvP) JSON() []byte                      { calls++; return []byte("1") }
func (alienvP) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (*alienpP) Error() string                     { calls++; return "!" }
func (*alienpP) String() string                    { calls++; return "!" }
func (*alienpP) GoString() string                  { calls++; return "!" }
func (*alienpP) MarshalBinary() ([]byte, error)    { calls++; return []byte("1"), nil }
func (*alienpP) GobEncode() ([]byte, error)        { calls++; return []byte("1"), nil }
func (*alienpP) MarshalYAML() (interface{}, error) { calls++; return "!", nil }
func (*alienpP) Value() (interface{}, error)       { calls++; return "!", nil }
func (*alienpP) IsZero() bool                      { calls++; return true }
func (*alienpP) IsNil() bool                       { calls++; return true }
func (*alienpP) Unwrap() error                     { calls++; return nil }
func (*alienpP) Len() int                          { calls++; return 0 }
func (*alienpP) UnmarshalJSON([]byte) error        { calls++; return nil }
func (*alienpP) UnmarshalText([]byte) error        { calls++; return nil }
func (*alienpP) JSON() []byte                      { calls++; return []byte("1") }
func (*alienpP) WriteTo(io.Writer) (int64, error)  { calls++; return 0, nil }

func (alienwP) MarshalJSON() []byte                                { calls++; return []byte("1") }
func (alienwP) MarshalText() (string, error)                       { calls++; return "!", nil }
func (alienwP) AppendJSON([]byte) []byte                           { calls++; return []byte("1") }
func (alienwP) AppendJSONContext([]byte) ([]byte, error)           { calls++; return []byte("1"), nil }
func (alienwP) AppendText([]byte) ([]byte, error)                  { calls++; return []byte("1"), nil }
func (alienwP) EncodeJSON() ([]byte, error)                        { calls++; return []byte("1"), nil }
func (alienwP) MarshalJSONContext(context.Context) ([]byte, error) { calls++; return []byte("1"), nil }
func (alienwP) marshalJSON() ([]byte, error)                       { calls++; return []byte("1"), nil }

type (
	alienT[T any] struct {
		F T
		O T `json:",omitempty"`
		Q T `json:",string"`
	}
	alienEmb[T any] struct {
		alienT[T]
		P *T `json:"p,omitnil"`
	}
	alienKept struct {
		E error        `json:",omitempty"`
		S fmt.Stringer `json:",string"`
		Z interface{ IsZero() bool }
		I interface{} `json:",omitempty"`
	}
)

// aliens is x, of which the encoding is want, in several positions: how it is encoded is in w.
func aliens[T any](x T, want, quoted string) func(i int) (v interface{}, w string) {
	if quoted == "" {
		quoted = want
	}
	f := `"F":` + want + `,"O":` + want + `,"Q":` + quoted
	return func(i int) (interface{}, string) {
		switch i {
		case 0:
			return x, want
		case 1:
			return &x, want
		case 2:
			return []T{x, x}, `[` + want + `,` + want + `]`
		case 3:
			return [1]T{x}, `[` + want + `]`
		case 4:
			return map[string]T{"k": x}, `{"k":` + want + `}`
		case 5:
			return alienT[T]{x, x, x}, `{` + f + `}`
		case 6:
			return &alienT[T]{x, x, x}, `{` + f + `}`
		case 7:
			return &alienEmb[T]{alienT[T]{x, x, x}, &x}, `{` + f + `,"p":` + want + `}`
		case 8:
			return []*T{&x, nil}, `[` + want + `,null]`
		case 9:
			return []interface{}{x, &x}, `[` + want + `,` + want + `]`
		case 10:
			m := &sync.Map{}
			m.Store("k", x)
			return m, `{"k":` + want + `}`
		case 11:
			e, _ := interface{}(&x).(error)
			s, _ := interface{}(&x).(fmt.Stringer)
			z, _ := interface{}(&x).(interface{ IsZero() bool })
			if e == nil {
				return nil, "null"
			}
			return alienKept{e, s, z, &x}, `{"E":` + want + `,"S":` + want + `,"Z":` + want + `,"I":` + want + `}`
		case 12:
			e, _ := interface{}(x).(error)
			s, _ := interface{}(x).(fmt.Stringer)
			z, _ := interface{}(x).(interface{ IsZero() bool })
			if e == nil {
				return nil, "null"
			}
			return &alienKept{e, s, z, x}, `{"E":` + want + `,"S":` + want + `,"Z":` + want + `,"I":` + want + `}`
		case 13:
			e, _ := interface{}(&x).(error)
			s, _ := interface{}(&x).(fmt.Stringer)
			if e == nil {
				return nil, "null"
			}
			return map[string]interface{}{"a": []error{e, nil}, "b": [1]fmt.Stringer{s}, "c": map[string]error{"k": e}, "d": &e}, `{"a":[` + want + `,null],"b":[` + want + `],"c":{"k":` + want + `},"d":` + want + `}`
		default:
			e, _ := interface{}(x).(error)
			s, _ := interface{}(x).(fmt.Stringer)
			if e == nil {
				return nil, "null"
			}
			return []interface{}{[]error{e, nil}, [2]fmt.Stringer{s, s}, map[string]fmt.Stringer{"k": s}, &s}, `[[` + want + `,null],[` + want + `,` + want + `],{"k":` + want + `},` + want + `]`
		}
	}
}

// Q_C08_aliens: values of 27 types of 9 kinds with methods that are no marshaler's (Error, String, IsZero, MarshalBinary,
// and MarshalJSON, AppendJSON and so on with other signatures; by value or pointer receiver) in 15 positions, of which
// 4 are in interface types with such methods: encoded as their kind, no method is called.
func Q_C08_aliens() {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	d := dig(n)
	var f func(int) (interface{}, string)
	switch sym.Choose("type", 27) {
	case 0:
		f = aliens(alienvS{n}, `{"A":`+d+`}`, "")
	case 1:
		f = aliens(alienpS{n}, `{"A":`+d+`}`, "")
	case 2:
		f = aliens(alienwS{n}, `{"A":`+d+`}`, "")
	case 3:
		f = aliens(alienvI(n), d, `"`+d+`"`)
	case 4:
		f = aliens(alienpI(n), d, `"`+d+`"`)
	case 5:
		f = aliens(alienwI(n), d, `"`+d+`"`)
	case 6:
		f = aliens(alienvStr(s), `"`+s+`"`, `"\"`+s+`\""`)
	case 7:
		f = aliens(alienpStr(s), `"`+s+`"`, `"\"`+s+`\""`)
	case 8:
		f = aliens(alienwStr(s), `"`+s+`"`, `"\"`+s+`\""`)
	case 9:
		f = aliens(alienvM{s: n}, `{"`+s+`":`+d+`}`, "")
	case 10:
		f = aliens(alienpM{s: n}, `{"`+s+`":`+d+`}`, "")
	case 11:
		f = aliens(alienwM{s: n}, `{"`+s+`":`+d+`}`, "")
	case 12:
		f = aliens(alienvL{n}, `[`+d+`]`, "")
	case 13:
		f = aliens(alienpL{n}, `[`+d+`]`, "")
	case 14:
		f = aliens(alienwL{n}, `[`+d+`]`, "")
	case 15:
		f = aliens(alienvB(true), "true", `"true"`)
	case 16:
		f = aliens(alienpB(true), "true", `"true"`)
	case 17:
		f = aliens(alienwB(true), "true", `"true"`)
	case 18:
		f = aliens(alienvF(1.5), "1.5", `"1.5"`)
	case 19:
		f = aliens(alienpF(1.5), "1.5", `"1.5"`)
	case 20:
		f = aliens(alienwF(1.5), "1.5", `"1.5"`)
	case 21:
		f = aliens(alienvA{n}, `[`+d+`]`, "")
	case 22:
		f = aliens(alienpA{n}, `[`+d+`]`, "")
	case 23:
		f = aliens(alienwA{n}, `[`+d+`]`, "")
	case 24:
		f = aliens(alienvP{&n}, `{"P":`+d+`}`, "")
	case 25:
		f = aliens(alienpP{&n}, `{"P":`+d+`}`, "")
	case 26:
		f = aliens(alienwP{&n}, `{"P":`+d+`}`, "")
	}
	sym.Assume(n > 0 || sym.Bool("zero"))
	p := sym.Choose("position", 15)
	v, w := f(p)
	calls = 0
	if n == 0 && p != 10 || w == "null" {
		// Zero values are left out: how encoding/json does.
		same("zero", v)
	} else {
		is("alien", w, v)
	}
	sym.Assert("no method is called", calls == 0)
	sym.Reach("end")
}

// Q_C08_alienKeys: the same types as map keys.
func Q_C08_alienKeys() {
	s := letter("s")
	n := int(sym.U8("n"))
	sym.Assume(n < 10)
	m := &sync.Map{}
	var v interface{}
	w := dig(n)
	switch sym.Choose("type", 7) {
	case 0:
		v = map[alienvI]int{alienvI(n): 1}
		m.Store(alienvI(n), 1)
	case 1:
		v = map[alienpI]int{alienpI(n): 1}
		m.Store(alienpI(n), 1)
	case 2:
		v = map[alienwI]int{alienwI(n): 1}
		m.Store(alienwI(n), 1)
	case 3:
		v, w = map[alienvStr]int{alienvStr(s): 1}, s
		m.Store(alienvStr(s), 1)
	case 4:
		v, w = map[alienpStr]int{alienpStr(s): 1}, s
		m.Store(alienpStr(s), 1)
	case 5:
		v, w = map[alienwStr]int{alienwStr(s): 1}, s
		m.Store(alienwStr(s), 1)
	case 6:
		// Keys of these interface types are no strings, integers or text marshalers.
		fails("error keys", map[error]int{alienvStr(s): 1})
		fails("struct key", map[alienvS]int{{n}: 1})
		v = map[string]int{w: 1}
		m.Store(w, 1)
	}
	calls = 0
	var o []jettison.Option
	if sym.Choose("unsorted", 2) == 1 {
		o = append(o, jettison.UnsortedMap())
	}
	is("map", `{"`+w+`":1}`, v, o...)
	is("sync.Map", `{"`+w+`":1}`, m, o...)
	is("in a field", `{"E":{"`+w+`":1}}`, struct{ E interface{} }{v}, o...)
	sym.Assert("no method is called", calls == 0)
	sym.Reach("end")
}
