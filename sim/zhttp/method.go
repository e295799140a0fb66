//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"

const (
	MethodGet	= "GET"
	MethodHead	= "HEAD"
	MethodPost	= "POST"
	MethodPut	= "PUT"
	MethodPatch	= "PATCH"
	MethodDelete	= "DELETE"
	MethodConnect	= "CONNECT"
	MethodOptions	= "OPTIONS"
	MethodTrace	= "TRACE"
)


var _ = zzrt.Y
