//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"
import (
	_ "unsafe"
)

func (t *Transport) RoundTrip(req *Request) (*Response, error) {
	return t.roundTrip(req)
}


var _ = zzrt.Y
