//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"
import (
	"context"
	"net"
)

func defaultTransportDialContext(dialer *zzrt.NetDialer) func(context.Context, string, string) (net.Conn, error) {
	return dialer.DialContext
}


var _ = zzrt.Y
