//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"
import (
	"io"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
	"golang.org/x/net/http/httpguts"
)

type incomparable [0]func()

const maxInt64 = 1<<63 - 1

var aLongTimeAgo = time.Unix(1, 0)
var omitBundledHTTP2 bool

type contextKey struct{ name string }

func (k *contextKey) String() string {
	return "net/http context value " + k.name
}
func hasPort(s string) bool {
	return strings.LastIndex(s, ":") > strings.LastIndex(s, "]")
}
func removeEmptyPort(host string) string {
	if hasPort(host) {
		return strings.TrimSuffix(host, ":")
	}
	return host
}
func isNotToken(r rune) bool {
	return !httpguts.IsTokenRune(r)
}
func stringContainsCTLByte(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b < ' ' || b == 0x7f {
			return true
		}
	}
	return false
}
func hexEscapeNonASCII(s string) string {
	newLen := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			newLen += 3
		} else {
			newLen++
		}
	}
	if newLen == len(s) {
		return s
	}
	b := make([]byte, 0, newLen)
	var pos int
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			if pos < i {
				b = append(b, s[pos:i]...)
			}
			b = append(b, '%')
			b = strconv.AppendInt(b, int64(s[i]), 16)
			pos = i + 1
		}
	}
	if pos < len(s) {
		b = append(b, s[pos:]...)
	}
	return string(b)
}

var NoBody = noBody{}

type noBody struct{}

func (noBody) Read([]byte) (int, error) {
	return 0, io.EOF
}
func (noBody) Close() error {
	return nil
}
func (noBody) WriteTo(io.Writer) (int64, error) {
	return 0, nil
}

var (
	_	io.WriterTo	= NoBody
	_	io.ReadCloser	= NoBody
)

type PushOptions struct {
	Method	string
	Header	Header
}
type Pusher interface {
	Push(target string, opts *PushOptions) error
}


var _ = zzrt.Y
