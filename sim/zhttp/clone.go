//go:build go1.21

// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see
// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).

package http

import zzrt "github.com/chanjarster/gears/zzsim/rt"
import (
	"mime/multipart"
	"net/textproto"
	"net/url"
	_ "unsafe"
)

func cloneURLValues(v url.Values) url.Values {
	if v == nil {
		return nil
	}
	return url.Values(Header(v).Clone())
}
func cloneURL(u *url.URL) *url.URL {
	if u == nil {
		return nil
	}
	u2 := new(url.URL)
	*u2 = *u
	if u.User != nil {
		u2.User = new(url.Userinfo)
		*u2.User = *u.User
	}
	return u2
}
func cloneMultipartForm(f *multipart.Form) *multipart.Form {
	if f == nil {
		return nil
	}
	f2 := &multipart.Form{Value: (map[string][]string)(Header(f.Value).Clone())}
	if f.File != nil {
		m := make(map[string][]*multipart.FileHeader)
		for zzit1, k, vv := zzrt.MapIter2(-3005, f.File); zzit1.Next(&k, &vv); {
			vv2 := make([]*multipart.FileHeader, len(vv))
			for i, v := range vv {
				vv2[i] = cloneMultipartFileHeader(v)
			}
			m[k] = vv2
		}
		f2.File = m
	}
	return f2
}
func cloneMultipartFileHeader(fh *multipart.FileHeader) *multipart.FileHeader {
	if fh == nil {
		return nil
	}
	fh2 := new(multipart.FileHeader)
	*fh2 = *fh
	fh2.Header = textproto.MIMEHeader(Header(fh.Header).Clone())
	return fh2
}
func cloneOrMakeHeader(hdr Header) Header {
	clone := hdr.Clone()
	if clone == nil {
		clone = make(Header)
	}
	return clone
}


var _ = zzrt.Y
