#!/bin/sh
# Regenerates sim/zhttp: net/http of Go 1.23.12 without HTTP/2 and without file serving, transformed by sim/xform,
# its site numbers moved out of the way of the group's own; internal packages of the standard library are copied
# or replaced by stubs.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
go=/opt/veriftools/go1.23.12
t=$(mktemp -d)
cd "$t"
(cd "$here/sim/xform" && GO111MODULE=off GOTOOLCHAIN=local go build -o "$t/xform" main.go)
printf 'module zs\ngo 1.23\n' >go.mod
printf 'package zs\nimport _ "net/http"\n' >a.go
PATH=$go/bin:$PATH GOTOOLCHAIN=local GOFLAGS= ./xform -repo "$t" -out "$t/out" -tags nethttpomithttp2 -light net/http -net net/http net/http
mkdir -p "$here/sim/zhttp/zinternal/ascii" "$here/sim/zhttp/zinternal/godebug"
python3 - "$t/out/src/net/http/" "$here/sim/zhttp/" "$go/src/net/http/" <<'P'
import re, os, sys
src, dst, orig = sys.argv[1:4]
P = "github.com/chanjarster/gears/zzsim/zhttp/zinternal"
note = '\n\n// Package net/http of Go 1.23.12 (Copyright The Go Authors, BSD license, see\n// https://go.dev/LICENSE), transformed by sim/xform in its light mode (tools/mkzhttp.sh).\n'
def fix(s):
    s = re.sub(r'zzrt\.(Y|Go|Select|MapIter1|MapIter2|MapIterV|MapIter)\((\d+)', lambda m: 'zzrt.%s(-%d' % (m[1], 3000 + int(m[2])), s)
    s = re.sub(r'(?m)^//go:linkname .*\n', '', s)
    s = s.replace('"net/http/internal/ascii"', '"%s/ascii"' % P).replace('"net/http/internal"', 'internal "%s"' % P).replace('"internal/godebug"', '"%s/godebug"' % P)
    return s
SKIP = {"fs.go", "filetransport.go", "doc.go"}
for f in os.listdir(src):
    if f in SKIP:
        continue
    s = fix(open(src + f).read())
    s = s.replace('//go:build go1.21 && nethttpomithttp2\n', '//go:build go1.21\n').replace('//go:build nethttpomithttp2\n', '')
    if f == "roundtrip.go":
        s = re.sub(r'(?s)func badRoundTrip\(.*?\n', '', s)
        s = s.replace('import _ "unsafe"', '')
    s = s.replace("func badServeHTTP(serverHandler, ResponseWriter, *Request)\n", "")
    s = s.replace('//go:build go1.21\n', '//go:build go1.21' + note, 1)
    open(dst + f, 'w').write(s)
for f, d in (("internal/chunked.go", "zinternal/chunked.go"), ("internal/ascii/print.go", "zinternal/ascii/print.go")):
    s = open(orig + f).read()
    open(dst + d, 'w').write('//go:build go1.21\n\n' + s)
open(dst + "zinternal/godebug/godebug.go", "w").write('''//go:build go1.21

// Package godebug stands for internal/godebug: no setting is set.
package godebug

type Setting struct{ name string }

func New(name string) *Setting          { return &Setting{name} }
func (s *Setting) Name() string         { return s.name }
func (s *Setting) Value() string        { return "" }
func (s *Setting) String() string       { return s.name + "=" }
func (s *Setting) Undocumented() bool   { return false }
func (s *Setting) IncNonDefault()       {}
''')
P
rm -rf "$t"
