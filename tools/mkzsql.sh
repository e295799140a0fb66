#!/bin/sh
# Regenerates sim/zsql: database/sql of Go 1.23.12 (the last one here that imports public packages only),
# transformed by sim/xform, its site numbers moved out of the way of the group's own.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
cd "$t"
(cd "$here/sim/xform" && GO111MODULE=off GOTOOLCHAIN=local go build -o "$t/xform" main.go)
printf 'module zs\ngo 1.23\n' >go.mod
printf 'package zs\nimport _ "database/sql"\n' >a.go
PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS= ./xform -repo "$t" -out "$t/out" -light database/sql database/sql
python3 - "$t/out/src/database/sql/" "$here/sim/zsql/" <<'P'
import re, os, sys
src, dst = sys.argv[1:3]
for f in os.listdir(src):
    s = open(src + f).read()
    s = re.sub(r'zzrt\.(Y|Go|Select|MapIter1|MapIter2|MapIterV|MapIter)\((\d+)', lambda m: 'zzrt.%s(-%d' % (m[1], 1000 + int(m[2])), s)
    s = s.replace('connectionRequestQueueSize = 1000000', 'connectionRequestQueueSize = 1000')
    s = s.replace('//go:build go1.21\n', '//go:build go1.21\n\n// Package database/sql of Go 1.23.12 (Copyright The Go Authors, BSD license, see\n// https://go.dev/LICENSE), transformed by sim/xform in its light mode; the queue of connection\n// requests is shorter (tools/mkzsql.sh).\n', 1)
    open(dst + f, 'w').write(s)
P
rm -rf "$t"
