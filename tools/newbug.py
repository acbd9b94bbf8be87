#!/usr/bin/env python3
# newbug.py ID PROP PKG "needs" "breaks" < demo_test.go : creates /verif/seeded/ID/{demo.sh,demo_test.go,meta.json}
import sys, os, json
id, prop, pkg, needs, breaks = sys.argv[1:6]
flags = sys.argv[6] if len(sys.argv) > 6 else ""
fname = os.environ.get("DEMOFILE", "zz_demo_test.go")  # in the package; an existing test file is replaced for the run (its TestMain may need a network)
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
open(d + "/demo_test.go", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository's root; fails when the planted change is present
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=1
T="$(mktemp -d)" || exit 3; trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%s/%s" "$here/demo_test.go" > "$T/overlay.json"
go test %s-count=1 -vet=off -timeout 240s -overlay "$T/overlay.json" -run '^TestPlantedDemo$' ./%s
''' % (pkg, fname, flags + " " if flags else "", pkg))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
