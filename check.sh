#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current tree
# check.sh --replay FILE [-v]            re-execute a recorded violation
# check.sh --build DIR                   only build, into DIR
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
GO=/opt/veriftools/go1.23.12/bin/go
[ -x "$GO" ] || GO=go
export PATH="$(dirname "$GO"):$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=1
export HOME="${HOME:-/root}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
B="$(mktemp -d "${TMPDIR:-/tmp}/simbuild.XXXXXX")" || exit 2
export TMPDIR="$B/tmp"; mkdir -p "$TMPDIR"
trap 'rm -rf "$B"' EXIT
build() {
  ( cd "$V/instr" && "$GO" build -o "$B/instr" . ) || return 2
  mkdir -p "$B/ov" "$B/mod"
  "$B/instr" -repo "$REPO" -out "$B/ov" -go "$GO" || return 2
  sed "s#=> /repo#=> $REPO#" "$V/sim/go.mod" > "$B/mod/go.mod"; cp "$V/sim/go.sum" "$B/mod/go.sum"
  ( cd "$V/sim" && "$GO" build ${SIMRACE:+-race} -modfile="$B/mod/go.mod" -overlay "$B/ov/overlay.json" -o "$B/simcheck" ./cmd/simcheck ) || return 2
}
if ! build >"$B/build.log" 2>&1; then cat "$B/build.log" >&2; echo "check.sh: build failed" >&2; exit 2; fi
case "${1:-}" in
--build) cp "$B/simcheck" "$B/ov/sites.txt" "$2"/; exit 0;;
--replay) shift; f="$1"; shift; "$B/simcheck" -replay "$f" -sites "$B/ov/sites.txt" "$@"; exit $?;;
"") echo "usage: check.sh <property> [quick|thorough]" >&2; exit 2;;
esac
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
SEED="${VERIF_SEED:-1}"
case "$TIER" in quick) DUR=${VERIF_DUR:-40s};; *) TIER=thorough; DUR=${VERIF_DUR:-600s};; esac
"$B/simcheck" -prop "$ID" -tier "$TIER" -seed "$SEED" -dur "$DUR" -out "$V" -known "$V/known_findings.txt" -sites "$B/ov/sites.txt" "$@"
exit $?
