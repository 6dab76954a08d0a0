#!/bin/bash
# check.sh <property-id>: build what the check needs from /repo's working tree and run it.
set -u
VERIF_DIR="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOWORK="$VERIF_DIR/harness/go.work" GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-trimpath=false
unset GOROOT
ID="$1"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 3
export VERIF_SCRATCH="$SCRATCH"
cleanup() { case "$SCRATCH" in /tmp/verif.*) rm -rf -- "$SCRATCH";; esac; }
trap cleanup EXIT
cd "$VERIF_DIR/harness" || exit 3

b() { # b <out> <pkg> [flags...]
  local out="$1" pkg="$2"; shift 2
  go build -o "$SCRATCH/$out" "$@" "./cmd/$pkg" || { echo "build of $pkg failed"; exit 3; }
}
bp() { # bp <out> <import path>
  go build -o "$SCRATCH/$1" "$2" || { echo "build of $2 failed"; exit 3; }
}
clock_overlay() { # a copy of package time whose clock can be shifted
  local R; R="$(go env GOROOT)"
  mkdir -p "$SCRATCH/ov"
  sed -e 's/sec, nsec, mono := runtimeNow()/sec, nsec, mono := verifNow()/' \
      -e 's/runtimeNano()-startNano/verifNano()-startNano/' \
      "$R/src/time/time.go" > "$SCRATCH/ov/time.go"
  [ "$(grep -c 'verifNow()\|verifNano()' "$SCRATCH/ov/time.go")" = 3 ] || { echo "package time can not be instrumented"; exit 3; }
  cp "$VERIF_DIR/harness/overlay/verif_clock.go.txt" "$SCRATCH/ov/verif_clock.go"
  printf '{"Replace":{"%s/src/time/time.go":"%s/ov/time.go","%s/src/time/verif_clock.go":"%s/ov/verif_clock.go"}}\n' \
     "$R" "$SCRATCH" "$R" "$SCRATCH" > "$SCRATCH/ov/overlay.json"
}
. "$VERIF_DIR/bin/checks.sh"
run_check "$ID"
rc=$?
exit $rc
