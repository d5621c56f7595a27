#!/bin/bash
# Builds simgen, the transformed tree and the runner (cached by content) and executes the runner with the given flags.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${CXO_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=0 GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
T0=$(date +%s.%N)
B=$V/.build
mkdir -p "$B" || exit 3
H=$( (cd "$REPO" && find data skyobject node cxoutils -name '*.go' ! -name '*_test.go' | LC_ALL=C sort | xargs sha256sum; \
      cd "$V" && find deps sim tools/simgen -name '*.go' | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-16)
D=$B/$H
if [ ! -x "$D/simrun" ]; then
  (
    flock 9
    if [ ! -x "$D/simrun" ]; then
      # keep the three newest builds
      find "$B" -mindepth 1 -maxdepth 1 -type d -name '????????????????' -printf '%T@ %p\n' | sort -rn | tail -n +4 | cut -d' ' -f2- |
        while read -r d; do find "$d" -delete; done
      mkdir -p "$D"
      (cd "$V/tools/simgen" && go build -o "$D/simgen" .) || exit 3
      "$D/simgen" -out "$D/gen" -repo "$REPO" -verif "$V" -root harness/cmd/simrun || exit 3
      (cd "$D/gen/harness" && go build -tags sim -ldflags='-s -w' -o "$D/simrun.tmp" ./cmd/simrun) || exit 3
      mv "$D/simrun.tmp" "$D/simrun"
    fi
  ) 9>"$B/lock" >"$B/build.log" 2>&1
  if [ ! -x "$D/simrun" ]; then cat "$B/build.log" >&2; echo "build of the simulation failed" >&2; exit 3; fi
fi
T1=$(date +%s.%N)
exec "$D/simrun" -verif "$V" -seed "${VERIF_SEED:-1}" -builds "$(echo "$T1 $T0" | awk '{print $1-$2}')" "$@"
