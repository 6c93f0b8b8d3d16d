#!/bin/bash
# usage: run.sh ID            decide property ID on /repo's working tree
#        run.sh replay FILE   re-run one recorded case
#        run.sh setup         build everything once
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$dir" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOEXPERIMENT GODEBUG GOGC GOMAXPROCS GOMEMLIMIT GORACE GOCOVERDIR 2>/dev/null

work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_WORK="$work"
mkdir -p "$dir/evidence" "$dir/out/replay"

build() { # name, go build flags...
  local name=$1; shift
  if ! (cd "$dir/mon" && go build "$@" -o "$work/$name" "./cmd/$name") 2>"$work/build.log"; then
    cat "$work/build.log" >&2
    echo "cannot build the monitors against /repo" >&2
    exit 3
  fi
}

# The internal packages are used where they can be; a build without them
# decides the rest.
build_internals() {
  local name=$1; shift
  (cd "$dir/mon" && go build "$@" -tags internals -o "$work/$name" "./cmd/$name") 2>/dev/null || build "$name" "$@"
}

id=${1:?usage: run.sh ID | replay FILE | setup}
case "$id" in
  setup)
    build mon
    build_internals mon -race
    build_internals cold -race
    exit 0 ;;
  replay)
    prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1) ;;
  *) prop=$id ;;
esac

case "$prop" in
  C10)
    bin=mon
    build_internals mon -race
    build_internals cold -race
    export VERIF_COLD="$work/cold" ;;
  C19)
    bin=steps
    build instrument
    mkdir "$work/overlay"
    VERIF_SITES=$("$work/instrument" /repo "$work/overlay") || exit 3
    export VERIF_SITES
    build steps -overlay "$work/overlay/overlay.json" ;;
  C24)
    bin=regen
    build regen
    cp "$dir/mon/genhook/serve.go.txt" "$work/serve.go"
    echo '{"Replace": {"/repo/internal/gen/zz_verif_serve.go": "'"$work"'/serve.go"}}' >"$work/gen.json"
    if ! (cd /repo/internal/gen && go build -overlay "$work/gen.json" -o "$work/generator" .) 2>"$work/build.log"; then
      cat "$work/build.log" >&2
      echo "cannot build the generator" >&2
      exit 3
    fi
    export VERIF_GENERATOR="$work/generator" ;;
  C23)
    bin=regen
    build regen
    echo '{"Replace": {"/repo/internal/gen/zzverif/main.go": "'"$dir"'/mon/genhook/tries.go.txt"}}' >"$work/gen.json"
    if ! (cd /repo/internal/gen && go build -overlay "$work/gen.json" -o "$work/tries" ./zzverif) 2>"$work/build.log"; then
      cat "$work/build.log" >&2
      echo "cannot build the table generator" >&2
      exit 3
    fi
    export VERIF_TRIES="$work/tries" ;;
  C26) bin=mon; build_internals mon ;;
  C22|C25) bin=moni; build moni ;;
  *) bin=mon; build mon ;;
esac
"$work/$bin" "$@"
exit $?
