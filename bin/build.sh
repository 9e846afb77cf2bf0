#!/bin/bash
# build.sh NAME [-race|-tags=TAG|-sched|-ldb|-fyne|cmd/NAME]...: builds /verif/harness/NAME against /repo's working tree.
# Prints the path of the binary.
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${VERIF_REPO:-/repo}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GODEBUG=goindex=0
export GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=1
CACHE="$HERE/.cache"
mkdir -p "$CACHE"
export GOCACHE="$CACHE/gocache"
(
  flock 9
  if [ ! -d "$GOCACHE" ]; then
    rm -rf /verif/.cache/gocache.tmp
    if [ -d /opt/vp/gocache ] && cp -a /opt/vp/gocache "$CACHE/gocache.tmp" 2>/dev/null; then
      mv "$CACHE/gocache.tmp" "$GOCACHE"
    else
      rm -rf /verif/.cache/gocache.tmp; mkdir -p "$GOCACHE"
    fi
  fi
  if [ ! -x "$CACHE/overlay" ] || [ -n "$(find "$HERE/tools/overlay" -newer "$CACHE/overlay" -name '*.go')" ]; then
    (cd "$HERE/tools/overlay" && GOFLAGS= go build -o "$CACHE/overlay.new" . && mv "$CACHE/overlay.new" "$CACHE/overlay") || exit 1
  fi
) 9>"$CACHE/lock" || { echo "build of the overlay tool failed" >&2; exit 2; }
NAME="$1"; shift
OUT="$CACHE/out/$NAME${VERIF_OUT:-}"
mkdir -p "$OUT"
GOARGS=(); OVARGS=(); CMDS=()
for a in "$@"; do
  case "$a" in
    cmd/*) CMDS+=("./$a");;
    -race|-tags=*|-gcflags=*) GOARGS+=("$a");;
    *) OVARGS+=("$a");;
  esac
done
"$CACHE/overlay" -repo "$REPO" -harness "$HERE/harness" -out "$OUT" "${OVARGS[@]}" >&2 || { echo "overlay generation failed" >&2; exit 2; }
cd "$REPO" || exit 2
go build "${GOARGS[@]}" -overlay "$OUT/overlay.json" -o "$OUT/bin" "./internal/zverif/$NAME" >&2 || { echo "build of $NAME failed" >&2; exit 2; }
if [ ${#CMDS[@]} -gt 0 ]; then
  go build -overlay "$OUT/overlay.json" -o "$OUT/" "${CMDS[@]}" >&2 || { echo "build of ${CMDS[*]} failed" >&2; exit 2; }
fi
echo "$OUT/bin"
