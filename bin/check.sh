#!/bin/bash
# check.sh ID [quick|thorough] [-replay FILE]
HERE="$(cd "$(dirname "$0")/.." && pwd)"
ID="$1"; TIER="${2:-quick}"; shift; shift
name="$(echo "$ID" | tr 'A-Z' 'a-z')"
export VERIF_DIR="$HERE" VERIF_TIER="$TIER"
opts=()
[ -f "$HERE/harness/$name/build.opts" ] && read -r -a opts < "$HERE/harness/$name/build.opts"
bin="$("$HERE/bin/build.sh" "$name" "${opts[@]}")" || exit 2
exec "$bin" "$@"
