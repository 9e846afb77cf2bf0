#!/bin/bash
# Prepares the build cache; every check also does this by itself if needed.
HERE="$(cd "$(dirname "$0")/.." && pwd)"
"$HERE/bin/build.sh" c01 >/dev/null
