#!/bin/bash
# Nothing is prebuilt: every check compiles /repo's current sources itself. This only shows that the tools are there.
set -e
cd "$(dirname "$0")"
gcc --version | head -1
python3 --version
test -d /repo/src
cd spec
f="${TMPDIR:-/tmp}/dwv-setup-$$.ndjson"
: > "$f"
for m in DWNode DWClient DWCli DWDist DWQueue DWPQueue DWAff DWAddr DWKernel DWSystem; do
    d=$(mktemp -d)
    DW_TRACES="$f" tlc -metadir "$d" -noGenerateSpecTE ${m}Trace > "$d/out" || { cat "$d/out"; exit 1; }
    rm -rf "$d"
done
rm -f "$f"
