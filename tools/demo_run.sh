#!/bin/bash
# Compiles prog.c (beside this script) with the freshly built hlc.exe under wine in a scratch folder and runs the result.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/hlc/env.sh
cp -p /opt/hlc/prefix.reg/*.reg "$WINEPREFIX"/
dir=$(mktemp -d); trap 'rm -rf "$dir"' EXIT
[ -e /repo/_build/bin/implicit ] || ln -sfn /repo/implicit /repo/_build/bin/implicit
cp "$here"/prog.c "$dir"/; cd "$dir"
wine /repo/_build/bin/hlc.exe prog.c > out.txt 2>&1 || { tail -5 out.txt; exit 1; }
[ -f prog.exe ] || { tail -5 out.txt; exit 1; }
wine ./prog.exe; r=$?
echo "program exit code $r"
[ $r = 0 ]
