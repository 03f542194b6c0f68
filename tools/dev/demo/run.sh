#!/bin/sh
# Builds demo.c against the library; it may write t.s, which is linked with
# main.c (beside this script) or with the t_ref.c demo.c wrote, and run.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -w -Iinclude -Ibuild/gen/include -Ibuild/gen/include/libfirm -Iinclude/libfirm "$D/demo.c" build/debug/libfirm.a -lm -o "$T/demo" || exit 3
cd "$T" || exit 3
timeout 60 ./demo || { echo "demo: failed"; exit 1; }
M=
if [ -f "$D/main.c" ]; then M=$D/main.c; elif [ -f t_ref.c ]; then M=t_ref.c; fi
if [ -n "$M" ]; then
	gcc -w $(cat "$D/flags" 2>/dev/null) -no-pie "$M" t.s -o main || exit 1
	timeout 60 ./main || { echo "main: wrong result"; exit 1; }
fi
exit 0
