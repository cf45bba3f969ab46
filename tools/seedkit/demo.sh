#!/bin/bash
# Builds /repo's sources and the demonstration beside this file in a scratch
# directory and runs it there. cwd: /repo. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
inc=
for top in runtime server db; do
	inc="$inc -I$repo/amelie/$top"
	for d in "$repo"/amelie/$top/*/; do inc="$inc -I$d"; done
done
srcs=$(ls "$repo"/amelie/runtime/*/*.c "$repo"/amelie/server/*/*.c "$repo"/amelie/db/*/*.c | grep -v -e /db/service/ -e /db/db/)
for s in $srcs; do
	o=$(echo "$s" | tr / _)
	echo "clang -O1 -g -w $inc -c $s -o $work/${o%.c}.o"
done | xargs -P 8 -d '\n' -I{} sh -c '{}' || { echo "build failed"; exit 3; }
clang -O1 -g -w $inc -I"$here" "$here"/demo.c "$work"/*.o -o "$work"/demo \
	$(cat "$here"/ldflags 2>/dev/null) -lm -lpthread -lssl -lcrypto -lpcre2-8 -lzstd -ldl || { echo "build failed"; exit 3; }
mkdir "$work"/scratch
DEMO_DIR="$work"/scratch timeout 120 "$work"/demo
rc=$?
echo "demo exit code $rc"
exit $rc
