#!/bin/bash
# Warms the build cache: every check rebuilds from /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
mkdir -p .work
./build.sh "$V/.work/setup" native race
s=$?
rm -rf "$V/.work/setup"
exit $s
