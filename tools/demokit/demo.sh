#!/bin/bash
# Builds demo.cc against the sources in the current directory's repository and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
tar -xzf "$here/kit.tgz" -C "$work" || exit 2
VERIF_REPO="$PWD" python3 "$work/kit/tools/demo_build.py" "$work/kit" "$work/build" "$work/demo" "$here/demo.cc" $(cat "$here/sources") || exit 2
mkdir "$work/run" && cd "$work/run" && TMPDIR="$work/run" timeout 200 "$work/demo"
