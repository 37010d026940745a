#!/bin/bash
# Runs demo.js (beside this file) on the extension in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
VP_SCRATCH="$tmp" timeout 200 node "$here/demo.js" "$PWD/editors/code/src/extension.ts"
