#!/bin/bash
# Runs demo.py (beside this file) with the server built in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
server="$PWD/target/debug/move_language_server"
[ -x "$server" ] || { echo "no server at $server"; exit 3; }
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 200 python3 "$here/demo.py" "$server"
