#!/bin/bash
# Runs main.go beside this file against the repository in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf 'module demo\n\ngo 1.24\n\nrequire github.com/alxarch/njson v0.0.0\n\nreplace github.com/alxarch/njson => %s\n' "$PWD" > "$T/go.mod"
cp "$D/main.go" "$T/main.go"
cd "$T" && timeout 200 go run .
