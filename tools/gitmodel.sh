#!/bin/bash
# Compare the model of git with the installed git: gitmodel.sh N
set -e
d=$(mktemp -d /tmp/gitmodel.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir "$d/verifsym" "$d/r"
cp "$here"/harness/verifsym/*.go "$d/verifsym/"
cp "$here/tools/gitmodel/main.go" "$d/"
printf 'module gm\ngo 1.21\n' > "$d/go.mod"
cd "$d" && GOFLAGS=-mod=mod go build -o gm . && ./gm "$d/r" "${1:-200}"
