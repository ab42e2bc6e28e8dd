#!/bin/bash
# Warms the build cache: builds the monitors with and without the race detector.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
cd "$here/harness"
go build -o "$dir/h" .
go build -race -o "$dir/hr" .
"$dir/h" -list >/dev/null
