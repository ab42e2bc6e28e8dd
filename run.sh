#!/bin/bash
# run.sh <property> [quick|thorough] [harness flags, e.g. -replay FILE]
# Builds the monitors together with /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=${1:?usage: run.sh PROPERTY [quick|thorough] [-replay FILE]}
shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift ;; esac
dir=$(mktemp -d "${TMPDIR:-/tmp}/gosupp-check.XXXXXX") || exit 2
trap 'rm -rf -- "$dir"' EXIT
flags=()
# the purity and data-race monitor runs under the race detector
[ "$id" = C22 ] && flags+=(-race)
if ! (cd "$here/harness" && go build "${flags[@]}" -o "$dir/verifharness" .); then
	echo "BUILD-FAILED: the monitors do not build against /repo's working tree"
	exit 2
fi
"$dir/verifharness" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$here" "$@"
