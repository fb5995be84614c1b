#!/bin/bash
# Usage: bash run.sh <property> ; builds the harness against /repo's current
# tree and runs the check. Exit 0 held, 1 violation, other: no verdict.
cd "$(dirname "$0")" || exit 2
. ./build.sh
id="$1"
vh=./target/debug/vh
parts=vh
case "$id" in
    C05|C19|C24|C25) parts=net; vh=./target-net/debug/vh ;;
    C27|C28|C29) parts="vh cli" ;;
    C33) parts="min climin"; vh=./target-min/debug/vh ;;
    C31) parts="vh clinet" ;;
esac
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
for p in $parts; do
    if ! build "$p" >"$log" 2>&1; then
        echo "build of $p failed" >&2
        tail -50 "$log" >&2
        exit 2
    fi
done
"$vh" check "$id"
