#!/bin/bash
# Warm the builds. Checks build by themselves as well.
cd "$(dirname "$0")" || exit 2
. ./build.sh
for p in vh cli clinet net min climin; do
    build "$p" 2>&1 | tail -20
    [ "${PIPESTATUS[0]}" = 0 ] || exit 2
done
