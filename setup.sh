#!/bin/bash
# Builds every harness once, so that later builds are warm where caches persist.
cd "$(dirname "$0")" || exit 1
for g in $(ls harness); do
    [ -f "harness/$g/main.go" ] || continue
    ZV_BUILD_ONLY=1 ./run.sh "$g" none || exit 1
done
ZV_COMMITS=1 ZV_BUILD_ONLY=1 ./run.sh store none || exit 1
exit 0
