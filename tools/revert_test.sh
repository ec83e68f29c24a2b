#!/bin/bash
# revert_test.sh [COMMIT...]: reverts each repair (default: every "fixed:" line) in a scratch copy and runs the check that is to report it.
here=$(cd "$(dirname "$0")/.." && pwd)
grep '^fixed:' "$here/known_findings.txt" | while read -r _ prop commit what; do
    [ $# -gt 0 ] && [[ " $* " != *" $commit "* ]] && continue
    t=$(mktemp -d /tmp/revert.XXXXXX); git clone -q /repo "$t/r"
    if ! git -C "$t/r" revert --no-edit -n "$commit" >"$t/log" 2>&1; then echo "$commit ${prop#property=} CONFLICT $what"; rm -rf "$t"; continue; fi
    s=$(date +%s); VERIF_REPO=$t/r timeout 900 python3 "$here/tools/check.py" "${prop#property=}" >"$t/out" 2>&1; rc=$?
    echo "$commit ${prop#property=} rc=$rc $(($(date +%s) - s))s $(grep -oE 'law [a-z_]+' "$t/out" | head -1) | $what"
    rm -rf "$t"
done
