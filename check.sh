#!/bin/bash
# check.sh ID quick|thorough: builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
./setup.sh >/dev/null 2>build.log || { cat build.log >&2; echo "build failed" >&2; exit 2; }
# first a short pass over the build with debug assertions; its evidence is not kept
(
    export VERIF_DIR="$PWD/harness/target/checked-run" MC_BUDGET=60
    mkdir -p "$VERIF_DIR"
    cp KNOWN_FINDINGS.txt "$VERIF_DIR/" 2>/dev/null
    exec harness/target/checked/mc check "$1" quick >harness/target/checked-run/out 2>&1
)
rc=$?
if [ $rc -ne 0 ]; then
    echo "build with debug assertions (replay with harness/target/checked/mc):"
    cat harness/target/checked-run/out
    exit $rc
fi
exec harness/target/release/mc check "$1" "${2:-quick}"
