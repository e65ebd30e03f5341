#!/bin/bash
# Builds the harness against /repo's current working tree and checks one property.
#
# Usage: run.sh PROPERTY [quick|thorough]
#
# Exit codes: 0 if the property held, 1 if it is broken, anything else is an error of the check.
VERIF=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$VERIF
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export CARGO_TARGET_DIR=$VERIF/harness/target
build() {
    cd "$VERIF/$1" || exit 2
    local log
    log=$(mktemp)
    if ! cargo build --offline >"$log" 2>&1; then
        cat "$log"
        rm -f "$log"
        echo "harness error: build failed"
        exit 2
    fi
    rm -f "$log"
}
case $1 in
    build) (build web); (build pi); build harness ;;
    P*) build pi; exec "$CARGO_TARGET_DIR/debug/vppi" check "$1" ;;
    W*) build web; exec "$CARGO_TARGET_DIR/debug/vpweb" check "$1" ;;
    *) build harness; exec "$CARGO_TARGET_DIR/debug/vp" check "$1" ;;
esac
