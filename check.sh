#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree and decide one property.
. "$(dirname "$0")/env.sh"
case "$1" in
C15 | C16 | C17) crate=mc-wire ;;
*) crate=mc-core ;;
esac
case "$1" in
C13 | C22 | C26 | C30)
    build mc-cli || { echo "BUILD FAILED"; exit 2; }
    export AKASA_CLI="$CARGO_TARGET_DIR/debug/akasa-cli" ;;
esac
build "$crate" || { echo "BUILD FAILED"; exit 2; }
[ -n "${MC_REPLAY:-}" ] || rm -f "$VERIF_DIR/replays/$1-"*.json
exec "$CARGO_TARGET_DIR/debug/$crate" "$@"
