#!/bin/bash
# usage: check.sh ID quick|thorough
. "$(dirname "$0")/build.sh"
code=0
case "$1 $2" in
C18\ *|C14\ thorough|C15\ thorough|C17\ thorough|C19\ *)
    # once more in a build with the crate's debug assertions
    build dbg || exit 2
    side=$(mktemp)
    MC_EVIDENCE=$side "$CARGO_TARGET_DIR/dbg/mc" check "$1" "${2:-quick}" || code=$?
    export MC_MERGE=$side
    [ $code = 0 ] || MC_MERGE=
    ;;
esac
build release || exit 2
if [ $code = 0 ]; then
    "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-quick}" || code=$?
else
    cp "$side" "$V/evidence/$1.json"
fi
[ -z "${side:-}" ] || rm -f "$side"
exit $code
