#!/bin/bash
# check.sh setup            build the harness
# check.sh ID               build against /repo's working tree, run the check of one property
# check.sh replay FILE      run one saved case: exit 0 holds, 1 violated
# VERIF_TIER=quick|thorough, VERIF_SEED=n
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/harness/target" RUSTC_WRAPPER="$here/tools/rustc-cov.sh"
log="$(mktemp)"
if ! (cd "$here/harness" && cargo build --release --offline) >"$log" 2>&1; then
  # a tree that does not build is no verdict about a property
  tail -40 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
lav="$CARGO_TARGET_DIR/release/lav"
case "$1" in
  setup) exit 0 ;;
  replay) cd "$here" && exec "$lav" replay "$2" ;;
  all) cd "$here"; rc=0
    for id in $("$lav" list); do "$lav" run "$id" || rc=1; done; exit $rc ;;
  *) cd "$here" && exec "$lav" run "$1" ;;
esac
