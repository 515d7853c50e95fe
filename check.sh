#!/bin/bash
# check.sh ID [TIER]: rebuild the monitors against /repo's working tree and run those of one property.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS= CS_VERIF="$here" VERIF_SEED="${VERIF_SEED:-1}"
unset CARGO_PROFILE_DEV_DEBUG
[ -n "$2" ] && export VERIF_TIER="$2"
profile=dev dir=debug
[ "$VERIF_TIER" = thorough ] && profile=thorough dir=thorough
cd "$here/harness" || exit 3
log=$(mktemp) || exit 3
if ! cargo build --offline --quiet --profile "$profile" >"$log" 2>&1; then
    grep -E "^error" -A 12 "$log" | head -60
    echo "the monitors do not build against /repo"
    rm -f "$log"
    exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec ./target/$dir/cs_monitor "$1"
