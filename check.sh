#!/bin/bash
# check.sh ID          build the harness from /repo's working tree and decide one property
# check.sh --build     only build
# Seed and tier come from VERIF_SEED and VERIF_TIER.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"
log="$(mktemp)"
if ! cargo build --offline >"$log" 2>&1; then
    grep -A 15 '^error' "$log" | head -60 >&2
    rm -f "$log"
    echo "ERROR the harness does not build" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
[ "$1" = "--replay" ] && exec "$here/harness/target/debug/vp" replay "$2"
exec "$here/harness/target/debug/vp" run "$1"
