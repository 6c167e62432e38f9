#!/bin/bash
# Rebuild the harness against /repo's current working tree and run one check.
# usage: check.sh <property id> [quick|thorough]
set -u
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/harness" || exit 2
export CARGO_NET_OFFLINE=true
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp /tmp/vmon-build.XXXXXX)
trap 'rm -f "$log"' EXIT
if ! cargo build --release --offline -q 2>"$log"; then
    grep -E '^(error|  *-->)' "$log" | head -20
    tail -40 "$log"
    echo "BUILD FAILED"
    exit 2
fi
bin=vmon
if [ "$1" = C20 ]; then
    # compile the formulas of this run with the macro
    seed=${VERIF_SEED:-1}
    export MAC_GEN="$root/harness/target/mac_gen_${seed}_$tier.rs"
    ./target/release/vmon gen-mac "$seed" "${VMON_CASES:-$tier}" >"$MAC_GEN.new" || exit 2
    cmp -s "$MAC_GEN.new" "$MAC_GEN" || cp "$MAC_GEN.new" "$MAC_GEN"
    rm -f "$MAC_GEN.new"
    if ! (cd mac && CARGO_TARGET_DIR=../target cargo build --release --offline -q 2>"$log"); then
        if grep -qE '^ *--> .*mac_gen_' "$log"; then
            # a formula that the macro does not accept, or turns into code that does not compile
            mkdir -p "$root/replays"
            replay="$root/replays/C20-$seed-compile.txt"
            grep -A8 -E '^error' "$log" | head -60 >"$replay"
            head -12 "$replay"
            echo "VIOLATION property=C20 replay=$replay"
            exit 1
        fi
        tail -40 "$log"
        echo "BUILD FAILED"
        exit 2
    fi
    bin=mac
fi
rm -f "$log"
exec ./target/release/$bin check "$1" --tier "$tier"
