#!/bin/bash
# check.sh <property> [--replay <file>]: build everything from /repo's working tree, run one check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "$0")/harness" || exit 2
id=$1
[ -n "$id" ] || { echo "usage: check.sh <property> [--replay <file>]" >&2; exit 2; }
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS MIRIFLAGS CARGO_TARGET_DIR MLXMON_CASES
here=$(dirname "$PWD")
export MLXMON_OUT=${MLXMON_OUT:-$here/evidence}
mkdir -p "$MLXMON_OUT/replay" target
[ "$2" = --replay ] || rm -f "$MLXMON_OUT/$id.json"
[ "$2" = --replay ] && seed=$(sed -n 's/^seed=//p' "$3") && [ -n "$seed" ] && export VERIF_SEED=$seed

case $id in
C18 | C19) exec python3 "$here/instruments.py" "$id" ;;
esac

log=$(mktemp "$PWD/target/build-XXXXXX.log")
if ! cargo build --release --offline --bin check >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -60 >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
ulimit -c 0
if [ "$id" = C16 ]; then
    # Long waits once more, in a build without optimisation.
    if ! cargo build --profile deep --offline --bin deep >"$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -60 >&2
        echo "the harness does not build against /repo" >&2
        exit 2
    fi
    said=$(timeout 300 ./target/deep/deep 2>&1)
    rc=$?
    if [ $rc -ne 0 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ] && [ $rc -ne 130 ]; then
        path=$MLXMON_OUT/replay/$id-$VERIF_SEED.txt
        [ "$2" = --replay ] && path=$3 ||
            printf 'property=%s\nseed=%s\nphase=deep\ncase=0\n' "$id" "$VERIF_SEED" >"$path"
        echo "$id: a long wait in a build without optimisation ended with status $rc: $(echo "$said" | tail -3 | tr '\n' ' ')"
        echo "VIOLATION property=$id replay=$path"
        rm -f "$log"
        exit 1
    fi
    export MLXMON_DEEP=${said#polls=}
fi
rm -f "$log"
./target/release/check "$@"
rc=$?
# The process itself died (stack overflow, abort, wild access) while driving the library.
if [ $rc -ge 128 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ] && [ $rc -ne 130 ]; then
    path=$MLXMON_OUT/replay/$id-$VERIF_SEED.txt
    [ "$2" = --replay ] && path=$3 ||
        printf 'property=%s\nseed=%s\nphase=\ncase=0\n# the run died with status %s\n' "$id" "$VERIF_SEED" $rc >"$path"
    echo "$id: the process driving the library died with status $rc"
    echo "VIOLATION property=$id replay=$path"
    exit 1
fi
exit $rc
