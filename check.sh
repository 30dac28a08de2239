#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Builds the harness for one property from /repo's current working tree and runs it.
# Exit 0: held; 1: VIOLATION; anything else: the check itself could not run.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id=${1:?property id}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
T="$VERIF_DIR/target"
mkdir -p "$T" evidence
build() { # log, command...
    local log="$T/$1.log"; shift
    if ! "$@" >"$log" 2>&1; then
        echo "build failed: $*" >&2
        tail -40 "$log" >&2
        exit 2
    fi
}
crate=mc
case $id in
    C23) crate=mc_stream ;;
esac
(
    # one build at a time in this target directory
    flock 9
    build "build-$crate" cargo build --offline --release --manifest-path "$crate/Cargo.toml" --target-dir "$T"
    case $id in
        C18|C19|C20|C25)
            build build-py cargo build --offline --release --manifest-path /repo/Cargo.toml -p disc-riider-py --target-dir "$T/repo" ;;
        C14)
            # the way tests and programs under development use the library
            build build-stack cargo build --offline --manifest-path mc_stack/Cargo.toml --target-dir "$T" ;;
        C21)
            build build-cli cargo build --offline --release --manifest-path /repo/Cargo.toml -p iso-tool --target-dir "$T/repo" ;;
    esac
) 9>"$T/.lock" || exit 2
# scratch space for this run, in memory if there is room
base=/tmp
if [ -w /dev/shm ] && [ "$(df -Pk /dev/shm 2>/dev/null | awk 'NR==2{print $4}')" -gt 2000000 ] 2>/dev/null; then base=/dev/shm; fi
VERIF_SCRATCH=$(mktemp -d "$base/verif-$id-XXXXXX") || exit 2
export VERIF_SCRATCH
chmod 711 "$VERIF_SCRATCH"
trap 'rm -rf -- "$VERIF_SCRATCH"' EXIT
trap 'exit 2' INT TERM HUP
"$T/release/$crate" check "$id" 9>&-
