#!/bin/bash
# check.sh <property id> [quick|thorough]: build the check for one property from /repo's working tree and run it.
id=${1:?usage: check.sh ID [tier]}
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
cd "$root/mc" || exit 2
export PATH="/root/.cargo/bin:$PATH" HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$root/mc/target}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=$(mktemp)
if ! cargo build --offline --locked -q -p checks --bin "$bin" >"$log" 2>&1; then
    grep -A12 '^error' "$log" | head -80
    echo "check.sh: building $bin failed" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
mkdir -p "$root/evidence" "$root/replays"
rm -f "$root/replays/$id"-*.txt
# Running away with the memory is a violation (an abort) as well, not the end of the sandbox.
(ulimit -v 20000000; exec "$CARGO_TARGET_DIR/debug/$bin")
rc=$?
case $rc in
0|1) exit $rc ;;
101|132|134|135|136|139)
    # The code under test took the process down (panic while the check prepares its questions, memory corruption, abort,
    # stack overflow).
    echo "the check process died with status $rc" > "$root/replays/$id-crash.txt"
    printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "other", "coverage": {"explanation": "the process died with status %s"}, "wall_s": 0, "violations": 1}\n' "$id" "$VERIF_TIER" "$VERIF_SEED" "$rc" > "$root/evidence/$id.json"
    echo "VIOLATION property=$id replay=replays/$id-crash.txt"
    exit 1 ;;
*) echo "check.sh: $bin ended with status $rc" >&2; exit 2 ;;
esac
