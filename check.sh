#!/bin/bash
# Run the check of one property against /repo's working tree.
#
#   check.sh Cnn                  quick tier (VERIF_TIER=thorough: thorough tier; VERIF_SEED=n)
#   check.sh Cnn --replay FILE    re-execute a recorded failure
#   check.sh --build              build every check
#
# Exit: 0 the property held, 1 with a VIOLATION line otherwise, 2 no answer.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

# Cargo goes by modification times: make it rebuild whenever the contents differ.
hash="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
exec 9>"$VERIF_DIR/target/.lock"
flock 9
if [ "$(cat "$VERIF_DIR/target/.sqrid-hash" 2>/dev/null)" != "$hash" ]; then
    for profile in dev plain; do
        (cd "$VERIF_DIR/harness" && cargo clean --offline -q -p sqrid --profile $profile >/dev/null 2>&1)
    done
    echo "$hash" >"$VERIF_DIR/target/.sqrid-hash"
fi

build() {
    (cd "$VERIF_DIR/harness" && cargo build --offline -q "$@" 2>&1)
}

if [ "${1:-}" = "--build" ]; then
    # A check that does not build answers for itself when it is run.
    for profile in dev plain; do
        build --profile $profile --keep-going --bins >"$VERIF_DIR/target/build.log" ||
            tail -50 "$VERIF_DIR/target/build.log"
    done
    exit 0
fi

id="$1"
shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
log="$VERIF_DIR/replays/$id-build.log"
# Two builds: the checked one, as in `cargo build`, and the plain one, as in `cargo build --release`.
# The checks that compile programs choose per program.
profiles="plain dev"
case $id in
C24 | C26) profiles="dev" ;;
esac
for profile in $profiles; do
    build --profile $profile --bin "$bin" >"$log" && continue
    tail -40 "$log" >&2
    # The harness creates types of consistent sizes only. When the library itself compiles and a
    # compile-time assertion of the library rejects such a type, no program with it can exist.
    if grep -q 'error\[E0080\]' "$log" && grep -q '/repo/src/' "$log" &&
        build --profile $profile --package sqrid --lib >/dev/null; then
        cat >"$VERIF_DIR/evidence/$id.json" <<J
{"property": "$id", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-1}, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the harness, with types of consistent sizes, compiles",
 "samples": ["build of $bin"], "exhaustive": false},
 "assumptions": [], "wall_s": 0, "violations": 1}
J
        echo "VIOLATION property=$id replay=$log"
        exit 1
    fi
    exit 2
done
rm -f "$log" "$VERIF_DIR/target/$id-plain.json"
flock -u 9
# Code that allocates without end is stopped here, and reported, before it takes the machine down.
ulimit -v 16000000
limit=800
[ "${VERIF_TIER:-quick}" = thorough ] && limit=7200
SECONDS=0
for profile in $profiles; do
    exe="$VERIF_DIR/target/${profile/dev/debug}/$bin"
    left=$((limit - SECONDS))
    timeout -k 5 $((left > 1 ? left : 1)) "$exe" "$@"
    rc=$?
    export VERIF_PLAIN_DONE=1
    case $rc in
    0) ;;
    1) exit 1 ;;
    132 | 134 | 135 | 136 | 139)
        # The code under test killed the process (stack overflow, failed allocation, abort). Run again
        # writing every case down before it starts, and keep the one that does it again.
        [ $# -eq 0 ] || { echo "VIOLATION property=$id replay=$2"; exit 1; }
        rm -f "$VERIF_DIR/replays/$id-crash-"*.json
        VERIF_TRACE=1 timeout -k 5 400 "$exe" >/dev/null 2>&1
        for f in "$VERIF_DIR/replays/$id-crash-"*.json; do
            [ -f "$f" ] || continue
            timeout -k 5 60 "$exe" --replay "$f" >/dev/null 2>&1
            case $? in
            132 | 134 | 135 | 136 | 139)
                echo "[$id] the process died with $rc on the case in $f" >&2
                echo "VIOLATION property=$id replay=$f"
                exit 1
                ;;
            esac
        done
        echo "no answer: $bin ended with $rc, not reproduced case by case" >&2
        exit 2
        ;;
    *)
        echo "no answer: $bin ended with $rc" >&2
        exit 2
        ;;
    esac
done
exit 0
