#!/bin/bash
# usage: check.sh ID [quick|thorough] [more options of the harness, e.g. --scale 0.1 --arm NAME]
#        check.sh replay FILE
#        check.sh build
# Builds the cdx binary (and, where a property needs it, the cdx library) from /repo's working
# tree, then searches for a counterexample.  Exit 0: none found.  Exit 1: VIOLATION line.
# Exit 2: the check itself could not run.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO_DIR:-/repo}
export VERIF_DIR=$VERIF
ID=$1
case "$ID" in
  replay) WHAT=$(grep -o '"property":"[A-Z0-9]*"' "$2" | head -1 | cut -d'"' -f4) ;;
  *) WHAT=$ID ;;
esac
# properties decided inside the library
LIBPROPS=" C02 C03 C08 C09 C10 C12 C13 C18 C19 C21 C26 C27 C28 "

fail() { echo "check.sh: $1" >&2; exit 2; }

LOG=$(mktemp)
trap 'rm -f "$LOG"' EXIT
[ -f "$REPO/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$REPO/Cargo.lock" || fail "no Cargo.lock"

# Cargo looks at modification times; look at the contents as well.
STAMP=$REPO/target/.vh-stamp
HASH=$(cd "$REPO" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$STAMP" 2>/dev/null)" != "$HASH" ]; then
    touch "$REPO/src/lib.rs" "$REPO/src/bin/cdx/main.rs"
fi
CARGO_TARGET_DIR=$REPO/target cargo build --offline --manifest-path "$REPO/Cargo.toml" --bin cdx >"$LOG" 2>&1 \
    || { tail -30 "$LOG" >&2; fail "building cdx failed"; }
mkdir -p "$REPO/target"; echo "$HASH" > "$STAMP"
CARGO_TARGET_DIR=$VERIF/target cargo build --offline --manifest-path "$VERIF/harness/Cargo.toml" >"$LOG" 2>&1 \
    || { tail -30 "$LOG" >&2; fail "building the harness failed"; }
needlib=0
case "$LIBPROPS" in *" $WHAT "*) needlib=1 ;; esac
lib() { CARGO_TARGET_DIR=$REPO/target cargo build --offline --manifest-path "$VERIF/harness-lib/Cargo.toml" "$@" >"$LOG" 2>&1; }
if [ $needlib = 1 ] || [ "$ID" = build ]; then
    # Where a change of the library's interface stops the harness from building, this property's
    # part may still build, or the property may have a part that needs only the binary.
    if lib; then :
    elif [ "$ID" != build ] && lib --no-default-features --features "${WHAT,,}"; then :
    elif [ "$ID" != build ] && "$VERIF/target/debug/vh" list | grep -q "^$WHAT "; then
        echo "check.sh: the library harness does not build; using only the binary" >&2
        needlib=0
    else tail -30 "$LOG" >&2; fail "building the library harness failed"
    fi
fi
[ "$ID" = build ] && exit 0

SCRATCH=$(mktemp -d /tmp/vh.XXXXXXXX) || fail "no scratch directory"
trap 'rm -f "$LOG"; rm -rf "$SCRATCH"' EXIT
export TMPDIR=$SCRATCH
export VERIF_SCRATCH=$SCRATCH
cp "$REPO/target/debug/cdx" "$SCRATCH/cdx" || fail "no cdx binary"
export CDX_BIN=$SCRATCH/cdx
export VERIF_SEED=${VERIF_SEED:-1}
# a runaway allocation fails in the process that asks for it
ulimit -v 4194304
if [ $needlib = 1 ]; then
    cp "$REPO/target/debug/vhl" "$SCRATCH/vhl" || fail "no library harness"
    BIN=$SCRATCH/vhl
else
    BIN=$VERIF/target/debug/vh
fi
if [ "$ID" = replay ]; then
    "$BIN" replay "$2"
    exit $?
fi
TIER=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null || shift
"$BIN" "$ID" "$TIER" "$@" </dev/null 2>"$SCRATCH/stderr"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) tail -c 2000 "$SCRATCH/stderr" >&2; fail "harness ended with $rc" ;;
esac
