#!/bin/bash
# usage: run.sh ID [quick|thorough]      the check of one property
#        run.sh setup                    only build
# Builds the harness (and with it osmio, from /repo's working tree) and runs the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
id=$1
tier=${2:-${VERIF_TIER:-quick}}
log="$VERIF_DIR/work"
mkdir -p "$log" evidence replays
log="$log/build-$id.$$.log"

# /repo's Cargo.lock is not tracked by git there
if [ ! -e /repo/Cargo.lock ] && [ -e /opt/vp/Cargo.lock.saved ]; then
    cp /opt/vp/Cargo.lock.saved /repo/Cargo.lock
fi

T="$VERIF_DIR/harness/target"
# whatever its time stamps say: osmio is built anew when its sources are not those of the last build
stamp() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; ) | sha256sum | cut -d' ' -f1
}
S=$(stamp)
if [ "$(cat "$T/osmio.stamp" 2>/dev/null)" != "$S" ]; then
    for d in "$T/release/.fingerprint" "$T/tool/debug/.fingerprint" "$T/nohooks/release/.fingerprint" "$T/nohooks/tool/debug/.fingerprint"; do
        [ -d "$d" ] && find "$d" -maxdepth 1 -name 'osmio-*' -exec rm -r {} +
    done
fi

bin="$T/release/pbt"
build() {
    if ! (cd harness && cargo build --release --offline) >>"$log" 2>&1; then
        # perhaps only the hooks do not compile any more: do without them (harness/src/hooks.rs)
        (cd harness && RUSTFLAGS="--cfg nothing" cargo build --release --offline --target-dir "$T/nohooks") >>"$log" 2>&1 || return 1
        bin="$T/nohooks/release/pbt"
        echo "note: built without the hooks"
    fi
    if [ "$id" = C27 ] || [ "$id" = C32 ] || [ "$id" = C34 ] || [ "$id" = setup ]; then
        tool="$T/tool"
        if ! (cd / && RUSTFLAGS="--cfg osmio_verif" cargo build --manifest-path /repo/Cargo.toml --offline --features with-changeset-sqlite \
            --bins --target-dir "$tool") >>"$log" 2>&1; then
            tool="$T/nohooks/tool"
            (cd / && cargo build --manifest-path /repo/Cargo.toml --offline --features with-changeset-sqlite \
                --bins --target-dir "$tool") >>"$log" 2>&1 || return 1
        fi
    fi
}
if ! build; then
    echo "ERROR: the build failed" >&2
    tail -n 60 "$log" >&2
    exit 2
fi
echo "$S" >"$T/osmio.stamp"
rm -f "$log"
[ "$id" = setup ] && exit 0
export PBT_TOOL="$tool/debug/osmio-changeset-tags-to-sqlite"
exec "$bin" run "$id" "$tier"
