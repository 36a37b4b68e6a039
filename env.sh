# sourced by check.sh / setup.sh
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$VERIF_DIR/target
export PYO3_PYTHON=/opt/vp/venv/bin/python PYTHONDONTWRITEBYTECODE=1
unset RUSTFLAGS
# Identity of /repo's sources: when it differs from the last build, cargo's records of the path
# dependencies are dropped, so that a rebuild does not depend on file times.
src_hash() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum; sha256sum "$VERIF_DIR"/harness/src/*.rs "$VERIF_DIR"/harness/Cargo.*) | sha256sum | cut -c1-64
}
build_harness() {
    mkdir -p "$CARGO_TARGET_DIR"
    local h; h=$(src_hash)
    if [ "$(cat "$CARGO_TARGET_DIR/src.hash" 2>/dev/null)" != "$h" ]; then
        rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/d10*
    fi
    (cd "$VERIF_DIR/harness" && cargo build --offline -q 2> "$VERIF_DIR/target.log") || {
        tail -n 40 "$VERIF_DIR/target.log" >&2
        echo "check.sh: building the explorer against /repo failed" >&2
        return 1
    }
    echo "$h" > "$CARGO_TARGET_DIR/src.hash"
}

# The command line tool and the Python module, built the way the repository builds them.
build_ws() {
    local t=$CARGO_TARGET_DIR/ws
    mkdir -p "$t"
    [ -e /repo/Cargo.lock ] || cp "$VERIF_DIR/repo.lock" /repo/Cargo.lock
    local h; h=$(src_hash)
    if [ "$(cat "$t/src.hash" 2>/dev/null)" != "$h" ]; then
        rm -rf "$t"/debug/.fingerprint/d10*
    fi
    (cd /repo && CARGO_TARGET_DIR=$t CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q -p d10-cli -p d10-python 2> "$VERIF_DIR/target.log") || {
        tail -n 40 "$VERIF_DIR/target.log" >&2
        echo "check.sh: building the tool and the Python module from /repo failed" >&2
        return 1
    }
    echo "$h" > "$t/src.hash"
    export D10_CLI=$t/debug/d10 D10_PYMOD=$t/debug/libd10.so
}
