#!/bin/bash
# build.sh [pbe] [front] [feat]: builds the checker (and the named extras) from /repo's current working tree.
# Freshness is decided by the contents of the sources, not by their time stamps.
set -u
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TERM_COLOR=never
[ -x /opt/vp/venv/bin/python ] && export PYO3_PYTHON=/opt/vp/venv/bin/python
exec 9>"$VERIF_DIR/.build.lock"
flock 9
CRATES="m-bus-parser m-bus-core m-bus-application-layer wired-mbus-link-layer wireless-mbus-link-layer m-bus-parser-wasm-pack"
HASH=$(cd /repo && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.csv' -o -name '*.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

one() { # dir target-dir extra-crates cargo-args...
    local dir=$1 target=$2 extra=$3; shift 3
    mkdir -p "$target"
    if [ "$(cat "$target/.srchash" 2>/dev/null)" != "$HASH" ]; then
        rm -f "$target/.srchash"
        for c in $CRATES $extra; do
            (cd "$dir" && CARGO_TARGET_DIR=$target cargo clean -q -p "$c" >/dev/null 2>&1)
        done
    fi
    if ! (cd "$dir" && CARGO_TARGET_DIR=$target cargo build -q --offline "$@" >"$target/build.log" 2>&1); then
        grep -E '^error' -A8 "$target/build.log" | head -60 >&2
        echo "build failed in $dir" >&2
        exit 2
    fi
    echo "$HASH" >"$target/.srchash"
}

one "$VERIF_DIR/harness" "$VERIF_DIR/target" "" || exit 2
for what in "$@"; do
    case $what in
        pbe) one "$VERIF_DIR/harness" "$VERIF_DIR/target-pbe" "" --features plaintext-before-extension || exit 2 ;;
        front)
            one "$VERIF_DIR/harness-cli" "$VERIF_DIR/target-cli" "m-bus-cli" || exit 2
            one "$VERIF_DIR/harness-py" "$VERIF_DIR/target-py" "m-bus-py" || exit 2
            # the stand-ins for JavaScript may not cover what a changed binding uses; the checker then
            # calls the functions directly, which works where they do not fail
            if ! (one "$VERIF_DIR/harness-wasm" "$VERIF_DIR/target-wasm" "m-bus-wasm"); then
                echo "WebAssembly functions are only checked where they succeed" >&2
                rm -f "$VERIF_DIR/target-wasm/debug/wasm-worker"
            fi
            ;;
        feat)
            # a build that does not compile is left out; the checker says which ones it compared
            (one "$VERIF_DIR/harness-bare" "$VERIF_DIR/target-bare" "bare") || rm -f "$VERIF_DIR/target-bare/debug/libbare.so"
            (one "$VERIF_DIR/harness-bare" "$VERIF_DIR/target-embedded" "bare" --features decryption) || rm -f "$VERIF_DIR/target-embedded/debug/libbare.so"
            (one "$VERIF_DIR/harness-plain" "$VERIF_DIR/target-plain" "plain") || rm -f "$VERIF_DIR/target-plain/debug/libplain.so"
            ;;
    esac
done
