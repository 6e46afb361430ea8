# Sourced: builds the harness (and with it the crate in /repo's working tree) offline.
# usage: build PROFILE   (release | dbg)
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$V/mc/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
build() {
    # whatever the mtimes say, compile the crate as it is now
    rm -rf "$CARGO_TARGET_DIR/$1/.fingerprint"/nodejs-resolver-* 2>/dev/null
    (cd "$V/mc" && cargo build --offline --locked --profile "$1") >"$V/mc/build-$1.log" 2>&1 || {
        tail -40 "$V/mc/build-$1.log"
        echo "the harness does not build against /repo"
        return 1
    }
}
