# Build environment shared by setup.sh and check.sh. Sourced.
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export TARGET_ROOT="$VERIF_DIR/target"

# build <crate>: rebuilds a harness crate from /repo's current working tree.
# Cargo decides by mtime; a tree whose files were replaced by older ones (a
# reverted patch, a fresh copy) must be rebuilt too, so the content hash of the
# sources decides whether the crates that contain them are forgotten first.
build() {
    local crate="$1" stamp hash
    mkdir -p "$TARGET_ROOT"; export CARGO_TARGET_DIR="$TARGET_ROOT/$crate"
    exec 9> "$TARGET_ROOT/.lock"
    flock 9
    stamp="$TARGET_ROOT/.$crate.hash"
    hash=$(cd /repo && find akasa-core akasa Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 |
        sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
        rm -f "$stamp"
        if [ "$crate" = mc-core ] || [ "$crate" = mc-cli ]; then
            (cd "$VERIF_DIR/$crate" && cargo clean --offline -q -p akasa-core -p "$crate" 2>/dev/null)
        else
            (cd "$VERIF_DIR/$crate" && cargo clean --offline -q -p "$crate" 2>/dev/null)
        fi
    fi
    if [ "$crate" = mc-core ]; then
        (cd "$VERIF_DIR/$crate" && RUSTFLAGS="--cfg akasa_verif --cfg tokio_unstable" cargo build --offline -q) || return 1
    else
        (cd "$VERIF_DIR/$crate" && cargo build --offline -q) || return 1
    fi
    echo "$hash" > "$stamp"
    flock -u 9
}
