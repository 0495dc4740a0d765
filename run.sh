#!/bin/bash
# run.sh setup | ID [thorough] | replay FILE
# Builds the harness and the tool from /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
target="$here/target"
log="$target/build.log"
mkdir -p "$target" || exit 2
# Cargo goes by modification time only. To be sure that what is built is the current
# tree, note a hash of the sources and make cargo build the crates again if it differs.
sources() {
    (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
     cd "$here/harness" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum
}
build() {
    now=$(sources)
    if [ "$(cat "$target/sources.lib" 2>/dev/null)" = "$now" ] && [ -x "$target/release/rcverif" ]; then return 0; fi
    rm -rf "$target/sources.lib" "$target"/release/.fingerprint/retrocompressor-* "$target"/release/.fingerprint/rcverif-*
    if ! cargo build --release --locked --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$target" > "$log" 2>&1; then
        cat "$log" >&2
        return 1
    fi
    echo "$now" > "$target/sources.lib"
}
build_tool() {
    now=$(sources)
    if [ "$(cat "$target/sources.tool" 2>/dev/null)" = "$now" ] && [ -x "$target/tool/release/retrocompressor" ]; then return 0; fi
    rm -rf "$target/sources.tool" "$target"/tool/release/.fingerprint/retrocompressor-*
    if ! cargo build --release --bin retrocompressor --locked --offline --manifest-path /repo/Cargo.toml --target-dir "$target/tool" > "$log" 2>&1; then
        cat "$log" >&2
        return 1
    fi
    echo "$now" > "$target/sources.tool"
}
# The same with the crate instrumented, for the coverage-guided search of the thorough tier. There
# the random choices come from a list of bytes. Proptest splits such a list at every alternative
# until nothing is left, so a copy of it gives the alternatives not taken another source instead.
build_guided() {
    now=$(sources)
    g="$target/guided"
    if [ "$(cat "$target/sources.guided" 2>/dev/null)" = "$now" ] && [ -x "$g/release/rcverif" ]; then return 0; fi
    rm -rf "$target/sources.guided" "$g/harness" "$g/proptest" "$g"/release/.fingerprint/retrocompressor-* "$g"/release/.fingerprint/rcverif-*
    version=$(sed -n '/^name = "proptest"/{n;s/.*"\(.*\)"/\1/p}' "$here/harness/Cargo.lock")
    mkdir -p "$g" && cp -r "$here/harness" "$g/harness" && cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/"proptest-$version" "$g/proptest" || return 1
    sed -i -e 's/let len = \*end - \*off;/if true { let mut s = [7u8; 32]; s[..8].copy_from_slice(\&(*off as u64).to_le_bytes()); return Seed::ChaCha(s); }\n&/' \
        -e 's/dest\[i\] = 0;/dest[i] = 0x5b;/' "$g/proptest/src/test_runner/rng.rs"
    printf '\n[patch.crates-io]\nproptest = { path = "../proptest" }\n' >> "$g/harness/Cargo.toml"
    if ! RUSTC_WRAPPER="$here/tools/guided-rustc" RUSTFLAGS="-Cforce-frame-pointers=yes" cargo build --release --offline --manifest-path "$g/harness/Cargo.toml" --target-dir "$g" > "$log" 2>&1; then
        cat "$log" >&2
        return 1
    fi
    echo "$now" > "$target/sources.guided"
}
case "$1" in
    guided) build_guided; exit $? ;;
    setup)
        build && build_tool && exec "$target/release/rcverif" selftest
        exit 2 ;;
    "") echo "usage: run.sh setup | ID [thorough] | replay FILE" >&2; exit 2 ;;
esac
build || exit 2
id=$1
if [ "$1" = replay ]; then id=$(grep -o '"property": *"[^"]*"' "$2" | cut -d'"' -f4); fi
case "$id" in C22|C23) build_tool || exit 2 ;; esac
scratch=$(mktemp -d "${TMPDIR:-/tmp}/rcverif.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
chmod 711 "$scratch" # some runs of the tool are by an unprivileged user
export RCVERIF_SCRATCH="$scratch" RCVERIF_OUT="$here" RCVERIF_BIN="$target/tool/release/retrocompressor"
if [ "$1" = replay ]; then
    "$target/release/rcverif" replay "$2"
else
    if [ -n "$2" ]; then export VERIF_TIER="$2"; fi
    "$target/release/rcverif" check "$id"
    rc=$?
    # the tool (C22, C23) and the processes of C25 are not instrumented
    case "$id:${VERIF_TIER:-quick}:$rc" in
        C22:*|C23:*|C25:*) ;;
        *:thorough:0)
            build_guided || exit 2
            "$target/guided/release/rcverif" fuzz "$id"
            rc=$? ;;
    esac
    exit $rc
fi
exit $?
