#!/bin/bash
# Build the harness against /repo's current working tree. Output goes to target/ (ignored by git).
set -u
cd "$(dirname "$0")" || exit 2

# The build needs neither the caller's cargo settings nor its target directory
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
unset CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="-W dependency_on_unit_never_type_fallback"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"

mkdir -p target || exit 2

# One build at a time
exec 9>target/.verif-lock
flock 9

# Modification times may not tell about a change (copies, checkouts): compare contents
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)

if [ "$(cat target/.verif-sum 2>/dev/null)" != "$sum" ]; then
    rm -f "$PWD/target/.verif-sum"
    rm -rf "$PWD"/target/debug/.fingerprint/hyperborealib-*
fi

build() {
    cargo build --offline --quiet --manifest-path harness/Cargo.toml "$@" 9>&- >target/build.log 2>&1
}

# Once more, one thing at a time, if the compiler was killed: there was too little memory then
if ! build && ! { grep -q 'signal: 9' target/build.log && sleep 5 && build -j 1; }; then
    tail -n 60 target/build.log >&2
    exit 2
fi

echo "$sum" > target/.verif-sum
