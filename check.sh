#!/bin/bash
# check.sh Cnn: builds the simulator against /repo's working tree and runs the check of one property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
cd "$(dirname "$0")" || exit 3
root=$(pwd)
export HOME=${HOME:-/root}
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-10-03 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$root/target"
unset CARGO_INCREMENTAL RUSTFLAGS
mkdir -p "$root/target"
log="$root/target/build-$1-$$.log"
# The other forms leave out the CPU type of the simulator's own, should the trait it implements have changed, and
# the host program in C, should it not link: that is then reported by the check of C14.
build() {
    (cd sim && cargo build --release --offline --locked "$@") >>"$log" 2>&1
}
: >"$log"
if ! build && ! build --no-default-features && ! SIM_NO_C=1 build && ! SIM_NO_C=1 build --no-default-features; then
    tail -40 "$log"
    echo "the simulator does not build against /repo"
    rm -f "$log"
    exit 4
fi
rm -f "$log"
[ "$1" = setup ] && exit 0
# The simulator starts worker processes of its own executable: give each check its own copy.
exe="$root/target/sim-$1-$$"
cp "$root/target/release/sim" "$exe" || exit 5
trap 'rm -f "$exe"' EXIT
"$exe" check "$1" "$root"
