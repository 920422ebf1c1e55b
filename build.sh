#!/bin/bash
# usage: build.sh <crate> [prod]   builds /verif/harness/<crate> against /repo's working tree
set -o pipefail
export HOME=/root
export PATH=/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
if [ "$1" = sched ] || [ "$1" = allocsched ]; then VERIF_CFG="--cfg openzkp_verif"; fi
export RUSTFLAGS="-C target-cpu=x86-64-v2 --cap-lints allow ${VERIF_CFG:-}"
export CARGO_TARGET_DIR=${VERIF_TARGET:-/verif/target}/$1
if [ "$2" = prod ]; then
  # as shipped: no debug assertions, wrapping arithmetic
  export CARGO_TARGET_DIR=$CARGO_TARGET_DIR-prod CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false
fi
cd "/verif/harness/$1" || exit 2
# cargo goes by modification times; go by content
hash=$(find /repo/algebra /repo/crypto /repo/utils /verif/harness -name target -prune -o -name node_modules -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha1sum | sha1sum)
stamp=$CARGO_TARGET_DIR/content.stamp
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
  find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'zkp-*' -exec rm -r {} + 2>/dev/null
fi
cargo build --release --offline 2>&1
rc=$?
if [ $rc = 0 ]; then echo "$hash" >"$stamp"; else rm -f "$stamp"; fi
exit $rc
