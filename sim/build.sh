#!/bin/bash
# Builds the simulator against the current working tree of /repo; with 'bin' as first argument also
# the real sample_s2 program and the library that is preloaded into it.
dir="$(cd "$(dirname "$0")" && pwd)" || exit 2
cd "$dir/geosim" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/../rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/../target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# Cargo goes by modification times; go by content as well.
sum="$(cd /repo && find Cargo.toml Cargo.lock geokit -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
fresh() { # fresh DIR: forget what was built from another tree
  if [ "$(cat "$1/repo.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$1/repo.sum"
    [ -d "$1/debug" ] && cargo clean --offline -p geokit >/dev/null 2>&1
    mkdir -p "$1" && built="$1/repo.sum"
  else
    built=
  fi
}
done_with() { [ -z "$built" ] || echo "$sum" >"$built"; }
fresh "$CARGO_TARGET_DIR"
cargo build --offline || exit 2
done_with
if [ "$1" = bin ]; then
  cd /repo || exit 2
  unset RUSTC_WRAPPER
  # optimised a little, with the overflow checks and debug assertions of an ordinary debug build
  export CARGO_TARGET_DIR="$dir/target-bin" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
  fresh "$CARGO_TARGET_DIR"
  cargo build --offline --locked -p geokit --bin sample_s2 || exit 2
  done_with
  gcc -O1 -shared -fPIC -o "$dir/target-bin/shim.so" "$dir/shim/shim.c" || exit 2
fi
