#!/bin/bash
# build.sh TARGET_DIR [radsim|md5|modules WRAPPER|gen]: builds on /repo's current tree
set -e
cd "$(dirname "$0")"
T=${1:-/verif/target/sim}
export CARGO_TARGET_DIR=$T CARGO_NET_OFFLINE=true
case "${2:-radsim}" in
gen)
  cargo build --offline -q -p gen
  cp -f "$T/debug/code-generator" "$T/code-generator"
  gcc -O1 -shared -fPIC -o "$T/shim.so" gen/shim.c -ldl
  ;;
modules)
  # run from a copy whose radius crate has freshly generated modules
  RUSTC_WRAPPER=$3 cargo build --offline -q -p radsim
  cp -f "$T/debug/radsim" "$T/radsim-modules"
  ;;
*)
  export RUSTC_WRAPPER=$PWD/rustc-wrap.sh
  cargo build --offline -q -p radsim
  cp -f "$T/debug/radsim" "$T/radsim-md5"
  if [ "${2:-radsim}" = radsim ]; then
    cargo build --offline -q -p radsim --no-default-features --features openssl
    cp -f "$T/debug/radsim" "$T/radsim-openssl"
  fi
  ;;
esac
