#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (radius) and the crate its generic
# server code is instantiated in (radsim) with LLVM's tsan pass, so that each
# atomic operation calls into the simulator (a scheduling point).
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; break; fi
done
case "$name" in
  radius) exec "$@" -C passes=tsan ;;
  radsim) exec "$@" -C passes=tsan -C relocation-model=static ;; # fixed addresses
  *) exec "$@" ;;
esac
