#!/bin/bash
# rustc wrapper: only the library under test gets basic-block callbacks
rustc="$1"; shift
for ((i = 1; i <= $#; i++)); do
  if [ "${!i}" = "--crate-name" ]; then
    j=$((i + 1))
    if [ "${!j}" = ncas ]; then
      exec "$rustc" "$@" --cap-lints allow -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=1
    fi
  fi
done
exec "$rustc" "$@" --cap-lints allow
