#!/bin/bash
# Called by cargo in place of rustc: instruments the crate under test, and only that.
rustc=$1
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = quarchitect ]; then
        exec "$rustc" "$@" -C lto=off -C passes=sancov-module \
            -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
            -C llvm-args=-sanitizer-coverage-trace-stores
    fi
    prev=$a
done
exec "$rustc" "$@"
