#!/bin/sh
# Nothing is built ahead of time: every check builds the library and its explorer from source.
set -e
for t in gcc clang make xz python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
mkdir -p evidence
echo setup ok
