#!/bin/bash
# check.sh <property> [--thorough]: exit 0 held, 1 violation (with a VIOLATION line), else no answer.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./target/debug/harness run "$@" --root "$PWD"
