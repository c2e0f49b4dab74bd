#!/bin/bash
# Nothing is kept between runs: every check compiles its harness and /repo's sources itself.
# This only verifies that the toolchain the checks need is there.
set -e
cd "$(dirname "$0")"
command -v clang clang++ python3 >/dev/null
mkdir -p build replays evidence
python3 -c "import checks"
