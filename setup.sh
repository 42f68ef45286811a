#!/bin/sh
# Nothing is kept between runs: every check builds what it needs from /repo.
set -e
clang++-14 --version >/dev/null
test -d /usr/lib/llvm-14/include
python3 -c 'import json'
