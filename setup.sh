#!/bin/bash
# Nothing is built ahead of time (every check rebuilds from /repo's current tree); this only confirms that the tools are there.
set -e
cd "$(dirname "$0")"
for t in clang++-18 g++ z3 cvc5 python3-vt; do command -v $t >/dev/null || command -v ${t%-18} >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
