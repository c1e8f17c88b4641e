#!/bin/bash
# nothing to compile ahead: the checks extract the AST and build their harness from /repo's working tree on every run
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
python3-vt -c 'import z3, jsonschema; import gsbv.verify'
clang++-18 --version | head -1
cvc5 --version | head -1
