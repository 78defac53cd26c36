#!/bin/bash
# checks that the tools are there and the verifier's own sources load (nothing to build: every check compiles its harnesses)
set -e
cd "$(dirname "$0")"
which clang++-18 opt-18 g++ z3 cvc5 python3-vt >/dev/null
python3-vt -c "import sys; sys.path.insert(0,'llv'); import verify, check" 
mkdir -p build evidence replay
rm -rf /verif/build/C*
echo ready
