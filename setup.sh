#!/bin/bash
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, cvc5'
clang --version | head -1
mkdir -p evidence
