#!/bin/sh
# nothing to download or install: compile the checker's Python once and make
# sure the tools it drives are there
set -e
cd "$(dirname "$0")"
command -v gfortran >/dev/null; command -v m4 >/dev/null; command -v clang >/dev/null
python3-vt -c 'import z3, numpy, sympy'
mkdir -p evidence
