#!/bin/bash
# Builds the IR reader (engine/irdump.cpp) against the installed LLVM 18; everything else is Python and clang.
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'engine'); from vf import check; print(check.irdump())"
