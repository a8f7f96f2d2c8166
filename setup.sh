#!/bin/bash
# nothing to build in advance: every check compiles its harnesses against /repo's current headers.  Checks the tools are there.
set -e
cd "$(dirname "$0")"
PY=/opt/veriftools/pyvenv/bin/python; [ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 $PY -c 'import z3, vp.props; print("z3", z3.get_version_string())'
/usr/lib/llvm-18/bin/clang++ --version | head -1; /usr/lib/llvm-18/bin/opt --version | sed -n 2p
