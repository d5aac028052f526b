#!/bin/bash
# nothing to build ahead: every check compiles /repo's working tree itself
cd "$(dirname "$0")" && mkdir -p evidence replay && python3-vt -c "import z3" && command -v clang >/dev/null
