#!/bin/sh
# Prebuilds the assembler from /repo's current tree (checks rebuild on their own whenever the tree differs).
cd "$(dirname "$0")" || exit 1
exec /usr/bin/python3 -I -c 'import sys; sys.dont_write_bytecode=True; sys.path.insert(0, "lib"); import core
for k in core.BUILD_KINDS: print(core.build(k))'
