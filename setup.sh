#!/bin/sh
# Checks build what they need themselves; this only verifies that the builds work and warms them up.
cd "$(dirname "$0")" || exit 1
exec python3-vt -c '
import sys; sys.path.insert(0, "."); sys.dont_write_bytecode = True
from vf import build
for n in ("lib", "full", "plain"):
    getattr(build, n)()
print("ok")'
