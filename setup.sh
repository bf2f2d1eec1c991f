#!/bin/bash
# Builds the harness binaries and the TLC overrides once (every check also does so by itself when needed).
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vf import core
core.java_classes()
for g in ["opt", "img", "kin", "ros", "hist"] + ["tool_" + k for k in core.TOOLS]:
    core.build(g)
P
