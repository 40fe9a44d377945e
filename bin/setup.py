#!/usr/bin/env python3
"""setup_cmd: builds the harness once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    os.makedirs(vlib.EVID, exist_ok=True)
    vlib.harness()
except vlib.ToolError as e:
    print(e, file=sys.stderr); sys.exit(2)
