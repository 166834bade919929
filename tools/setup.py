#!/usr/bin/env python3
"""Nothing to build: check that the tools are there and that the current source can be loaded by the symbolic machine."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import z3       # noqa: E402
print('z3', z3.get_version_string())
print(subprocess.run(['/opt/venv/bin/python', '--version'], capture_output=True, text=True).stdout.strip())
try:
    from sx import world
    world.boot()
    print(len(world.REPO_MODULES), 'modules of the repository loaded symbolically')
except BaseException as e:
    print('not loaded:', type(e).__name__, e)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
