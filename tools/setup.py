#!/usr/bin/env python3
"""setup_cmd: nothing has to be compiled; checks that the two interpreters and their libraries are present"""
import subprocess, sys
for cmd in (["/opt/venv/bin/python", "-c", "import torch, numpy, pandas; print('torch', torch.__version__)"],
            ["python3-vt", "-c", "import z3; print('z3', z3.get_version_string())"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(r.stdout.strip() or r.stderr[-500:])
    if r.returncode: sys.exit(1)
