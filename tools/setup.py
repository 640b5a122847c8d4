#!/usr/bin/env python3
"""Nothing is built ahead of a check; this only says which tools are missing."""
import os
import shutil
import subprocess
import sys
ok = True
for alt in (("clang++",), ("g++",), ("opt-18", "opt"),
            ("llvm-link-18", "llvm-link"), ("c++filt",)):
    if not any(map(shutil.which, alt)):
        print("missing:", alt)
        ok = False
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3"])
ok &= r.returncode == 0
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("tools present" if ok else "tools missing")
sys.exit(0 if ok else 1)
