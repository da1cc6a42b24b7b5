#!/usr/bin/env python3
"""setup_cmd: the checks compile what they need from /repo themselves; here only the tools are verified."""
import os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
bad = [t for t in ("java", "clang++", "g++", "mpicxx", "mpirun") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    bad.append("tla2tools.jar")
if bad:
    print("missing:", bad)
    sys.exit(1)
print("ok")
