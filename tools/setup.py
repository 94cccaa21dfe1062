#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there. Nothing is
built here because every check builds what it needs from /repo itself."""
import shutil, subprocess, sys
missing = [t for t in ("g++", "gfortran", "gcc", "make") if not shutil.which(t)]
r = subprocess.run(["g++", "-x", "c++", "-fsyntax-only", "-isystem", "/usr/include/eigen3", "-"], input="#include <Eigen/Core>\n#include <quadmath.h>\nint main(){}\n", text=True, capture_output=True)
if missing or r.returncode:
    print("missing:", missing, r.stderr[-1000:]); sys.exit(1)
print("ok")
