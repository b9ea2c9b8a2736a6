"""setup_cmd: nothing to install; checks that the tools are there and builds the library once"""
import shutil, sys, subprocess
from . import build
for t in ("clang", "opt", "cmake", "ninja"):
    if not (shutil.which(t) or shutil.which(t + "-18")):
        print("missing tool", t)
        sys.exit(1)
import z3
print("z3", z3.get_version_string())
