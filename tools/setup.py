"""Checks that the tools the checks need are present; there is nothing to build."""
import os, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc import spec

for tool in ("cvc5", "/opt/venv/bin/python"):
    if shutil.which(tool) is None:
        sys.exit("missing: " + tool)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy"], check=True)
print("z3", z3.get_version_string())
