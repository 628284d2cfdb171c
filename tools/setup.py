"""Checks that everything the checks need is present (compiler, Python, the repository)."""
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(d, "x.so"), os.path.join(here, "fsmc", "shim.c"),
                    "-ldl"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import torch, numpy, yaml, portalocker"], check=True, cwd="/")
print("ok")
sys.exit(0)
