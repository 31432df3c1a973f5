"""Checks that the tools the checks need are there and compiles the library once."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core  # noqa: E402
subprocess.run(["java", "-version"], check=True, capture_output=True)
subprocess.run(["g++", "--version"], check=True, capture_output=True)
core.build("kvdrv", ["kvdrv.cpp"])
print("setup ok")
