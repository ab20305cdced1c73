#!/usr/bin/env python3
"""Setup: see that the tools are there and the specification and the harness build."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
ck = lib.Check("setup")
try:
    ck.build()
    subprocess.run(["java", "-version"], check=True, capture_output=True)
finally:
    ck.close()
print("ok")
