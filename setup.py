#!/usr/bin/env python3
"""setup_cmd: rebuilds /repo's extension modules once and checks that the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import time, check
check.T0 = time.time()
check.build()
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("ready")
