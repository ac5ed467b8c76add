#!/usr/bin/env python3
"""Nothing is prebuilt: checks compile their harness from /repo. Verify the toolchain only."""
import subprocess, sys
r = subprocess.run(['clang++', '--version'], stdout=subprocess.PIPE, text=True)
print(r.stdout.splitlines()[0])
sys.exit(r.returncode)
