#!/usr/bin/env python3-vt
"""Sanity check of the tool chain; everything else is rebuilt by each check."""
import subprocess, z3
print('z3', z3.get_version_string())
subprocess.run(['clang', '--version'], check=True, stdout=subprocess.DEVNULL)
