#!/usr/bin/env python3
"""Checks that the harness builds offline against /repo (setup_cmd)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import check
w = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print("harness builds")
