#!/usr/bin/env python3
"""Builds every check once, so that the compiler cache is warm. Offline."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    mod = os.path.join(work, "harness")
    shutil.copytree(os.path.join(check.VERIF, "harness"), mod)
    r = subprocess.run(["go", "test", "-vet=off", "-run", "^$", "./..."], cwd=mod, env=check.go_env())
    sys.exit(r.returncode)
finally:
    shutil.rmtree(work, ignore_errors=True)
