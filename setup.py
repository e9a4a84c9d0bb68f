#!/usr/bin/env python3
"""Looks whether what the checks need is there, and warms the build cache."""
import subprocess, sys, tempfile, shutil
from pathlib import Path
import check
from table import CHECKS

scratch = Path(tempfile.mkdtemp(prefix="verif-setup-", dir="/tmp"))
try:
    env = check.go_env(scratch)
    for ident in ("C01", "C30"):
        check.build(ident, dict(CHECKS[ident], id=ident), scratch, env)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("ready:", len(CHECKS), "checks")
