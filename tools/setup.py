#!/usr/bin/env python3
"""Builds the instrumenter once and warms the build cache (every check builds what it needs itself)."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
d = tempfile.mkdtemp()
try:
    r = subprocess.run(["go", "build", "-o", os.path.join(d, "i"), "."], cwd=os.path.join(V, "tools/instrument"), env=env)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(r.returncode)
