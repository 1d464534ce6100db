#!/usr/bin/env python3
"""Builds once so that the compiler's caches are warm; nothing is kept."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
r = subprocess.run(["go", "vet", "."], cwd=os.path.join(V, "tools", "instr"), env=env)
sys.exit(r.returncode)
