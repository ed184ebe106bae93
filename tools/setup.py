#!/usr/bin/env python3
"""Sanity of the toolchain only: every check builds what it needs from /repo by itself."""
import shutil, sys, os
for t in ("g++", "java"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j):
        print("missing", j); sys.exit(1)
print("ok")
