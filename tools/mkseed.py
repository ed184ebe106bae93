#!/usr/bin/env python3
"""Library for writing planted bugs: seed(id, prop, [(file, old, new)...], needs, breaks, demo_cpp, srcs)."""
import os, shutil, subprocess, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd at the repository root, after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O0 -w -pthread %(flags)s -DRAPIDJSON_HAS_STDSTRING=1 -include cstdint -I include "$d/demo.cpp" %(srcs)s -o "$t/demo" || exit 98
cd "$t" || exit 97
timeout 60 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, srcs="", flags=""):
    tmp = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in edits:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=tmp + "/r").decode()
        assert diff
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO % dict(srcs=srcs, flags=flags))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
