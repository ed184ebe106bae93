#!/usr/bin/env python3
"""seedtest.py ID [--nocheck] [--all-checks]: confirms a planted bug (applies, builds, stable tests pass, demo fails with / passes
without) in a scratch copy of /repo, then runs the property's check against it (KL_REPO points at the copy)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")
def main(i, nocheck):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    try:
        sh(["cp", "-a", "/repo", repo])
        sh(["git", "checkout", "-q", "--", "."], cwd=repo)
        def demo():
            # demo runs with cwd at the repo root and must not depend on the path
            return sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, timeout=300)
        rc0, o0 = demo()
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        if rc: return print(i, "PATCH DOES NOT APPLY", o)
        # build in place (fresh build directory for the copy)
        shutil.rmtree(os.path.join(repo, "_build"))
        b = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + repo)
        open(os.path.join(tmp, "build.sh"), "w").write(b)
        rc, o = sh(["bash", os.path.join(tmp, "build.sh")])
        if rc: return print(i, "BUILD FAILED", o[-2500:])
        base = json.load(open("/opt/vp/BASELINE.json"))
        rep = os.path.join(tmp, "rep"); os.makedirs(rep)
        sh(["/usr/bin/python3", "/opt/vp/support/run_catch.py", os.path.join(repo, "_build/tests/kl-tests"), rep], timeout=600)
        sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(tmp, "res.json"), "junit:%s/*.xml" % rep])
        res = json.load(open(os.path.join(tmp, "res.json")))
        lost = sorted(set(base["stable"]) - set(res["passed"]))
        rc, tail, o = len(lost), "lost %s" % lost[:4], ""
        rc1, o1 = demo()
        print(i, "prop", meta["property"], "| tests rc", rc, tail, "| demo clean", rc0, "patched", rc1)
        if rc: print("\n".join(l for l in o.split("\n") if "failed" in l)[:800])
        if rc0: print(o0[-1500:])
        if rc1 == 0: print("DEMO DOES NOT FAIL", o1[-500:])
        if not nocheck:
            rc2, o2 = sh(["python3", os.path.join(V, "checks/run.py"), meta["property"]], cwd=V, env={"KL_REPO": repo, "VERIF_SEED": "1"})
            viol = [l for l in o2.split("\n") if l.startswith("VIOLAT")]
            print(i, "CHECK", "CAUGHT" if rc2 == 1 and viol else "MISSED rc=%s" % rc2, "|", (viol[-1] if viol else o2[-600:])[:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if not a: a = sorted(os.listdir(os.path.join(V, "seeded")))
    for x in a: main(x, "--nocheck" in sys.argv)
