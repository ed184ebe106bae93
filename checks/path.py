"""C13: kl::path against Path.tla."""
import json
import kv
from sig import run_sharded

FLAGS = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute"]


def c13(c):
    exe = c.compile_all({"paths": dict(src=["paths.cpp"], flags=FLAGS, kl=True, cxx="clang++")})["paths"]
    c.model_check("PathMC", "PathMC_t.cfg" if c.thorough else "PathMC.cfg")
    # every byte as a digit of an escape; every text of up to 6 (7) bytes over / . % 2 E a, in lines of 30
    for f, n in (("esc", 256), ("ex", 11198 if c.thorough else 1867), ("rnd", 60000 if c.thorough else 6000)):
        lines = run_sharded(c, exe, lambda s, k, o: [f, str(c.seed), str(s), str(k), o], n, kv.NCPU, 700, label=f)
        if not lines:
            continue
        c.events += sum(x.count('"o":') for x in lines)
        e = json.loads(lines[-1])["ev"][0]
        c.sample(dict(family=f, event=dict(o=e["o"], text=bytes(e.get("in", [])).decode("latin1"), ok=e["ok"])))
        for i, l in c.validate("PathTrace", "PathTrace.cfg", lines, tagbase=f, timeout=850):
            t = json.loads(lines[i])
            e = t["ev"][l - 1]
            c.violation("path %s of %r is not what Path.tla says" % (e["o"], bytes(e.get("in", [])).decode("latin1")),
                        dict(family=f, idx=t["idx"], seed=c.seed, at=l, event=e, before=t["ev"][l - 2]["d"] if l > 1 else None))
        c.cov.setdefault("families", {})[f] = len(lines)
    c.assumptions += ["texts longer than %d bytes or over other alphabets are drawn at random" % (7 if c.thorough else 6)]


c13.note = ("TLC proves a left-to-right parser over one buffer equal to Parse and the laws of Parse for all short texts; the real parser "
            "and its views are judged by Parse on all short texts and on random long ones")
CHECKS = {"C13": c13}
