"""C31: struct reflection, on structs generated from the seed."""
import json, os
import kv, reflect_types
from sig import run_sharded


def check(c):
    units = 24 if c.thorough else 6
    jobs = {}
    for u in range(units):
        inc = os.path.join(c.work, "types%d.inc" % u)
        with open(inc, "w") as f:
            f.write(reflect_types.gen(c.seed * 1000 + u))
        jobs["reflects%d" % u] = dict(src=["reflects.cpp"], cxx="clang++", flags=["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", '-DTYPES="%s"' % inc])
    x = c.compile_all(jobs)
    c.model_check("ReflectMC", "ReflectMC_t.cfg" if c.thorough else "ReflectMC.cfg")
    for r in ("ownfirst", "onebase", "lasthit"):
        c.model_refute("ReflectMC", "ReflectMC_%s.cfg" % r)
    lines, src = [], []
    for u in range(units):
        ls = run_sharded(c, x["reflects%d" % u], lambda s, k, o: [str(c.seed), str(s), str(k), o], 200 if c.thorough else 60, kv.NCPU, 700, label="u%d" % u)
        lines += ls
        src += [u] * len(ls)
    if lines:
        c.events += sum(t.count('"o":') for t in lines)
        c.sample(dict(events=[e for e in json.loads(lines[len(lines) // 2])["ev"] if e["o"] == "vis"][:1]))
    for i, l in c.validate("ReflectTrace", "ReflectTrace.cfg", lines, timeout=850):
        t = json.loads(lines[i])
        e = t["ev"][l - 1]
        T = ([x["t"] for x in t["ev"][:l] if x["o"] == "num"] or ["?"])[-1]
        c.violation("%s of %s is not what Reflect.tla says: %s" % (e["o"], T, json.dumps(e)[:260]),
                    dict(driver="reflects", unit=src[i], idx=t["idx"], seed=c.seed, at=l, type=T, event=e, decls=[x for x in t["ev"][:l] if x["o"] == "decl"]))
    c.cov["struct types"] = units * 10
    c.assumptions += ["the struct types are generated at random from the seed (bases, members, access, attributes, accessors)"]


check.note = ("TLC proves completeness, order and framing of Reflect.tla for all small hierarchies and refutes three wrong variants; random visits, writes and attribute queries "
              "on generated struct types compiled against the real headers are judged by the same operators")
CHECKS = {"C31": check}
