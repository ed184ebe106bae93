"""C08-C12: requests on resources against Resource.tla."""
import json
import kv
from sig import run_sharded
from serde import FLAGS

A = ["requests are drawn at random from the seed on the four resource types of ResourceTypes.tla (hist: 20-45 requests per history; sys: every node x every method from one state)",
     "validators are pure; documents have no duplicate keys; single-threaded use",
     "paths are compared as written: an index with leading zeros is a different path for change tracking"]


def fam(families):
    def fn(c):
        exe = c.compile_all({"res": dict(src=["res.cpp"] + ["res_p%d.cpp" % k for k in (2, 1, 3, 4)], flags=FLAGS,
                                         kl=True, json=True, cxx="clang++")})["res"]
        c.model_check("ResourceMC", "ResourceMC.cfg" if c.thorough else "ResourceMC_q.cfg", timeout=3000)
        mult = 12 if c.thorough else 1
        for roots, mode, n in families:
            f = roots + mode
            lines = run_sharded(c, exe, lambda s, k, o: [roots, mode, str(c.seed), str(s), str(k), o], n * mult, kv.NCPU, 700, label=f)
            if not lines:
                continue
            c.events += sum(x.count('"o":') for x in lines)
            first = json.loads(lines[0])
            c.sample(dict(family=f, root=first["root"], event={k: v for k, v in first["ev"][-1].items() if k != "v"}))
            for i, l in c.validate("ResourceTrace", "ResourceTrace.cfg", lines, tagbase=f, timeout=3000 if c.thorough else 850):
                t = json.loads(lines[i])
                e = t["ev"][l - 1] if l > 0 else None
                c.violation("%s %s on %s answered %s: disagrees with Resource.tla" % (e and e.get("m", e["o"]), e and e.get("raw", e["p"]), t["root"], e and e.get("st", e.get("r", [0])[0])),
                            dict(family=f, idx=t["idx"], seed=c.seed, at=l, event=e))
            c.cov.setdefault("families", {})[f] = len(lines)
        c.assumptions += A
    fn.note = "TLC checks the request semantics of Resource.tla; random and systematic requests run on the real code are judged by the same operators, with the whole value and the change history compared after each"
    return fn

CHECKS = {
    "C08": fam([("4132", "hist", 200), ("4", "sys", 40)]),
    "C09": fam([("11134", "hist", 150), ("1134", "sys", 64)]),
    "C10": fam([("2", "hist", 100), ("2232", "sys", 56)]),
    "C11": fam([("3332", "hist", 200), ("3", "sys", 56)]),
    "C12": fam([("1234", "hist", 320), ("1234", "sys", 24)]),
}
