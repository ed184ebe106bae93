"""C18, C19: the binary reader/writer and its codecs against BinRW.tla."""
import json
import kv
from sig import run_sharded

FLAGS = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
         "-fno-sanitize=pointer-overflow,nonnull-attribute"]
A = ["operation sequences, values and byte strings are drawn at random from the seed over the 44 types of BinRWTrace.tla",
     "the host is little endian; bool and enumerations with invalid bytes are not read"]


def fam(f, n):
    def fn(c):
        exe = c.compile_all({"binrw": dict(src=["binrw.cpp"], flags=FLAGS, cxx="clang++")})["binrw"]
        c.model_check("BinRWMC", "BinRWMC_t.cfg" if c.thorough else "BinRWMC.cfg")
        lines = run_sharded(c, exe, lambda s, k, o: [f, str(c.seed), str(s), str(k), o], n * (15 if c.thorough else 1),
                            kv.NCPU, 700, label=f)
        if lines:
            c.events += sum(x.count('"o":') for x in lines)
            t = json.loads(lines[1])
            c.sample(dict(family=f, buffer=t["b"], events=t["ev"][:3]))
        for i, l in c.validate("BinRWTrace", "BinRWTrace.cfg", lines or [], tagbase=f, timeout=850) if lines else []:
            t = json.loads(lines[i])
            c.violation("event %d of a %s is not allowed by BinRW.tla" % (l, "reader" if t["k"] == "r" else "writer"),
                        dict(family=f, idx=t["idx"], seed=c.seed, at=l, buffer=t["b"], events=t["ev"][:l]))
        c.cov.setdefault("families", {})[f] = len(lines or [])
        c.assumptions += A
    fn.note = ("TLC checks bounds, sticky errors and round trips of BinRW.tla exhaustively within bounds; "
               "random operation sequences on the real streams are judged by the same operators")
    return fn


CHECKS = {"C18": fam("cur", 16000), "C19": fam("codec", 12000)}
