"""C20-C26, C32, C33: the small components, each against its own specification."""
import json
import kv
from sig import run_sharded

SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute"]
WRAP = "-Wl," + ",".join("--wrap=" + x for x in "open open64 openat fstat fstat64 mmap mmap64 munmap close".split())


def comp(exe, mod, parts, refute=(), flags=SAN, kl=False, note="", assume=(), libs=()):
    """parts: [(leading args, quick programs, thorough programs)]"""
    def fn(c):
        x = c.compile_all({exe: dict(src=[exe + ".cpp"], flags=list(flags), kl=kl, cxx="clang++", libs=list(libs))})[exe]
        c.model_check(mod + "MC", mod + ("MC_t.cfg" if c.thorough and c.has(mod + "MC_t.cfg") else "MC.cfg"))
        for r in refute:
            c.model_refute(mod + "MC", "%sMC_%s.cfg" % (mod, r))
        for pre, nq, nt in parts:
            tag = "-".join(pre)
            lines = run_sharded(c, x, lambda s, k, o: list(pre) + [str(c.seed), str(s), str(k), o], nt if c.thorough else nq, kv.NCPU, 700, label=tag)
            if not lines:
                continue
            c.events += sum(t.count('"o":') for t in lines)
            c.sample(dict(family=tag, events=json.loads(lines[len(lines) // 2])["ev"][:4]))
            for i, l in c.validate(mod + "Trace", mod + "Trace.cfg", lines, tagbase=tag, timeout=850):
                t = json.loads(lines[i])
                c.violation("event %d is not what %s.tla allows: %s" % (l, mod, json.dumps(t["ev"][l - 1])[:300] if l > 0 else "?"),
                            dict(driver=exe, family=tag, idx=t["idx"], seed=c.seed, at=l, events=t["ev"][max(0, l - 30):l]))
            c.cov.setdefault("families", {})[tag or exe] = len(lines)
        c.assumptions += list(assume)
    fn.note = note
    return fn


CHECKS = {
    "C20": comp("b64", "Base64", [(("ex",), 1100, 1100), (("rnd",), 2400, 40000)], kl=True,
                note="TLC proves decode(encode(x)) = x and canonicity of Base64.tla for all short strings; the real codec is judged by the same operators on every string of up to two bytes, every byte value in every position of short texts, and random longer ones",
                assume=["byte strings of more than two bytes and texts beyond the enumerated ones are drawn at random"]),
    "C21": comp("xinfo", "ExcInfo", [((), 4000, 60000)], refute=("relink",),
                note="TLC proves the shared-node implementation scheme refines one stack of details per object (and refutes the scheme of the repaired defect); random histories on the real class are judged by the same operators",
                assume=["histories are drawn at random (4 objects, 2 thrown exceptions, 4 tags)", "values modified through a non-const query are shared by copies and not covered"]),
    "C22": comp("enums", "Enums", [((), 1024, 1024)],
                note="all 65536 operand pairs of 8-bit sets, all iterator pairs of seven ranges and nine name tables are compared exhaustively with Enums.tla",
                assume=["enumerations with 8-bit underlying types stand for wider ones"]),
    "C23": comp("texts", "Texts", [(("ex",), 700, 2800), (("rnd",), 3000, 40000)],
                note="TLC proves the splitting loop equal to the declarative definition for all short texts; the real templates are judged by that definition on all short texts and on random texts, lists and ranges",
                assume=["texts longer than 7 characters are drawn at random"]),
    "C24": comp("fview", "FileView", [((), 3000, 40000)], refute=("nofail", "copy", "leakfd", "lateerrno"), kl=True,
                flags=["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"], libs=[WRAP],
                note="TLC explores the open/fstat/mmap/close protocol under every schedule of failing calls and refutes four broken variants; the real class runs with recorded and failing system calls and is judged by the same kernel model and by /proc",
                assume=["failing munmap is not injected", "the file is not truncated while viewed"]),
    "C25": comp("hashes", "Hash", [((), 1500, 16000)], refute=("fnv1",),
                note="Hash.tla states both published functions on 16-bit halves (checked against published vectors); results of the real functions, evaluated at compile time and at run time, must be equal",
                assume=["texts of more than one byte are drawn at random"]),
    "C26": comp("defers", "Defer", [((), 4000, 60000)], refute=("fifo",),
                note="TLC proves exactly-once and reverse order for all small executions of Defer.tla; executions of code using KL_DEFER with every way out of a block are judged by the same operators",
                assume=["the blocks exercised are those of the driver, nested at random"]),
    "C32": comp("iters", "Iter", [((), 4000, 60000)], refute=("flip", "gt", "postnew"),
                note="TLC proves that the operators the facade derives are the arithmetic of positions (and refutes three wrong derivations); random histories on iterators of every category built with the real facade are judged by the same operators",
                assume=["seven kinds of implementation over one sequence stand for all", "iterators are moved within their sequence only"]),
    "C33": comp("matches", "Match", [((), 4000, 60000)], refute=("copy",),
                note="TLC proves that one dispatch runs one handler on the stored value; random histories of matching and of the tuple utilities are judged by the same operators",
                assume=["one variant of eight alternatives and six sets of handlers stand for all"]),
}
