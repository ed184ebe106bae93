"""C14-C17: JSON encoding, decoding, attributes and patching against Serde.tla."""
import json
import os
import kv
from sig import run_sharded

FLAGS = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=pointer-overflow"]
A = ["values and documents are drawn at random from the seed over the 36 types of SerdeTypes.tla",
     "rapidjson's parser and writer are trusted; documents have no duplicate keys; floating values are finite",
     ]
YA = ["values and documents are drawn at random from the seed over the types of SerdeTypes.tla",
      "yaml-cpp 0.8 (the installed library) is trusted for parsing, writing and for what a scalar's text denotes; documents have no duplicate keys",
      "the upstream build here leaves YAML out; the harness compiles include/kl/yaml.hpp and src/yaml.cpp itself, with harness/yamlshim in front of one yaml-cpp header"]


def fam(families, yaml=False):
    def fn(c):
        if yaml:
            job = dict(src=["serde.cpp"] + ["yaml_p%d.cpp" % k for k in range(4)], flags=["-I", os.path.join(kv.HARN, "yamlshim")] + FLAGS,
                       kl=True, yaml=True, libs=["-lyaml-cpp"], cxx="clang++")
        else:
            job = dict(src=["serde.cpp"] + ["serde_p%d.cpp" % k for k in range(4)], flags=FLAGS, kl=True, json=True, cxx="clang++")
        exe = c.compile_all({"serde": job})["serde"]
        c.model_check("SerdeMC", "SerdeMC.cfg")
        mult = 15 if c.thorough else 1
        for f, n in families:
            lines = run_sharded(c, exe, lambda s, k, o: [f, str(c.seed), str(s), str(k), o], n * mult, kv.NCPU, 700, label=f)
            if not lines:
                continue
            c.events += sum(x.count('"o":') for x in lines)
            first = json.loads(lines[0])
            c.sample(dict(family=f, event=first["ev"][0]))
            for i, l in c.validate("SerdeTrace", "SerdeTrace.cfg", lines, tagbase=f, timeout=850):
                t = json.loads(lines[i])
                e = t["ev"][l - 1] if l > 0 else None
                c.violation("%s of type %s disagrees with Serde.tla" % (e and e["o"], e and e["T"]),
                            dict(family=f, idx=t["idx"], seed=c.seed, at=l, event=e))
            c.cov.setdefault("families", {})[f] = len(lines)
        c.assumptions += YA if yaml else A
    fn.note = "TLC checks the laws of Encode/Decode/Patch; random values, documents and patches run on the real code are judged by the same operators"
    return fn


def where(c):
    jobs = {"json": dict(src=["serde.cpp"] + ["serde_p%d.cpp" % k for k in range(4)], flags=FLAGS, kl=True, json=True, cxx="clang++"),
            "yaml": dict(src=["serde.cpp"] + ["yaml_p%d.cpp" % k for k in range(4)], flags=["-I", os.path.join(kv.HARN, "yamlshim")] + FLAGS,
                         kl=True, yaml=True, libs=["-lyaml-cpp"], cxx="clang++")}
    exes = c.compile_all(jobs)
    c.model_check("WhereMC", "WhereMC.cfg")
    c.model_refute("WhereMC", "WhereMC_inner.cfg")
    mult = 15 if c.thorough else 1
    for fmt, f, n in (("json", "dec", 500), ("json", "attr", 700), ("json", "patch", 400), ("yaml", "dec", 200), ("yaml", "patch", 200)):
        lines = run_sharded(c, exes[fmt], lambda s, k, o: [f, str(c.seed + 7), str(s), str(k), o], n * mult, kv.NCPU, 700, label=fmt + f)
        if not lines:
            continue
        c.events += sum(x.count('"o":') for x in lines)
        fails = sum(x.count('"r":[false') for x in lines)
        c.sample(dict(format=fmt, family=f, event=next((e for x in lines for e in json.loads(x)["ev"] if e["r"][0] is False), None)))
        for i, l in c.validate("SerdeTrace", "SerdeTrace_where.cfg", lines, tagbase=fmt + f, timeout=850):
            t = json.loads(lines[i])
            e = t["ev"][l - 1] if l > 0 else None
            c.violation("error of %s of type %s (%s) does not tell the way to the offending part" % (e and e["o"], e and e["T"], fmt),
                        dict(format=fmt, family=f, idx=t["idx"], seed=c.seed + 7, at=l, event=e))
        c.cov.setdefault("families", {})[fmt + " " + f] = dict(traces=len(lines), failures=fails)
    c.assumptions += A[:1] + YA[1:] + ["the words of each line of the message are looked at, not its wording; keys that are not plain words are not looked for",
                                       "documents with NUL characters in texts are left out (the message is a C string)"]
where.note = "TLC checks that the way told leads to a part that does not decode; messages of real failures are judged by the way Serde.tla's Decode and Patch give"


def views(c):
    job = dict(src=["views.cpp"], flags=["-I", os.path.join(kv.HARN, "yamlshim")] + FLAGS, kl=True, yaml=True, json=True, libs=["-lyaml-cpp"], cxx="clang++")
    exe = c.compile_all({"views": job})["views"]
    c.model_check("ViewsMC", "ViewsMC.cfg")
    c.model_refute("ViewsMC", "ViewsMC_write.cfg")
    n = 40000 if c.thorough else 3000
    for f in ("json", "yaml"):
        lines = run_sharded(c, exe, lambda s, k, o: [f, str(c.seed), str(s), str(k), o], n, kv.NCPU, 700, label=f)
        if not lines:
            continue
        c.events += sum(x.count('"o":') for x in lines)
        c.sample(dict(family=f, trace=json.loads(lines[0])))
        for i, l in c.validate("ViewsTrace", "ViewsTrace.cfg", lines, tagbase=f, timeout=850):
            t = json.loads(lines[i])
            e = t["ev"][l - 1] if l > 0 else None
            c.violation("operation %s on %s views disagrees with Views.tla" % (e and e["o"], f), dict(family=f, idx=t["idx"], seed=c.seed, at=l, trace=t))
        c.cov.setdefault("families", {})[f] = len(lines)
    c.assumptions += ["documents, and histories of binding, copying, swapping, erasing and writing views, are drawn at random from the seed", YA[1], YA[2]]
views.note = "TLC checks that rebinding keeps the documents (and that writing through does not); recorded histories of real views are judged by Views.tla"



def builders(c):
    shim = ["-I", os.path.join(kv.HARN, "yamlshim")]
    jobs = {"json": dict(src=["builders.cpp"], flags=FLAGS, kl=True, json=True, cxx="clang++"),
            "yaml": dict(src=["builders.cpp"], flags=shim + ["-DKV_YAML"] + FLAGS, kl=True, yaml=True, libs=["-lyaml-cpp"], cxx="clang++")}
    exes = c.compile_all(jobs)
    c.model_check("BuildersMC", "BuildersMC.cfg")
    c.model_refute("BuildersMC", "BuildersMC_skip.cfg")
    n = 15000 if c.thorough else 1200
    for f in ("json", "yaml"):
        lines = run_sharded(c, exes[f], lambda s, k, o: [str(c.seed), str(s), str(k), o], n, kv.NCPU, 700, label=f)
        if not lines:
            continue
        c.events += sum(x.count('"o":') for x in lines)
        c.sample(dict(family=f, trace=json.loads(lines[0])))
        for i, l in c.validate("BuildersTrace", "BuildersTrace.cfg", lines, tagbase=f, timeout=850):
            t = json.loads(lines[i])
            e = t["ev"][l - 1] if l > 0 else None
            c.violation("%s session over %s disagrees with Builders.tla" % (e and e["o"], f), dict(family=f, idx=t["idx"], seed=c.seed, at=l, event=e))
        c.cov.setdefault("families", {})[f] = len(lines)
    c.assumptions += ["building, extraction and lookup sessions are drawn at random from the seed over 12 types and nested documents", YA[1], YA[2],
                      "a failure to read an enumerator quotes the offending text, which may hide the location if that text contains a NUL"]
builders.note = "TLC checks the position and give-back laws of building and extracting (and that skipping on failure breaks them); recorded sessions of the real builders and extractors are judged by Builders.tla"

CHECKS = {
    "C14": fam([("enc", 1000)]),
    "C15": fam([("dec", 900)]),
    "C16": fam([("attr", 2000)]),
    "C17": fam([("patch", 900)]),
    "C27": fam([("enc", 500)], True),
    "C28": fam([("dec", 400)], True),
    "C29": fam([("patch", 450)], True),
    "C30": views,
    "C34": builders,
    "C35": where,
}
