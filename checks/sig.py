"""C01-C05, C07: re-entrant single-threaded histories of kl::signal against Signal.tla."""
import json, os, concurrent.futures as cf
import kv

ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:hard_rss_limit_mb=3500", "UBSAN_OPTIONS": "print_stacktrace=0"}

STALL = 120  # seconds without a single program finished (programs take milliseconds)


def run_sharded(c, exe, args_of, total, shards, timeout, env=None, mem_gb=None, label=""):
    """Runs a driver that emits one NDJSON line per program (idx first). A crash or hang is confirmed by
    re-running the one program it happened in, and is then a violation. Returns the complete lines."""
    per = (total + shards - 1) // shards
    jobs = []
    for k in range(shards):
        start, n = k * per, min(per, total - k * per)
        if n > 0:
            jobs.append((start, n, os.path.join(c.work, "%s%s.%d.out" % (os.path.basename(exe), label, k))))

    def one(j):
        start, n, out = j
        rc, o, e = c.sh([exe] + args_of(start, n, out), timeout, env=env or ENV, mem_gb=mem_gb, grows=(out, STALL))
        return rc, o, e
    lines = []
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        for (rc, o, e), (start, n, out) in zip(ex.map(one, jobs), jobs):
            txt = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
            good = [x for x in txt if x.endswith("}") and '"ev"' in x]
            lines += good
            if rc != 0:
                last = txt[-1] if txt else ""
                try:
                    idx = int(last.split('"idx":')[1].split(",")[0].split("}")[0])
                except (IndexError, ValueError):
                    idx = start + len(good)
                out2 = out + ".confirm"
                rargs = (idx, 1)
                rc2, o2, e2 = one((idx, 1, out2))
                if rc2 == 0:  # may need what earlier programs left behind in the process
                    rargs = (start, n)
                    rc2, o2, e2 = one((start, n, out2))
                if rc2 != 0:
                    c.violation("the real code crashed, hung or tripped a sanitizer (exit %s)" % rc2,
                                dict(driver=os.path.basename(exe), args=args_of(rargs[0], rargs[1], "OUT"), stderr=e2[:3000], stdout=o2[-500:]))
                    if rc2 == "timeout":
                        raise kv.CheckError("stopped after the real code hung")
                else:
                    raise kv.CheckError("driver failed once (rc=%s) but not again: %s\n%s" % (rc, args_of(start, n, out), e[-2000:]))
            elif len(good) != n:
                raise kv.CheckError("driver wrote %d of %d programs" % (len(good), n))
    return lines


def fam_check(families, models, assumption):
    """families: [(family, quick programs, exe variant)]"""
    def fn(c):
        jobs = {"sig_seq": dict(src=["sig_seq.cpp"], flags=ASAN)}
        if any(v == "ndebug" for _, _, v in families):
            jobs["sig_seq_nd"] = dict(src=["sig_seq.cpp"], flags=["-O2", "-DNDEBUG"])
        exes = c.compile_all(jobs)
        for m in models:
            c.model_check("SignalMC", m)
        mult = 12 if c.thorough else 1
        for fam, n, var in families:
            exe = exes["sig_seq_nd" if var == "ndebug" else "sig_seq"]
            lines = run_sharded(c, exe, lambda s, k, o: [fam, str(c.seed), str(s), str(k), o], n * mult, kv.NCPU, 500, label=fam)
            if not lines:
                continue
            c.events += sum(x.count('"o":') for x in lines)
            first = json.loads(lines[0])
            c.sample(dict(family=fam, idx=first["idx"], events=first["ev"][:12]))
            for i, l in c.validate("SignalTrace", "SignalTrace.cfg", lines, tagbase=fam, timeout=800):
                t = json.loads(lines[i])
                c.violation("history rejected by Signal.tla at event %d: %s" % (l, json.dumps(t["ev"][l - 1]) if l > 0 else "?"),
                            dict(family=fam, idx=t["idx"], seed=c.seed, at=l, prefix=t["ev"][max(0, l - 60):l]))
            c.cov.setdefault("families", {})[fam + ("/NDEBUG" if var else "")] = len(lines)
        c.assumptions += assumption
    return fn

A = ["programs are drawn at random from the seed (10-80 operations, nesting <= 3, <= 14 slots, 3 signals)",
     "the driver's own log of calls and callbacks is faithful"]
CHECKS = {
    "C01": fam_check([("emit", 1600, ""), ("one", 700, "")], ["SignalMC_seq.cfg"], A),
    "C02": fam_check([("disc", 2000, ""), ("life", 400, "")], ["SignalMC_seq.cfg"], A),
    "C03": fam_check([("block", 2200, "")], ["SignalMC_handles.cfg"], A),
    "C04": fam_check([("stop", 2200, "")], ["SignalMC_seq.cfg"], A),
    "C05": fam_check([("life", 2400, "")], ["SignalMC_handles.cfg", "SignalMC_thr.cfg"], A),
    "C07": fam_check([("move", 1400, ""), ("move", 700, "ndebug")], ["SignalMC_move.cfg"], A),
}
