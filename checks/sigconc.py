"""C06: interleavings of the real kl::signal under a controlled scheduler, checked for linearizability by TLC."""
import json, os
import kv
from sig import run_sharded, ASAN, ENV


def c06(c):
    exes = c.compile_all({
        "sig_conc": dict(src=["sig_conc.cpp"], flags=["-O1", "-fsanitize=address"], libs=["-ldl"]),
        "sig_tsan": dict(src=["sig_tsan.cpp"], flags=["-O1", "-fsanitize=thread"])})
    c.model_check("SignalMC", "SignalMC_thr.cfg")
    scen, execs = (4000, 1500) if c.thorough else (640, 260)
    lines = run_sharded(c, exes["sig_conc"], lambda s, n, o: [str(c.seed), str(s), str(n), str(execs), o], scen, kv.NCPU, 700)
    traces, origin, total = [], [], 0
    for ln in lines:
        d = json.loads(ln)
        total += d["execs"]
        for r in d["runs"]:
            traces.append(json.dumps(r))
            origin.append(d)
    if traces:
        c.events += sum(t.count('"o":') for t in traces)
        c.sample(dict(scenario=origin[0]["sc"], history=json.loads(traces[0])["ev"][:30]))
        for i, l in c.validate("SignalConc", "SignalConc.cfg", traces, mode="acc", timeout=800):
            c.violation("concurrent history not linearizable with respect to Signal.tla", dict(
                scenario=origin[i]["sc"], idx=origin[i]["idx"], seed=c.seed, history=json.loads(traces[i])["ev"]))
    # missing synchronisation
    rounds = 400 if c.thorough else 60
    cmd = [exes["sig_tsan"], str(c.seed), str(rounds)]
    env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}
    rc, o, e = c.sh(cmd, 400, env=env)
    if rc not in (0,) and "ThreadSanitizer: unexpected memory mapping" in e:
        rc, o, e = c.sh(["setarch", "-R"] + cmd, 400, env=env)
    if rc == 66 or "WARNING: ThreadSanitizer" in e or (rc == "timeout") or (isinstance(rc, int) and rc < 0):
        rc2, o2, e2 = c.sh(["setarch", "-R"] + cmd, 400, env=env)
        if rc2 != 0:
            c.violation("ThreadSanitizer run of concurrent signal operations failed", dict(cmd=cmd[1:], stderr=e[-4000:]))
    elif rc != 0:
        kv.log("thread sanitizer run gave no answer (rc=%s), ignored: %s" % (rc, e[-300:]))
    c.cov.update(scenarios=len(lines), executions=total, distinct_histories=len(traces), tsan_rounds=rounds if rc == 0 else 0)
    c.assumptions += ["two or three threads, programs of 1-3 operations each plus operations inside slots",
                      "scheduling points: every lock operation and every std::atomic operation of signal.hpp; sequential consistency there",
                      "all schedules with at most one preemption per start order up to the per-scenario budget, then random schedules",
                      "weaker memory orders are only exercised by the ThreadSanitizer run"]
CHECKS = {"C06": c06}
