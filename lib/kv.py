"""Runner library: builds harnesses from /repo's working tree, runs them, feeds the recorded
traces to TLC, turns rejections into VIOLATION lines, writes evidence."""
import json, os, re, resource, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KL_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")


class CheckError(Exception):
    """The check itself could not give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", pid + ("-%d" % os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay_dir = os.path.join(VERIF, "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.states = 0          # distinct TLC states (model checking + trace validation)
        self.transitions = 0
        self.traces = 0          # real executions validated
        self.events = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known_hit = []
        self.level = "model_checking"
        self.assumptions = []
        self.known = self._load_known()

    thorough = property(lambda s: s.tier == "thorough")

    # ---- known findings ------------------------------------------------------------------
    def _load_known(self):
        # lines "fixed: ..." are a record only; lines "known: {json}" list findings that are not repaired:
        # {"property":.., "match":[strings that must all occur in the report], "what":..}
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("known: "):
                    d = json.loads(line[7:])
                    if d["property"] == self.pid:
                        out.append(d)
        return out

    # ---- building ------------------------------------------------------------------------
    def sh(self, cmd, timeout=600, env=None, cwd=None, mem_gb=None, stdin=None, grows=None):
        """grows=(file, seconds): give up as soon as that file has not grown for so long."""
        def lim():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem_gb:
                b = int(mem_gb * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
                             preexec_fn=lim, stdin=stdin if stdin is not None else subprocess.DEVNULL)
        try:
            if grows:
                end, size, since = time.time() + timeout, -1, time.time()
                while True:
                    try:
                        o, er = p.communicate(timeout=5)
                        break
                    except subprocess.TimeoutExpired:
                        now = time.time()
                        n = os.path.getsize(grows[0]) if os.path.exists(grows[0]) else 0
                        if n != size:
                            size, since = n, now
                        if now > end or now - since > grows[1]:
                            raise
            else:
                o, er = p.communicate(timeout=timeout)
            return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, er = p.communicate()
            return "timeout", o.decode("utf8", "replace"), er.decode("utf8", "replace")

    def kl_sources(self, json_=False, yaml=False):
        src = os.path.join(REPO, "src")
        out = []
        for f in sorted(os.listdir(src)):
            if not f.endswith(".cpp") or "win32" in f or ("yaml" in f and not yaml):
                continue
            if "json" in f and not json_:
                continue
            out.append(os.path.join(src, f))
        return out

    def compile_all(self, jobs):
        """jobs: {exe name: dict(src=[..], flags=[..], kl=bool, json=bool, libs=[..], cxx=..)}.
        Every translation unit is compiled in parallel, from /repo's current tree."""
        tus, links = [], []
        for name, j in jobs.items():
            flags = ["-std=c++17", "-g1", "-pthread", "-w", "-I", os.path.join(REPO, "include"), "-I", HARN,
                     "-DRAPIDJSON_HAS_STDSTRING=1"] + list(j.get("flags", ["-O0"]))
            srcs = [os.path.join(HARN, s) for s in j["src"]]
            objs = []
            for s in srcs:
                o = os.path.join(self.work, name + "." + os.path.basename(s) + ".o")
                tus.append(([j.get("cxx", "g++")] + flags + ["-include", os.path.join(HARN, "prelude.hpp"), "-c", s, "-o", o]))
                objs.append(o)
            if j.get("kl"):
                for s in self.kl_sources(j.get("json", False), j.get("yaml", False)):
                    o = os.path.join(self.work, name + ".kl." + os.path.basename(s) + ".o")
                    tus.append(([j.get("cxx", "g++")] + flags + ["-c", s, "-o", o]))
                    objs.append(o)
            exe = os.path.join(self.work, name)
            links.append((exe, [j.get("cxx", "g++")] + flags + objs + ["-o", exe] + list(j.get("libs", []))))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (rc, o, e), c in zip(ex.map(lambda c: self.sh(c, 800), tus), tus):
                if rc != 0:
                    raise CheckError("compilation failed: %s\n%s" % (" ".join(c), e[-6000:]))
            for (rc, o, e), c in zip(ex.map(lambda l: self.sh(l[1], 300), links), links):
                if rc != 0:
                    raise CheckError("link failed: %s\n%s" % (" ".join(c[1]), e[-6000:]))
        return {os.path.basename(l[0]): l[0] for l in links}

    # ---- TLC -----------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, xmx="2g", timeout=600, extra=(), tag=""):
        meta = os.path.join(self.work, "tlc-%s%s-%d" % (module, tag, time.time_ns() % 10**9))
        os.makedirs(meta)
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + xmx, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dkv=1",
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg), "-deadlock"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, o, e = self.sh(cmd, timeout, env=env, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, o + e

    @staticmethod
    def tlc_counts(out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
            re.search(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def model_check(self, module, cfg, timeout=600, workers=None, xmx="6g", extra=()):
        """Exhaustive check of the specification itself. A failure is an error of the model."""
        rc, out = self.tlc(module, cfg, workers=workers or NCPU, xmx=xmx, timeout=timeout, extra=extra)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise CheckError("model checking of %s/%s failed (rc=%s)\n%s" % (module, cfg, rc, out[-4000:]))
        g, d = self.tlc_counts(out)
        self.states += d
        self.transitions += g
        self.cov.setdefault("models", {})[cfg] = dict(states=d, transitions=g)
        log("model %s: %d distinct states" % (cfg, d))
        return d

    def has(self, cfg):
        return os.path.exists(os.path.join(SPEC, cfg))

    def model_refute(self, module, cfg, timeout=300):
        """A deliberately broken variant of the model: TLC must find a violation, or the invariants are vacuous."""
        rc, out = self.tlc(module, cfg, workers=2, xmx="3g", timeout=timeout)
        if "is violated" not in out:
            raise CheckError("model variant %s/%s was not refuted (rc=%s)\n%s" % (module, cfg, rc, out[-3000:]))
        self.cov.setdefault("refuted_model_variants", []).append(cfg)

    def _validate_file(self, module, cfg, path, timeout, tag, xmx):
        rc, out = self.tlc(module, cfg, env={"TRACE": path}, timeout=timeout, tag=tag, xmx=xmx)
        return rc, out

    def validate(self, module, cfg, traces, timeout=700, chunks=None, mode="rej", xmx="3g", confirm=True, tagbase=""):
        """traces: list of JSON-serialisable traces (each one NDJSON line with key 'id' = index).
        mode 'rej': the trace module walks all traces and prints <<"REJ", id, l>> for each rejected one and
        finally <<"DONE", n>>.  mode 'acc': prints <<"ACC", id>> for each accepted one (nondeterministic search).
        Returns a list of (index, l) of rejected traces (confirmed by a second run on that trace alone)."""
        n = len(traces)
        if n == 0:
            return []
        chunks = min(n, chunks or NCPU)
        # spread by size: longest first, round robin
        order = sorted(range(n), key=lambda i: -len(traces[i]) if isinstance(traces[i], str) else 0)
        groups = [order[k::chunks] for k in range(chunks)]
        files = []
        for k, g in enumerate(groups):
            path = os.path.join(self.work, "%s%s.%d.ndjson" % (tagbase, module, k))
            with open(path, "w") as f:
                for i in g:
                    t = traces[i]
                    f.write((t if isinstance(t, str) else json.dumps(t)) + "\n")
            files.append(path)
        rejected, errored = [], []
        with cf.ThreadPoolExecutor(chunks) as ex:
            futs = [ex.submit(self._validate_file, module, cfg, p, timeout, "%s-%d" % (tagbase, k), xmx) for k, p in enumerate(files)]
            for k, fu in enumerate(futs):
                rc, out = fu.result()
                bad = self._parse(out, groups[k], mode)
                if bad is None:
                    errored.append((k, rc, out))
                else:
                    g_, d_ = self.tlc_counts(out)
                    self.states += d_
                    self.transitions += g_
                    rejected += bad
        for k, rc, out in errored:
            # TLC could not evaluate some trace of this chunk: find which (a value outside the
            # specification's universe), by halving; refuse to answer if TLC itself is broken.
            log("TLC error on chunk %d (rc=%s): %s" % (k, rc, out[-1500:]))
            if rc == "timeout":
                raise CheckError("TLC timed out validating " + files[k])
            rejected += self._bisect(module, cfg, traces, groups[k], mode, timeout, xmx)
        self.traces += n
        confirmed = []
        for i, l in sorted(rejected)[:20]:
            if not confirm:
                confirmed.append((i, l))
                continue
            path = os.path.join(self.work, "confirm.ndjson")
            with open(path, "w") as f:
                t = traces[i]
                f.write((t if isinstance(t, str) else json.dumps(t)) + "\n")
            rc, out = self._validate_file(module, cfg, path, timeout, "confirm", xmx)
            bad = self._parse(out, [i], mode)
            if bad is None or bad:
                ll = bad[0][1] if bad else l
                confirmed.append((i, ll))
                self.last_reject_output = out[-3000:]
            else:
                raise CheckError("rejection of a trace was not repeated: trace %d" % i)
        return confirmed

    def _parse(self, out, idx, mode):
        if mode == "rej":
            if not re.search(r'<<"DONE", %d>>' % len(idx), out):
                return None
            res = []
            for m in re.finditer(r'<<"REJ", (\d+), (-?\d+)', out):
                res.append((idx[int(m.group(1)) - 1], int(m.group(2))))
            return sorted(set(res))
        if "Model checking completed. No error has been found" not in out:
            return None
        acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        mx = {}
        for m in re.finditer(r'<<"MAX", (\d+), (\d+)>>', out):
            mx[int(m.group(1))] = max(mx.get(int(m.group(1)), 0), int(m.group(2)))
        return [(idx[k - 1], mx.get(k, 0)) for k in range(1, len(idx) + 1) if k not in acc]

    def _bisect(self, module, cfg, traces, idx, mode, timeout, xmx):
        res, budget = [], [60]
        def go(ids):
            if not ids or len(res) >= 3:
                return
            budget[0] -= 1
            if budget[0] < 0:
                raise CheckError("TLC keeps failing; giving up")
            path = os.path.join(self.work, "bisect.ndjson")
            with open(path, "w") as f:
                for i in ids:
                    t = traces[i]
                    f.write((t if isinstance(t, str) else json.dumps(t)) + "\n")
            rc, out = self._validate_file(module, cfg, path, timeout, "bis", xmx)
            bad = self._parse(out, ids, mode)
            if bad is not None:
                res.extend(bad)
                return
            if len(ids) == 1:
                if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemory" in out:
                    raise CheckError("TLC broken:\n" + out[-3000:])
                log("trace not evaluable by the specification:\n" + out[-2500:])
                res.append((ids[0], -1))
                return
            h = len(ids) // 2
            go(ids[:h])
            go(ids[h:])
        go(list(idx))
        if not res:
            raise CheckError("TLC failed on a chunk but on no single trace")
        return res

    # ---- verdicts ------------------------------------------------------------------------
    def match_known(self, desc, data):
        for k in self.known:
            if all(str(v) in json.dumps(data) or str(v) in desc for v in k.get("match", ["\0"])):
                return k
        return None

    def violation(self, desc, data):
        k = self.match_known(desc, data)
        if k:
            if k["what"] not in self.known_hit:
                self.known_hit.append(k["what"])
            return
        if len(self.violations) >= 10:
            self.violations.append(None)
            return
        path = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=desc, seed=self.seed, tier=self.tier, data=data), f, indent=1)
            f.write("\n")
        self.violations.append(path)
        log("VIOLATED: " + desc)

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            self.samples.append(x)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   samples=self.samples[:4])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for v in self.violations:
                if v:
                    print("VIOLATION property=%s replay=%s" % (self.pid, v), flush=True)
            return 1
        print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.pid, self.traces, self.states, time.time() - self.t0))
        return 0


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        if c.violations:      # a violation found before the error still stands
            rc = c.finish()
        else:
            if not os.environ.get("KV_KEEP"):
                shutil.rmtree(c.work, ignore_errors=True)
            rc = 2
    sys.exit(rc)
