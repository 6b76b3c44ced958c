"""
Orchestration: runs TLC on a module of the specification, streams what it prints to replay workers that run the
real code (PyPy), and collects counts for the evidence file.  Runs under CPython 3.
"""
import os, sys, json, time, re, random, lang, subprocess, threading, queue, tempfile, shutil, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("HYPERTAG_REPO", "/repo")
PYPY = os.environ.get("HYPERTAG_PYTHON", "/opt/venv/bin/python")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar"

class MachineryError(Exception): pass

class Pool:
    """worker processes replaying cases; results are handed to `sink` (called under a lock)"""
    def __init__(self, mode, sink, size=6, env=None):
        self.sink, self.lock, self.sent, self.done = sink, threading.Lock(), 0, 0
        self.q = queue.Queue(4000)
        self.stop = False
        self.procs, self.threads, self.errors = [], [], []
        e = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        e.update(env or {})
        for i in range(size):
            p = subprocess.Popen([PYPY, os.path.join(HARNESS, "worker.py"), mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=e, text=True, cwd=HARNESS, bufsize=1 << 16)
            self.procs.append(p)
            p.sent, p.got = [], 0
            for f in (self._feed, self._read, self._err):
                t = threading.Thread(target=f, args=(p,), daemon=True); t.start(); self.threads.append(t)
    def _feed(self, p):
        k = 0
        while True:
            c = self.q.get()
            if c is None: break
            try:
                p.sent.append(c)
                p.stdin.write(c + "\n"); k += 1
                if k % 16 == 0 or self.q.empty(): p.stdin.flush()
            except (BrokenPipeError, ValueError, OSError): self.errors.append("worker pipe closed")
        try: p.stdin.close()
        except OSError: pass
    def _read(self, p):
        for s in p.stdout:
            try: r = json.loads(s)
            except ValueError: self.errors.append("worker said: " + s[:200]); continue
            p.sent[p.got] = None; p.got += 1
            with self.lock:
                self.done += 1
                self.sink(r)
    def _err(self, p):
        p.err = []
        for s in p.stderr: p.err.append(s)
    def put(self, case):
        self.sent += 1
        self.q.put(case if isinstance(case, str) else json.dumps(case))
    def close(self, timeout=300):
        for _ in self.procs: self.q.put(None)
        end = time.time() + timeout
        for p in self.procs:
            try: p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired: p.kill()
        for t in self.threads: t.join(10)
        for p in self.procs:
            if p.returncode and p.got < len(p.sent) and not re.search("Traceback", "".join(p.err)):
                # the interpreter itself died (or hung) on this case
                with self.lock: self.sink({"n": json.loads(p.sent[p.got])["n"], "died": "the process executing the script ended with exit code %s" % p.returncode})
            elif p.returncode: self.errors.append("worker exit %s: %s" % (p.returncode, "".join(p.err)[-1500:]))

def tlc(module, cfg, on_line, workers=4, heap="6g", timeout=600, extra=(), stop=None, files=None):
    """run TLC; lines printed with the prefix "@" go to on_line as parsed JSON; returns counts"""
    tmp = tempfile.mkdtemp(prefix="tlc")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")): shutil.copy(f, tmp)
        for name, content in (files or {}).items():
            with open(os.path.join(tmp, name), "w") as f: f.write(content)
        with open(os.path.join(tmp, "MC.cfg"), "w") as f: f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC",
               "-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(tmp, "states"), "-nowarning"] + list(extra) + [module + ".tla"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
        timer = threading.Timer(timeout, p.kill); timer.start()
        st = {"states": 0, "transitions": 0, "stopped": False, "printed": 0}
        tail, done = [], False
        for s in p.stdout:
            if s.startswith('"@'):
                try: r = json.loads(json.loads(s)[1:])
                except ValueError: raise MachineryError("cannot parse TLC output: " + s[:300])
                st["printed"] += 1
                on_line(r)
                if stop and stop(): st["stopped"] = True; p.kill(); break
                continue
            tail.append(s)
            if len(tail) > 400: del tail[200:-100]
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", s)
            if m: st["transitions"], st["states"] = int(m.group(1)), int(m.group(2))
            if "Model checking completed. No error" in s or s.startswith("The number of states generated"): done = True
        p.wait(); timer.cancel()
        if not done and not st["stopped"]:
            i = next((k for k, s in enumerate(tail) if s.startswith("Error")), max(0, len(tail) - 40))
            raise MachineryError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, "".join(tail[i:i + 12] + ["...\n"] + tail[-12:])))
        return st
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def tla_const(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla_const(x) for x in sorted(v)) + "}"
    raise ValueError(v)

def cfg(spec="Spec", consts=None, invs=(), props=(), more=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for k, v in (consts or {}).items(): s += "CONSTANT %s = %s\n" % (k, tla_const(v))
    for i in invs: s += "INVARIANT %s\n" % i
    for i in props: s += "PROPERTY %s\n" % i
    return s + more

class Check:
    """one run of the check of one property"""
    MAXFAIL = 12
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = self.last = time.time()
        self.fails, self.samples, self.parts = [], [], {}
        self.states = self.transitions = self.validated = self.skipped = 0
        for f in glob.glob(os.path.join(VERIF, "evidence", "replay", prop + "-*.json")): os.remove(f)
        self.known = self.load_known()
        self.known_hit = set()
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def load_known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for s in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", s)
                if m and m.group(1) == self.prop: out[m.group(2)] = m.group(3).strip()
        return out
    def fail(self, part, why, case):
        key = case.get("key") or hashlib.sha1(json.dumps(case.get("id", case.get("src", case)), sort_keys=True).encode()).hexdigest()[:16]
        if key in self.known: self.known_hit.add(key); return
        self.fails.append({"part": part, "why": why, "key": key, "case": case})
    def enough(self): return len(self.fails) >= self.MAXFAIL
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)
    def add(self, part, st=None, validated=0, **more):
        d = self.parts.setdefault(part, {})
        if st:
            self.states += st["states"]; self.transitions += st["transitions"]
            d["states"] = d.get("states", 0) + st["states"]; d["transitions"] = d.get("transitions", 0) + st["transitions"]
            if st.get("stopped"): d["stopped_early"] = True
        self.validated += validated
        d["validated"] = d.get("validated", 0) + validated
        now = time.time(); d["wall_s"] = round(d.get("wall_s", 0) + now - self.last, 1); self.last = now
        for k, v in more.items(): d[k] = v
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for k in sorted(self.known_hit): print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, k, self.known[k]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
                           "outside_model": self.skipped, "parts": self.parts, "samples": self.samples or ["-"],
                           "violations": len(self.fails)},
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not self.fails:
            print("OK property=%s states=%d validated=%d wall=%.1fs" % (self.prop, self.states, self.validated, time.time() - self.t0))
            return 0
        for i, x in enumerate(self.fails[:5]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f: json.dump(x, f, indent=1)
            if i == 0:
                print("first failure (%s): %s" % (x["part"], "; ".join(x["why"])))
                if "src" in x["case"]: print(x["case"]["src"])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    # ------------------------------------------------------------------ programs
    CORE_INVS = ["ScopesBalanced", "DocScopeFirst", "RightScope", "Terminated", "OutputSettled", "ElseOfEmpty", "BoundExactly", "NeverLater", "PointsIn", "LaidOut"]
    CORE_PROPS = ["OnlyTopScope", "NoResidue", "LogGrows", "InOrder", "OneClause", "StaticFirst", "PassesThrough", "ExpandedOnce", "ReadsBack"]

    def spec_to_code(self, part, alpha, maxn, maxd, tn=0, esc="html", workers=4, pool=6, timeout=600, relevant=None):
        """TLC enumerates all programs over an alphabet; each is replayed in the real code"""
        seen = {}
        stat = {"n": 0, "err": 0, "bad": 0}
        def sink(r):
            if "crash" in r: p.errors.append(r["crash"]); return
            if "died" in r:
                c = seen.pop(r["n"], None)
                if c: self.fail(part, [r["died"]], {"src": lang.source(c["prog"], "", tn), "expected": c["exp"], "prog": c["prog"], "tn": tn})
                return
            if r["ok"]: seen.pop(r["n"], None); return
            c = seen.pop(r["n"])
            self.fail(part, r["why"], {"src": r["src"], "expected": c["exp"], "observed": r["obs"], "prog": c["prog"], "tn": tn})
        p = Pool("check", sink, pool)
        def on_line(r):
            stat["n"] += 1
            if r["exp"]["er"]: stat["err"] += 1
            r["n"] = stat["n"]; r["esc"] = esc
            if stat["n"] in (40, 900): self.sample({"part": part, "expected": {k: r["exp"][k] for k in ("er", "ln", "t", "lg")}, "program": brief(r["prog"])})
            seen[r["n"]] = r
            p.put(r)
        st = tlc("MCore", cfg("Spec", dict(PRO=1, ESC=esc, TN=tn, MaxN=maxn, MaxD=maxd, AlphaFile="alpha.json"), ["Emit"] + self.CORE_INVS, self.CORE_PROPS),
                 on_line, workers=workers, timeout=timeout, stop=lambda: self.enough(), files={"alpha.json": json.dumps(alpha)})
        p.close()
        if p.errors and not self.fails: raise MachineryError("\n".join(p.errors[:3]))
        self.add(part, st, p.done, programs=stat["n"], expected_errors=stat["err"])

    def replay(self, part, mode, module, consts, invs=("Emit",), props=(), files=None, fix=None, workers=6, pool=6, timeout=600, env=None, every=1):
        """TLC explores a module of the specification; each case it prints is replayed by the worker of this mode"""
        seen, stat = {}, {"n": 0, "sent": 0}
        def sink(r):
            if "crash" in r: p.errors.append(r["crash"]); return
            c = seen.pop(r["n"])
            if "died" in r: self.fail(part, [r["died"]], {"src": "", "case": c})
            elif not r["ok"]: self.fail(part, r["why"], {"src": r["src"], "observed": r.get("obs"), "case": c})
        p = Pool(mode, sink, pool, env)
        def on_line(r):
            stat["n"] += 1
            if every > 1 and (stat["n"] * 7919 + self.seed) % every: return
            stat["sent"] += 1
            r["n"] = stat["sent"]
            if fix: fix(r)
            if stat["sent"] in (30, 900): self.sample({"part": part, "case": {k: v for k, v in r.items() if k != "heap"}})
            seen[r["n"]] = r
            p.put(r)
        st = tlc(module, cfg("Spec", consts, invs, props), on_line, workers=workers, timeout=timeout, stop=lambda: self.enough(), files=files)
        p.close()
        if p.errors and not self.fails: raise MachineryError("\n".join(p.errors[:3]))
        self.add(part, st, p.done, cases=stat["n"])

    def worlds(self, part, worlds, workers=6, pool=6, timeout=600, env=None):
        """TLC explores all choices of each world; what it prints is replayed in scratch folders"""
        seen, stat = {}, {"n": 0, "err": 0, "ops": 0}
        def sink(r):
            if "crash" in r: p.errors.append(r["crash"]); return
            c = seen.pop(r["n"])
            if "died" in r: self.fail(part, [r["died"]], dict(c, src=""))
            elif not r["ok"]: self.fail(part, r["why"], {"src": r["src"], "expected": c["results"], "observed": r["obs"], "case": c})
        p = Pool("modules", sink, pool, env)
        def on_line(r):
            W = worlds[r["w"] - 1]
            stat["n"] += 1
            files = [dict(f, alt=f["alts"][k - 1]) for f, k in zip(W["files"], r["fc"])]
            case = {"n": stat["n"], "files": [{k: f[k] for k in ("d", "n", "k", "alt")} for f in files if not f["alt"]["absent"]], "resolve": W["resolve"], "dirs": W["dirs"],
                    "ops": [self.written(W, o[k - 1]) for o, k in zip(W["ops"], r["oc"])], "results": r["results"]}
            stat["ops"] += len(case["ops"]); stat["err"] += sum(1 for x in r["results"] if x["er"])
            if stat["n"] in (30, 700): self.sample({"part": part, "files": ["/".join(f["d"] + [f["n"] + "." + f["k"]]) for f in case["files"]], "expected": r["results"]})
            seen[case["n"]] = case
            p.put(case)
        st = tlc("HModules", cfg("Spec", dict(WorldFile="worlds.ndjson"), ["Emit", "Once", "NoReentry", "Progress", "Repeatable"], ["CacheGrows", "LoadedStays", "OwnScope"]),
                 on_line, workers=workers, timeout=timeout, stop=lambda: self.enough(), files={"worlds.ndjson": "\n".join(map(json.dumps, worlds)) + "\n"})
        p.close()
        if p.errors and not self.fails: raise MachineryError("\n".join(p.errors[:3]))
        self.add(part, st, p.done, histories=stat["n"], renderings=stat["ops"], expected_errors=stat["err"])

    @staticmethod
    def written(W, op):
        """an operation that changes a file, with what is written"""
        if op["how"] != "write": return op
        return dict(op, to=[f for f in W["files"] if (f["d"], f["n"], f["k"]) == (op["path"], op["name"], "hy")][0]["alts"][op["alt"] - 1])

    def code_to_spec(self, part, programs, tn=0, esc="html", fn=None, workers=8, pool=8, timeout=600, twice=False, via="", pro=1):
        """programs are executed in the real code first; TLC validates what was recorded"""
        recs = []
        died, sent = [], {}
        p = Pool("record", lambda r: (died if "died" in r else recs).append(r), pool)
        n = 0
        for prog in programs:
            prog = [lang.fix_lead(dict(l, a=dict(l["a"]))) for l in prog]
            if n % 3 == 1:
                try: q = lang.rename(prog, random.Random(n)); lang.source(q); prog = q
                except AssertionError: pass
            n += 1; sent[n] = prog; p.put({"n": n, "prog": prog, "tn": tn, "fn": fn, "twice": twice, "esc": esc, "via": via, "pro": pro})
        p.close()
        for r in died: self.fail(part, [r["died"]], {"src": lang.source(sent[r["n"]], "", tn), "prog": sent[r["n"]], "tn": tn})
        bad = [r for r in recs if "crash" in r]
        if bad or p.errors: raise MachineryError("\n".join([r["crash"] for r in bad[:2]] + p.errors[:2]))
        recs.sort(key=lambda r: r["n"])
        by = {}
        lines = []
        for r in recs:
            by[r["n"]] = r
            o = r["obs"]
            ob = {"cls": o["cls"], "ln": o["ln"], "t": o["t"], "tree": kinds(o["tree"]), "lg": kinds(o["lg"]), "lg2": [kinds(o["lg2"])] if "lg2" in o else [], "sym": [[k, kinds(v)] for k, v in sorted(o["sym"].items())]}
            lines.append(json.dumps({"n": r["n"], "prog": r["prog"], "obs": ob}))
        seen, cnt = set(), {}
        def on_line(r):
            seen.add(r["n"]); cnt[r["v"]] = cnt.get(r["v"], 0) + 1
            if r["v"] == "skip": self.skipped += 1
            elif r["v"] != "ok":
                x = by[r["n"]]
                self.fail(part, ["trace rejected by the specification, clause: " + r["v"]],
                          {"src": x["src"], "observed": x["obs"], "expected": r["exp"], "prog": x["prog"], "tn": tn})
        st = {"states": 0, "transitions": 0}
        if lines:
            st = tlc("HTrace", cfg("TraceSpec", dict(PRO=pro, ESC=esc, TN=tn, TraceFile="trace.ndjson"), ["Verdict"] + self.CORE_INVS, self.CORE_PROPS),
                     on_line, workers=workers, timeout=timeout, stop=lambda: self.enough(), files={"trace.ndjson": "\n".join(lines) + "\n"})
        if not st.get("stopped") and len(seen) != len(recs):
            miss = [r for r in recs if r["n"] not in seen][:1]
            raise MachineryError("no verdict for %d traces, e.g.\n%s" % (len(recs) - len(seen), miss and miss[0]["src"]))
        for r in recs[:400:200]: self.sample({"part": part, "src": r["src"], "observed": {k: r["obs"][k] for k in ("msg", "t", "lg")}})
        self.add(part, st, len(seen) - cnt.get("skip", 0), verdicts=cnt, programs=len(recs),
                 failing_programs=sum(1 for r in recs if r["obs"]["er"]), calls_logged=sum(len(r["obs"]["lg"]) for r in recs))

def kinds(x):
    if isinstance(x, list) and x and x[0] in ("dom", "node", "it"): return [x[0]]
    if isinstance(x, list): return [kinds(y) for y in x]
    return x

def brief(prog):
    return lang.source(prog).split("\n")

CP = None
def _cp():
    global CP
    s = open("/usr/local/bin/tlc").read()
    m = re.search(r"-cp\s+[\"']?([^\s\"']+)", s)
    CP = m.group(1) if m else TLC_CP
_cp()
