"""
Replays schedules of threads sharing one runtime (specification HConc) in the real code.
A scheduler lets one thread run at a time; threads hand over at gates (functions called by the scripts, lookups of the loader)
as the specification's schedule says, or, in "fine" runs, at chosen executed lines of the library.
"""
import sys, os, ast, threading, tempfile, shutil, types, random, atexit
from importlib.machinery import PathFinder, SourceFileLoader

# ---- the library is loaded with a call of HIT[0](file, line) in front of each statement of a function
HIT = [None]
class Lines(ast.NodeTransformer):
    def __init__(self, file): self.file = file
    def block(self, q):
        out = []
        for i, x in enumerate(q):
            doc = i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str)
            if not (doc or isinstance(x, (ast.Global, ast.Nonlocal))):
                h = ast.parse("if vp_hit__[0] is not None: vp_hit__[0](%r, %d)" % (self.file, x.lineno)).body[0]
                for y in ast.walk(h):
                    if hasattr(y, "lineno"): ast.copy_location(y, x)
                out.append(h)
            out.append(self.inside(x))
        return out
    def inside(self, x):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(x, f, None), list): setattr(x, f, self.block(getattr(x, f)))
        for h in getattr(x, "handlers", []): h.body = self.block(h.body)
        return x
    def outer(self, q):
        for x in q:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)): x.body = self.block(x.body)
            elif hasattr(x, "body") and isinstance(x.body, list): self.outer(x.body); self.outer(getattr(x, "orelse", []))
class Instrumented(SourceFileLoader):
    def get_code(self, fullname):
        tree = ast.parse(self.get_data(self.path), self.path)
        Lines(self.path).outer(tree.body)
        code = compile(ast.fix_missing_locations(tree), self.path, "exec", dont_inherit=True)
        return code
    def exec_module(self, module):
        module.__dict__["vp_hit__"] = HIT
        SourceFileLoader.exec_module(self, module)
class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not (name == "hypertag" or name.startswith("hypertag.")): return None
        spec = PathFinder.find_spec(name, path, target)
        if spec and type(spec.loader) is SourceFileLoader: spec.loader = Instrumented(spec.loader.name, spec.loader.path)
        return spec
for m in [m for m in sys.modules if m.split(".")[0] == "hypertag"] + ["probes", "lang"]: sys.modules.pop(m, None)
sys.meta_path.insert(0, Finder)

from hypertag import HyperHTML
from hypertag.core.runtime import HyLoader, PyLoader
from probes import exc_classes, Boom, Kbd

LIB = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["hypertag.core.runtime"].__file__))) + os.sep
STALL = 2.0

class Sched:
    """hands a token from thread to thread"""
    def __init__(self, n):
        self.c = threading.Condition()
        self.n, self.cur, self.free, self.done, self.moves = n, None, False, set(), 0
        self.ids, self.order, self.looked = {}, [], {}
    def me(self): return self.ids.get(threading.get_ident())
    def wait(self, t):
        """called with the lock"""
        while not self.free and self.cur != t:
            k = self.moves
            if not self.c.wait(STALL) and self.moves == k and not self.free and self.cur != t:
                self.free = True; self.c.notify_all()        # the running thread waits for something another one has
    def give(self, t): self.cur = t; self.moves += 1; self.c.notify_all()
    def live(self): return [t for t in range(1, self.n + 1) if t not in self.done]
    def finish(self, t):
        with self.c:
            self.done.add(t)
            self.handover(t)

class Coarse(Sched):
    """hand over at gates, in a given order"""
    def __init__(self, n, sch): Sched.__init__(self, n); self.sch = list(sch)
    def handover(self, t):
        L = self.live()
        while self.sch and self.sch[0] not in L: self.sch.pop(0)
        if self.sch: self.give(self.sch.pop(0))
        elif L: self.give(t if t in L else L[0])
        else: self.moves += 1
    def gate(self, what):
        t = self.me()
        if t is None: return
        with self.c:
            if not self.free:
                self.handover(t)
                self.wait(t)
            self.order.append(t)
    def begin(self, t):
        with self.c: self.wait(t); self.order.append(t)
    def start(self):
        with self.c: self.handover(0)

class Fine(Sched):
    """hand over behind the k-th execution of a line by a thread, for chosen (thread, line, k)"""
    def __init__(self, n, first, points):
        Sched.__init__(self, n)
        self.first, self.points, self.count, self.switched = first, {tuple(p[:4]): p[4] for p in points or []}, {}, 0
        self.near = None if points is None else {(LIB + p[1], p[2]) for p in points}      # lines to look at; None: all
    def handover(self, t):
        L = self.live()
        if L: self.give(L[0])
        else: self.moves += 1
    def start(self):
        with self.c: self.give(self.first)
    def begin(self, t):
        with self.c: self.wait(t); self.order.append(t)
    def gate(self, what):
        t = self.me()
        if t is None: return
        if what == "g":         # lookups are not recorded: how many there are is nobody's business
            with self.c: self.order.append(t)
    def hit(self, file, line):
        """a statement of the library is going to be executed"""
        if self.near is not None and (file, line) not in self.near: return
        t = self.me()
        if t is None: return
        key = (t, file[len(LIB):], line)
        k = self.count[key] = self.count.get(key, 0) + 1
        to = self.points.get(key + (k,))
        if to is not None and to not in self.done and to != t:
            with self.c:
                if self.free or self.cur == t:
                    self.switched += 1
                    self.give(to); self.wait(t)

S = None            # scheduler of the current run
def G():
    if S is not None: S.gate("g")
    return ""
def boom(x): raise Boom("boom")
PROBE = types.ModuleType("vp_conc"); PROBE.G, PROBE.boom = G, boom
sys.modules["vp_conc"] = PROBE

class Loader(HyLoader):
    def load(self, path, referrer, runtime):
        if S is not None:
            if path in ("builtins", "hypertag.builtins"): S.gate("b")
            elif path.startswith("zq_"):
                k = (S.me(), id(referrer), path)        # the first lookup of a script by another one
                if k not in S.looked: S.looked[k] = referrer; S.gate("l")
        return HyLoader.load(self, path, referrer, runtime)

# ---------------------------------------------------------------- scripts
def expr(e): return "'%s'" % e[1] if e[0] == "c" else e[1] if e[0] == "v" else "%s + %s" % (expr(e[1]), expr(e[2]))
def source(lines, ind="", top=True):
    out = ["from vp_conc import $G, $boom"] if top else []
    I = ind + "    "
    for l in lines:
        k = l["k"]
        if k == "ctx": out.insert(0, "context $cx")
        elif k == "imp": out.append("%sfrom %s import %s" % (ind, l["m"], ", ".join(a + b for a, b in l["items"])))
        elif k == "set": out.append("%s$%s = G() + %s" % (ind, l["n"], expr(l["e"])))
        elif k == "out": out.append("%s| {G()}{%s}" % (ind, expr(l["e"])))
        elif k == "mk": out.append("%sp %s" % (ind, " ".join("%s=(G() + %s)" % (n, expr(e)) for n, e in l["at"])))
        elif k == "boom": out.append("%s$zq_b = boom(G())" % ind)
        elif k == "body": out.append("%s@ body" % ind)
        elif k == "def": out += ["%s%%%s @body %s" % (ind, l["n"], " ".join(l["ps"]))] + source(l["b"], I, False)
        elif k == "tag": out += ["%s%s %s" % (ind, l["n"], " ".join("%s(%s%s)" % (l["kw"][i] + "=" if l.get("kw") else "", "G() + " if i == 0 else "", expr(a)) for i, a in enumerate(l["a"])))] + source(l["b"], I, False)
        elif k == "for": out += ["%sfor %s in [%s]" % (ind, l["n"], ", ".join("'%s'" % x for x in l["q"]))] + source(l["b"], I, False)
        else: raise ValueError(k)
    return out

DIRS = {}
def folder(w, W):
    """the scripts of a world, on disk"""
    if w not in DIRS:
        d = tempfile.mkdtemp(prefix="vpc"); atexit.register(shutil.rmtree, d, True)
        src = {}
        for n, lines in W["scripts"].items():
            src[n] = "\n".join(source(lines)) + "\n"
            with open(os.path.join(d, n + ".hy"), "w") as f: f.write(src[n])
        DIRS[w] = (d, src)
    return DIRS[w]
def norm(t, d=None):
    if d: t = t.replace(d + os.sep, "").replace(".hy", "")
    return [x.strip() for x in t.split("\n") if x.strip()]
def outcome(f):
    try: return {"raw": f(), "er": []}
    except (Exception, Kbd) as ex: return {"raw": "", "er": exc_classes(ex) + [type(ex).__name__], "msg": "%s: %s" % (type(ex).__name__, str(ex)[:300])}

def run(sched, jobs, tracing=False):
    """jobs: functions; returns their outcomes"""
    global S
    S = sched
    HIT[0] = sched.hit if tracing else None
    res = [None] * len(jobs)
    up = threading.Barrier(len(jobs) + 1)
    def body(i):
        t = i + 1
        sched.ids[threading.get_ident()] = t
        up.wait()
        sched.begin(t)
        try: res[i] = outcome(jobs[i])
        except BaseException as ex: res[i] = {"raw": "", "er": [type(ex).__name__], "msg": repr(ex)}
        finally:
            sched.finish(t)
    T = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    threading.stack_size(0)
    for t in T: t.start()
    up.wait()
    sched.start()
    for t in T:
        t.join(30)
        if t.is_alive(): res[T.index(t)] = {"raw": "", "er": ["Hang"], "msg": "no result in 30 s"}
    S = HIT[0] = None
    return res

def setup(case):
    W = case["world"]
    d, src = folder(case["w"], W)
    rt = HyperHTML([Loader(), PyLoader()])
    if W["warm"]: rt.render("p")
    def args(t): return dict({"cx": "c%d" % t} if any(l["k"] == "ctx" for l in W["scripts"][W["threads"][t - 1]]) else {}, __file__=os.path.join(d, "main%d.hy" % t))
    return W, src, rt, lambda t: rt.render(src[W["threads"][t - 1]], **args(t)), args

ALONE = {}
def alone(case):
    """outcome of each thread's script in a fresh runtime, without threads"""
    k = (case["w"],)
    if k not in ALONE: ALONE[k] = [outcome(lambda: setup(case)[3](t)) for t in range(1, len(case["world"]["threads"]) + 1)]
    return ALONE[k]

ALIAS = {"Import": ["ImportError", "ModuleNotFoundError"]}
def judge(case, res, W, what=""):
    why, al, d = [], alone(case), folder(case["w"], W)[0]
    for i, (e, o) in enumerate(zip(case["res"], res)):
        t = "%sthread %d: " % (what, i + 1)
        if e["er"] and not o["er"]: why.append(t + e["er"] + " expected, none raised")
        elif e["er"] and not set(ALIAS.get(e["er"], [e["er"]])) & set(o["er"]): why.append(t + "%s expected, got %s" % (e["er"], o["msg"]))
        elif not e["er"] and o["er"]: why.append(t + "fails with " + o["msg"])
        elif not e["er"] and norm(o["raw"], d) != e["out"]: why.append(t + "the text differs: %r expected, got %r" % (e["out"], norm(o["raw"], d)))
        elif not e["er"] and o["raw"] != al[0 if case.get("dom") else i]["raw"]: why.append(t + "the text isn't the one rendered without threads: %r" % o["raw"])
    return why

def check(case):
    if case["mode"] == "profile": return profile(case)
    W, src, rt, go, args = setup(case)
    thr = W["threads"]
    jobs = [lambda t=t: go(t) for t in range(1, len(thr) + 1)]
    extra = {}
    if case["mode"] == "sched":
        sched = Coarse(len(thr), case["sch"])
        res = run(sched, jobs)
        extra = {"followed": sched.order == case["sch"]}
    else:
        n = len(thr)
        sched = Fine(n, case["first"], case["points"])
        if case.get("dom"):
            # all threads render one document
            out = outcome(lambda: rt.translate(src[thr[0]], **args(1)))
            if out["er"]: return {"n": case["n"], "ok": True, "skip": True}
            jobs = [out["raw"].dom.render for _ in thr]
            case = dict(case, res=[case["res"][0]] * n); W = dict(W, threads=[thr[0]] * n)
        res = run(sched, jobs, True)
        extra = {"switched": sched.switched, "order": sched.order, "points": case["points"]}
    why = judge(case, res, W)
    # the runtime is as good as new
    if not why and case["n"] % 4 == 0: why = judge(case, [outcome(j) for j in jobs], W, "afterwards, ")
    obs = [{"out": norm(o["raw"], folder(case["w"], W)[0]), "er": o["er"], "msg": o.get("msg", "")} for o in res]
    if not why: return dict(extra, n=case["n"], ok=True, obs=obs, free=sched.free)
    text = "\n".join("=== %s\n%s" % x for x in sorted(src.items())) + "\n=== threads: %s; %s" % (thr, {k: v for k, v in extra.items() if k != "order"})
    return dict(extra, n=case["n"], ok=False, why=why, src=text, obs=obs)

def profile(case):
    """library lines executed by each script of the world: [file, line, times]"""
    out = {}
    for t in set(case["world"]["threads"]):
        one = dict(case, world=dict(case["world"], threads=[t]))
        W, src, rt, go, args = setup(one)
        job = lambda: go(1)
        if case.get("dom"):
            r = outcome(lambda: rt.translate(src[t], **args(1)))
            if r["er"]: out[t] = []; continue
            job = r["raw"].dom.render
        f = Fine(1, 1, None)
        run(f, [job], True)
        out[t] = sorted([key[1], key[2], c] for key, c in f.count.items())
    return {"n": case["n"], "ok": True, "prof": out}
