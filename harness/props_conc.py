"""Checks of threads sharing a runtime (specification HConc)."""
import json, random
from engine import Pool, tlc, cfg, MachineryError

def E(x): return x if isinstance(x, list) else ["v", x[1:]] if x[:1] == "$" else ["c", x]
def cat(a, *b):
    e = E(a)
    for x in b: e = ["cat", e, E(x)]
    return e
def imp(m, *q): return {"k": "imp", "m": m, "items": [[s[0], s[1:]] for s in q]}
def set_(n, e): return {"k": "set", "n": n, "e": E(e)}
def out(e): return {"k": "out", "e": E(e)}
def tag(n, *a, b=(), kw=""): return {"k": "tag", "n": n, "a": [E(x) for x in a], "b": list(b), "kw": kw.split()}
def mk(**at): return {"k": "mk", "at": [[n, E(e)] for n, e in at.items()]}
def def_(n, ps, *b): return {"k": "def", "n": n, "ps": ps.split(), "b": list(b)}
def for_(n, q, *b): return {"k": "for", "n": n, "q": q.split(), "b": list(b)}
BODY, BOOM, CTX, FILE = {"k": "body"}, {"k": "boom"}, {"k": "ctx"}, {"k": "out", "e": ["v", "__file__"]}
def world(threads, warm=False, **scripts): return {"scripts": scripts, "threads": threads, "warm": warm}

def worlds():
    W = []
    # tags of one module, expanded by both
    lib = [set_("a", "A"), def_("t", "p", out(cat("t", "$p", "$a")), BODY, out(cat("end", "$p"))), set_("b", cat("$a", "b"))]
    T = lambda s: [imp("zq_m", "%t", "$b"), tag("t", s, b=[out(cat(s, "$b"))]), out("$b")]
    W.append(world(["T1", "T2"], zq_m=lib, T1=T("x"), T2=T("y")))
    W.append(world(["T1", "T2"], True, zq_m=lib, T1=T("x") + [tag("t", "z")], T2=[imp("zq_m", "%t"), for_("i", "1 2", tag("t", "$i"))]))
    # local variables and loops in tags, tags using tags
    lib = [set_("a", "A"), def_("u", "q", set_("l", cat("$q", "$a")), out("$l"), BODY), def_("t", "p", set_("l", cat("$p", "!")), for_("j", "1 2", tag("u", cat("$l", "$j"), b=[out("$p")])), BODY, out("$l"))]
    W.append(world(["T1", "T2"], True, zq_m=lib, T1=[imp("zq_m", "%t"), tag("t", "x")], T2=[imp("zq_m", "%t", "%u"), tag("u", "y", b=[tag("t", "z")])]))
    # body inside body, of one tag
    lib = [def_("w", "p", out(cat("<", "$p")), BODY, out(cat("$p", ">")))]
    W.append(world(["T1", "T2"], True, zq_m=[def_("w", "p", out(cat("(", "$p")), BODY, out(cat("$p", ")")))], T1=[imp("zq_m", "%w"), tag("w", "1", b=[tag("w", "2", b=[out("x")])])], T2=[imp("zq_m", "%w"), tag("w", "3", b=[out("y"), tag("w", "4")])]))
    # modules importing modules, in different orders
    A, B = [imp("zq_k", "$k", "%t"), set_("x", cat("a", "$k")), def_("ta", "p", tag("t", cat("$p", "$x")))], [imp("zq_k", "$k", "%t"), set_("x", cat("b", "$k")), def_("tb", "p", tag("t", cat("$p", "$x")))]
    K = [set_("k", "k"), def_("t", "p", out(cat("t", "$p", "$k")))]
    W.append(world(["T1", "T2"], zq_a=A, zq_b=B, zq_k=K, T1=[imp("zq_a", "%ta", "$x"), imp("zq_b", "%tb"), tag("ta", "1"), tag("tb", "2"), out("$x")], T2=[imp("zq_b", "%tb", "$x"), imp("zq_a", "%ta"), tag("tb", "3"), tag("ta", "4"), out("$x")]))
    # failing modules, circular imports, a script that fails
    W.append(world(["T1", "T2"], zq_a=[imp("zq_b", "$x"), set_("x", "a")], zq_b=[imp("zq_a", "$x"), set_("x", "b")], zq_c=[set_("x", "c")], T1=[imp("zq_c", "$x"), imp("zq_a", "$x"), out("$x")], T2=[imp("zq_c", "$x"), out("$x"), imp("zq_b", "$x")]))
    W.append(world(["T1", "T2"], zq_a=[set_("x", "a"), BOOM], zq_c=[set_("x", "c"), def_("t", "p", out("$p"), BOOM)], T1=[imp("zq_c", "$x", "%t"), out("$x"), tag("t", "1")], T2=[imp("zq_c", "$x"), imp("zq_a", "$x"), out("$x")]))
    W.append(world(["T1", "T2"], True, zq_c=[set_("x", "c"), def_("t", "p", out("$p"), BOOM), def_("u", "p", out(cat("$p", "$x")), BODY)], T1=[imp("zq_c", "%u", "%t"), tag("u", "1", b=[tag("t", "2")])], T2=[imp("zq_c", "%u"), tag("u", "3", b=[out("4")]), tag("u", "5")]))
    # the same script, names reused
    S = [imp("zq_m", "%t", "$a"), set_("x", cat("$a", "1")), def_("l", "p", out(cat("$p", "$x")), BODY), tag("l", "2", b=[tag("t", "$x")])]
    W.append(world(["T1", "T1"], zq_m=[set_("a", "A"), set_("x", "mx"), def_("t", "p", out(cat("$p", "$x", "$a")))], T1=S))
    W.append(world(["T1", "T2", "T1"], zq_m=[set_("a", "A"), def_("t", "p", out(cat("$p", "$a")))], T1=[imp("zq_m", "%t"), tag("t", "1")], T2=[imp("zq_m", "$a"), out("$a")]))
    # attributes
    lib = [set_("a", "A"), def_("t", "p q", mk(x="$p", y="$a"), out("$q"), BODY)]
    W.append(world(["T1", "T2"], True, zq_m=lib, T1=[imp("zq_m", "%t"), mk(x="1", y="2"), tag("t", "3", "4", kw="p q")], T2=[imp("zq_m", "%t", "$a"), mk(z="5", x="$a"), tag("t", "6", "7", kw="p q", b=[mk(y="8")])]))
    # what the caller passes: variables and the name of the file
    lib = [set_("a", cat("A", "$__file__")), def_("t", "p", out(cat("$p", "$__file__")), BODY, out("$a"))]
    T = lambda s: [CTX, imp("zq_m", "%t", "$a"), set_("l", cat("$cx", s)), out(cat("$__file__", "$l")), tag("t", "$cx", b=[out("$cx"), FILE]), out(cat("$cx", "$__file__"))]
    for warm in (True, False): W.append(world(["T1", "T2"], warm, zq_m=lib, T1=T("x"), T2=T("y")))
    W.append(world(["T1", "T1"], True, T1=[CTX, out("$cx"), def_("l", "p", out(cat("$p", "$cx")), FILE), tag("l", "$cx"), FILE, out("$cx")]))
    return W

def rand_world(rng):
    """random scripts over up to three modules"""
    cnt = [0]
    def fresh(p): cnt[0] += 1; return "%s%d" % (p, cnt[0])
    def block(vs, tags, body, depth, n):
        q = []
        vs = list(vs)
        for _ in range(n):
            x = rng.random()
            e = lambda: cat(rng.choice("pqr"), *["$" + rng.choice(vs) for _ in range(rng.choice([0, 1, 2])) if vs])
            if x < .25 and depth == 0: v = fresh("v"); q.append(set_(v, e())); vs.append(v)
            elif x < .4 or not tags: q.append(out(e()))
            elif x < .5: q.append(mk(**{n: e() for n in rng.sample("xyz", rng.choice([1, 2, 2]))}))
            elif x < .85: q.append(tag(rng.choice(tags), e(), b=block(vs, tags, False, depth + 1, rng.choice([0, 0, 1])) if depth < 2 else ()))
            elif x < .93 and depth < 2: v = fresh("i"); q.append(for_(v, rng.choice(["1", "1 2"]), *block(vs + [v], tags, False, depth + 1, 1)))
            elif x < .96 and rng.random() < .4: q.append(BOOM)
            else: q.append(out(e()))
        if body: q.insert(rng.randrange(len(q) + 1), BODY)
        return q
    mods, exports, S = ["zq_%s" % c for c in "abc"[:rng.choice([1, 2, 2, 3])]], {}, {}
    def script(avail, defs, n):
        q, vs, tags = [], ["__file__"] if rng.random() < .3 else [], []
        if not defs and rng.random() < .4: q.append(CTX); vs.append("cx")
        for m in avail:
            if rng.random() < .75:
                V = [v for v in exports[m][0] if rng.random() < .6 and v not in vs]; T = [t for t in exports[m][1] if rng.random() < .8 and t not in tags]
                if V or T: q.append(imp(m, *["$" + v for v in V], *["%" + t for t in T])); vs += V; tags += T
        ov, ot = [], []
        for _ in range(rng.choice([1, 2]) if defs else 0):
            v = fresh("m"); q.append(set_(v, cat(v, *["$" + x for x in vs[:1]]))); vs.append(v); ov.append(v)
            t, p = fresh("t"), fresh("p")
            q.append(def_(t, p, *block(vs + [p], list(tags), rng.random() < .6, 1, rng.choice([1, 2])))); tags.append(t); ot.append(t)
        q += [x for x in block(vs, tags, False, 0, n)]
        return q, (ov, ot)
    for i, m in enumerate(mods): S[m], exports[m] = script(mods[:i], True, rng.choice([0, 0, 1]))
    for i in range(2): S["T%d" % (i + 1)] = script(rng.sample(mods, len(mods)), rng.random() < .3, rng.choice([1, 2, 3]))[0]
    return world(["T1", "T2"], rng.random() < .5, **S)

INVS = ["Emit", "Same", "Whole", "Once", "Live"]
PROPS = ["Frozen", "BuiltinsStay"]

def sched(c, part, W, sw, every=1, pool=7):
    """all schedules with few preemptions, replayed gate by gate"""
    if c.enough(): return
    seen, stat = {}, {"n": 0, "sent": 0, "followed": 0, "free": 0}
    def sink(r):
        if "crash" in r: p.errors.append(r["crash"]); return
        x = seen.pop(r["n"])
        if "died" in r: c.fail(part, [r["died"]], {"src": "", "case": x}); return
        stat["followed"] += bool(r.get("followed")); stat["free"] += bool(r.get("free"))
        if not r["ok"]: c.fail(part, r["why"], {"src": r["src"], "observed": r["obs"], "case": x})
    p = Pool("conc", sink, pool)
    def on_line(r):
        stat["n"] += 1
        if every > 1 and (stat["n"] * 7919 + c.seed) % every: return
        stat["sent"] += 1
        x = {"n": stat["sent"], "mode": "sched", "w": r["w"], "world": W[r["w"] - 1], "sch": r["sch"], "res": r["res"]}
        if stat["sent"] in (30, 900): c.sample({"part": part, "schedule": r["sch"], "expected": r["res"]})
        seen[x["n"]] = x
        p.put(x)
    st = tlc("HConc", cfg("Spec", dict(WorldFile="worlds.ndjson", TraceFile="", Mode="sched", MaxSwitch=sw), INVS, PROPS), on_line, workers=4, timeout=600, stop=lambda: c.enough(), files={"worlds.ndjson": "\n".join(map(json.dumps, W)) + "\n"})
    p.close()
    if p.errors and not c.fails: raise MachineryError("\n".join(p.errors[:3]))
    c.add(part, st, p.done, schedules=stat["n"], followed_exactly=stat["followed"], released=stat["free"])

def free(c, part, W):
    """all interleavings of all steps, in the specification"""
    if c.enough(): return
    st = tlc("HConc", cfg("Spec", dict(WorldFile="worlds.ndjson", TraceFile="", Mode="free", MaxSwitch=0), INVS, PROPS + ["Finishes"]), lambda r: None, workers=8, timeout=800, files={"worlds.ndjson": "\n".join(map(json.dumps, W)) + "\n"})
    c.add(part, st, 0)

def fine(c, part, W, runs, points, dom=False, pool=8):
    """preemption at lines of the library; what was recorded is validated by the specification"""
    if c.enough(): return
    exp = {}
    tlc("HConc", cfg("Spec", dict(WorldFile="worlds.ndjson", TraceFile="", Mode="sched", MaxSwitch=0), ["Emit", "Same"]), lambda r: exp.setdefault(r["w"], r["res"]), workers=2, files={"worlds.ndjson": "\n".join(map(json.dumps, W)) + "\n"})
    seen, recs, stat = {}, [], {"switched": 0, "free": 0}
    def sink(r):
        if "crash" in r: p.errors.append(r["crash"]); return
        x = seen.pop(r["n"])
        if "died" in r: c.fail(part, [r["died"]], {"src": "", "case": x}); return
        stat["switched"] += r.get("switched", 0); stat["free"] += bool(r.get("free"))
        if not r["ok"]: c.fail(part, r["why"], {"src": r["src"], "observed": r["obs"], "case": x, "id": [x["w"], r["why"][0][:40]]})
        elif not dom and not r.get("skip"): recs.append((x, r))
    prof = {}
    q = Pool("conc", lambda r: prof.__setitem__(r["n"], r.get("prof")), pool)
    for w in range(1, len(W) + 1): q.put({"n": w, "mode": "profile", "w": w, "world": W[w - 1], "res": exp[w], "dom": dom})
    q.close()
    if q.errors or None in prof.values(): raise MachineryError("\n".join(q.errors[:3]) or "no profile")
    p = Pool("conc", sink, pool)
    n = 0
    rng = random.Random(c.seed)
    for k in range(runs):
        for w in range(1, len(W) + 1):
            thr = W[w - 1]["threads"][:1] * len(W[w - 1]["threads"]) if dom else W[w - 1]["threads"]
            if c.enough(): break
            pts = []
            for _ in range(points[k % len(points)]):
                t = rng.randrange(len(thr)) + 1
                if not prof[w][thr[t - 1]]: continue
                f, l, m = rng.choice(prof[w][thr[t - 1]])
                pts.append([t, f, l, rng.choice([1, m, rng.randrange(m) + 1]), rng.choice([u for u in range(1, len(thr) + 1) if u != t])])
            if not pts: continue
            n += 1
            # the thread of the first handover goes first
            x = {"n": n, "mode": "fine", "w": w, "world": W[w - 1], "res": exp[w], "first": pts[0][0] if rng.random() < .8 else rng.randrange(len(thr)) + 1, "points": pts, "dom": dom}
            seen[n] = x; p.put(x)
    p.close()
    if p.errors and not c.fails: raise MachineryError("\n".join(p.errors[:3]))
    st = None
    if recs and not c.enough():
        ok = set()
        tr = [{"n": r["n"], "w": x["w"], "order": r["order"], "out": [o["out"] for o in r["obs"]], "er": [e["er"] for e in x["res"]]} for x, r in recs]
        st = tlc("HConc", cfg("Spec", dict(WorldFile="worlds.ndjson", TraceFile="trace.ndjson", Mode="trace", MaxSwitch=0), ["Emit", "Once"]), lambda r: ok.add(r["n"]), workers=8, timeout=600,
                 files={"worlds.ndjson": "\n".join(map(json.dumps, W)) + "\n", "trace.ndjson": "\n".join(map(json.dumps, tr)) + "\n"})
        for x, r in recs:
            if r["n"] not in ok: c.fail(part, ["the recorded order of calls isn't one of the specification"], {"src": json.dumps(x["world"]), "observed": r, "case": x})
    c.add(part, st, n, handovers=stat["switched"], traces=len(recs), released=stat["free"])

def C21(c):
    rng = random.Random(c.seed)
    W = worlds()
    R = [rand_world(rng) for _ in range(c.pick(12, 60))]
    sched(c, "schedules", W, c.pick(2, 3), every=c.pick(4, 4))
    sched(c, "schedules of random scripts", R, c.pick(1, 2), every=c.pick(2, 6))
    fine(c, "lines", W + R[:4], c.pick(30, 1500), [1, 2, 4])
    fine(c, "one document", W[:4] + R[:4], c.pick(10, 200), [1, 3], dom=True)
    free(c, "all interleavings", (W[:1] + W[3:6] + W[8:9] if not c.thorough else W))
