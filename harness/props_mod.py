"""Checks of modules, contexts, histories and the Django backend (specification HModules)."""
import random, itertools, json
import gen, lang, props_lib

# ---------------------------------------------------------------- worlds
def P(s):
    up = len(s) - len(s.lstrip("."))
    return {"up": up, "ps": s[up:].split(".")}
def its(*q):
    out = []
    for s in q:
        if s == "*": out.append(["*"]); continue
        a, _, b = s.partition(" as ")
        out.append([a, a[0] + b if b else a])
    return out
def imp(p, *q): return {"k": "import", "path": P(p), "items": its(*q)}
def ctlimp(p, *q): return {"k": "ctlimport", "path": P(p), "items": its(*q)}
def cx(*q): return {"k": "context", "items": its(*q)}
def E(x):
    if isinstance(x, list): return x
    if x == "len()": return ["len"]
    if x[:1] == "$": return ["v", x[1:]]
    return ["c", x]
def cat(a, *b):
    e = E(a)
    for x in b: e = ["cat", e, E(x)]
    return e
def set_(n, e): return {"k": "set", "n": n, "e": E(e)}
def out(e): return {"k": "out", "e": E(e)}
def use(n): return {"k": "tag", "n": n}
def def_(n, *b): return {"k": "def", "n": n, "b": [["tag", x[1:]] if isinstance(x, str) and x[:1] == "%" else ["out", E(x)] for x in b]}
def log(n): return {"k": "log", "n": n}
CMT, BLANK, OPEN, CLOSE, BOOM = {"k": "cmt"}, {"k": "cmt", "blank": True}, {"k": "open"}, {"k": "close"}, {"k": "boom"}
NO = {"absent": True, "lines": [], "ran": "", "symbols": []}
def hy(p, *alts):
    q = p.split("/")
    return {"d": q[:-1], "n": q[-1], "k": "hy", "alts": [a if a is NO else {"absent": False, "lines": a} for a in alts]}
def py(p, *alts):
    q = p.split("/")
    return {"d": q[:-1], "n": q[-1], "k": "py", "alts": [a if a is NO else {"absent": False, "ran": a[0], "symbols": [[k, list(v)] for k, v in a[1]]} for a in alts]}
def op(lines, rt=1, dir=None, pkg=None, ctx=(), how="render", path="", name="", req=0):
    return {"rt": rt, "how": how, "lines": lines, "dir": [dir.split("/")] if dir else [], "pkg": [pkg.split(".")] if pkg else [], "ctx": [[k, list(v)] for k, v in ctx],
            "path": path.split("/") if path else [], "name": name, "req": req, "alt": 1}
def write(p, alt):
    """a file changes between two renderings: the number of the alternative, or of the lines"""
    q = p.split("/")
    return dict(op([], how="write"), path=q[:-1], name=q[-1], alt=alt)
def world(files, *ops, resolve=(), dirs=()):
    return {"files": files, "ops": [list(o) if isinstance(o, (list, tuple)) else [o] for o in ops], "resolve": [list(r) for r in resolve], "dirs": [d.split("/") for d in dirs],
            "maxf": max([len(f["alts"]) for f in files] + [1]), "maxo": max([len(o) if isinstance(o, (list, tuple)) else 1 for o in ops] + [1])}
def S(x): return ("s", x)
def mod(i): return [log(i), set_("x", i)]            # a module telling which one it is
def pymod(i): return (i, [("$x", S(i))])
MARK = ("", [])

def resolution(rest=True):
    """which module a path leads to: every subset of the candidate files"""
    W = []
    main = lambda p: [imp(p, "$x"), out("$x")]
    # p.m: resolver, package, working folder, folder of the script, Python module
    for rs in ((), [(["zq_p", "m"], ["res", "k"], "other")]):
        for init in (NO, MARK):
            W.append(world([py("site/zq_p/__init__", init), hy("site/zq_p/m", NO, mod("site")), hy("cwd/zq_p/m", NO, mod("cwd")), hy("ref/zq_p/m", NO, mod("ref")), py("site/zq_p/m", NO, pymod("py"))]
                           + ([hy("res/k/other", NO, mod("resolved"))] if rs else []),
                           [op(main("zq_p.m")), op(main("zq_p.m"), dir="ref"), op(main("zq_p.m"), dir="ref", pkg="zq_z")], [op(main("zq_p.m"), dir="ref"), op(main("zq_p.m"), dir="cwd", rt=2)], resolve=rs))
    # a single name
    for rs in ((), [(["zq_m"], ["res"], "other")]):
        W.append(world([hy("site/zq_m", NO, mod("never")), hy("cwd/zq_m", NO, mod("cwd")), hy("ref/a/zq_m", NO, mod("ref")), hy("ref/zq_m", NO, mod("up")), py("site/zq_m", NO, pymod("py")), py("site/zq_m/__init__", NO, ("pkg", [("$x", S("pkg"))]))]
                       + ([hy("res/other", mod("resolved"), NO)] if rs else []),
                       [op(main("zq_m")), op(main("zq_m"), dir="ref/a"), op(main("zq_m"), dir="ref/a", pkg="zq_p.a")], resolve=rs))
    # packages in packages, and a package that runs
    W.append(world([py("site/zq_p/__init__", ("init-p", [])), py("site/zq_p/s/__init__", NO, ("init-s", [])), hy("site/zq_p/s/m", NO, mod("site")), hy("cwd/zq_p/s/m", NO, mod("cwd")), py("site/zq_p/s/m", NO, pymod("py")), hy("ref/zq_p/s/m", NO, mod("ref"))],
                   [op(main("zq_p.s.m")), op(main("zq_p.s.m"), dir="ref")], [op([imp("zq_p.m", "$x")]), op(main("zq_p.s.m"), dir="ref"), op(main("zq_p.s.m"), rt=2)]))
    # relative paths
    for pk in (None, "zq_p.q"):
        for p in (".m", "..m", ".s.m", "..s.m", "..q.m"):
            up = len(p) - len(p.lstrip("."))
            W.append(world([py("site/zq_p/__init__", MARK), py("site/zq_p/q/__init__", MARK), py("site/zq_p/q/s/__init__", NO, MARK), py("site/zq_p/s/__init__", NO, MARK), hy("cwd/m", mod("never")), hy("cwd/s/m", mod("never")),
                            hy("site/zq_p/q/m", NO, mod("q")), hy("site/zq_p/m", NO, mod("p")), hy("site/zq_p/q/s/m", NO, mod("q.s")), hy("site/zq_p/s/m", NO, mod("p.s"))]
                           + [py(x, NO, pymod(x)) for x in ({".m": ["site/zq_p/q/m"], "..m": ["site/zq_p/m"], ".s.m": ["site/zq_p/q/s/m"], "..s.m": ["site/zq_p/s/m"], "..q.m": []}[p])],
                           [op(main(p), dir="site/zq_p/q", pkg=pk), op(main(p), pkg=pk)]))
    # file names need not be identifiers
    for q in ("zq-m", "zq+1", "zq#m", "zq$m", "1zq", "from", "import", "zq-d.m-1"):
        f = q.replace(".", "/")
        W.append(world([hy("cwd/" + f, NO, mod("cwd")), hy("ref/" + f, NO, mod("ref"))], [op(main(q)), op(main(q), dir="ref"), op(main("." + q), dir="ref")]))
    W.append(world([hy("a/b/c/m", NO, mod("c")), hy("a/b/m", NO, mod("b")), hy("a/m", NO, mod("a")), hy("m", NO) if 0 else hy("cwd/m", mod("never"))], [op(main(p), dir="a/b/c") for p in (".m", "..m", "...m", "..c.m", "...b.m", "...b.c.m")], [op(main("m"), dir="a/b")]))
    # scripts imported by scripts: each has its own folder and package
    for a in (".m", "m", "..m", "zq_p.q.m", ".s.m"):
        b = [log("a"), imp(a, "$x as y"), set_("x", cat("a-", "$y"))]
        W.append(world([py("site/zq_p/__init__", MARK), py("site/zq_p/q/__init__", NO, MARK), hy("site/zq_p/q/a", b), hy("site/zq_p/q/m", NO, mod("q")), hy("site/zq_p/m", NO, mod("p")), hy("site/zq_p/q/s/m", NO, mod("s")), hy("ref/m", NO, mod("ref")), hy("cwd/m", NO, mod("cwd"))],
                       [op(main("zq_p.q.a"), dir="ref"), op([imp("zq_p.q.a", "$x"), imp("m", "$x as z"), out(cat("$x", "$z"))], dir="ref"), op(main(".q.a"), dir="site/zq_p", pkg="zq_p"), op(main(".q.a"), dir="site/zq_p")]))
    return W

def bindings():
    W = []
    m = [set_("a", "1"), set_("_p", "2"), set_("a", cat("$a", "b")), set_("b", "early"), def_("t", cat("T", "$a")), def_("t", "new", "$b"), def_("_h", "H"), def_("g", "%t", "%_h", "$_p"), set_("b", "$a"), set_("c", "3"), set_("id", "I")]
    p = ("ran", [("$a", S("pa")), ("$_p", S("pp")), ("%t", ("ext", "pt")), ("%_h", ("ext", "ph")), ("$b", S("pb")), ("%g", ("ext", "pg"))])
    items = ["$a", "$a as q", "$_p", "$_p as b", "%t", "%t as a", "%_h", "%_h as g", "%g", "$b", "$c", "$missing", "%missing", "$t", "%a", "*", "%b", "$len", "$id"]
    def uses(q):
        r = []
        for s in q:
            if s == "*": r += [out("$a"), out("$b"), use("t"), use("g")]; continue
            a, _, n = s.partition(" as ")
            n = n or a[1:]
            r.append(out("$" + n) if a[0] == "$" and n != "len" else out("len()") if a[0] == "$" else use(n))
        return r
    combos = [(a,) for a in items] + list(itertools.permutations(items[:10] + ["*", "$missing"], 2))
    ops = [op([imp("zq_m", *q)] + uses(q)) for q in combos]
    for i in range(0, len(ops), 12): W.append(world([hy("cwd/zq_m", m, NO), py("site/zq_m", NO, p)], ops[i:i + 12]))
    # what a wildcard leaves out, names that were not imported, order of imports and assignments
    more = [op([imp("zq_m", "*"), out("$_p")]), op([imp("zq_m", "*"), use("_h")]), op([imp("zq_m", "$a"), out("$b")]), op([imp("zq_m", "$a as q"), out("$a")]), op([imp("zq_m", "$a"), use("t")]), op([out("$a"), imp("zq_m", "$a")]),
            op([set_("a", "0"), imp("zq_m", "$a"), out("$a")]), op([imp("zq_m", "$a"), set_("a", "0"), out("$a"), use("div")]), op([imp("zq_m", "$a", "%g"), set_("a", "0"), set_("_p", "0"), use("g"), out("$a")]), op([OPEN, imp("zq_m", "$a"), out("$a"), CLOSE]),
            op([OPEN, imp("zq_m", "$a", "%t"), out("$a"), use("t"), CLOSE, out("$a")]), op([OPEN, imp("zq_m", "%t"), CLOSE, use("t")]), op([set_("a", "0"), OPEN, imp("zq_m", "$a"), out("$a"), CLOSE, out("$a")]), op([ctlimp("zq_m", "$a"), out("k")]),
            op([def_("t", "mine"), imp("zq_m", "%g"), use("g"), use("t")]), op([imp("zq_m", "%g"), def_("t", "mine"), use("g"), use("t")]), op([imp("zq_m", "%t", "%t as t2", "$a as a2"), use("t"), use("t2"), out("$a2")]), op([imp("zq_m", "*"), imp("zq_n", "*"), out("$a"), use("t"), use("g")]),
            op([imp("zq_n", "*"), imp("zq_m", "*"), out("$a"), use("t"), use("g"), out("$only")]), op([imp("zq_m", "$a as len"), out("len()")]), op([imp("zq_n", "%p"), use("p")]), op([imp("zq_n", "*"), use("p"), use("b")])]
    n = [imp("zq_m", "%g", "$a as ma"), set_("a", "n"), def_("t", "nt", "$a", "$ma", "%g"), set_("only", "o"), def_("p", "own p", "%b")]
    for i in range(0, len(more), 8): W.append(world([hy("cwd/zq_m", m), hy("cwd/zq_n", n)], more[i:i + 8], more[-3:]))
    # values are those at the end of the module, however early its tags were defined
    W.append(world([hy("cwd/zq_m", [def_("e", "%b")] + m, [imp("zq_k", "$x as a"), def_("t", "$a"), def_("g", "%t"), set_("b", "kb")], [OPEN, set_("a", "inner"), CLOSE, set_("b", "1"), def_("t", "$b"), def_("g", "%t")], [set_("b", "1"), OPEN, set_("b", "2"), CLOSE, def_("g", "$b"), def_("t", "")], [BOOM], [out("$nowhere")], [imp("zq_k", "$nothing")], [cx("$a")]),
                    hy("cwd/zq_k", mod("k"))], ops[:1] + ops[4:5] + ops[8:10], ops[:1] + ops[9:10] + [op([out("fine")])]))
    return W

def loading():
    """each script is executed once per runtime, whatever leads to it"""
    W = []
    m = lambda i, *more: [log(i)] + list(more) + [set_("x", i), def_("t", cat("t-", "$x"))]
    ways = ["zq_p.q.m", ".q.m", "zq_p.q.m"]
    site = [py("site/zq_p/__init__", MARK), py("site/zq_p/q/__init__", MARK)]
    ops = [op([imp(p, "$x", "%t"), out("$x"), use("t")], dir=d, pkg=k) for p, d, k in [("zq_p.q.m", None, None), (".q.m", "site/zq_p", None), (".q.m", "site/zq_p", "zq_p"), (".m", "site/zq_p/q", None), ("m", "site/zq_p/q", None), ("q.m", "site/zq_p", None), ("..q.m", "site/zq_p/q", None), ("..q.m", "site/zq_p/q", "zq_p.q")]]
    r2 = [dict(o, rt=2) for o in ops[:2]]
    W.append(world(site + [hy("site/zq_p/q/m", m("m"))], ops, ops + r2, ops[:3]))
    W.append(world([hy("site/zq_p/q/m", m("m"))], ops, ops + r2, ops[:3] + r2))
    W.append(world(site + [hy("site/zq_p/q/m", m("m"))], ops, ops[:3] + r2, resolve=[(["zq_p", "q", "m"], ["site", "zq_p", "q"], "m")]))
    W.append(world([hy("cwd/zq_p/q/m", m("m")), hy("cwd/zq_k", m("k", imp("zq_p.q.m", "$x as y", "%t as uu")), m("k", imp(".zq_p.q.m", "$x as y")))], [op([imp(p, "$x"), out("$x")], dir=d) for p, d in [("zq_p.q.m", None), ("m", "cwd/zq_p/q"), (".q.m", "cwd/zq_p"), ("zq_p.q.m", "cwd"), ("zq_k", None)]],
                   [op([imp("zq_k", "$x"), imp("zq_p.q.m", "*"), out("$x"), use("t")], dir=d) for d in (None, "cwd/zq_p/q")] + [op([imp("zq_p.q.m", "$x", "%t as v"), imp("zq_k", "%t"), use("t"), use("v")], dir="cwd")]))
    # several imports of one module in one script, through others, in any order
    one = [imp("zq_a", "$x as a"), imp("zq_b", "$x as b"), imp("zq_c", "$x as c"), imp("zq_a", "%t"), imp(".zq_c", "%t as uu")]
    for q in itertools.permutations(one, 3):
        W.append(world([hy("cwd/zq_a", m("a", imp("zq_c", "$x as c")), m("a")), hy("cwd/zq_b", m("b", imp(".zq_a", "%t as at"), imp("zq_c", "*")), m("b", imp(".zq_c", "$x as c"))), hy("cwd/zq_c", m("c"), [BOOM], m("c", imp("zq_d", "*")))], [op(list(q) + [out("end")], dir="cwd")], [op(list(q[:1]) + [out("2")], dir="cwd"), op(list(q[:2]) + [out("2")], dir="cwd", rt=2)]))
    # circles
    for n in (1, 2, 3):
        names = ["zq_a", "zq_b", "zq_c"][:n]
        cyc = [hy("cwd/" + names[i], m(names[i], imp((".", "")[k] + names[(i + 1) % n], "$x as y")), m(names[i])) if k or 1 else None for i, k in zip(range(n), (0, 1, 0))]
        W.append(world(cyc, [op([imp(x, "$x"), out("$x")], dir="cwd") for x in names], [op([imp(x, "$x"), out("$x")]) for x in names], [op([out("still"), imp(names[0], "%t"), use("t")], rt=r) for r in (1, 2)]))
    # a script that imports itself
    W.append(world([hy("cwd/zq_s", [imp(".zq_s", "$x"), out("k")], [imp("zq_s", "*")], m("s"))], [op([imp("zq_s", "$x"), out("$x")], dir="cwd"), op([imp("zq_s", "*"), out("ok")])], [op([out("ok")]), op([imp("zq_s", "$x"), out("$x")])]))
    # failures of a module are repeated, and leave nothing behind
    bad = [[log("m"), BOOM], [log("m"), imp("zq_k", "$none")], [log("m"), out("$none")], [log("m"), cx("$c")], [imp("zq_k", "$x as kx"), log("m"), set_("x", "1"), BOOM], [CMT, BLANK, cx("$c"), log("m")], [log("m"), ctlimp("zq_k", "$x")], [imp("zq_none", "$x")], [imp(".zq_none", "*")], [use("undefined")]]
    W.append(world([hy("cwd/zq_m", *bad[:5]), hy("cwd/zq_k", mod("k"))], [op([imp("zq_m", "$x"), out("$x")]), op([out("1"), imp("zq_k", "$x"), out("$x")])], [op([imp("zq_m", "*"), out("$x")]), op([imp("zq_k", "$x"), out("$x")])], [op([imp("zq_m", "$x"), out("$x")]), op([imp("zq_k", "$x"), out("$x")], rt=2), op([out("fine")])]))
    W.append(world([hy("cwd/zq_m", *bad[5:]), hy("cwd/zq_k", mod("k"))], [op([imp("zq_m", "$x"), out("$x")]), op([out("1"), imp("zq_k", "$x"), out("$x")], ctx=[("$c", S("C"))])], [op([imp("zq_m", "*"), out("$x")], ctx=[("$c", S("C"))]), op([imp("zq_k", "$x"), out("$x")])], [op([out("fine")])]))
    return W

def own_scope():
    """imported tags see the variables of their own module"""
    W = []
    mods = [[set_("x", "mx"), def_("t", "$x"), def_("uu", "%t", "$x")], [def_("t", "k"), set_("x", "mx"), def_("t", "late"), def_("uu", "%t", "$x"), set_("x", "mx2")], [imp("zq_n", "%t", "$x as nx"), set_("x", "mx"), def_("uu", "%t", "$x", "$nx")], [imp("zq_n", "*"), def_("uu", "%t", "$x")], [imp("zq_n", "*"), set_("x", "mx"), def_("uu", "%t", "$x")],
            [imp("zq_n", "%t as uu", "$x")], [set_("x", "mx"), def_("uu", "$x"), set_("x", "last"), def_("t", "$x")], [set_("len", "mx"), def_("uu", "$len"), set_("x", "$len"), def_("t", "%b")]]
    n = [set_("x", "nx"), def_("b", "nb"), def_("t", "$x", "%b")]
    heads = [[], [set_("x", "main")], [def_("t", "main-t")], [set_("x", "main"), def_("b", "main-b")]]
    uses = [[use("uu"), use("t")], [use("uu"), OPEN, set_("x", "in"), use("uu"), use("t"), CLOSE, use("uu")], [use("t"), set_("x", "later"), use("uu"), out("$x")], [def_("w", "%uu", "$x"), use("w"), set_("x", "later"), use("w")], [def_("w", "%uu"), def_("w2", "%w", "%t"), OPEN, use("w2"), CLOSE, use("w2")]]
    for i in range(0, len(mods), 2):
        for h in heads:
            tops = [op(h + [imp("zq_m", "%uu"), imp("zq_m", "%t")] + ([] if any(l["k"] == "set" for l in h) else [imp("zq_m", "$x")]) + u) for u in uses]
            star = [op([imp("zq_m", "*")] + h + u) for u in uses if not any(l["k"] == "def" and l["n"] == "t" for l in h)]
            W.append(world([hy("cwd/zq_m", *mods[i:i + 2]), hy("cwd/zq_n", n)], tops + star[:3], tops[1:3] + star[3:] + [op([imp("zq_n", "*"), use("t"), out("$x")])]))
    return W

def changing():
    """files that somebody else writes between two renderings: a runtime keeps what it has loaded, everything else is read anew"""
    m = lambda i, *more: [log(i)] + list(more) + [set_("x", i), def_("t", cat("t-", "$x"))]
    look = [op([imp(p, "$x", "%t"), out("$x"), use("t")], dir="cwd", rt=r) for p in ("zq_m", ".zq_m", "zq_k") for r in (1, 2)]
    files = [hy("cwd/zq_m", NO, m("m1"), m("m2"), [log("m3"), BOOM], [log("m4"), imp(".zq_k", "$x")]), hy("cwd/zq_k", [log("k"), imp("zq_m", "*"), def_("t", cat("k-", "$x"))])]
    W = [world([dict(files[0], alts=files[0]["alts"][a:b] + files[0]["alts"][c:]), files[1]], look[:1] + look[4:5], [write("cwd/zq_m", k) for k in (2, 3)], look, [write("cwd/zq_m", 3), write("cwd/zq_k", 1)], look[:2] + look[4:]) for a, b, c in ((0, 2, 4), (1, 4, 5), (1, 3, 4))]
    # the same name in another place, seen from now on
    W.append(world([hy("ref/zq_m", NO, m("ref")), hy("cwd/zq_m", NO, m("cwd"))], [op([imp("zq_m", "$x"), out("$x")], dir="ref"), op([out("k")])], [write("cwd/zq_m", 2), write("ref/zq_m", 2)], [op([imp("zq_m", "$x", "%t"), out("$x"), use("t")], dir="ref", rt=r) for r in (1, 2)] + [op([imp(".zq_m", "$x"), out("$x")], dir="ref")]))
    return W

def C11(c):
    R = resolution()
    c.worlds("resolution", R)
    c.worlds("bindings", bindings())
    c.worlds("loading", loading())
    c.worlds("scopes of modules", own_scope())
    c.worlds("files that change", changing())

def C12(c):
    vals = [("$x", S("X")), ("$y", S("Y")), ("%t", ("ext", "T")), ("$len", ("fn", "L")), ("%div", ("ext", "D")), ("$_z", S("Z")), ("%x", ("ext", "XX")), ("$div", S("dv"))]
    ctxs = [[], vals[:1], vals[:3], vals, vals[3:6], [vals[0], vals[6]], [vals[1], vals[2], vals[7]]]
    items = [["$x"], ["$x as y"], ["$x", "$y"], ["$x as y", "$y as x"], ["%t"], ["%t as uu", "%t"], ["$len"], ["%div"], ["$_z as z"], ["%x", "$x"], ["$x as len"], ["%t as div"], ["$none"], ["%y"], ["$t"], ["$x as a", "$x as b"], ["$div"], ["$x", "$none"]]
    def uses(q, k):
        r = []
        for s in q:
            a, _, n = s.partition(" as "); n = n or a[1:]
            r.append(use(n) if a[0] == "%" else out("$" + n) if n != "len" else out("len()"))
        return [r, [OPEN] + r + [CLOSE], [def_("w", *["%" + l["n"] if l["k"] == "tag" else l["e"] for l in r]), use("w")], [set_("x", "own")] + r][k]
    W = []
    for cs in ctxs:
        W.append(world([], [op(pre + [cx(*q)] + uses(q, k), ctx=cs) for i, q in enumerate(items) for k in range(4) for pre in [([], [CMT], [CMT, BLANK], [cx("$x")])[(i + k) % 4]]], [op([out("len()"), use("div"), use("b")], ctx=cs)]))
    # undeclared ones are invisible, built-ins are not; several blocks; place of the block
    few = ctxs[:4]
    body = [[out("$x")], [use("t")], [out("len()"), use("div"), use("p")], [out("$_z")], [cx("$y"), out("$x")], [cx("$x as y"), out("$x")], [cx("%t as v"), use("t")], [set_("x", "1"), cx("$x"), out("$x")], [out("a"), cx("$x"), out("$x")], [OPEN, cx("$x"), CLOSE], [BLANK, CMT, cx("$x"), CMT, BLANK, cx("%t", "$y"), out("$x"), use("t"), out("$y")],
            [cx("$x"), out("$x"), cx("$y"), out("$y")], [imp("zq_m", "$k"), cx("$x"), out("$x")], [cx("$x"), imp("zq_m", "$k", "%g"), out(cat("$x", "$k")), use("g")], [cx("$x as k"), imp("zq_m", "%g"), use("g"), out("$k")], [cx("$x as k"), imp("zq_m", "*"), use("g"), out("$k")], [def_("w", "$x"), cx("$x"), use("w")], [cx("$x"), def_("w", "$x"), use("w"), set_("x", "new"), use("w")],
            [cx("$x as a", "$x as b"), set_("a", cat("$b", "!")), out("$a"), out("$b"), cx("$x")], [use("p"), cx("$x")], [cx("$x", "$x"), out("$x")], [cx("$x as y"), cx("$y as x"), out("$x"), out("$y")], [cx("$x as y"), cx("$y"), out("$y")], [CMT, OPEN, CLOSE, CMT, cx("$x")], [log("l"), cx("$x")], [cx("$x"), BOOM], [cx("$x"), set_("_x", "$x"), out("$_x"), out("len()")]]
    m = [set_("k", "mk"), def_("g", "$k"), set_("x", "mx")]
    W.append(world([hy("cwd/zq_m", m, [cx("$x"), set_("k", "$x"), def_("g", "$k")])], [op(b, ctx=cs) for b in body for cs in few], [op(body[13], ctx=vals)]))
    c.worlds("declarations", W)
    # histories: contexts of other renderings are never visible
    ops = [op(b, ctx=cs) for b in [body[0], body[1], body[2], body[10], body[13], [cx("$x"), out("$x")], [cx("$x as y"), out("$y")], [cx("$len"), out("len()")], [cx("%div"), use("div")], [out("len()"), use("div")], [cx("%t as p"), use("p")]] for cs in (ctxs[0], ctxs[2], ctxs[3], [("$x", S("X2")), ("$len", ("fn", "L2"))])]
    c.worlds("histories", [world([hy("cwd/zq_m", m)], ops, ops), world([hy("cwd/zq_m", m)], ops[::3], ops[1::3], ops[2::3])])

def C13(c):
    m1 = [log("m"), set_("x", "mx"), def_("t", cat("t-", "$x")), set_("l", ["len"])]
    m2 = [imp("zq_m", "*"), log("n"), def_("uu", "%t", "$x"), set_("y", cat("$x", "y"))]
    ops = [op(l, ctx=cs, rt=1) for l, cs in [
        ([out("a"), use("div")], []), ([imp("zq_m", "*"), out("$x"), use("t"), out("$l")], []), ([imp("zq_n", "%uu", "$y"), use("uu"), out("$y")], []), ([set_("x", "1"), out("$x"), BOOM], []), ([out("$x")], []), ([use("t")], []), ([use("uu")], [("%uu", ("ext", "U"))]),
        ([cx("$x"), out("$x"), set_("x", "2"), out("$x")], [("$x", S("cx"))]), ([cx("$len as size", "%t"), use("t"), out("$size"), out("len()")], [("$len", S("cl")), ("%t", ("ext", "T"))]), ([set_("len", "mine"), def_("div", "mydiv"), def_("p", "myp"), use("div"), use("p"), out("$len")], []),
        ([OPEN, set_("x", "in"), def_("t", "$x"), use("t"), CLOSE, use("p")], []), ([imp("zq_m", "%t"), set_("x", "0"), def_("div", "%t"), use("div"), imp("zq_none", "$k")], []), ([imp("zq_bad", "$k")], []), ([imp("zq_m", "$missing")], []), ([out("a"), cx("$x")], [("$x", S("1"))]), ([imp("zq_n", "*"), use("t"), use("uu"), set_("x", "mine"), use("t"), out("$x")], []), ([def_("t", "%t2"), use("t")], []), ([imp("zq_py", "*"), out("$x"), use("t")], [])]]
    files = [hy("cwd/zq_m", m1), hy("cwd/zq_n", m2), hy("cwd/zq_bad", [imp("zq_m", "$x"), BOOM]), py("site/zq_py", ("py", [("$x", S("px")), ("%t", ("ext", "pt"))]))]
    c.worlds("pairs", [world(files, ops, ops)])
    rng = random.Random(c.seed)
    if c.enough(): return
    # what scripts do with mutable objects of the caller
    import props as p
    from lang import V, L, I, S as St, Bin, Idx, Call, D
    mu, md, e, x, y, asg, aug, tag = V("mut"), V("mud"), p.e, V("x"), V("y"), p.asg, p.aug, p.tag
    lines = [asg("x", mu), asg("y", x), aug("x", "+", L(I(9))), aug("y", "+", L(I(8))), asg("x", Idx(mu, I(1))), asg("x", Idx(md, St("k"))), aug("x", "*", I(2)), p.asg(p.tu("x", "y"), mu), p.txt(e(x), "-", e(mu), e(md)), p.exl(p.P(1, mu)), p.for_("x", mu), tag(p.ch("X", ["", mu])), asg("y", Bin("+", mu, x))]
    A = p.alpha(lines, pre=[asg("x", L(I(0))), asg("y", L())], suf=[p.txt(e(mu), e(md), e(x), e(y))])
    c.spec_to_code("mutable context", A, c.pick(3, 4), 2)
    # any programs, failing or not, one after another in the same runtimes; each rendered twice more
    c.code_to_spec("shared runtimes", gen.programs(c.seed * 77 + 5, c.pick(900, 9000), 10, 4, dict(err=.1, bad=.02, def_=8, call=8, ext=4, try_=6)), twice=True)
    seqs = [world(files, *[rng.sample(ops + [dict(o, rt=2) for o in ops], 2) for _ in range(8)]) for _ in range(c.pick(6, 60))]
    c.worlds("long histories", seqs, timeout=1500)

def C26(c):
    m = lambda i: [log(i), set_("x", i), def_("t", cat("t-", "$x"))]
    W = []
    dj = lambda l, **k: op(l, how="string", **k)
    fl = lambda p, n, **k: op([], how="file", path=p, name=n, **k)
    cs = [("$x", S("<X>".replace("<", "").replace(">", ""))), ("$y", S("Y"))]
    # templates of the configured folders, in order
    bodies = lambda i: ([out(i)], [cx("$x"), out(cat(i, "$x"))], [imp(".zq_m", "$x", "%t"), out(cat(i, "$x")), use("t")], [imp("zq_m", "$x"), out(cat(i, "$x"))], [imp(".zq_s.m", "$x"), out("$x")], [out("$undefined")], [cx("$none"), out("k")])
    for k in range(0, 7, 2):
        W.append(world([hy("d1/index", NO, *bodies("d1")[k:k + 2]), hy("d2/index", NO, *bodies("d2")[k:k + 2]), hy("d1/zq_m", NO, m("m1")), hy("d2/zq_m", m("m2")), hy("cwd/zq_m", NO, m("cwd")), hy("d1/zq_s/m", m("s1")), hy("d2/zq_s/m", NO, m("s2"))],
                       [fl("", "index", ctx=cs), fl("", "index"), fl("", "none", ctx=cs), fl("", "zq_m")], [fl("", "index", ctx=cs[:1]), dj([out("s")])], dirs=["d1", "d2"]))
    W.append(world([hy("d1/a/b/index", NO, *bodies("ab")), hy("d2/a/b/index", NO, [imp("..zq_m", "$x"), out("$x")], [imp("...zq_m", "$x"), out("$x")], [imp("zq_m", "$x"), out("$x")]), hy("d1/a/zq_m", m("d1a")), hy("d2/a/zq_m", m("d2a")), hy("d2/zq_m", m("d2")), hy("d1/a/b/zq_m", NO, m("d1ab")), hy("d1/zq_m", NO, m("d1"))],
                   [fl("a/b", "index", ctx=cs), fl("a", "index"), fl("a/b", "zq_m")], [fl("a/b", "index", ctx=cs), fl("a", "zq_m")], dirs=["d1", "d2"]))
    # strings, histories in one backend, contexts
    ops = [dj([out("a"), use("div")], ctx=cs), dj([cx("$x", "$y as z"), out("$x"), out("$z"), set_("x", "new"), out("$x")], ctx=cs), dj([cx("$x"), out("$x")]), dj([out("$x")], ctx=cs), dj([imp("zq_m", "*"), out("$x"), use("t")], ctx=cs), dj([imp(".zq_m", "$x")], ctx=cs), dj([cx("$x"), BOOM], ctx=cs), dj([imp("zq_m", "%t"), cx("$x")], ctx=cs), dj([cx("$len"), out("len()")], ctx=[("$len", ("fn", "LL"))]), dj([out("len()"), use("p")], ctx=[("$len", ("fn", "LL"))]),
           fl("", "t1", ctx=cs), fl("", "t2", ctx=cs), fl("", "t3"), fl("", "missing"), dj([cx("$request", "$csrf_token"), out("k")], ctx=cs), dj([cx("$csrf_input as i", "$csrf_token as x"), out("$x")], ctx=cs, req=0)]
    W.append(world([hy("cwd/zq_m", m("m")), hy("d1/t1", [cx("$x"), imp("zq_m", "$x as w"), out(cat("$x", "$w"))]), hy("d1/t2", [imp(".t4", "*"), use("t"), out("$x")]), hy("d1/t4", m("t4"), [cx("$x")]), hy("d1/t3", [imp(".t2", "*"), out("k"), use("t")])], ops, ops, dirs=["d1"]))
    # requests: additional context, normalised by the harness
    RQ = [("$request", S("RQ")), ("$csrf_token", S("TOKEN")), ("$csrf_input", S("IN"))]
    rq = [([cx("$request", "$csrf_token"), out("$csrf_token")]), ([cx("$csrf_input as i", "$x"), out("$i"), out("$x")]), ([cx("$csrf_token as x", "%t")]), ([out("$csrf_token")]), ([cx("$x"), out("$x"), imp("zq_m", "*"), use("t")]), ([imp("zq_m", "*"), cx("$request")]), ([cx("$request"), set_("csrf_token", "own"), out("$csrf_token")]),
          ([imp(".zq_k", "$x", "%t"), out("$x"), use("t")]), ([cx("$request", "$y"), imp("zq_k", "%t"), imp(".zq_s.k", "$x"), out("$x"), out("$y"), use("t")]), ([imp("..zq_k", "$x"), out("$x")])]
    files = [hy("d1/r%d" % i, l) for i, l in enumerate(rq)] + [hy("cwd/zq_m", m("m"), [cx("$request"), set_("x", "1")]), hy("d1/zq_k", m("k")), hy("d1/zq_s/k", [imp("..zq_k", "$x as y"), set_("x", cat("s", "$y"))])]
    W.append(world(files, [dj(l, ctx=k + RQ, req=1) for l in rq for k in (cs, [])] + [dj(l, ctx=cs) for l in rq[:2]], [fl("", "r%d" % i, ctx=k + RQ, req=1) for i in range(len(rq)) for k in (cs, [])] + [fl("", "r0"), fl("", "missing", ctx=RQ, req=1)], dirs=["d1"]))
    # a template is what its file is at the moment, in the first folder that has it now
    t = lambda i: ([out(i)], NO, [cx("$x"), imp(".zq_m", "$x as y"), out(cat(i, "$x", "$y"))])
    files = [hy("d1/a/t", *t("d1")), hy("d2/a/t", *t("d2")), hy("d1/a/zq_m", m("m1"), m("m2")), hy("d2/a/zq_m", m("m3"))]
    see = [fl("a", "t", ctx=cs), fl("a", "zq_m")]
    W.append(world(files, see, [write("d1/a/t", k) for k in (1, 2, 3)] + [write("d2/a/t", 3)], see, [write("d1/a/t", k) for k in (2, 3)] + [write("d1/a/zq_m", 2)], see[:1], dirs=["d1", "d2"]))
    c.worlds("templates", W)
    # whatever the template: the text, the failure and the calls are those of the script itself
    progs = list(gen.programs(c.seed * 91 + 3, c.pick(1500, 9000), 10, 4, dict(err=.06, bad=.02, def_=8, call=8, ext=4, try_=6, text=12)))
    k = len(progs) // 3
    c.code_to_spec("scripts as templates", progs[:k], via="string")
    c.code_to_spec("scripts in files", progs[k:2 * k], via="file", tn=2)
    own = [p for p in progs[2 * k:] if not PROBES & lang.json_names(p)]
    c.code_to_spec("scripts alone", own, via="file", tn=1, pro=0)
    props_lib.django_filters(c, "filters")
PROBES = {"ob", "P", "boom", "kbd", "tick", "f3", "lazy", "pull", "bad", "mut", "mud", "X", "Y", "F", "G_", "XP", "XV"}
NOTES_MOD = {}
