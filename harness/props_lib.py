"""Check of the standard functions and tags (HLib)."""
import itertools, json, random

def lib(c, part, funs, texts=(), every=1, mode="lib"):
    if c.enough(): return
    c.replay(part, mode, "HLib", dict(LibFile="lib.json"), ["Emit", "MergeContract", "InlineContract", "CaseContract", "CropContract", "UniqueContract", "DedentContract", "CycleContract", "ChangesContract", "DjContract"],
             files={"lib.json": json.dumps({"funs": funs, "texts": list(texts) or [""]})}, every=every)

def R(fn, alpha, mx, given=False, **k): return dict(k, fn=fn, alpha=alpha, max=mx, given=given)

def C16(c):
    rng = random.Random(c.seed)
    th = c.thorough
    both = lambda fn, k, *a, **kw: [R(fn, *a, **dict(kw, **{k: v})) for v in (True, False)]
    P = [dict(length=l, end=e, killwords=k, maxdrop=m, leeway=w) for l in range(0, 7) for e in ("", ".", "...") for k in (True, False) for m in (0, 1, 2, 3, 10) for w in (0, 1, 3, -1)]
    P = [p for p in P if p["leeway"] >= 0 or rng.random() < .1]
    P = [p for p in P if not (p["killwords"] and p["maxdrop"] not in (0, 2))]
    lib(c, "short texts", [R("merge", list("a \t\n"), c.pick(5, 7)), R("inline", list("a\n&"), c.pick(5, 8)), R("lower", list("aAbB\n"), c.pick(4, 6)), R("upper", list("aAbB&"), c.pick(4, 6))]
        + [R("doctype", ["a", "<"], 2, value=v) for v in ("html", "HTML", "svg PUBLIC", "<&>")]
        + both("unique", "strip", list("ab \n"), c.pick(5, 7)) + both("dedent", "full", list("a \t\n"), c.pick(5, 7))
        + [R("crop", ["a", " "], c.pick(7, 9), **p) for p in rng.sample(P, c.pick(50, len(P)))], every=c.pick(2, 1))
    texts, F = [], []
    def given(q, *fs):
        texts.extend(q)
        F.extend(R(f, [], 0, True, lo=len(texts) - len(q) + 1, hi=len(texts), **k) for f, k in fs)
    D = dict(length=255, end="...", killwords=False, maxdrop=10, leeway=0)
    line = [(f, {k: v}) for f, k in (("unique", "strip"), ("dedent", "full")) for v in (True, False)]
    given(["".join(rng.choice("aaab  \n") for _ in range(rng.choice([3, 8, 15, 40, 80, 254, 255, 256, 257, 270]))) for _ in range(c.pick(25, 200))],
        *[("crop", dict(D, **p)) for p in [{}, {"length": 20}, {"length": 50, "end": " [more]"}, {"length": 30, "maxdrop": 3}, {"length": 80, "leeway": 5}, {"killwords": True, "length": 12}, {"length": 0, "end": ""}]], *line, *[(f, {}) for f in ("merge", "inline", "upper", "lower")])
    # lines drawn from few words, so that duplicates and common indentations are frequent
    lines = ["a", "b", " a", "a ", "  a", "", " ", "ab", "   b", "\ta"]
    given(["\n".join(rng.choice(lines) for _ in range(rng.randrange(1, 9))) for _ in range(c.pick(250, 6000))], *line, ("merge", {}))
    given(["\n".join(i + rng.choice(lines) for _ in range(rng.randrange(1, 6))) for k in range(c.pick(250, 3000)) for i in [rng.choice([" ", "  ", "\t", "    "])]], *line)
    # sequences
    S = [list("pqrs"[:n]) for n in range(5)] + [["u"], ["v", "v"], ["w", "ww", "www"]]
    for k in range(0, 4):
        for q in itertools.product(S, repeat=k) if k < 3 or th else [[rng.choice(S) for _ in range(k)] for _ in range(150)]:
            for stop in ("first", "longest", "False", "other"):
                F.append(dict(fn="cycle", seqs=[list(x) for x in q], stop=stop, ok=stop != "other", inf=[], take=rng.choice([3, 7, 10])))
    for q in itertools.product(S[1:], repeat=2):
        F.append(dict(fn="cycle", seqs=[list(q[0]), ["i%d" % i for i in range(len(q[0]))]], stop="first", ok=True, inf=[1], take=9))
        F.append(dict(fn="cycle", seqs=[list(q[0]), ["i%d" % i for i in range(6)], list(q[1])], stop="False", ok=True, inf=[1], take=6))
    labels = ["0", "1", "N", "", "e", "x"]
    for n in range(c.pick(5, 6)):
        for q in itertools.product(labels[:4] if n == 4 else labels, repeat=n):
            F.append(dict(fn="changes", seqs=[list(q)], first=["True", "False", "x"][len(F) % 3]))
    lib(c, "longer texts, sequences", F, texts)

def django_filters(c, part):
    D = lambda name, alpha, mx, arg="", num=0: R("dj", alpha, mx, name=name, arg=arg, num=num)
    n = c.pick(4, 5)
    lib(c, part, [D("cut", ["a", "b", " ", "."], n, arg=x) for x in ("a", " ", ".")] + [D("capfirst", ["a", "B", " "], n), D("lower", ["a", "B", " "], n), D("upper", ["a", "B", "<"], n)]
        + [D("truncatechars", ["a", " ", "&"], n + 1, num=k) for k in (1, 2, 4, 10)] + [D(x, ["a", " ", "b"], n, num=k) for x in ("ljust", "rjust") for k in (0, 3, 9)]
        + [D("wordcount", ["a", " ", "\t"], n + 1), D("length", ["a", " ", "<"], n), D("add", ["a", " "], n, arg="b&"), D("first", ["a", "b"], n), D("last", ["a", "b"], n), D("default", ["a", "b"], 2, arg="<x>"), D("slugify", ["a", "B", "-", " ", "_", "."], n), D("ordinal", ["1", "2", "3", "4"], 3)],
        every=c.pick(7, 1), mode="djf")
