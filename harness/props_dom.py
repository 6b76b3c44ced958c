"""Checks of documents (specification HDom)."""
import json, random
s, i, n = lambda x: ["s", x], lambda x: ["i", x], ["n"]
def shapes(k, roots=9):
    """all forests of k nodes: parent of each node (0: none), nodes in preorder"""
    out = []
    def go(q):
        if len(q) == k: out.append(q); return
        path = [len(q)]              # ancestors of the last node and itself
        while path[-1]: path.append(q[path[-1] - 1])
        for p in (path if q else [0]): go(q + [p])
    go([])
    return out
def lab(kind, tag="", kw=(), text=""): return {"kind": kind, "tag": tag, "text": text, "kw": [list(x) for x in kw], "body": []}
TXT = lab("T", text="t")
LABELS = [lab("E", "a"), lab("E", "a", [("k", s("x"))]), lab("E", "b", [("k", s("y")), ("m", i(1))]), lab("E", "a2", [("m", n)]), lab("E"), TXT]
def walk(order="preorder", *skip): return {"o": "walk", "skip": list(skip) or ["none"], "order": order}
def select(tag=(), *attrs, order="preorder"): return {"o": "select", "tag": list(tag), "attrs": [list(a) for a in attrs], "order": order}
def skip(tag=(), *attrs): return {"o": "skip", "tag": list(tag), "attrs": [list(a) for a in attrs]}
def slice_(*q): return dict(o="slice", **{k: [] if v is None else [v] for k, v in zip("abk", q)})
def alter(tr, order="preorder", *skip): return {"o": "alter", "tr": tr, "skip": list(skip) or ["none"], "order": order}
POST = "postorder"
CONSTRAINTS = [(["name", "a"],), (["inst", "a"],), (["inst", "a2"],), (["name", "b"],), (["name", "zz"],), ([], ["k"]), ([], ["k", s("x")]), ([], ["m", n]), ([], ["m"]), (["name", "a"], ["k"]), (["name", "a"], ["m", n]), (["inst", "b"], ["k", s("y")], ["m", i(1)]), ([], ["k", s("y")], ["m"]), ([], ["zz"]), (["inst", "a"], ["k", s("y")])]
QUERIES = [walk(), walk(POST), walk("preorder", "name", "a"), walk(POST, "name", "a"), walk(POST, "attr", "k"), walk("preorder", "text"), walk("preorder", "leaf"), walk(POST, "leaf"), walk("preorder", "all"), select(), select(order=POST)] \
    + [select(*q) for q in CONSTRAINTS] + [select(*CONSTRAINTS[0], order=POST), select(*CONSTRAINTS[5], order=POST)] + [skip(*q) for q in CONSTRAINTS] \
    + [{"o": "copy"}, {"o": "len"}, {"o": "render"}, {"o": "get", "k": "k"}, {"o": "get", "k": "m"}, {"o": "body"}, {"o": "bad", "x": "text"}, {"o": "bad", "x": 5}] \
    + [{"o": "item", "i": k} for k in (0, 1, -1, -2, 3)] + [slice_(*q) for q in ((None, None, None), (1, None, None), (None, 1, None), (0, 1, None), (-1, None, None), (None, -1, None), (None, None, -1), (None, None, 2), (1, 5, None), (2, 0, -1), (-5, 2, None), (1, 1, None))] \
    + [{"o": "concat", "how": h} for h in ("self", "other", "front", "one")]
TRS = ["same", "drop b", "drop", "twice", "copy", "unwrap a", "wrap text", "text", "mark", "leaf after b"]
ALTERS = [alter(t, o) for t in TRS for o in ("preorder", POST) if (t, o) != ("wrap text", "preorder")] + [alter("wrap", POST), alter("mark", "preorder", "name", "a"), alter("mark", POST, "name", "a"), alter("drop b", POST, "attr", "k"), alter("twice", "preorder", "name", "a"), alter("unwrap a", POST, "all"), alter("unwrap a", "preorder", "name", "b"), alter("text", POST, "text")]
MUT = [{"o": "set", "k": "k", "v": s("x")}, {"o": "set", "k": "m", "v": n}, {"o": "push"}, {"o": "pop"}]
DEEP = [walk(), walk(POST, "name", "a"), select(["name", "a"]), select([], ["k"], order=POST), skip(["name", "a"]), skip([], ["m"]), {"o": "copy"}, {"o": "body"}, {"o": "item", "i": -1}, slice_(0, 1, None), slice_(None, None, -1), {"o": "concat", "how": "other"}, {"o": "concat", "how": "self"}, {"o": "render"}] \
    + [alter("drop b"), alter("twice", POST), alter("unwrap a", POST), alter("mark"), alter("copy", "preorder")] + MUT

def forest(parents, labels):
    out = [dict(l, body=[j + 1 for j, p in enumerate(parents) if p == k + 1]) for k, l in enumerate(labels)]
    return out

def run(c, part, ops, depth, shapes=(), labels=(), forests=(), every=1):
    if c.enough(): return
    def fix(r):
        for h in r["hist"]: h["op"] = ops[h["k"] - 1]
    inp = {"shapes": list(shapes), "labels": list(labels), "forests": list(forests), "ops": ops}
    c.replay(part, "dom", "HDom", dict(DomFile="dom.json", Depth=depth), ["Emit", "Acyclic"], ["QueriesPure", "CopiesFresh", "Exact", "Skipped"], {"dom.json": json.dumps(inp)}, fix, every=every)

def C14(c):
    run(c, "queries", QUERIES, 1, shapes(1) + shapes(2), LABELS)
    run(c, "queries on 3 nodes", QUERIES, 1, shapes(3), LABELS, every=c.pick(3, 1))
    b = lambda x: ["b", x]
    values = [s("1"), i(1), b(True), s("True"), n, s("None"), s(""), i(0), b(False), s("0"), ["l", [1]], s("[1]"), ["l", []], s(" 1"), s("X"), s("x"), s("xy")]
    labels = [lab("E", "a", [("k", v)]) for v in values] + [lab("E", "b", [("k", s("1"))]), lab("E", "a", [("K", i(1))]), TXT]
    more = [q for v in values for q in (select([], ["k", v]), skip([], ["k", v]), select(["name", "a"], ["k", v], order=POST))]
    run(c, "values of attributes", more + [{"o": "get", "k": "k"}], 1, shapes(1) + shapes(2), labels, every=c.pick(2, 1))
    run(c, "transformations", ALTERS, 1, shapes(1) + shapes(2) + shapes(3), LABELS, every=c.pick(2, 1))
    rng = random.Random(c.seed)
    def some(k, m): return [forest(sh, [dict(rng.choice(LABELS[:-1] if any(p == j + 1 for p in sh) else LABELS)) for j in range(len(sh))]) for sh in rng.sample(shapes(k), min(m, len(shapes(k))))]
    run(c, "histories of 2", QUERIES + ALTERS[::2] + MUT, 2, forests=some(4, c.pick(3, 14)) + some(5, c.pick(3, 20)) + [[]], every=c.pick(3, 1))
    run(c, "histories of 3", DEEP, 3, forests=some(4, c.pick(1, 6)) + some(5, c.pick(1, 6)), every=c.pick(5, 1))
    run(c, "larger documents", QUERIES + ALTERS, 1, forests=some(6, c.pick(40, 132)) + some(7, c.pick(40, 400)))
