"""Replays histories of operations on documents (specification HDom) in the real code."""
from hypertag import DOM, HyperHTML, Tag
from probes import exc_classes
B = HyperHTML().import_builtins()
import copy as _copy
TAGS = {"a": B["%a"], "b": B["%b"], "i": B["%i"], "null": B.get("%null"), "a2": _copy.copy(B["%a"]), "": None}
if TAGS["null"] is None:
    from hypertag.core.tag import null
    TAGS["null"] = null

def val(v): return None if v[0] == "n" else v[1]

def build(heap):
    nodes = {}
    def mk(i):
        nd = heap[i - 1]
        if nd["kind"] == "T": n = DOM.Text(nd["text"])
        else:
            p = {}
            if nd["tag"]: p["tag"] = TAGS[nd["tag"]]
            if nd["kw"] or i % 2: p["kwattrs"] = {k: val(v) for k, v in nd["kw"]}      # nodes without attributes: an empty dict or None
            if i % 2: p["attrs"] = []
            body = [mk(j) for j in nd["body"]]
            n = DOM.Node([body, None, DOM()] if i % 2 else DOM(*body), **p)
        nodes[i] = n
        return n
    kids = {j for nd in heap for j in nd["body"]}
    dom = DOM(*[mk(i) for i in range(1, len(heap) + 1) if i not in kids])
    return nodes, dom

def pred(p):
    if p[0] == "none": return None
    if p[0] == "all": return lambda n: True
    if p[0] == "name": return lambda n: n.tag is not None and n.tag.name == p[1]
    if p[0] == "text": return lambda n: isinstance(n, DOM.Text)
    if p[0] == "attr": return lambda n: p[1] in (n.kwattrs or {})
    if p[0] == "leaf": return lambda n: not n.body

isname = lambda n, s: n.tag is not None and n.tag.name == s
def mark(n):
    if not isinstance(n, DOM.Text):
        kw = dict(n.kwattrs or {}); kw.pop("m", None); kw["m"] = 1; n.kwattrs = kw
    return [n]
def gen_twice(n): yield n; yield n.copy()
def gen_dropb(n):
    if not isname(n, "b"): yield n
TR = {"same": lambda n: [n], "drop b": gen_dropb, "drop": lambda n: [], "twice": gen_twice, "copy": lambda n: (n.copy(),), "unwrap a": lambda n: n.body if isname(n, "a") else [None, n], "wrap": lambda n: [DOM.Node(n, tag=TAGS["b"], kwattrs={"w": 1})],
      "wrap text": lambda n: [DOM.Node([n], tag=TAGS["i"])] if isinstance(n, DOM.Text) else [DOM(n)], "text": lambda n: [n] if n.body else DOM.text("new"), "mark": mark,
      "leaf after b": lambda n: [n, [[DOM.Text("t")]]] if isname(n, "b") else DOM(n)}

def args(op, way):
    a, kw = [], {}
    if op["tag"]:
        t = op["tag"][1] if op["tag"][0] == "name" else TAGS[op["tag"][1]]
        if way: kw["tag"] = t
        else: a.append(t)
    for i, q in enumerate(op["attrs"]):
        if len(q) == 1: kw["attr"] = q[0]
        elif i == 0 and way and not any(len(x) == 1 for x in op["attrs"]): kw["attr"], kw["value"] = q[0], val(q[1])
        else: kw[q[0]] = val(q[1])
    return a, kw

def apply(op, dom, doms, way):
    """[documents made], values"""
    o = op["o"]
    first = lambda: dom.nodes[0]
    if o == "walk":
        q = dom.walk(pred(op["skip"]), op["order"]) if way else dom.walk(**dict(dict(skip=pred(op["skip"])) if op["skip"][0] != "none" else {}, **(dict(order=op["order"]) if op["order"] != "preorder" else {})))
        return [DOM(*list(q))], []
    if o == "select":
        a, kw = args(op, way)
        if op["order"] != "preorder": kw["order"] = op["order"]
        if len(op["tag"]) and not op["attrs"] and op["order"] == "preorder" and way: return [dom[a[0] if a else kw["tag"]]], []
        return [dom.select(*a, **kw)], []
    if o == "skip":
        a, kw = args(op, way); return [dom.skip(*a, **kw)], []
    if o == "copy": return [dom.copy() if way or len(dom) != 1 else DOM(first().copy())], []
    if o == "slice": return [dom[slice(*[x[0] if x else None for x in (op["a"], op["b"], op["k"])])]], []
    if o == "item":
        n = dom[op["i"]]
        if not isinstance(n, DOM.Node): raise AssertionError("dom[int] is not a node")
        return [DOM(n)], []
    if o == "len":
        if bool(dom) != (len(dom) > 0) or list(dom) != dom.nodes: raise AssertionError("len, bool and iteration disagree")
        return [], [len(dom)]
    if o == "render": return [], [dom.render()]
    if o == "get":
        out = []
        for n in dom:
            x = n.get(op["k"], "DEFAULT")
            if x == "DEFAULT": x = n.get(op["k"])
            elif x != n[op["k"]]: raise AssertionError("node[k] and node.get(k) differ")
            out.append(x)
        return [], out
    if o == "body": return [DOM(first().body) if way else first().body[:]], []
    other = doms[-1] if dom is doms[0] else doms[0]
    if o == "concat":
        h = op["how"]
        if h == "self": return [DOM(dom, dom) if way else DOM([dom, [None, dom]])], []
        if h == "other": return [DOM(dom, other) if way else DOM(*(list(dom) + [other]))], []
        if h == "front": return [DOM([other, None], (n for n in dom))], []
        return [DOM(dom[:1], [other], dom[0:1])], []
    if o == "bad": DOM(dom, op["x"]) if way else DOM.Node([dom, op["x"]])
    if o == "set":
        n = first()
        if n.kwattrs is None: n.kwattrs = {}
        n.kwattrs.pop(op["k"], None); n.kwattrs[op["k"]] = val(op["v"]); return [], []
    if o == "push": first().body.nodes.append(DOM.Text("pushed")); return [], []
    if o == "pop": dom.nodes.pop(); return [], []
    if o == "alter":
        if way: r = dom.alter(TR[op["tr"]], pred(op["skip"]), op["order"])
        else: r = dom.alter(transform=TR[op["tr"]], order=op["order"], skip=pred(op["skip"]))
        if r is not dom: raise AssertionError("alter() returned something else than self")
        return [], []

def compare(case, nodes, doms, why):
    heap, back = case["heap"], {id(n): i for i, n in nodes.items()}
    done = set()
    def node(i, n, path):
        if why: return
        if i in nodes:
            if nodes[i] is not n: why.append("%s: not the same node as before" % path); return
        elif id(n) in back: why.append("%s: a new node expected, found one that existed" % path); return
        else: nodes[i] = n; back[id(n)] = i
        if i in done: return
        done.add(i)
        nd = heap[i - 1]
        if not isinstance(n, DOM.Node): why.append("%s: not a node" % path); return
        if (nd["kind"] == "T") != isinstance(n, DOM.Text): why.append("%s: wrong kind of node" % path); return
        if nd["kind"] == "T":
            if n.text != nd["text"]: why.append("%s: wrong text" % path)
        elif n.tag is not TAGS[nd["tag"]]: why.append("%s: wrong tag" % path)
        if list((n.kwattrs or {}).items()) != [(k, val(v)) for k, v in nd["kw"]]: why.append("%s: attributes %s, expected %s" % (path, n.kwattrs, nd["kw"]))
        dom(nd["body"], n.body, path)
    def dom(ids, d, path):
        if why: return
        if not isinstance(d, DOM) or type(d.nodes) is not list: why.append("%s: not a DOM" % path); return
        if len(ids) != len(d.nodes): why.append("%s: %d nodes, expected %d" % (path, len(d.nodes), len(ids))); return
        for k, (i, n) in enumerate(zip(ids, d.nodes)): node(i, n, "%s/%d" % (path, k))
    if len(doms) != len(case["doms"]): why.append("number of documents"); return
    for k, (q, d) in enumerate(zip(case["doms"], doms)): dom(q, d, "document %d" % (k + 1))

def check(case):
    nodes, d0 = build(case["init"])
    doms, why = [d0], []
    for k, st in enumerate(case["hist"]):
        op = st["op"]
        try:
            made, v = apply(op, doms[st["d"] - 1], doms, (case["n"] + k) % 2)
            er = ""
        except Exception as ex: made, v, er = [], [], exc_classes(ex) + [str(ex)[:200]]
        w = "step %d (%s): " % (k + 1, op["o"])
        if st["er"]:
            if not er or st["er"] not in er: why.append(w + "%s expected, got %s" % (st["er"], er or "no error")); break
        elif er: why.append(w + "failed with %s" % er); break
        elif v != ([val(x) for x in st["val"]] if op["o"] == "get" else st["val"]): why.append(w + "gives %s, expected %s" % (v, st["val"])); break
        if len(made) != st["n"]: why.append(w + "wrong number of results"); break
        doms += made
    if not why: compare(case, nodes, doms, why)
    if not why: return {"n": case["n"], "ok": True}
    return {"n": case["n"], "ok": False, "why": why, "src": "document: %s\nhistory: %s" % (case["init"], [(s["d"], s["op"]) for s in case["hist"]]), "obs": [[type(n).__name__ for n in d.nodes] if isinstance(d, DOM) else str(d) for d in doms]}
