"""Replays calls of standard functions, tags and filters (specification HLib)."""
import itertools
from hypertag import DOM, HyperHTML
from probes import exc_classes
RT = HyperHTML()

# texts of the model stand for these: letters with other letters of a known case, spaces with other kinds of spaces
LETTERS = [dict(a="a", A="A", b="b", B="B"), dict(a="\u0105", A="\u0104", b="z", B="Z"), dict(a="\u03c9", A="\u03a9", b="\u044f", B="\u042f")]
def subst(s, m): return "".join(m.get(c, c) for c in s)

def lit(x): return repr(x)

class Spent(Exception): pass
def pyvalue(lab, n):
    """objects for the labels: equal labels are equal objects, different labels different ones"""
    T = {"0": [0, False, 0.0], "1": [1, True, 1.0], "N": [None], "": [""], "e": [[], []], "x": ["x"], "y": [("y",)]}
    return T[lab][n % len(T[lab])] if lab in T else lab

def kindof(seq, k, inf):
    if inf:
        def g():
            for x in seq: yield x
            raise Spent("consumed too far")
        return g()
    k = k % 5
    if k == 1: return tuple(seq)
    if k == 2: return iter(seq)
    if k == 3 and all(len(x) == 1 for x in seq): return "".join(seq)
    if k == 4 and len(set(seq)) == len(seq): return dict.fromkeys(seq)
    return list(seq)

def opts(case):
    """parameters as they're written in a call: some by position, the rest by keyword; default ones are sometimes left out"""
    f, n = case["f"], case["n"]
    fn = f["fn"]
    order, dflt = {"crop": (["length", "end", "killwords", "maxdrop", "leeway"], [255, "...", False, 10, 0]), "unique": (["strip"], [True]), "dedent": (["full"], [True]), "doctype": (["value"], ["html"])}.get(fn, ([], []))
    vals = [f[k] for k in order]
    pos = n % (len(order) + 1)
    p = vals[:pos]
    k = [(a, v) for a, v, d in list(zip(order, vals, dflt))[pos:] if v != d or n % 3 == 0]
    if n % 2: k.reverse()
    return p, k
def args(p, k, sep=", "): return sep.join([lit(v) for v in p] + ["%s=%s" % (a, lit(v)) for a, v in k])

def run(src, **ctx):
    try:
        m = RT.translate(src, **ctx)
        return None, m.dom.render(), m.symbols
    except Exception as ex: return exc_classes(ex) + [str(ex)[:150]], None, {}

def check(case):
    f, n = case["f"], case["n"]
    fn, why, srcs = f["fn"], [], []
    bad = case["bad"]
    def expect(what, src, er, got, want):
        srcs.append(src)
        if bad:
            if er is None: why.append("%s: failure expected, got %r" % (what, got))
        elif er is not None: why.append("%s: %r expected, fails with %s" % (what, want, er))
        elif got != want: why.append("%s: %r expected, got %r" % (what, want, got))
    if fn in ("cycle", "changes"):
        take = lambda it: list(itertools.islice(it, f["take"])) if f.get("take") else list(it)
        names = ["q%d" % i for i in range(len(f["seqs"]))]
        if fn == "cycle":
            def ctx(): return dict({a: kindof(q, n + i, i in f["inf"]) for i, (a, q) in enumerate(zip(names, f["seqs"]))}, take=take)
            st = {"first": "'first'", "longest": "'longest'", "False": "False", "other": "'first', step=2"}[f["stop"]]
            call = "cycle(%s)" % ", ".join(names + (["stop=%s" % st] if f["stop"] != "first" or n % 2 else []))
            want = [tuple(r) for r in case["r"]]
            use = call
            piped = "%s : cycle(%s)" % (names[0], call[len("cycle(" + names[0]):-1].lstrip(", ")) if names else None
        else:
            first = {"True": True, "False": False, "x": "x"}[f["first"]]
            vals = lambda: [pyvalue(x, n // 2 + i * n) for i, x in enumerate(f["seqs"][0])]
            def ctx(): return dict(q0=kindof_(vals(), n), take=take)
            call = "changes(q0%s)" % ("" if first is True and n % 2 else ", first=%s" % lit(first) if n % 3 else ", %s" % lit(first))
            piped = "q0 : changes(%s)" % call[len("changes(q0"):-1].lstrip(", ")
            want = [(v, first if c == f["first"] and i == 0 else c == "True") for i, (v, (_, c)) in enumerate(zip(vals(), case["r"]))]
        c = ctx()
        pre = "context %s\n" % ", ".join("$" + a for a in c)
        same = lambda got: [tuple(map(lambda y: [y, type(y).__name__], x)) if isinstance(x, tuple) else x for x in got] if isinstance(got, list) else got
        src = pre + "$r = take(%s)" % call
        er, out, sym = run(src, **ctx()); expect("function", src, er, same(sym.get("$r")), same(want))
        if piped and f.get("fn") == "changes" or piped and f["seqs"]:
            src = pre + "$r = take(%s)" % piped
            er, out, sym = run(src, **ctx()); expect("filter", src, er, same(sym.get("$r")), same(want))
        if not bad and (fn == "changes" or f["stop"] != "False"):
            k = 2 if fn == "changes" else len(names)
            vs = ", ".join("v%d" % i for i in range(k)) if k != 1 else "v0,"
            src = pre + "$out = []\nfor t in take(%s)\n    $%s = t\n    $out += [t]\n    / {%s}." % (call, vs, "}-{".join("str(v%d)" % i for i in range(k)))
            if k:
                er, out, sym = run(src, **ctx())
                expect("loop", src, er, out, "\n".join("-".join(map(str, t)) + "." for t in want))
                if er is None: expect("loop, values", src, er, same(sym.get("$out")), same(want))
    else:
        m = LETTERS[n % 3] if fn in ("lower", "upper", "unique", "dedent", "inline") else {}
        x = subst(case["s"], m)
        eol = fn in ("merge", "unique") and n % 7 == 3
        if eol: x = x.replace("\n", "\r\n")
        want = subst(case["r"], m)
        norm = (lambda t: "\n".join(l for l in t.split("\n") if l.strip()).strip()) if fn == "dedent" and f["full"] else (lambda t: t)
        N = lambda t: norm(t) if isinstance(t, str) else t
        p, k = opts(case)
        names = [fn] if fn != "crop" else [["crop", "truncate"][n % 2]]
        for g in names:
            src = "context $x\n$r = %s(%s)" % (g, ", ".join(["x"] + [args(p, k)] * bool(p or k)))
            er, out, sym = run(src, x=x); expect("function", src, er, N(sym.get("$r")), N(want))
            src = "context $x\n$r = x : %s%s" % (g, "(%s)" % args(p, k) if p or k or n % 2 else "")
            er, out, sym = run(src, x=x); expect("filter", src, er, N(sym.get("$r")), N(want))
            if fn == "crop" or n % (3 if fn != "doctype" else 1): continue
            # as a tag: the body of the tag is this text
            src = "context $d\n%s %s @ d" % (g, args(p, k, " "))
            er, out, sym = run(src, d=DOM(DOM.Text(x))); expect("tag", src, er, N(out), N(want))
            src = "context $x\n$r = %%%s(x%s)" % (g, "".join(", " + y for y in [args(p, k)] if y))
            er, out, sym = run(src, x=x); expect("tag in expression", src, er, N(sym.get("$r")), N(want))
            if x and x.strip() == x and "\n" not in x and "\r" not in x:
                src = "context $x\n%s %s / $x" % (g, args(p, k, " "))
                er, out, sym = run(src, x=x); expect("tag with a text", src, er, N(out), N(want))
                src = "%s %s ! %s" % (g, args(p, k, " "), x)
                er, out, sym = run(src); expect("tag with a literal text", src, er, N(out), N(want))
                src = "p : %s %s ! %s" % (g, args(p, k, " "), x)
                er, out, sym = run(src); expect("inner tag", src, er, N(out), "<p>" + N(want) + "</p>")
        if fn in ("crop",) and n % 5 == 0:
            for v in (3, None, ["a"]):
                er, out, sym = run("context $x\n$r = crop(x)", x=v); 
                if er is None: why.append("crop(%r): failure expected, got %r" % (v, sym.get("$r")))
    if not why: return {"n": n, "ok": True}
    return {"n": n, "ok": False, "why": why, "src": "\n----\n".join(srcs), "obs": why}

def kindof_(seq, n):
    k = n % 4
    return tuple(seq) if k == 1 else iter(seq) if k == 2 else (x for x in seq) if k == 3 else list(seq)
