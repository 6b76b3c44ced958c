"""Replays calls of Django's filters (HLib, "dj"): in this process, where Django isn't configured when the first filter is imported; in templates of the Django backend, in a process where it is"""
import sys, os, json, subprocess

def scripts(case):
    f, n = case["f"], case["n"]
    g, x = f["name"], case["s"]
    a = {"cut": [f["arg"]], "add": [f["arg"]], "default": [f["arg"]], "truncatechars": [f["num"]], "ljust": [f["num"]], "rjust": [f["num"]]}.get(g, [])
    args = ", ".join(map(repr, a))
    h = ["g", g][n % 2]
    imp = "from hypertag.django.filters import %s$%s%s\n" % (["", "$phone2numeric, "][n // 4 % 2], g, "" if h == g else " as " + h)
    if n % 11 == 5: imp, h = "from hypertag.django.filters import *\n", g
    first = imp if n // 2 % 2 else "context $x\n" + imp
    pre = "context $x\n" + imp
    return [("function", pre + "! [\n/ {%s(x%s)}\n! ]" % (h, ", " + args if args else ""), True), ("filter", pre + "! [\n/ {x : %s%s}\n! ]" % (h, "(%s)" % args if args or n % 3 == 0 else ""), True),
            ("escaped", pre + "p | {x : %s%s}" % (h, "(%s)" % args if args else ""), False), ("attribute", pre + "p title={x : %s%s} | k" % (h, "(%s)" % args if args else ""), False)]

def wanted(case, what):
    from xml.sax.saxutils import escape, quoteattr
    r = case["r"].replace("~", "\u2026")
    if what == "escaped": return "<p>" + escape(r) + "</p>"
    if what == "attribute": return "<p title=%s>k</p>" % quoteattr(r)
    return "[\n" + r + "\n]"

def attempt(render, src, x):
    try: return [None, render(src, x)]
    except Exception as ex: return ["%s: %s" % (type(ex).__name__, str(ex)[:200]), None]

def plain():
    from hypertag import HyperHTML
    RT = HyperHTML()
    return lambda src, x: RT.render(src, x=x)

CHILD = []
def inside(q):
    """the scripts of q as templates, in the other process"""
    if not CHILD: CHILD[:] = [subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), "child"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)]
    p = CHILD[0]
    p.stdin.write(json.dumps(q) + "\n"); p.stdin.flush()
    l = p.stdout.readline()
    if not l: raise Exception("the process with Django ended")
    return json.loads(l)

def child():
    import djangoside
    be = djangoside.backend([])
    for l in sys.stdin:
        print(json.dumps([attempt(lambda s, x: be.from_string(s).render({"x": x}), src, x) for src, x in json.loads(l)]), flush=True)

RENDER = []
def check(case):
    if not RENDER: RENDER[:] = [plain()]
    why, srcs = [], []
    # what the tail of a line loses, texts that aren't one line: only where it makes no difference
    x = case["s"]
    if case["f"]["name"] == "ordinal": x = int(x or 0)
    Q = [(w, s) for w, s, tail in scripts(case)]
    if x == 0: return {"n": case["n"], "ok": True}
    there = inside([(s, x) for w, s in Q])
    for (w, s), t in zip(Q, there):
        want = wanted(case, w)
        for place, (er, got) in (("without a project", attempt(RENDER[0], s, x)), ("in a template", t)):
            if er is not None or got != want: why.append("%s, %s: %r expected, got %r" % (w, place, want, er or got)); srcs.append(s)
    if not why: return {"n": case["n"], "ok": True}
    return {"n": case["n"], "ok": False, "why": why, "src": "\n----\n".join(srcs), "obs": why}

if __name__ == "__main__" and sys.argv[1:] == ["child"]: child()
