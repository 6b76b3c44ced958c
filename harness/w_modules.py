"""
Replays worlds of files and sequences of renderings (specification HModules) in the real code.
All effects stay in a scratch folder made for each case.
"""
import sys, os, shutil, tempfile, importlib, types, re, signal
from hypertag import HyperHTML, DOM, Tag
from hypertag.core.runtime import HyLoader, PyLoader
from probes import exc_classes, Boom, Kbd

PROBE = types.ModuleType("vp_probe")
LOG = []
def _ran(x): LOG.append(x); return ""
def _boom(): raise Boom("boom")
class Ext(Tag):
    def __init__(self, name, text = None): self.name, self.text = name, text or name
    def expand(self, body, attrs, kwattrs): return "(" + self.text + ")"
PROBE.ran, PROBE.boom, PROBE.Ext = _ran, _boom, Ext
sys.modules["vp_probe"] = PROBE
RQ = ("$request", "$csrf_token", "$csrf_input")
HOME = os.getcwd()

def expr(e):
    if e[0] == "c": return "'%s'" % e[1]
    if e[0] == "v": return e[1]
    if e[0] == "len": return "len('ab')"
    return "%s + %s" % (expr(e[1]), expr(e[2]))

def inl(e): return e[1] if e[0] == "c" and e[1] else "{%s}" % expr(e)
def path(p): return "." * p["up"] + ".".join(p["ps"])
def sym(it, W=" "): return it[0] if it[0] == "*" or it[0][1:] == it[1][1:] else "%s%sas%s%s" % (it[0], W, W, it[1][1:])
# spacing and comments that make no difference
GAPS = [" ", " ", "  ", "\t", " ", "   "]
COMMAS = [", ", ", ", ",", " , ", " ,\t", ",  "]
ENDS = ["", "", " # $it, \"is\" a comment", "", "\t-- from x import *", "#!"]

def source(lines, sf=0):
    out, ind = [], ""
    put = lambda s: out.append(ind + s)
    for n, l in enumerate(lines):
        k = l["k"]
        r = (sf * 5 + n * 7) % 6 if sf else 0
        W, C, Z = GAPS[r], COMMAS[r * 5 % 6 if sf % 2 else r], ENDS[(r + sf) % 6]
        if k == "cmt": put("# comment" if not l.get("blank") else "")
        elif k == "context": put("context" + W + C.join(sym(x, W) for x in l["items"]) + Z)
        elif k == "import": put("from%s%s%simport%s%s" % (W, path(l["path"]), W, W, C.join(sym(x, W) for x in l["items"])) + Z)
        elif k == "ctlimport": put("if True"); out.append(ind + "    from %s import %s" % (path(l["path"]), ", ".join(map(sym, l["items"]))))
        elif k == "set": put("$%s = %s" % (l["n"], expr(l["e"])))
        elif k == "def":
            put("%%%s" % l["n"])
            for b in l["b"]: out.append(ind + "    " + (b[1] if b[0] == "tag" else "| " + inl(b[1])))
        elif k == "out": put("| " + inl(l["e"]))
        elif k == "tag": put(l["n"])
        elif k == "open": put("section"); ind += "    "
        elif k == "close": ind = ind[:-4]
        elif k == "log": put("| {_ran('%s')}" % l["n"])
        elif k == "boom": put("$_b = _boom()")
        else: raise ValueError(k)
    pre = [x for x, k in (("$ran as _ran", "log"), ("$boom as _boom", "boom")) if any(l["k"] == k for l in lines)]
    if pre:         # behind the prolog
        i = 0
        while i < len(out) and (out[i].startswith(("context", "#")) or not out[i]): i += 1
        out.insert(i, "from vp_probe import " + ", ".join(pre))
    return "\n".join(out) + "\n"

def pysource(alt):
    out = ["import vp_probe as _vp"]
    if alt["ran"]: out.append("_vp.ran(%r)" % alt["ran"])
    tags = []
    for s, v in alt["symbols"]:
        if s[0] == "$": out.append("%s = %s" % (s[1:], repr(v[1]) if v[0] == "s" else "lambda *a: %r" % v[1]))
        else: tags.append("%r: _vp.Ext(%r, %r)" % (s[1:], s[1:], v[1]))
    if tags: out.append("__tags__ = {%s}" % ", ".join(tags))
    return "\n".join(out) + "\n"

def value(s, v):
    if v[0] == "s": return v[1]
    if v[0] == "fn": return lambda *a: v[1]
    return Ext(s[1:], v[1])

class Hang(BaseException): pass
def on_alarm(*a): raise Hang()

def purge(names):
    for k in list(sys.modules):
        if k.split(".")[0] in names: del sys.modules[k]
    importlib.invalidate_caches()

def norm(text):
    return [x.strip() for x in text.split("\n") if x.strip()]

def run(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix="vpw"))
    site, cwd = os.path.join(root, "site"), os.path.join(root, "cwd")
    obs = []
    names = {f["d"][1] if len(f["d"]) > 1 else f["n"] for f in case["files"] if f["d"][0] == "site"}
    for op in case["ops"]:
        for q in op["pkg"]: names.add(q[0])
    fold = lambda d: os.path.join(root, *d)
    old_path = list(sys.path)
    try:
        os.makedirs(site); os.makedirs(cwd)
        for f in case["files"]:
            os.makedirs(fold(f["d"]), exist_ok=True)
            with open(os.path.join(fold(f["d"]), f["n"] + "." + f["k"]), "w") as h:
                h.write(source(f["alt"]["lines"], case["n"]) if f["k"] == "hy" else pysource(f["alt"]))
        sys.path.insert(0, site)
        os.chdir(cwd)
        purge(names)
        res = {".".join(r[0]): os.path.join(fold(r[1]), r[2] + ".hy") for r in case["resolve"]}
        def runtime():
            if not res: return HyperHTML()
            return HyperHTML([HyLoader(lambda p, ref: res.get(p)), PyLoader()])
        rts = {}
        for op in case["ops"]:
            LOG[:] = []
            ctx = {}; tags = {}
            for s, v in op["ctx"]:
                if not (op.get("req") and s in RQ): 
                    # a symbol goes into its own dictionary, or under its full name (with the mark) into any
                    way = (case["n"] + len(ctx) + 2 * len(tags)) % 5 if op["how"] == "render" else 0
                    d = ctx if (s[0] == "$") == (way != 4) else tags
                    d[s[1:] if way < 3 else s] = value(s, v)
            before = dict(ctx), dict(tags)
            o = {"er": [], "msg": ""}
            if op["how"] == "write":
                fn = os.path.join(fold(op["path"]), op["name"] + ".hy")
                if op["to"]["absent"]:
                    if os.path.exists(fn): os.remove(fn)
                else:
                    os.makedirs(fold(op["path"]), exist_ok=True)
                    with open(fn, "w") as h: h.write(source(op["to"]["lines"], case["n"]))
                obs.append(dict(o, t=[], log=[], mod=False))
                continue
            signal.signal(signal.SIGALRM, on_alarm); signal.alarm(20)
            try:
                k = (op["rt"], op["how"] != "render")
                if op["how"] == "render":
                    if k not in rts: rts[k] = runtime()
                    kw = dict(ctx)
                    fn = op["dir"] and os.path.join(fold(op["dir"][0]), "zq_main_%s.hy" % len(obs)) or None
                    src = source(op["lines"], case["n"])
                    pkg = ".".join(op["pkg"][0]) if op["pkg"] else None
                    way = case["n"] % 3
                    if way == 0: o["t"] = norm(rts[k].render(src, fn, pkg, tags, **kw))
                    elif way == 1:
                        m = rts[k].translate(src, __file__=fn, __package__=pkg, __tags__=tags, **kw)
                        o["t"] = norm(m.dom.render())
                        if norm(m.dom.render()) != o["t"]: o["t"] = ["a second rendering of the DOM differs"]
                    else: o["t"] = norm(rts[k].render(src, __file__=fn, __package__=pkg, __tags__=tags, **kw))
                else:
                    import djangoside
                    if k not in rts: rts[k] = djangoside.backend([fold(d) for d in case["dirs"]])
                    o["t"] = norm(djangoside.render(rts[k], op["how"], "/".join(op["path"] + [op["name"] + ".hy"]), source(op["lines"], case["n"]), ctx, op.get("req", 0)))
            except (Exception, Kbd) as ex:
                o["er"] = exc_classes(ex) + [type(ex).__name__]; o["msg"] = "%s: %s" % (type(ex).__name__, str(ex)[:300]); o["t"] = []
            except Hang: o["er"] = ["Hang"]; o["msg"] = "no result in 20 s"; o["t"] = []
            finally: signal.alarm(0)
            o["log"] = list(LOG)
            o["mod"] = before != (ctx, tags)
            obs.append(o)
    finally:
        os.chdir(HOME)
        sys.path[:] = old_path
        purge(names)
        shutil.rmtree(root, ignore_errors=True)
    return obs

ALIAS = {"NoTemplate": ["TemplateDoesNotExist"], "Import": ["ImportError", "ModuleNotFoundError"]}
def check(case):
    obs = run(case)
    why = []
    for i, (e, o) in enumerate(zip(case["results"], obs)):
        w = "operation %d: " % (i + 1)
        if e["er"] and not o["er"]: why.append(w + "%s expected, none raised" % e["er"])
        elif o["er"] and not e["er"]: why.append(w + "fails with " + o["msg"])
        elif e["er"] and not set(ALIAS.get(e["er"], [e["er"]])) & set(o["er"]): why.append(w + "%s expected, got %s" % (e["er"], o["msg"]))
        elif not e["er"] and [x for x in e["t"] if x.strip()] != o["t"]: why.append(w + "the text differs")
        if e["log"] != o["log"]: why.append(w + "calls of the scripts differ: %s expected, got %s" % (e["log"], o["log"]))
        if o["mod"]: why.append(w + "the caller's context was modified")
    if not why: return {"n": case["n"], "ok": True}
    src = "\n".join("=== %s\n%s" % ("/".join(f["d"] + [f["n"] + "." + f["k"]]), (source(f["alt"]["lines"], case["n"]) if f["k"] == "hy" else pysource(f["alt"]))) for f in case["files"])
    for i, op in enumerate(case["ops"]):
        src += "\n=== operation %d: %s runtime %d dir %s package %s context %s %s\n%s" % (i + 1, op["how"], op["rt"], op["dir"], op["pkg"], op["ctx"], "/".join(op["path"] + [op["name"]]), source(op["lines"], case["n"]))
    return {"n": case["n"], "ok": False, "why": why, "src": src, "obs": obs}
