"""
Replays cases in the real code.  Reads one JSON case per line on stdin, writes one JSON verdict per line on stdout:
    {"n": case number, "ok": bool, "why": [...], "src": script, "obs": observation}
or, with "record", runs the program and writes the observation only (for validation of recorded traces by TLC).
"""
import sys, json, os, re, signal, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
import lang
from probes import *

RT = {}
class Tex(HyperHTML):
    """a runtime with an escape function of its own"""
    escape = staticmethod(lambda s: s.replace("&", "\\&").replace("<", "$<$").replace("x", "xx"))
class Plain(HyperHTML):
    escape = None
def runtime(fresh=False, esc="html"):
    cls = {"html": HyperHTML, "tex": Tex, "none": Plain}[esc]
    if fresh: return cls()
    if esc not in RT: RT[esc] = cls()
    return RT[esc]

def symbols(module, names):
    out = {}
    for k, v in module.symbols.items():
        if k[0] == "$" and k[1:] in names and not isinstance(v, (DOM, DOM.Node, GeneratorType)) and not (isinstance(v, list) and v and callable(v[-1])): out[k[1:]] = enc(v)
    return out

class Hang(BaseException): pass
def on_alarm(*a): raise Hang("no result in %s s" % LIMIT)
LIMIT = 20

# The character ~ of a program stands for any character outside the alphabet of the language: another one is taken for it
# when the script is run, and put back in what is observed (also where repr() writes it as an escape sequence).
OTHERS = ["~", "\u4e2d", "\u00a0", "\u2028", "\x0b", "\x85", "\U0001f600", "\u200b", "\x0c", "\ufeff", "\u0301", "\x1c", "\u2768"]
def put_back(x, u):
    if isinstance(x, str): return x.replace(u, "~").replace(repr(u)[1:-1], "~")
    if isinstance(x, list): return [put_back(y, u) for y in x]
    if isinstance(x, dict): return {k: put_back(y, u) for k, y in x.items()}
    return x

def observe(src, *args, **kw):
    global LIMIT
    signal.signal(signal.SIGALRM, on_alarm); signal.alarm(LIMIT)
    try:
        u = OTHERS[zlib.crc32(src.encode()) % len(OTHERS)] if "~" in src else "~"
        if u == "~": return _observe(src, *args, **kw)
        return put_back(_observe(src.replace("~", u), *args, **kw), u)
    except Hang as ex:
        LIMIT = 2; return {"er": "Hang", "cls": ["Hang"], "ln": 0, "t": [""], "tree": [], "sym": {}, "lg": [], "msg": str(ex)}
    finally: signal.alarm(0)

def observing(src, f):
    """f(src) with the stand-in character replaced, as in observe()"""
    signal.signal(signal.SIGALRM, on_alarm); signal.alarm(LIMIT)
    try:
        u = OTHERS[zlib.crc32(src.encode()) % len(OTHERS)] if "~" in src else "~"
        return f(src) if u == "~" else put_back(f(src.replace("~", u)), u)
    except Hang: return ["Hang", ["Hang"], 0, [""], []]
    finally: signal.alarm(0)

def state_of(rt):
    return {k: id(v) for k, v in getattr(rt, 'import_builtins', dict)().items() if k not in ("$__file__", "$__package__")}

def _observe(src, names, rt, twice=False, filename=None, extra=None):
    """run a script: translate, look at the tree and symbols, render"""
    pr = Probes()
    ob = {"er": "", "cls": [], "ln": 0, "t": [""], "tree": [], "sym": {}, "lg": pr.log, "msg": ""}
    ctx = dict(pr.vars); ctx.update(extra or {})
    before, bi = (dict(ctx), dict(pr.tags)), state_of(rt)
    try:
        m = rt.translate(src, __file__=filename, __tags__=dict(pr.tags), **ctx)
        ob["tree"] = tree(m.dom.body if isinstance(m.dom, DOM.Node) else m.dom)
        ob["sym"] = symbols(m, names)
        ob["t"] = m.dom.render().split("\n")
    except (Exception, Kbd) as ex:
        ob["cls"] = exc_classes(ex); ob["er"] = ob["cls"][0]; ob["ln"] = exc_line(ex); ob["msg"] = "%s: %s" % (type(ex).__name__, str(ex)[:300])
        ob["tree"] = []; ob["sym"] = {}; ob["t"] = [""]
    if (dict(ctx), dict(pr.tags)) != before or ctx["mut"] != [1, [2]] or ctx["mud"] != {"k": [3]}: ob["t"] = ["what the caller passed was modified"]; ob["er"], ob["cls"] = "Modified", ["Modified"]
    if state_of(rt) != bi: ob["t"] = ["the built-ins were modified"]; ob["er"], ob["cls"] = "Modified", ["Modified"]
    if twice and not ob["er"]:
        pr2 = Probes()
        try: t2 = rt.render(src, __file__=filename, __tags__=dict(pr2.tags), **dict(pr2.vars, **(extra or {}))).split("\n")
        except (Exception, Kbd) as ex: t2 = ["%s: %s" % (type(ex).__name__, ex)]
        if t2 != ob["t"]: ob["t"] = t2
        n = len(ob["lg"])
        try: t3 = m.dom.render().split("\n")
        except (Exception, Kbd) as ex: t3 = ["%s: %s" % (type(ex).__name__, ex)]
        ob["lg"], ob["lg2"] = ob["lg"][:n], ob["lg"][n:]
        if t3 != ob["t"]: ob["t"] = t3
    return opaque(ob)

# the text form of functions, tags and documents (with their memory address) is not specified: "?"
OPAQUE = re.compile(r"(&lt;|<)(function |built-in |class '|hypertag\.core\.|probes\.)[^\n<>&]*(&gt;|>)")
def opaque(x):
    if isinstance(x, str): return OPAQUE.sub("?", x) if "<" in x or "&lt;" in x else x
    if isinstance(x, list): return [opaque(y) for y in x]
    if isinstance(x, dict): return {k: opaque(y) for k, y in x.items()}
    return x

def lgnorm(q):
    """values of node type in the log are compared by kind"""
    def v(x):
        if isinstance(x, list) and x and x[0] in ("dom", "node", "it"): return [x[0]]
        if isinstance(x, list): return [v(y) for y in x]
        return x
    return [v(x) for x in q]

def compare(exp, ob):
    why = []
    if exp["er"] == "":
        if ob["er"]: return ["error: the script fails with " + ob["msg"]]
    else:
        if not ob["er"]: return ["error: %s expected at line %s, none raised" % (exp["er"], exp["ln"])]
        if exp["er"] not in ob["cls"]: why.append("error: %s expected, got %s" % (exp["er"], ob["msg"]))
        elif exp["ln"] and ob["ln"] != exp["ln"]: why.append("line: the error is reported at line %s instead of %s" % (ob["ln"], exp["ln"]))
    if lgnorm(exp["lg"]) != lgnorm(ob["lg"]): why.append("log: calls made to the outside differ")
    if "lg2" in ob and lgnorm(exp["lg"][exp["rl"]:]) != lgnorm(ob["lg2"]): why.append("log: calls made by a second rendering differ")
    if exp["er"] == "":
        if exp["t"] != ob["t"]: why.append("text: rendered text differs")
        if lgnorm(exp["tree"]) != lgnorm(ob["tree"]): why.append("tree: document tree differs")
        es = exp["sym"] if isinstance(exp["sym"], dict) else {}
        for k in set(es) | set(ob["sym"]):
            if es.get(k) != ob["sym"].get(k): why.append("symbol: exported value of $%s differs" % k); break
    return why

def names_of(prog):
    out = set()
    def tg(x):
        if x[0] == "v": out.add(x[1])
        else:
            for y in x[1]: tg(y)
    for l in prog:
        if l["k"] in ("asg", "for"): tg(l["a"]["tg"])
        if l["k"] == "aug": out.add(l["a"]["x"])
    return out

PROBE_NAMES = {"ob", "P", "boom", "kbd", "tick", "f3", "lazy", "pull", "bad", "mut", "mud", "X", "Y", "F", "G_", "XP", "XV"}
def source_of(case):
    """the script, with the first line that declares the probes; some that need none go without it: lines are counted as if it was there"""
    prog = case["prog"]
    bare = not case.get("pro", 1) or case["n"] % 3 == 0 and not PROBE_NAMES & lang.json_names(prog)
    return lang.source(prog, "" if bare else PROLOG, case.get("tn", 0)), int(bare and case.get("pro", 1))
def shifted(ob, by):
    if ob["ln"] > 0: ob["ln"] += by
    return ob

def check(case):
    prog = case["prog"]
    src, by = source_of(case)
    names = names_of(prog)
    ob = shifted(observe(src, names, runtime(esc=case.get("esc", "html")), twice=case["n"] % 8 == 0), by)
    why = compare(case["exp"], ob)
    if why:
        ob2 = shifted(observe(src, names, runtime(True, case.get("esc", "html"))), by)
        if not compare(case["exp"], ob2): why.append("history: passes in a fresh runtime")
    return {"n": case["n"], "ok": not why, "why": why, "src": src, "obs": ob} if why else {"n": case["n"], "ok": True}

def record(case):
    prog = case["prog"]
    src, by = source_of(case)
    fn = case.get("fn")
    ob = observe(src, names_of(prog), runtime(esc=case.get("esc", "html")), filename=fn, twice=case.get("twice") or case["n"] % 4 == 0)
    # a located error names the file of the script
    if fn and ob["ln"] and not ob["msg"].startswith("SyntaxErrorEx: invalid syntax") and fn not in ob["msg"]: ob["ln"] = -1
    if case.get("via"):
        import djangoside
        djangoside.same(src, ob, case["via"], Probes, exc_classes, exc_line, opaque, observing)
    return {"n": case["n"], "prog": prog, "obs": shifted(ob, by), "src": src}

def main():
    mode = sys.argv[1]
    fn = {"check": check, "record": record}
    if mode not in fn:
        import importlib
        fn[mode] = getattr(importlib.import_module("w_" + mode), "check")
    f = fn[mode]
    out = sys.stdout
    for line in sys.stdin:
        case = json.loads(line)
        try: r = f(case)
        except (Exception, Kbd):
            import traceback
            r = {"n": case["n"], "crash": traceback.format_exc()}
        out.write(json.dumps(r) + "\n"); out.flush()

if __name__ == "__main__": main()
