"""Replays lines, literals and expressions given as plain source (specification HLex)."""
import re
from hypertag import HyperHTML
from probes import enc, exc_classes
from hypertag.core.ast import Grammar
RT = HyperHTML()
SPECIAL = list(getattr(Grammar, 'CHARS_DEFAULT', '\u2768\u2769\u276a\u276b')) + [u"\u00e9", u"\U0001f600", u"\u276c"]      # the first ones represent indentation inside the parser
ENV = dict(x="aB", y=[5, "q", [0]], z="", n=None, k=3, note=2, Trueish="tr", iffy=1, d={"k": "v", 0: 9})
def f3(a, b='B', c='C'): return "%s-%s-%s" % (a, b, c)
CTX = dict(ENV, f3=f3)
PRE = "context " + ", ".join("$" + a for a in sorted(CTX)) + "\n"

def vis(s): return "".join(c if c in "\n\t\r" or 32 <= ord(c) <= 126 else "~[%d]" % ord(c) for c in s)
def norm(v):
    if isinstance(v, list): return [norm(w) for w in v]
    return FN.sub("?", vis(v)) if isinstance(v, str) else v
FN = re.compile(r"(<|&lt;)(built-in )?(function|class|bound method) .*?(>|&gt;)")
def opaque(v):
    if isinstance(v, list): return v[:1] in (["fn"], ["?"]) or any(opaque(w) for w in v)
    return False
def html(s): return s.replace("&", "&amp;").replace(">", "&gt;").replace("<", "&lt;")

def run(src):
    try:
        m = RT.translate(src, **CTX)
        return [], m.dom.render(), m.symbols
    except RecursionError: raise
    except Exception as ex: return exc_classes(ex) + [str(ex)[:150]], "", {}

def check(case):
    n, s, mode, er, want = case["n"], case["s"], case["m"], case["er"], case["v"]
    why, srcs = [], []
    if er == "SKIP" or mode == "expr" and ("#" in s or "--" in s): return {"n": n, "ok": True, "skip": True}
    if re.search(r"\\[abfvxu0-7]", s) and re.search(r"[\[(*<>]| in ", s): return {"n": n, "ok": True, "skip": True}    # characters denoted by their codes
    er = {"ValueError0": "ValueError"}.get(er, er)
    def one(what, src, conv, get):
        srcs.append(src)
        e, out, sym = run(PRE + src)
        if er:
            if not e: why.append("%s: %s error expected, got %r" % (what, er, get(out, sym)))
            elif er not in e: why.append("%s: %s error expected, got %s" % (what, er, e))
        elif e: why.append("%s: %r expected, fails with %s" % (what, want, e))
        else:
            got = get(out, sym)
            if opaque(got) or opaque(want): return
            if norm(got) != conv(want): why.append("%s: %r expected, got %r" % (what, conv(want), got))
    if mode == "expr":
        one("assignment", "$r = " + s, lambda v: v, lambda out, sym: enc(sym.get("$r")))
        if n % 4 == 0 and s.strip(): one("in place", "$rr = []\n$rr += [ (" + s + ") ]", lambda v: ["l", [v]], lambda out, sym: enc(sym.get("$rr")))
        # an embedded expression gives the same
        if n % 3 == 0 and want[0] == "s" and not er and "\n" not in want[1] and want[1].strip() == want[1] and want[1]:
            one("embedding", "/ { " + s + " }", lambda v: v[1], lambda out, sym: out)
            one("attribute of a tag", "%H a\n    / {a}\nH ( " + s + " )", lambda v: v[1], lambda out, sym: out)
    elif mode == "line":
        if s != s.rstrip(): s = s.rstrip(); want = [want[0], want[1].rstrip()] if len(want) > 1 else want
        if n % 5 == 2 and not er and want[0] == "s" and (n % 60 == 2 or n // 5 % 7 > 3 and n // 35 % 7 > 3):
            sp = SPECIAL[n // 5 % 7] + SPECIAL[n // 35 % 7]
            s, want = s + sp, [want[0], want[1] + vis(sp)]
        form = [("| ", 1, "%s"), ("/ ", 0, "%s"), ("p | ", 1, "<p>%s</p>"), ("p / ", 0, "<p>%s</p>"), ("p : b : | ", 1, "<p><b>%s</b></p>"), ("if True | ", 1, "%s"), ("?| ", 1, "%s"), ("try / ", 0, "%s")]
        for k in (n % 2, 2 + n % 6):
            mk, esc, wrap = form[k]
            if er and mk[0] in "?t": continue
            one("text", mk + s, lambda v: wrap % (html(v[1]) if esc else v[1]), lambda out, sym: out)
        # as a literal, when it has no quotes and escapes
        if "'" not in s and "\\" not in s and '"' not in s: one("literal", "$r = " + "'\""[n % 2] + s + "'\""[n % 2], lambda v: v, lambda out, sym: enc(sym.get("$r")))
    else:
        s = s.rstrip()
        if n % 30 == 2 and want[0] == "s":
            sp = SPECIAL[n // 30 % 7]
            s, want = s + sp, [want[0], want[1].rstrip() + vis(sp)]
        for mk, wrap in (("! ", "%s"), ("p ! ", "<p>%s</p>"))[n % 2:][:1]:
            one("verbatim", mk + s, lambda v: wrap % v[1].rstrip(), lambda out, sym: out)
    if not why: return {"n": n, "ok": True}
    return {"n": n, "ok": False, "why": why, "src": "\n----\n".join(srcs), "obs": why}
