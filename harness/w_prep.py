"""Replays scripts of specification HPrep: block structure from indentation."""
import signal
from hypertag import DOM, HyperHTML
from hypertag.core.ast import Grammar
from probes import exc_classes, exc_line
RT = HyperHTML()
SPECIAL = list(getattr(Grammar, 'CHARS_DEFAULT', '\u2768\u2769\u276a\u276b'))
WS = ["", " ", "\t", "  ", " \t ", "\r", "\u00a0", "\x0c"]

ODD = ["\u00a0", "\x0c", "\u2003", "\x0b", "\u00a0 ", "\x85", "\u2028\t", "\x1f"]

class Hang(BaseException): pass
def on_alarm(*a): raise Hang()

def lines_of(case):
    n, out = case["n"], []
    takes = any(k in ("text", "full") for i, k in case["s"])
    for k, (ind, kind) in enumerate(case["s"], 1):
        i = ind.replace("s", " ").replace("t", "\t")
        c = "x%d" % k
        if case["chars"]: c += SPECIAL[(n // 8 + k) % 4] + "\u00e9" + (chr(ord(SPECIAL[0]) + 4 + (n + k) % 3) if n // 8 % 3 == 0 else "")
        t = WS[(n * 7 + k * 3) % len(WS)] if case["trail"] else ""
        body = {"tag": "div", "if": "if True", "text": "| " + c, "raw": "! " + c, "cmt": "# " + c, "full": "p| " + c, "leaf": ("$v = 1", "pass")[(n + k) % 2 if not takes else 1], "blank": "", "odd": ODD[(n + k) % len(ODD)] + c}[kind]
        if kind == "tag": body = ("div", "div:", "div #i%d" % k, "div : null", "div class='%s'" % c)[(n + k) % 5 if case["forms"] else 0].replace(" : null", " :")
        if kind == "if" and case["forms"]: body = ("if True", "if True:", "try", "for _i in [1]", "try:")[(n + k) % 5]
        if kind == "cmt" and case["forms"] and n % 2: body = "-- " + c
        out.append((i + body + t, c))
    return out

def shape(case, cont):
    """expected tree; control blocks add no elements"""
    kids, lines = {}, {}
    for k, (what, of) in enumerate(case["tree"], 1):
        if what == "block": kids.setdefault(of, []).append(k)
        elif what == "text": lines.setdefault(of, []).append(k)
    kind = lambda k: case["s"][k - 1][1]
    def raw(k):         # a line absorbed by a text block: its whole content
        return cont[k - 1].rstrip().lstrip(" \t")
    def go(at):
        out = []
        def text(t):
            if out and out[-1][0] == "T": out[-1][1].extend(t)
            else: out.append(["T", list(t)])
        for k in kids.get(at, []):
            x = kind(k)
            if x == "tag": out.append(["E", "div", go(k)])
            elif x == "if":
                for y in go(k):
                    if y[0] == "T": text(y[1])
                    else: out.append(y)
            elif x in ("text", "raw"): text([raw(k)[2:]] + [raw(j) for j in lines.get(k, [])])
            elif x == "full": out.append(["E", "p", [["T", [raw(k)[3:]] + [raw(j) for j in lines.get(k, [])]]]])
        return out
    return go(0)

def tree(dom):
    out = []
    for n in dom.nodes:
        if isinstance(n, DOM.Text):
            q = [x.rstrip().lstrip(" \t") for x in n.text.split("\n") if x.strip()]
            if not q: continue
            if out and out[-1][0] == "T": out[-1][1].extend(q)
            else: out.append(["T", q])
        else: out.append(["E", n.tag.name if n.tag else type(n).__name__, tree(n.body)])
    return out

def check(case):
    ls = lines_of(case)
    eol = "\r\n" if case["trail"] and case["n"] % 5 == 0 else "\n"
    src = eol.join(s for s, c in ls) + (eol if case["n"] % 2 else "")
    er, got = [], None
    signal.signal(signal.SIGALRM, on_alarm); signal.alarm(20)
    try: got = tree(RT.translate(src).dom.body)
    except Hang: er = ["Hang"]
    except Exception as ex: er = exc_classes(ex) + [str(ex)[:200]]; at = exc_line(ex)
    finally: signal.alarm(0)
    why = []
    if case["er"]:
        if not er: why.append("%s error expected, none raised" % case["er"])
        elif case["er"] not in er: why.append("%s error expected, got %s" % (case["er"], er))
        elif at != case["ln"]: why.append("the error of line %s is reported at line %s" % (case["ln"], at))
    elif er: why.append("fails with %s" % er)
    else:
        # an absorbed line keeps its content, whatever it looks like
        want = shape(case, [s for s, c in ls])
        if want != got: why.append("structure: %s expected, got %s" % (want, got))
    if not why: return {"n": case["n"], "ok": True}
    return {"n": case["n"], "ok": False, "why": why, "src": src.replace("\t", "\\t"), "obs": [er, got]}
