"""
What the harness passes into scripts, and how values, trees, exceptions of the real code are projected to the
terms of the specification.  Runs under PyPy with /repo's code.
"""
import sys, re
from types import GeneratorType
from fractions import Fraction
from hypertag import HyperHTML, DOM, Tag, TagFunction, Markup
from hypertag.core import errors as E

class Boom(Exception): pass
class Kbd(BaseException): pass

class Probes:
    """functions and tags observed by the specification; every call is appended to the log"""
    def __init__(self):
        self.log = log = []
        def P(i, v): log.append(["P", i, enc(v)]); return v
        def boom(i): log.append(["boom", i]); raise Boom("boom %s" % i)
        def kbd(i): log.append(["kbd", i]); raise Kbd("kbd %s" % i)
        def tick(i, n):
            k = sum(1 for e in log if e == ["tick", i]); log.append(["tick", i]); return k < n
        def f3(a, b='B', c='C'): log.append(["f3"]); return "%s-%s-%s" % (a, b, c)
        def lazy(q): q = iter(q); return (v for v in q)
        def pull(i, q):
            for v in list(q): log.append(["pull", i, enc(v)]); yield v
        def bad(i, q):
            yield from pull(i, q); boom(i)
        class X_(Tag):
            def __init__(self, name): self.name = name
            def expand(self, body, attrs, kwattrs):
                log.append(["X", self.name, [enc(v) for v in attrs], [[k, enc(v)] for k, v in kwattrs.items()]])
                if not isinstance(body, DOM): raise AssertionError("the body passed to a tag is not a DOM")
                text = body.render()
                nl = '\n' if text[:1] == '\n' else ''
                return "[" + self.name + "|" + text + nl + "]"
        def F(body, *attrs, **kw):
            log.append(["F", body.split("\n"), [enc(v) for v in attrs], [[k, enc(v)] for k, v in kw.items()]])
            return "(" + body + ")"
        def G_(body, *attrs, **kw):
            log.append(["G", len(tree(body)), [enc(v) for v in attrs], [[k, enc(v)] for k, v in kw.items()]])
            return "{" + body.render() + "~" + body.render() + "}"
        class Ob:
            def __init__(self, name, **kw): self.name_ = name; self.__dict__.update(kw)
            def __repr__(self): return "<" + self.name_ + ">"
        class Ob_(Ob):
            @property
            def p(self): return P(52, 7)
            @property
            def bad(self): boom(51)
            def m(self, x): return P(50, x)
        ob = Ob_("ob", a="A<", n=3, k=[1, ("u", None)], z=None, P=P, f3=f3)
        ob.sub = Ob("sub", a="s", up=ob)
        self.vars = dict(ob=ob, P=P, boom=boom, kbd=kbd, tick=tick, f3=f3, lazy=lazy, pull=pull, bad=bad, mut=[1, [2]], mud={"k": [3]})
        self.tags = dict(X=X_("X"), Y=X_("Y"), F=TagFunction(F), G_=TagFunction(G_, dom=True), XP=Markup("xp-1", mode="XHTML"), XV=Markup("xv", True, "XHTML"))

PROLOG = "context $ob, $P, $boom, $kbd, $tick, $f3, $lazy, $pull, $bad, $mut, $mud, %X, %Y, %F, %G_, %XP, %XV"

def enc(v):
    """value -> term of the specification"""
    if v is None: return ["n"]
    if isinstance(v, bool): return ["b", v]
    if isinstance(v, int): return ["i", v]
    if isinstance(v, float):
        try: f = Fraction(v)
        except (ValueError, OverflowError): return ["?", repr(v)]
        return ["f", f.numerator, f.denominator]
    if isinstance(v, str): return ["s", v]
    if isinstance(v, list): return ["l", [enc(x) for x in v]]
    if isinstance(v, tuple): return ["t", [enc(x) for x in v]]
    if isinstance(v, GeneratorType): return ["it"]
    if isinstance(v, range): return ["l", [enc(x) for x in v]]
    if isinstance(v, dict): return ["d", [[enc(a), enc(b)] for a, b in v.items()]]
    if isinstance(v, set): return ["set", sorted([enc(x) for x in v], key=repr)]
    if type(v).__name__ in ("dict_keys", "dict_values", "dict_items"): return ["view", type(v).__name__[5:], [enc(x) for x in v]]
    if type(v).__name__ in ("Ob", "Ob_"): return ["o", v.name_]
    if isinstance(v, DOM): return ["dom", tree(v)]
    if isinstance(v, DOM.Node): return ["node"]
    return ["?", type(v).__name__]

def tree(dom):
    """normalised shape of a DOM: adjacent text merged, empty text dropped"""
    out = []
    for n in dom.nodes:
        if isinstance(n, DOM.Text):
            if n.text == "": continue
            if out and out[-1][0] == "T": out[-1] = ["T", (("\n".join(out[-1][1])) + n.text).split("\n")]
            else: out.append(["T", n.text.split("\n")])
        elif n.tag is None and not isinstance(n, DOM.Root):
            out.append(["?", type(n).__name__])
        else:
            t = n.tag
            name = t if isinstance(t, str) else getattr(t, "name", None) or type(t).__name__
            kw = n.kwattrs
            out.append(["E", name, [enc(v) for v in (n.attrs or [])], [[k, enc(v)] for k, v in (kw.items() if kw else [])], tree(n.body)])
    return out

def untree(x):
    """the term as printed by TLC -> the same normal form (DOM values compare by kind only)"""
    return x

KINDS = [("UndefTag", "UndefinedTagEx"), ("Name", "NameErrorEx"), ("Unbound", "UnboundLocalEx"), ("VoidTag", "VoidTagEx"), ("NoneString", "NoneStringEx")]
def exc_classes(ex):
    """all names of the specification an exception may go by"""
    if isinstance(ex, Boom): return ["Boom"]
    if isinstance(ex, Kbd): return ["Kbd"]
    names = [c.__name__ for c in type(ex).__mro__]
    out = []
    if "UndefinedTagEx" in names: out.append("UndefTag")
    if "UnboundLocalEx" in names or "UnboundLocalError" in names: out.append("Unbound")
    elif "NameErrorEx" in names or "NameError" in names: out.append("Name")
    if "VoidTagEx" in names: out.append("VoidTag")
    if "NoneStringEx" in names: out.append("NoneString")
    if "FalseValueEx" in names: out.append("FalseValue")
    if "IndentationError" in names: out.append("Indentation")
    elif "SyntaxError" in names or "SyntaxErrorEx" in names: out.append("Syntax")
    if "TypeError" in names or "TypeErrorEx" in names: out.append("TypeError")
    if "ValueError" in names or "ValueErrorEx" in names: out.append("ValueError")
    for n in ("ZeroDivisionError", "IndexError", "KeyError", "AttributeError", "ImportError", "ModuleNotFoundError", "RecursionError", "MissingValueEx"):
        if n in names: out.append(n)
    return out or names[:1]

LINE = re.compile(r"line (\d+)")
def exc_line(ex):
    m = LINE.findall(str(ex))
    return int(m[-1]) if m else 0
