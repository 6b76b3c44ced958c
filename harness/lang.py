"""
Abstract syntax of Hypertag programs, in exactly the (JSON) shape used by spec/HCore.tla and spec/HExpr.tla,
and its translation to Hypertag source ("unparsing").  Runs under CPython and PyPy.

Only shapes are defined here, no semantics: what a program means is defined by the specification.
"""

# ---------------------------------------------------------------- expressions
NONE = ["lit", ["n"]]
def I(n):   return ["lit", ["i", n]]
def S(s):   return ["lit", ["s", s]]
def B(b):   return ["lit", ["b", bool(b)]]
def FL(p, q): return ["lit", ["f", p, q]]
def V(x):   return ["var", x]
def Call(f, *a, **kw): return ["call", V(f) if isinstance(f, str) else f, list(a), [[k, v] for k, v in kw.items()]]
def CallM(f, *at): return ["calm", V(f) if isinstance(f, str) else f, [list(q) for q in at]]      # arguments in written order
def Set(*es): return ["set", list(es)]
def Pipe(x, f, *a, **kw): return ["pipe", x, V(f) if isinstance(f, str) else f, list(a), [[k, v] for k, v in kw.items()]]
def Bin(op, a, b): return ["bin", op, a, b]
def Cmp(a, *rest): return ["cmp", a] + [list(r) for r in rest]
def L(*es): return ["list", list(es)]
def T(*es): return ["tup", list(es)]
def D(*ps): return ["dict", [list(p) for p in ps]]
def Idx(a, i): return ["idx", a, i]
NO = ["no"]
def Slc(a, i=NO, j=NO, k=NO): return ["slc", a, i, j, k]
def Mem(a, n): return ["mem", a, n]
def Meth(a, n, *args): return ["meth", a, n, list(args)]
def Q(q, e): return ["q", q, e]
def Cat(*es): return ["cat", list(es)]
def P(i, e): return Call("P", I(i), e)

# ---------------------------------------------------------------- text
def t(s):  return ["t", s]
def e(x, form=""): return ["e", x, form]
def ln(*segs, p=" ", b=0): return {"p": p, "b": b, "s": [t(s) if isinstance(s, str) else s for s in segs]}

NOHD = {"k": "-"}
def full(mk, *ls): return {"k": "full", "mk": mk, "lead": 0, "ls": list(ls)}
def head(mk, l):   return {"k": "head", "mk": mk, "ls": [l]}
def hemb(x):       return {"k": "emb", "e": x}
def htxt(*segs):   return full("|", ln(*segs))

# ---------------------------------------------------------------- lines
def line(k, a, m=0, mod="", q=False, pc=(), sf=0):
    l = {"k": k, "a": a, "m": m, "mod": mod, "q": q, "pc": list(pc), "sf": sf, "d": 0, "ind": ""}
    fix_lead(l)
    return l
def text(mk, *ls, **kw):  return line("text", {"mk": mk, "lead": 0, "ls": [x if isinstance(x, dict) else ln(x) for x in ls]}, **kw)
def txt(*segs, **kw):     return line("text", {"mk": "|", "lead": 0, "ls": [ln(*segs)]}, **kw)
def tv(x): return ["v", x]
def tu(*q): return ["u", [tv(x) if isinstance(x, str) else x for x in q]]
def asg(x, ex, **kw):     return line("asg", {"tg": tv(x) if isinstance(x, str) else x, "e": ex}, **kw)
def aug(x, op, ex, **kw): return line("aug", {"x": x, "op": op, "e": ex}, **kw)
def exl(ex, **kw):        return line("ex", {"e": ex}, **kw)
def ch(n, *at):           return {"n": n, "at": [list(x) for x in at]}
def tag(chain, hd=NOHD, **kw):
    c = [ch(x) if isinstance(x, str) else x for x in ([chain] if isinstance(chain, (str, dict)) else chain)]
    return line("tag", {"ch": c, "hd": hd}, **kw)
def mut(x, m, *ex, **kw): return line("mut", {"x": x, "m": m, "e": list(ex)}, **kw)
def btag(x, h, cell=0, **kw): return line("btag", {"x": x, "h": h, "cell": cell}, **kw)     # cell: kept as the last element of a list
def emb(ex, **kw):        return line("emb", {"e": ex}, **kw)
def pas(**kw):            return line("pass", {"x": ""}, **kw)
def cmt(s=" comment", mk="#", **kw): return line("cmt", {"mk": mk, "x": s}, **kw)
def bad(s, **kw):         return line("bad", {"x": s}, **kw)
def if_(c, hd=NOHD, **kw):   return line("if", {"e": c, "hd": hd}, **kw)
def elif_(c, hd=NOHD, **kw): return line("elif", {"e": c, "hd": hd}, **kw)
def else_(hd=NOHD, **kw):    return line("else", {"hd": hd}, **kw)
def while_(c, hd=NOHD, **kw): return line("while", {"e": c, "hd": hd}, **kw)
def try_(hd=NOHD, **kw):     return line("try", {"hd": hd}, **kw)
def for_(tg, ex, hd=NOHD, **kw): return line("for", {"tg": tv(tg) if isinstance(tg, str) else tg, "e": ex, "hd": hd}, **kw)
def def_(n, b="", at=(), hd=NOHD, **kw): return line("def", {"n": n, "b": b, "at": [[x, ["none"]] if isinstance(x, str) else list(x) for x in at], "hd": hd}, **kw)
def pc(v, h, body=None, at=()): return {"v": v, "vr": h[0] == "$", "h": h.strip("$[]"), "cl": int(h[-1] == "]"), "body": [] if body is None else [body], "at": [list(x) for x in at]}

HASHD = ("tag", "def", "if", "elif", "else", "for", "while", "try")
def can_hold(l):
    return l["k"] in HASHD and not (l["q"] and l["k"] != "tag") and \
           l["a"]["hd"]["k"] in (("-", "head") if l["k"] in ("tag", "def") else ("-",))

# ---------------------------------------------------------------- unparsing of expressions
LV = dict(ife=0, or_=1, and_=2, not_=3, cmp=4, cat=5, pipe=6, bor=7, bxor=8, band=9, shift=10, arith=11, term=12, pow=13, factor=14, atom=15)
OPLV = {"|": 7, "^": 8, "&": 9, "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "//": 12, "%": 12, "**": 13}

def quote(s, sf=0):
    """A formatted string literal of text `s` (escape sequences, doubled special characters)."""
    body = s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
    body = body.replace("{", "{{").replace("}", "}}").replace("$", "$$")
    q = '"' if ("'" in s or sf % 2) and '"' not in s else "'"
    return q + body.replace(q, "\\x%02x" % ord(q)) + q

class Un:
    """Unparser of expressions; `sf` selects among equivalent surface forms, `sub` maps pseudo-variables to source text."""
    def __init__(self, sf=0, sub=None): self.sf, self.sub, self.n, self.tight, self.last = sf, sub or {}, 0, False, None
    def pick(self, k):
        self.n += 1
        return (self.sf * 7 + self.n * 3 + (self.sf >> 2)) % k if self.sf else 0
    def at(self, x, lv):
        s, l = self.un(x)
        if self.tight and l >= lv: return s
        return s if l >= lv and self.pick(11) != 6 else "(" + self.w() + s + self.w() + ")"
    def w(self, dflt=""):
        """optional whitespace"""
        return [dflt, "", " ", "\t", "   "][self.pick(5)]
    def W(self):
        """obligatory whitespace"""
        return [" ", " ", "  ", "\t", "    "][self.pick(5)]
    def commas(self, items, close=True):
        """items separated by commas, maybe with a trailing one"""
        out = self.w()
        for i, y in enumerate(items): out += (self.w() + "," + self.w(" ") if i else "") + y
        return out + ("," if close and items and self.pick(7) == 3 else "") + (self.w() if items else "")
    def args(self, a, kw):
        return self.commas([self.at(x, 0) for x in a] + ["%s%s=%s%s" % (k, self.w(), self.w(), self.at(x, 0)) for k, x in kw])
    def value(self, v):
        k = v[0]
        if k == "i": return str(v[1]) if v[1] >= 0 else "-%d" % -v[1]
        if k == "b": return "True" if v[1] else "False"
        if k == "n": return "None"
        if k == "f":
            x = v[1] / float(v[2]); s = repr(x)
            forms = [s, s]
            if s.endswith(".0"): forms += [s[:-1], s + "0", s[:-2] + "e0", s[:-2] + "E+0"]
            elif s.startswith("0."): forms += [s[1:], s + "00", s + "e0"]
            return forms[self.pick(len(forms))]
        if k == "s":
            if self.pick(5) == 4 and not set(v[1]) & set("\n\r'\t"): return "r'" + v[1] + "'"     # raw: no escapes, no embeddings
            if self.pick(9) == 4 and not set(v[1]) & set('\n\r"\t'): return 'r"' + v[1] + '"'
            return quote(v[1], self.pick(2))
        raise ValueError(v)
    def tw(self):
        """whitespace before a tail operator: not allowed in attributes and after a $"""
        return "" if self.tight else self.w()
    def cmpop(self, op):
        a, b = self.w(" "), self.w(" ")
        if op[0] in "in": a, b = self.W(), self.W()                  # in, is, not in ...
        if op == "!=":
            a = self.W()                                             # "x!" is a qualified x
            if self.pick(3) == 2: op = "<>"
        return a + (self.W().join(op.split(" "))) + b
    def open(self, x):
        """an expression where a tuple may go without parentheses"""
        s = self.at(x, 0)
        return s[1:-1].strip() if x[0] == "tup" and x[1] and s == self.last and self.pick(2) else s
    def sp(self):
        """spaces before a text marker"""
        return [" ", " ", "", "  ", "   "][self.pick(5)]
    def comment(self):
        """an inline comment"""
        return ["", "", "", " # it's {a} | \"c\" : /", "  -- $c @ if", "\t#"][self.pick(6)]
    def strict(self, x, lv=0):
        """an expression with no spaces outside of brackets"""
        t, self.tight = self.tight, True
        try: return self.un(x)
        finally: self.tight = t
    def un(self, x):
        k = x[0]
        if k == "lit":
            s = self.value(x[1])
            return s, 11 if s[0] == "-" else 15
        if k == "raw": return x[1], 15
        if k == "var":
            if x[1] in self.sub: return self.sub[x[1]], 14
            return ("$" if self.pick(5) == 4 else "") + x[1], 15
        if k == "call": return self.at(x[1], 14) + self.tw() + "(" + self.args(x[2], x[3]) + ")", 14
        if k == "idx":
            i = self.open(x[2])
            return self.at(x[1], 14) + self.tw() + "[" + self.w() + i + self.w() + "]", 14
        if k == "slc":
            f = lambda y: self.w() + ("" if y[0] == "no" else self.at(y, 7) + self.w())
            s = f(x[2]) + ":" + f(x[3])
            if x[4][0] != "no": s += ":" + f(x[4])
            return self.at(x[1], 14) + self.tw() + "[" + s + "]", 14
        if k == "meth": return (self.at(x[1], 14) if x[1][0] != "lit" or x[1][1][0] not in "if" else "(" + self.at(x[1], 0) + ")") + self.tw() + "." + self.w() + x[2] + self.tw() + "(" + self.args(x[3], []) + ")", 14
        if k == "mem": return (self.at(x[1], 14) if x[1][0] != "lit" or x[1][1][0] not in "if" else "(" + self.at(x[1], 0) + ")") + self.tw() + "." + self.w() + x[2], 14
        if k == "q":
            s = self.at(x[2], 14)
            if s[-1] in "?!": s = "(" + s + ")"
            return s + x[1], 13.5          # may not take further tail operators
        if k == "calm": return self.at(x[1], 14) + self.tw() + "(" + self.commas([("%s%s=%s" % (n, self.w(), self.w()) if n else "") + self.at(y, 0) for n, y in x[2]]) + ")", 14
        if k == "set": return "{" + self.commas([self.at(y, 0) for y in x[1]]) + "}", 15
        if k == "pipe":
            t, self.tight = self.tight, True
            f = self.at(x[2], 14); self.tight = t
            a = self.args(x[3], x[4])
            return self.at(x[1], 6) + [" : ", ":", ": ", "  :\t"][self.pick(4)] + f + ("(" + a + ")" if a or self.pick(2) else ""), 6
        if k == "bin":
            op = x[1]; lv = OPLV[op]
            if lv == 13:
                a, b = self.at(x[2], 13.5), self.at(x[3], 13)
                return a + self.w(" ") + "**" + self.w(" ") + b, 13
            a, b = self.at(x[2], lv), self.at(x[3], lv + 1)
            return a + self.w(" ") + op + self.w(" ") + b, lv
        if k == "neg":
            return "-" + self.at(x[1], 12), 11
        if k == "cmp": return self.at(x[1], 5) + "".join(self.cmpop(op) + self.at(y, 5) for op, y in x[2:]), 4
        if k == "not": return "not" + self.W() + self.at(x[1], 3), 3
        if k == "and": return self.at(x[1], 2) + self.W() + "and" + self.W() + self.at(x[2], 3), 2
        if k == "or":  return self.at(x[1], 1) + self.W() + "or" + self.W() + self.at(x[2], 2), 1
        if k == "if":  return self.at(x[2], 1) + self.W() + "if" + self.W() + self.at(x[1], 1) + self.W() + "else" + self.W() + self.at(x[3], 0), 0
        if k == "if1": return self.at(x[2], 1) + self.W() + "if" + self.W() + self.at(x[1], 1), 0
        if k == "list": return "[" + self.commas([self.at(y, 0) for y in x[1]]) + "]", 15
        if k == "tup":
            self.last = "(" + (self.commas([self.at(y, 0) for y in x[1]]) if len(x[1]) != 1 else self.w() + self.at(x[1][0], 0) + self.w() + "," + self.w()) + ")"
            return self.last, 15
        if k == "dict": return "{" + self.commas([self.at(a, 7) + self.w() + ":" + self.w(" ") + self.at(b, 0) for a, b in x[1]]) + "}", 15
        if k == "fstr":
            s = segs_src(x[1], self, "'")
            return "'" + s + "'", 15
        if k == "cat":
            t, self.tight = self.tight, True                         # (no redundant parentheses)
            parts = [self.at(y, 6) for y in x[1]]; self.tight = t
            parts = ["0" + y if i and y[0] == "." else y for i, y in enumerate(parts)]
            # an operand that starts with a bracket or a minus would join the previous one
            for i in range(1, len(parts)):
                assert parts[i][0] not in "([-.", parts
            return "".join([parts[0]] + [self.W() + y for y in parts[1:]]), 5
        raise ValueError(x)

def is_chain(x):
    """variable with tail operators, as allowed after $ in text"""
    while True:
        if x[0] == "var": return True
        if x[0] in ("call", "calm", "idx", "slc", "meth", "mem"): x = x[1]
        elif x[0] == "q" and x[1] in ("?", "!"): x = x[2]; 
        else: return False
def plain_chain(x):
    q = x[2] if x[0] == "q" else x
    while True:
        if q[0] == "var": return True
        if q[0] in ("call", "calm", "idx", "slc", "meth", "mem"): q = q[1]
        else: return False

def segs_src(segs, un, quot=None):
    out = ""
    for i, s in enumerate(segs):
        if s[0] == "t": out += s[1]; continue
        x, form = s[1], s[2] if len(s) > 2 else ""
        nxt = segs[i + 1] if i + 1 < len(segs) else None
        nc = "" if nxt is None else (nxt[1][:1] if nxt[0] == "t" else "")
        src = None
        if form != "{" and plain_chain(x):
            t, un.tight = un.tight, True
            c = un.at(x, 14); un.tight = t
            if c.startswith("$"): c = c[1:]
            base = x[2] if x[0] == "q" else x
            while base[0] != "var": base = base[1]
            safe = not (nc.isalnum() or nc in ("_", "(", "[", ".", "?", "!")) and base[1] not in un.sub
            if safe and not c.startswith("(") and (form == "$" or un.pick(2) == 0): src = "$" + c
        if src is None:
            q = ""
            y = x
            if x[0] == "q" and (un.pick(2) or un.at(x, 0)[-1:] not in ("?", "!")): q, y = x[1], x[2]
            c = un.open(y) if not q else un.at(y, 0)
            if c.startswith("{"): c = "(" + c + ")"
            if c.endswith("}"): c = c + " "
            if un.sf and c[-1] not in " !?": c = un.w() + c + un.w()
            src = "{" + c + "}" + q
            if not q and nc in ("?", "!"): src = "{(" + c + ")}"; assert False, "qualifier collision: %r" % (segs,)
        out += src
    return out

# ---------------------------------------------------------------- unparsing of lines
def strict(x, un, short=False):
    """value of an attribute: an atom with tail operators and no outer spaces, or an embedding"""
    s, l = un.strict(x)
    k = un.pick(4)
    if l >= 13.5 and k < 3 and not s.startswith(("{", "-")): return s
    if s.startswith("{"): return "(" + s + ")"
    if k == 1 and x[0] != "q" and not s.endswith("}"): return "{" + s + "}"
    return "(" + s + ")"

def attrs_src(at, un):
    """attributes in the given order; shortcuts .x #x (possibly glued) for some literals and embedded values"""
    out, glue = "", True         # glue: a shortcut may follow immediately
    for n, x in at:
        gap = un.W()
        if n == "":
            s = strict(x, un)
            if s[0] == "$": s = s[1:]
            out += gap + s; glue = False
            continue
        if n in ("class", "id"):
            k, dot = un.pick(3), ".#"[n == "id"]
            if glue and un.pick(2): gap = ""
            if k and x[0] == "lit" and x[1][0] == "s" and x[1][1] and all(c.isascii() and c.isalnum() or c in "-_" for c in x[1][1]) and not (gap and dot == "." and x[1][1][0].isdigit()):      # " .9" is a number
                out += gap + dot + x[1][1]; glue = True
                continue
            if k == 2 and x[0] == "var" and x[1] not in un.sub:
                out += gap + dot + "$" + x[1]; glue = False
                continue
            if k == 2 and x[0] not in ("q", "dict"):
                c = un.at(x, 0)
                if c[0] != "{" and c[-1] not in "}?!": out += gap + dot + "{" + un.w() + c + un.w() + "}"; glue = True; continue
            gap = gap or " "
        out += "%s%s%s=%s%s" % (gap, n, un.w(), un.w(), strict(x, un)); glue = False
    return out

def pcs(l):
    sub = {}
    for c in l["pc"]:
        un = Un(l["sf"], dict(sub))
        a = ", ".join([un.at(x, 0) for n, x in c["at"] if n == ""] + ["%s=%s" % (n, un.at(x, 0)) for n, x in c["at"] if n != ""])
        body = un.at(c["body"][0], 0) if c["body"] else ""
        hn = c["h"] + "[-1]" * c["cl"] if c["vr"] else "%" + c["h"]
        if c["body"] and l["sf"] % 3 == 1: s = "(%s:%s%s)" % (un.at(c["body"][0], 6), hn, "(" + a + ")" if a or l["sf"] % 2 else "")
        elif not body and a: s = "%s(None, %s)" % (hn, a)
        else: s = "%s(%s%s)" % (hn, body, ", " + a if a else "")
        sub[c["v"]] = s
    return sub

def targets_src(tg, un, top=True):
    if tg[0] == "v": return tg[1]
    s = "".join((un.w() + "," + un.w(" ") if i else "") + targets_src(x, un, False) for i, x in enumerate(tg[1])) + ("," if len(tg[1]) == 1 or un.pick(5) == 2 else "")
    return s if top and un.pick(4) != 3 else "(" + un.w() + s + un.w() + ")"

def ls_src(mk, ls, un, ind):
    """source of text lines: the first without its marker, then (blank lines and) the tail"""
    out = []
    for i, x in enumerate(ls):
        s = "".join(y[1] for y in x["s"]) if mk == "!" else segs_src(x["s"], un)
        if i: out += [""] * x["b"] + [ind + x["p"] + s]
        else: out.append(x["p"] + s)
    return out

def inline_src(hd, pre, un, ind, colon=False):
    """append an inline body to the header `pre`; returns lines and the column of the marker; colon: a ":" has to stand before a comment"""
    k = hd["k"]
    if k == "-":
        if colon: return [pre + un.w() + ":" + un.comment()], 0
        return [pre + (un.comment() if colon is None else "")], 0
    if k == "emb":
        return [pre + " @" + un.w(" ") + un.at(hd["e"], 0) + un.comment()], 0
    gap = " " if hd["mk"] == "!" else un.sp()
    if k == "head": gap = un.w(" ").replace("\t", " ") + ":" + gap
    col = len(pre) + len(gap) + 1
    pre = pre + gap + hd["mk"]
    tl = ls_src(hd["mk"], hd["ls"], un, ind)
    if k == "head" and tl[0][:1] == " " and tl[0][1:2] not in ("", " ", "\t"):      # the gap: a space or a tab or nothing
        tl[0] = [" ", " ", "\t", ""][un.pick(4)] + tl[0][1:]
    return [pre + tl[0]] + tl[1:], col

def bare(s):
    """can the expression stand after if/for/while without parentheses? (not if / | : could start a text or a body)"""
    depth, q = 0, ""
    for c in s:
        if q: q = "" if c == q else q
        elif c in "'\"": q = c
        elif c in "([{": depth += 1
        elif c in ")]}": depth -= 1
        elif not depth and c in "/|:": return False
    return True

def line_src(l, ind, has_children=True, ret_lead=False):
    un = Un(l["sf"], pcs(l))
    k, a = l["k"], l["a"]
    pre = {"": "", "<": "<" + un.w(" ").replace("\t", " "), "...": "..." + un.w(" ").replace("\t", " ")}[l["mod"]] + ("?" + un.w(" ").replace("\t", " ") if l["q"] else "")
    hd = a.get("hd", NOHD)
    def cond(x):
        s = un.open(x) if k == "for" and hd["k"] == "-" else un.at(x, 0)
        return s if hd["k"] == "-" and un.pick(2) == 0 and s[0] != "{" and bare(s) else s if s[0] == "(" and s == un.last else "(" + un.at(x, 0) + ")"
    lead = 0
    colon = has_children and bool(l["sf"] % 2)
    if k == "text":
        lead = len(pre) + 1
        tl = ls_src(a["mk"], a["ls"], un, ind)
        out = [pre + a["mk"] + tl[0]] + tl[1:]
    elif k == "asg":
        un.pick(2)
        rhs = un.open(a["e"])
        out = [pre + ["$", "$ "][un.pick(2)] + targets_src(a["tg"], un) + un.w(" ") + "=" + un.w(" ") + rhs + un.comment()]
    elif k == "aug":
        out = [pre + "$" + un.w() + a["x"] + un.w(" ") + a["op"] + "=" + un.w(" ") + un.at(a["e"], 0) + un.comment()]
    elif k == "ex":
        out = [pre + "$ " + un.at(a["e"], 0) + un.comment()]
    elif k == "mut": out = [pre + ["$ ", "$"][un.pick(2)] + a["x"] + "." + a["m"] + "(" + un.args(a["e"], []) + ")" + un.comment()]
    elif k == "btag" and a["cell"]: out = [pre + "$ " + a["x"] + ".append(%" + a["h"] + ")"]
    elif k == "btag": out = [pre + ["$", "$ "][un.pick(2)] + a["x"] + " = %" + a["h"]]
    elif k == "emb":
        out = [pre + "@" + un.w(" ") + un.at(a["e"], 0) + un.comment()]
    elif k == "bad":  out = [pre + a["x"]]
    elif k == "pass": out = [pre + "pass"]
    elif k == "cmt":  out = [pre + a["mk"] + a["x"]]
    elif k == "tag":
        s = pre
        for i, c in enumerate(a["ch"]): s += (un.w(" ") + ":" + un.w(" ") if i else "") + c["n"] + attrs_src(c["at"], un)
        out, lead = inline_src(hd, s, un, ind, colon or None)
    elif k == "def":
        s = pre + "%" + un.w() + a["n"] + (un.W() + "@" + un.w() + a["b"] if a["b"] else "")
        for n, x in a["at"]:
            s += un.W() + n + ("" if x[0] == "none" else un.w() + "=" + un.w() + strict(x, un))
        out, lead = inline_src(hd, s, un, ind, colon or None)
    else:
        W = un.W()
        if k in ("if", "elif", "while"): s = pre + k + W + cond(a["e"])
        elif k == "for": s = pre + "for" + W + targets_src(a["tg"], un) + un.W() + "in" + un.W() + cond(a["e"])
        else: s = pre + k
        ok = s.endswith(")") or k in ("else", "try")
        out, lead = inline_src(hd, s, un, ind, colon and ok or (None if has_children and ok else False))
    if ret_lead: return lead
    out[0] = ind + out[0]
    return [""] * l["m"] + out

def fix_lead(l):
    """set the column of the text marker, which the layout of multi-line text depends on"""
    lead = line_src(l, "", ret_lead=True)
    if l["k"] == "text": l["a"]["lead"] = lead
    elif l["a"].get("hd", NOHD)["k"] == "full":
        l["a"]["hd"] = dict(l["a"]["hd"], lead=lead)
    return l

def source(prog, prolog="", tn=0):
    out = [prolog] if prolog else []
    for i, l in enumerate(prog):
        kids = i + 1 < len(prog) and prog[i + 1]["d"] > l["d"]
        out += line_src(l, l["ind"], kids)
    return "\n".join(out) + "\n" * tn

# ---------------------------------------------------------------- other names for the same things
NAMES = ["iffy", "elifx", "tryit", "formats", "whiles", "isx", "inn", "notx", "android", "orx", "from_", "importx", "passx", "breaks", "continued", "true", "none", "True_", "NoneX", "_", "__", "_1",
         "x1", "A", "Zz", "r", "u", "class", "id_", "def", "lambda", "as", "context", "body_", "e1", "E", "div", "p", "elsewhere", "forum", "false", "If", "NOT", "len_", "aVeryLongName_with_1234567890"]
TAGNAMES = ["iffy", "forum", "tryit", "passage", "fromx", "notx", "H_1", "_t", "inbox", "contextual", "island", "whilst", "elsewhere", "Div", "trying", "order", "android", "importer", "breaker", "tag_1"]
FIXED = {"ob", "mut", "mud", "P", "boom", "kbd", "tick", "f3", "lazy", "pull", "bad", "len", "str", "list", "range", "upper", "lower"}
def rename(prog, rng):
    """consistent renaming of the variables, attributes and hypertags of a program; functions and elements keep their names"""
    vs, ts = set(), set()
    def tg(x):
        if x[0] == "v": vs.add(x[1])
        else:
            for y in x[1]: tg(y)
    for l in prog:
        a = l["a"]
        if l["k"] in ("asg", "for"): tg(a["tg"])
        elif l["k"] in ("aug", "mut"): vs.add(a["x"])
        elif l["k"] == "btag": vs.add(a["x"])
        elif l["k"] == "def": ts.add(a["n"]); vs.update(n for n, _ in a["at"]); vs.update([a["b"]] if a["b"] else [])
    vs -= FIXED
    seen = json_names(prog)
    N = [n for n in rng.sample(NAMES, len(NAMES)) if n not in seen]; TN = [n for n in rng.sample(TAGNAMES, len(TAGNAMES)) if n not in seen]
    mv, mt = dict(zip(sorted(vs), N)), dict(zip(sorted(ts), TN))
    def v(n): return mv.get(n, n)
    def ex(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "var" and isinstance(x[1], str): return ["var", v(x[1])]
            if x and x[0] == "lit": return x
            if x and x[0] == "t" and len(x) == 2 and isinstance(x[1], str): return x
            return [ex(y) for y in x]
        return x
    def at(q, own): return [[v(n) if own and n else n, ex(x)] for n, x in q]
    def tgt(x): return ["v", v(x[1])] if x[0] == "v" else [x[0], [tgt(y) for y in x[1]]]
    def ls(q): return [dict(y, s=ex(y["s"])) for y in q]
    def hdd(h): return dict(h, ls=ls(h["ls"])) if "ls" in h else dict(h, e=ex(h["e"])) if "e" in h else h
    out = []
    for l in prog:
        a = dict(l["a"])
        if "e" in a: a["e"] = ex(a["e"])
        if "tg" in a: a["tg"] = tgt(a["tg"])
        if l["k"] in ("aug", "mut", "btag"): a["x"] = v(a["x"])
        if l["k"] == "btag": a["h"] = mt.get(a["h"], a["h"])
        if "ls" in a: a["ls"] = ls(a["ls"]) if a["mk"] != "!" else a["ls"]
        if "hd" in a: a["hd"] = hdd(a["hd"]) if a["hd"].get("mk") != "!" else a["hd"]
        if l["k"] == "tag": a["ch"] = [{"n": mt.get(c["n"], c["n"]), "at": at(c["at"], c["n"] in mt)} for c in a["ch"]]
        if l["k"] == "def": a["n"] = mt[a["n"]]; a["b"] = v(a["b"]); a["at"] = at(a["at"], True)
        pq = [dict(c, h=v(c["h"]) if c["vr"] else mt.get(c["h"], c["h"]), body=ex(c["body"]), at=at(c["at"], c["vr"] or c["h"] in mt)) for c in l["pc"]]
        l = dict(l, a=a, pc=pq); fix_lead(l); out.append(l)
    return out
def json_names(x):
    """all strings in a program: candidates for collisions"""
    if isinstance(x, str): return {x}
    out = set()
    for y in (x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else ()): out |= json_names(y)
    return out
