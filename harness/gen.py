"""
Random programs, larger than those enumerated by TLC, for validation of recorded executions.
The generator knows nothing about results; it only tracks names roughly so that most programs pass static analysis.
"""
import random
from lang import *

MARK = ["div", "p", "b", "i", "ul", "li", "a", "h1", "span"]
TEXTS = ["a", "bc", "x & y", "<i>", "a>b", "&amp;", "{{", "}}", "$$", "q ", "two  spaces", "d.", "'s'", '"q"', "tail", "a~b", "~c"]
STRS = ["", "a", "bc", "A&b", "<x>", "it's", 'say "hi"', "p\nq", "$5", "{z}", "a b", " c", "m\n    n", "~", "x~y", "  u\n  v\n", "\n~w"]

class Gen:
    def __init__(self, rnd, size=10, depth=4, w=None):
        self.r, self.size, self.maxd = rnd, size, depth
        self.pid = 0
        self.out = []
        self.w = dict(text=10, asg=7, aug=3, ex=2, tag=12, emb=1, pas=1, cmt=1, if_=5, for_=4, while_=2, try_=4, def_=4, call=6, ext=3, opt=2, mut=2, btag=1, deep=1.0, err=0.06, bad=0.01, mod=0.06, marg=0.2, multi=0.25, mk=0.25, pcs=0.05, sf=0.7, emb_in_def=8)
        self.w.update(w or {})
        self.scopes = [[set(), {}, set(), set()]]       # names of variables, hypertags {name: (body, attrs)}, body variables
    # ---- helpers
    def ch(self, q): return self.r.choice(q)
    def p(self, x): return self.r.random() < x
    def sf(self): return self.r.randrange(64) if self.p(self.w["sf"]) else 0
    def id(self): self.pid += 1; return I(self.pid)
    def visible(self, k):
        out = {} if k == 1 else set()
        for s in self.scopes: out.update(s[k])
        return out
    # ---- expressions
    def var(self):
        vis = sorted(self.visible(0))
        if vis and not self.p(self.w["bad"]): return V(self.ch(vis))
        if self.p(self.w["bad"]): return V(self.ch("xyzvw"))
        return None
    def lit(self):
        k = self.r.randrange(10)
        if k < 5: return I(self.r.choice([0, 1, 2, 3, 5, 7]))
        if k < 8: return S(self.ch(STRS))
        if k < 9: return B(self.p(.5))
        return NONE if self.p(.3) else I(4)
    def num(self, d=0):
        v = self.var() if self.p(.5) else None
        if v: return v
        if d > 1: return I(self.r.randrange(5))
        return self.ch([I(self.r.randrange(6)), Bin(self.ch(["+", "-", "*"]), self.num(d + 1), self.num(d + 1)), Call("len", S("abc"))])
    def expr(self, d=0):
        k = self.r.randrange(20)
        if self.p(self.w["err"] * .5): return Call("boom", self.id()) if self.p(.93) else Call("kbd", self.id())
        if self.p(self.w["err"] * .3): return self.ch([Bin("/", I(1), I(0)), Bin("+", I(1), S("a")), Idx(S("ab"), I(9)), Idx(D((S("a"), I(1))), S("b"))])
        if d > 2 or k < 5: return self.lit()
        if k < 9:
            v = self.var()
            return v if v else self.lit()
        if k < 11: return P2(self.id(), self.expr(d + 1))
        if k == 11: return Bin(self.ch(["+", "-", "*", "//", "%"]), self.num(), self.num())
        if k == 12: return Cmp(self.num(), [self.ch(["<", ">", "==", "!=", "<=", ">="]), self.num()])
        if k == 13: return self.ch([lambda: ["and", self.expr(d + 1), self.expr(d + 1)], lambda: ["or", self.expr(d + 1), self.expr(d + 1)], lambda: ["not", self.expr(d + 1)]])()
        if k == 12 and 0: pass
        if k == 14 and self.p(.25):
            q = [["", self.expr(d + 1)], ["b", self.expr(d + 1)], ["c", self.expr(d + 1)]]; self.r.shuffle(q)
            return CallM("f3", *q)
        if k == 15 and self.p(.2): return self.ch([lambda: Set(self.lit()), lambda: Call("len", Set(self.lit(), self.lit())), lambda: Cmp(self.lit(), [self.ch(["in", "not in"]), Set(self.lit(), self.lit())])])()
        if k == 14: return ["if", self.expr(d + 1), self.expr(d + 1), self.expr(d + 1)]
        if k == 15: return self.ch([L, T])(*[self.expr(d + 1) for _ in range(self.r.randrange(3))])
        if k == 16: return Q(self.ch("?!"), self.expr(d + 1))
        if k == 17: return ["fstr", [t(self.ch(["a", "b "])), e(self.expr(d + 2) if self.p(.3) else (self.var() or I(1)), "")]]
        if k == 18 and self.p(.4): return self.ch([lambda: Mem(V("ob"), self.ch(["a", "n", "k", "p", "z"])), lambda: Mem(Mem(V("ob"), "sub"), self.ch(["a", "a", "up"])), lambda: Meth(V("ob"), "m", self.expr(d + 1)), lambda: Meth(D((S("a"), self.expr(d + 1))), "get", S(self.ch("ab"))), lambda: Meth(L(I(1), self.expr(d + 1)), "index", I(1)), lambda: Meth(S("a,b"), "split", S(","))])()
        if k == 18: return Idx(self.ch([S("abc"), L(I(1), I(2), I(3)), D((S("a"), I(1)), (I(0), S("z")))]), self.ch([I(0), I(1), S("a"), I(-1)]))
        return self.ch([lambda: Pipe(self.strv(), "upper"), lambda: Call("f3", self.expr(d + 1), c=self.expr(d + 1)), lambda: Meth(S("ab"), "upper"), lambda: Cat(self.strv(), self.ch([V("len") if 0 else S("t"), P2(self.id(), S("u"))]))])()
    def strv(self): return S(self.ch(STRS))
    def cond(self):
        return self.ch([lambda: B(self.p(.6)), lambda: self.expr(1), lambda: Cmp(self.num(), [self.ch(["<", ">", "=="]), self.num()]), lambda: self.var() or B(True)])()
    def items(self):
        return self.ch([lambda: L(*[self.expr(2) for _ in range(self.r.randrange(4))]), lambda: Call("range", I(self.r.randrange(4))), lambda: S(self.ch(["", "ab", "xyz"])),
                        lambda: L(), lambda: P2(self.id(), L(I(1), I(2))), lambda: self.var() or L(I(1)) if self.p(.3) else L(I(1), S("k"))])()
    # ---- text
    def segs(self, raw=False):
        out = []
        for _ in range(self.r.randrange(1, 4)):
            if raw or self.p(.5): out.append(t(self.ch(TEXTS) if not raw else self.ch(TEXTS + ["$x", "{y}", "{"])))
            else: out.append(e(self.expr(1) if self.p(.5) else (self.var() or I(3)), ""))
        return self.clean(out)
    def clean(self, segs):
        if segs[-1][0] == "t": segs[-1] = t(segs[-1][1].rstrip() or "d")     # trailing whitespace of lines is not significant
        return segs
    def lines(self, multi=True):
        mk = "|" if not self.p(self.w["mk"]) else self.ch("|/!")
        q = [ln(*self.segs(mk == "!"), p=self.ch([" ", " ", " ", "", "  "]))]
        if multi and self.p(self.w["multi"]):
            base = self.ch(["  ", "   ", "    ", " "])
            for _ in range(self.r.randrange(1, 4)):
                q.append(ln(*self.segs(mk == "!"), p=base + self.ch(["", "", " ", "  "]), b=self.ch([0, 0, 0, 1])))
        return mk, q
    def inline(self, ok_head=True):
        if self.p(.12):
            b = sorted(self.visible(2))
            if b: return hemb(self.domx(b))
        mk, q = self.lines()
        return full(mk, *q)
    def domx(self, b):
        v = V(self.ch(b))
        k = self.r.randrange(10)
        if k < 6: return v
        if k == 6: return Idx(v, I(self.r.choice([0, 1, -1])))
        if k == 7: return Slc(v, self.ch([I(0), I(1), NO]), self.ch([I(1), I(2), NO]))
        if k == 8: return Idx(v, S(self.ch(["b", "p", "div"])))
        return L(v, v)
    def kw(self, **k):
        k.setdefault("m", self.ch([1, 1, 2]) if self.p(self.w["marg"]) else 0)
        k.setdefault("mod", self.ch(["<", "..."]) if self.p(self.w["mod"]) else "")
        k.setdefault("sf", self.sf())
        return k
    def pseudo(self):
        """tag called in an expression"""
        if not self.p(self.w["pcs"]): return [], None
        tags = [n for n, (b, at) in sorted(self.visible(1).items())]
        n = self.ch(tags + ["b", "F", "X"] + (["$f"] * 3 if "f" in self.visible(3) else []))
        return [pc("@1", n, self.strv(), [["", I(1)]] if self.p(.2) else [])], V("@1")
    # ---- blocks
    def add(self, l, d, ind):
        l["d"], l["ind"] = d, ind
        self.out.append(l)
    def declare(self, n): self.scopes[-1][0].add(n)
    def target(self):
        if self.p(.15): return tu(self.ch("xyz"), tu(self.ch("vw"), self.ch("xy")) if self.p(.3) else self.ch("vw"))
        return tv(self.ch("xyzvw"))
    def decl_tg(self, tg):
        if tg[0] == "v": self.declare(tg[1])
        else:
            for q in tg[1]: self.decl_tg(q)
    def body(self, d, ind, n=None):
        """nested blocks"""
        u = ind + self.ch(["  ", "  ", "    ", " "])
        n = n or self.r.randrange(1, 4)
        for _ in range(n):
            if len(self.out) >= self.size: break
            self.block(d + 1, u)
    def clause_body(self, d, ind):
        """choose inline/outline/empty body of a control clause; returns hd, nested?"""
        if self.p(.3): return self.inline(), False
        return NOHD, not self.p(.12)
    def block(self, d, ind):
        w = self.w
        kinds = ["text", "asg", "aug", "ex", "tag", "pas", "cmt", "call", "ext", "opt", "emb", "mut", "btag"]
        if d < self.maxd: kinds += ["if_", "for_", "while_", "try_", "def_"]
        wt = [w[k] if not (k == "emb" and self.visible(2)) else w["emb_in_def"] for k in kinds]
        k = self.r.choices(kinds, wt)[0]
        getattr(self, "b_" + k)(d, ind)
    def b_text(self, d, ind):
        pcl, pv = self.pseudo()
        mk, q = self.lines()
        if pv and mk != "!": q[0]["s"].insert(0, e(pv, "{"))
        if pv and mk != "!" and len(q[0]["s"]) > 1 and q[0]["s"][1][0] == "t" and q[0]["s"][1][1][:1] in "?!": pcl = []; del q[0]["s"][0]
        self.add(line("text", {"mk": mk, "lead": 0, "ls": q}, pc=pcl if pv and mk != "!" else (), **self.kw()), d, ind)
    def b_asg(self, d, ind):
        tg = self.target()
        if tg[0] == "u" and self.p(.7):
            n = len(tg[1]) if self.p(.85) else self.ch([1, 3])
            ex = self.ch([L, T])(*[self.expr(2) if not (i < len(tg[1]) and tg[1][i][0] == "u") else L(I(1), I(2)) for i in range(n)])
        else: ex = self.expr()
        pcl, pv = self.pseudo()
        if pv and tg[0] == "v": ex = pv if self.p(.5) else Bin("+", pv, S("z"))
        else: pcl = []
        self.add(asg(tg, ex, pc=pcl, **self.kw(mod="")), d, ind)
        self.decl_tg(tg)
    def b_aug(self, d, ind):
        v = self.var()
        if not v: return self.b_asg(d, ind)
        self.add(aug(v[1], self.ch(["+", "+", "-", "*", "//", "%"]), self.num(), **self.kw(mod="")), d, ind)
        self.declare(v[1])
    def b_mut(self, d, ind):
        """a list changed in place and iterated at the time; no other variable refers to it"""
        if "l" not in self.visible(3):
            self.add(asg("l", L(*[self.expr(2) for _ in range(self.r.randrange(3))]), **self.kw(mod="")), d, ind); self.scopes[-1][3].add("l"); return
        v, k = V("l"), self.r.randrange(12)
        if k < 7:
            l = self.ch([lambda: mut("l", "append", self.expr(2)), lambda: mut("l", "append", self.expr(2)), lambda: mut("l", "extend", L(self.expr(2), I(9))), lambda: mut("l", "insert", I(0), self.expr(2)), lambda: mut("l", "clear")])()
            if d >= self.maxd: return
            self.add(if_(Call("tick", self.id(), I(3))), d, ind); self.add(l, d + 1, ind + "  ")      # loops end
        elif k == 7: self.add(aug("l", "+", L(self.lit()), **self.kw(mod="")), d, ind); self.scopes[-1][3].add("l")
        elif k == 8: self.add(txt(e(Call("len", v)), ":", e(Idx(v, I(self.ch([0, -1, 1])))), **self.kw()), d, ind)
        elif k == 9: self.add(txt(e(v), ";"), d, ind)
        elif d < self.maxd:
            c0, self.ctl = self.ctl, self.ctl + [1]
            self.declare("i"); self.add(for_("i", v), d, ind); self.body(d, ind); self.ctl = c0
    def b_btag(self, d, ind):
        tags = [n for n, (b, at) in sorted(self.visible(1).items())] + ["b", "X", "F"]
        self.add(btag("f", self.ch(tags)), d, ind); self.scopes[-1][3].add("f")
    def b_ex(self, d, ind): self.add(exl(P2(self.id(), self.expr(1)), **self.kw(mod="")), d, ind)
    def b_emb(self, d, ind):
        b = sorted(self.visible(2))
        if b: self.add(emb(self.domx(b), **self.kw()), d, ind)
        else: self.b_text(d, ind)
    def b_pas(self, d, ind): self.add(pas(**self.kw(mod="")), d, ind)
    def b_cmt(self, d, ind): self.add(cmt(self.ch([" c", " $x {y}", " | <a>"]), self.ch(["#", "--"]), **self.kw(mod="")), d, ind)
    def mattrs(self):
        out = []
        for n in self.r.sample(["class", "id", "title", "data-x", "class"], self.r.choice([0, 0, 0, 1, 1, 2])):
            out.append([n, self.ch([lambda: S(self.ch(STRS)), lambda: S(self.ch(["k", "m-n"])), lambda: self.var() or S("k"), lambda: B(True), lambda: B(False), lambda: I(7), lambda: P2(self.id(), S("v"))])()])
        if self.p(.01): out.insert(0, ["", I(1)])
        return out
    def element(self):
        k = self.r.randrange(14)
        if k < 10: return ch(self.ch(MARK), *self.mattrs())
        if k == 10: return None
        if k == 11: return ch("custom", ["", S("tg")], *self.mattrs())
        if k == 12: return ch(self.ch(["X", "Y", "F", "G_"]), *self.eattrs())
        if self.p(.25): return ch(self.ch(["XP", "XP", "DIV", "Td", "TD", "option", "br", "COL", "XV"]), *self.mattrs())
        h = self.hcall()
        return h or ch("b")
    def eattrs(self):
        return [["", self.expr(2)] for _ in range(self.r.choice([0, 0, 1]))] + [["k", self.expr(2)] for _ in range(self.r.choice([0, 0, 1]))]
    def hcall(self, name=None):
        hs = self.visible(1)
        if not hs: return None
        n = name or self.ch(sorted(hs))
        b, at = hs[n]
        out, skip = [], False
        for a, x in at:
            q = self.r.random()
            if x[0] != "none" and q < .4: skip = True; continue
            if q < .03: continue
            if skip or q > .75: out.append([a, self.expr(2)]); skip = True
            else: out.append(["", self.expr(2)])
        if self.p(.03): out.append([self.ch(["zz", "a", "x"]), I(1)])
        return ch(n, *out)
    def b_tag(self, d, ind):
        c = [self.element()]
        while self.p(.2): c.append(self.element())
        c = [q for q in c if q] or [ch(".")]
        self.finish_tag(c, d, ind)
    def finish_tag(self, c, d, ind, q=False, void=False):
        self.scopes.append([set(), {}, set(), set()])
        k = self.r.random()
        if void and not self.p(.1): k = 1
        if k < .4:
            self.add(tag(c, self.inline(), q=q, **self.kw()), d, ind)
        elif k < .85 and d < self.maxd and len(self.out) + 1 < self.size:
            hd = head("|", ln(*self.segs())) if self.p(.25) else NOHD
            self.add(tag(c, hd, q=q, **self.kw()), d, ind)
            n0 = len(self.out)
            self.body(d, ind)
        else: self.add(tag(c, q=q, **self.kw()), d, ind)
        self.scopes.pop()
    def b_ext(self, d, ind): self.finish_tag([ch(self.ch(["X", "Y", "F", "G_"]), *self.eattrs())], d, ind)
    def b_opt(self, d, ind):
        if self.p(.5): self.finish_tag([self.element() or ch("b")], d, ind, q=True)
        else:
            mk, q = self.lines()
            self.add(line("text", {"mk": mk, "lead": 0, "ls": q}, q=True, **self.kw()), d, ind)
    def b_call(self, d, ind):
        h = self.hcall()
        if not h: return self.b_tag(d, ind)
        b, at = self.visible(1)[h["n"]]
        self.finish_tag([h], d, ind, void=not b)
    def b_def(self, d, ind): self.b_def_(d, ind)
    def b_def_(self, d, ind):
        if any(self.ctl): return self.b_tag(d, ind)
        n = self.ch("HGK")
        b = self.ch(["", "body", "body"])
        at = [[a, ["none"] if self.p(.5) else self.expr(2)] for a in self.r.sample(["x", "a", "y"], self.r.choice([0, 0, 1, 1, 2]))]
        at.sort(key=lambda q: q[1][0] != "none")
        l = def_(n, b, at, **self.kw(mod=""))
        if self.p(.2):
            self.scopes.append([set(q[0] for q in at), {}, {b} if b else set(), set()])
            hd = self.inline()
            while hd["k"] == "emb" and not b and not at: hd = self.inline()      # "%H @ x" would declare a body attribute
            self.add(dict(l, a=dict(l["a"], hd=hd)), d, ind); fix_lead(self.out[-1])
            self.scopes.pop()
        else:
            self.scopes.append([set(q[0] for q in at), {}, {b} if b else set(), set()])
            self.add(l, d, ind); c0 = self.ctl; self.ctl = []
            self.body(d, ind)
            self.ctl = c0
            self.scopes.pop()
        self.scopes[-1][1][n] = (b, at)
    ctl = []
    def b_if_(self, d, ind):
        c0, self.ctl = self.ctl, self.ctl + [1]
        k = "if"
        while True:
            hd, nest = self.clause_body(d, ind)
            mk = {"if": lambda: if_(self.cond(), hd, **self.kw()), "elif": lambda: elif_(self.cond(), hd, m=0, sf=self.sf()), "else": lambda: else_(hd, m=0, sf=self.sf())}[k]
            self.add(mk(), d, ind)
            if nest: self.body(d, ind)
            if k == "else" or not self.p(.5): break
            k = self.ch(["elif", "else", "else"])
        self.ctl = c0
    def b_for_(self, d, ind):
        c0, self.ctl = self.ctl, self.ctl + [1]
        tg = self.target() if self.p(.3) else tv(self.ch("xyi"))
        it = self.items()
        if tg[0] == "u" and self.p(.8): it = L(T(I(1), L(I(2), I(3))), T(S("a"), S("bc"))) if any(q[0] == "u" for q in tg[1]) else L(T(I(1), I(2)), S("ab"))
        hd = NOHD; nest = True
        self.decl_tg(tg)
        hd, nest = self.clause_body(d, ind)
        l = for_(tg, it, hd, **self.kw())
        self.add(l, d, ind)
        if nest: self.body(d, ind)
        if self.p(.3):
            hd, nest = self.clause_body(d, ind)
            self.add(else_(hd, sf=self.sf()), d, ind)
            if nest: self.body(d, ind)
        self.ctl = c0
    def b_while_(self, d, ind):
        c0, self.ctl = self.ctl, self.ctl + [1]
        hd, nest = self.clause_body(d, ind)
        self.add(while_(Call("tick", self.id(), I(self.r.randrange(4))), hd, **self.kw()), d, ind)
        if nest: self.body(d, ind)
        if self.p(.3):
            hd, nest = self.clause_body(d, ind)
            self.add(else_(hd, sf=self.sf()), d, ind)
            if nest: self.body(d, ind)
        self.ctl = c0
    def b_try_(self, d, ind):
        c0, self.ctl = self.ctl, self.ctl + [1]
        hd, nest = self.clause_body(d, ind)
        self.add(try_(hd, **self.kw()), d, ind)
        err0, self.w["err"] = self.w["err"], max(self.w["err"], .3)
        if nest: self.body(d, ind)
        self.w["err"] = err0
        for _ in range(self.r.choice([0, 1, 1, 2])):
            hd, nest = self.clause_body(d, ind)
            self.add(else_(hd, sf=self.sf()), d, ind)
            if nest: self.body(d, ind)
        self.ctl = c0
    def program(self):
        while len(self.out) < self.size: self.block(0, "")
        for l in self.out:
            if l["k"] == "asg": pass
        return self.out

def P2(i, v): return Call("P", i, v)

def sane(prog):
    try: source(prog)
    except AssertionError: return False
    return True

def programs(seed, n, size=10, depth=4, w=None):
    rnd = random.Random(seed)
    k = 0
    while k < n:
        g = Gen(rnd, rnd.randrange(3, size + 1), depth, w)
        p = g.program()
        if sane(p): k += 1; yield p
