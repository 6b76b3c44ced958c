"""
The checks, one function per property.  Each builds alphabets (explored exhaustively by TLC, every program replayed in
the real code) or families and random programs (executed by the real code, the recorded traces validated by TLC).
"""
import random, itertools
from lang import *
import gen
from engine import Check, cfg, tlc, MachineryError

def alpha(lines, pre=(), suf=(), units=("  ",), mind=0):
    return {"mind": mind, "lines": list(lines), "pre": [dict(x) for x in pre], "suf": list(suf), "units": list(units)}

x, y = V("x"), V("y")
F_, T_ = B(False), B(True)
def show(*names, **kw): return txt(*sum([["%s=" % n, e(V(n)), ";"] for n in names], []), **kw)
def tick(i, n): return Call("tick", I(i), I(n))
def boom(i): return Call("boom", I(i))
def kbd(i): return Call("kbd", I(i))

# ---- families: lists of programs given as nested lists [line, [children]...]
def flat(tree, d=0, ind="", unit="  "):
    out = []
    for q in tree:
        if isinstance(q, list): out += flat(q, d + 1, ind + unit, unit)
        else: out.append(dict(q, d=d, ind=ind))
    return out
def fam(*tree): return flat(tree)
def some(c, progs, n_quick, n_thorough=None):
    """all programs of a family, or a seeded sample of them in the quick tier"""
    progs = list(progs)
    n = c.pick(n_quick, n_thorough or 10 ** 9)
    if len(progs) <= n: return progs
    return random.Random(c.seed).sample(progs, n)
def rnd(c, part="random", n=900, size=12, depth=4, **w):
    if c.enough(): return
    c.code_to_spec(part, gen.programs(c.seed * 1000 + sum(map(ord, c.prop)), c.pick(n, n * 12), size, depth, w))
def variants(progs, n=3):
    """the same programs in other surface forms (spaces, parentheses, quotes, $x or {x}, trailing colons)"""
    out = []
    for i, p in enumerate(progs):
        out.append(p)
        for s in range(1, n):
            q = []
            for l in p:
                l = dict(l, sf=(s * 11 + i) % 61 + 1, a=dict(l["a"])); fix_lead(l); q.append(l)
            if gen.sane(q): out.append(q)
    return out

def vary(progs):
    """every program in one of the surface forms, in turn"""
    out = []
    for i, p in enumerate(progs):
        q = []
        for l in p: l = dict(l, sf=i % 64, a=dict(l["a"])); fix_lead(l); q.append(l)
        out.append(q if gen.sane(q) else p)
    return out

# ---------------------------------------------------------------------------------------------------------------------
def C01(c):
    A = alpha([asg("x", Bin("+", x, I(1))), asg("x", I(5)), asg("y", x), show("x"), tag("div"), tag("p", htxt("x=", e(x))),
               if_(Cmp(x, ["<", I(3)])), for_("x", L(I(7), I(8))), def_("H"), tag("H"), try_(), else_()],
              pre=[asg("x", I(1))], suf=[show("x")])
    c.spec_to_code("scopes", A, c.pick(3, 4), 3)
    A = alpha([asg("x", I(1)), aug("x", "+", I(1)), show("x"), tag("div"), if_(V("b")), else_(), for_("x", V("q")), while_(tick(1, 1))],
              pre=[asg("b", I(0)), asg("q", L())])
    c.spec_to_code("unbound", A, c.pick(3, 4), 2)
    A = alpha([aug("x", "+", I(1)), asg("x", Bin("*", x, I(2))), show("x"), tag("p"), for_("i", L(I(1), I(2)))],
              pre=[asg("x", I(1)), for_("j", L(I(1), I(2)))] if 0 else [asg("x", I(1))], suf=[show("x")])
    c.spec_to_code("loops", A, c.pick(4, 5), 3)
    rnd(c, n=900, asg=16, aug=10, tag=12, if_=8, for_=8, while_=4, try_=6, def_=5, ext=1, emb_in_def=2, multi=.02, mk=.05, mod=0, marg=0, pcs=0)

def C02(c):
    P_ = lambda i, v: P(i, v)
    A = alpha([if_(P_(1, F_)), if_(P_(2, T_)), elif_(P_(3, F_)), elif_(P_(4, T_)), else_(), for_("i", P_(5, L(I(7), I(8)))), for_("i", P_(6, L())),
               while_(tick(7, 2)), txt("t", e(P_(8, I(8))))], suf=[exl(P_(9, I(0)))])
    c.spec_to_code("control", A, c.pick(4, 5), 3)
    vals = [I(0), I(1), I(-1), S(""), S("a"), S("0"), L(), L(I(0)), T(), T(I(0)), D(), D((S("a"), I(1))), NONE, T_, F_, FL(0, 1), FL(1, 2), Call("range", I(0)), Call("range", I(2)), V("len")]
    opaque = (Call("range", I(0)), Call("range", I(2)), V("len"))      # text representation is not modelled
    progs = []
    for v in vals:
        progs.append(fam(if_(v, htxt("yes")), else_(htxt("no"))))
        progs.append(fam(if_(F_, htxt("-")), elif_(v), [txt("yes")], else_(), [txt("no")]))
        progs.append(fam(asg("x", v), asg("n", I(0)), while_(x), [aug("n", "+", I(1)), asg("x", P(1, I(0)))], else_(htxt("none")), show("n")))
        for hd in (htxt("[", e(V("i")), "]"), NOHD):
            progs.append(fam(for_("i", v, hd), else_(htxt("none")), txt("end")))
        if v not in opaque: progs.append(fam(txt(e(["if", v, P(1, S("a")), P(2, S("b"))]), " ", e(["and", v, P(3, S("c"))]), " ", e(["or", v, P(4, S("d"))]), " ", e(["not", v]))))
    # iterables of every kind; evaluation once per execution
    for it in (S("ab"), D((S("k"), I(1)), (S("l"), I(2))), T(I(1), I(2)), L(L(I(1)), T()), Call("range", I(1), I(4)), Q("?", boom(1)), P(3, S("xy"))):
        progs.append(fam(for_("i", P(1, it)), [txt("<", e(P(2, V("i"))), ">"), tag("p", htxt(e(V("i"))))], else_(), [txt("none")], txt("end")))
    # the outcome of a test taken at one time holds for the branch only
    progs.append(fam(asg("x", I(1)), if_(x), [asg("x", I(0)), txt("a")], elif_(["not", x]), [txt("b")], else_(), [txt("c")]))
    progs.append(fam(asg("x", L(I(1), I(2))), for_("i", x), [asg("x", L()), txt(e(V("i")))], else_(), [txt("none")]))
    progs.append(fam(asg("x", I(2)), while_(x), [aug("x", "-", I(1))], else_(), [txt("none")], show("x")))
    # elements are taken one at a time, when the previous iteration has ended
    for it in ("pull", "bad"):
        for q in (L(), L(I(1)), L(I(1), I(2)), S("ab"), D((S("k"), I(1))), L(T(I(1), I(2)), T(I(3)))):
            g = Call(it, I(1), q)
            tg = "i" if q[0] != "list" or not q[1] or q[1][-1][0] != "tuple" else tu("i", "j")
            for body in ([txt("<", e(P(2, V("i"))), ">")], [exl(P(2, V("i"))), tag("X", htxt("x", e(V("i"))))], [if_(Cmp(V("i"), ["==", I(1)])), [txt("one")], else_(), [exl(boom(2))]], [for_("k", Call("pull", I(3), L(I(8), V("i")))), [exl(P(4, V("k")))]]):
                lp = [for_(tg, g), body, else_(), [txt("none", e(P(5, I(0))))], txt("end")]
                progs += [fam(*lp), fam(try_(), lp, else_(), [txt("failed")], show("b")) if 0 else fam(try_(), lp, else_(), [txt("failed")])]
    # a loop over a list that its body changes
    l = V("l")
    for m in ((mut("l", "append", V("i")),), (mut("l", "clear"),), (mut("l", "extend", L(V("i"), S("z"))),), (mut("l", "insert", I(0), S("z")),), (asg("l", L(S("new"))),), (aug("l", "+", L(S("new"))),), (asg("l", L(S("new"))), mut("l", "append", S("q")))):
        for q in (L(), L(I(1)), L(I(1), I(2)), L(I(1), I(2), I(3))):
            once = [if_(tick(1, 3))] + [list(m)]
            progs += [fam(asg("l", q), for_("i", l), [txt(e(V("i")), ";")] + once, else_(), [txt("none")], txt(e(l))),
                      fam(asg("l", q), for_("i", l), [for_("j", l), [txt(e(V("i")), e(V("j")), ";")] + once], txt(e(l))),
                      fam(asg("l", q), def_("H", "body"), [for_("i", l), [emb(V("body"))]], tag("H"), [[txt("b"), asg("i", S("k"))], once][0] + once, txt(e(l))),
                      fam(asg("l", q), for_("i", l), [try_(), once + [exl(boom(2))], else_(), [txt("e", e(V("i")))]], txt(e(l)))]
    progs.append(fam(asg("x", I(2)), while_(x, head("|", ln("h"))), txt("q")) if 0 else fam(txt("q")))
    c.code_to_spec("values", variants(progs, 2))
    rnd(c, n=700, if_=14, for_=12, while_=8, asg=8, ex=8, tag=8, def_=1, ext=0, call=1, mod=0, marg=0, multi=.05, mk=.05)

def C03(c):
    A = alpha([try_(), else_(), txt("a"), txt("b", e(boom(1))), exl(boom(2)), tag("p"), for_("x", L(I(1), I(2))), asg("x", I(5)),
               tag("X", htxt("t", e(x)))], pre=[asg("x", I(0))], suf=[show("x")])
    c.spec_to_code("try", A, c.pick(3, 4), 3)
    A = alpha([try_(), else_(), txt("a"), exl(boom(1)), tag("div"), tag("H", m=1), emb(Slc(V("body"), I(0))), tag("p", htxt(e(boom(4))), q=True), tag("b", htxt("o"), q=True)],
              pre=[def_("H", "body"), dict(txt("h"), d=1, ind="  "), dict(tag("i"), d=1, ind="  "), dict(emb(V("body")), d=2, ind="    ")],
              suf=[txt("end")], units=("  ",))
    c.spec_to_code("nested", A, c.pick(3, 4), 4)
    progs = []
    failing = [exl(boom(1)), exl(kbd(1)), exl(Bin("/", I(1), I(0))), asg("z", Bin("+", I(1), S("a"))), txt(e(NONE)), txt("u", e(Idx(L(), I(0)))), emb(I(3)), tag(ch("H", ["q", I(1)])),
               tag(ch("H", ["", I(1)], ["", I(2)])), tag("H", htxt("body")), asg(tu("z", "w"), L(I(1))), for_(tu("z", "w"), L(I(1)), htxt("i")), if_(boom(3), htxt("i")), while_(kbd(3), htxt("i")),
               tag(ch("X", ["", boom(1)])), tag(ch("p", ["class", boom(1)])), tag("p", htxt("a", e(Q("!", I(0))))), aug("u", "+", I(1)), txt(e(V("u")))]
    for f in failing:
        H = [def_("H", at=[("a", S("d"))]), [tag("p", htxt(e(V("a"))))]]
        U = [if_(F_), [asg("u", I(1))]]
        inner = [asg("x", I(5)), txt("lost"), tag("X", htxt("never")), f]
        for wrap in (lambda q: q, lambda q: [tag("div"), q], lambda q: [if_(T_), q], lambda q: [for_("j", L(I(1), I(2))), q], lambda q: [tag("Y"), q], lambda q: [tag("div"), [tag(["p", "b"]), q]],
                     lambda q: [try_(), [exl(boom(8))], else_(), q]):
            progs.append(fam(*(H + U + [asg("x", I(0)), tag("div"), [txt("1"), try_(), wrap(inner), else_(), [txt("alt"), show("x")], txt("2"), tag("p", htxt("3"))], show("x")])))
            progs.append(fam(*(H + U + [asg("x", I(0)), tag("div"), [txt("1"), try_(m=1), wrap(inner), txt("2", mod="<"), tag("p", htxt("3"))], show("x")])))
        if f["k"] in ("tag", "text"):
            progs.append(fam(*(H + U + [tag("div"), [dict(f, q=True), txt("2")]])))
    c.code_to_spec("failures", some(c, progs, 400))
    rnd(c, n=700, try_=14, opt=6, err=.12, for_=6, tag=14, def_=4, ext=5)

def C04(c):
    sigs = [("", []), ("body", []), ("", ["a"]), ("body", ["a"]), ("", [("a", I(1))]), ("body", ["a", ("b", S("B"))]), ("body", ["a", "b"]), ("", [("a", P(1, I(7))), ("b", P(2, I(8)))]),
            ("body", ["a", ("b", I(2)), ("c", I(3))]), ("b", ["a"])]
    items = [["", I(10)], ["", S("p")], ["a", I(30)], ["b", I(40)], ["z", I(50)], ["body", I(60)], ["c", S("k")], ["a", I(10)], ["b", S("p")]]
    def plausible(at, names, need, b, hd):
        """a guess which calls are accepted, used only to have enough of them in the sample"""
        kw = [q[0] for q in at if q[0]]
        n = len(at) - len(kw)
        got = names[:n] + kw
        return n <= len(names) and len(set(got)) == len(got) and set(kw) <= set(names) and need <= set(got) and (b or hd is NOHD) and all(q[0] for q in at[n:])
    progs, good = [], []
    for b, at in sigs:
        names = [q if isinstance(q, str) else q[0] for q in at]
        seg = sum([["%s=" % n, e(V(n)), ";"] for n in names], [])
        tree = [def_("H", b, at), [txt("H " if seg else "H", *seg)] + ([tag("i"), [emb(V(b))]] if b else [])]
        for k in range(4):
            for at2 in itertools.product(items, repeat=k):
                if k == 3 and sum(1 for q in at2 if q[0] in ("z", "body")) > 1: continue
                for hd in (NOHD, htxt("text")):
                    (good if plausible(at2, names, {q for q in at if isinstance(q, str)}, b, hd) else progs).append(fam(*(tree + [txt("a"), tag(ch("H", *at2), hd), txt("z")])))
    c.code_to_spec("bindings", some(c, good, 1000) + some(c, progs, 1400))
    progs = []
    # defaults: evaluated at expansion, in the scope of the definition; body forms
    # a default value refers to the outer variable, not to an attribute of the definition that has its name
    for b, at in (("", ["x", ("d", V("x"))]), ("", [("x", V("x"))]), ("", [("x", Bin("+", V("x"), I(1))), ("d", P(1, V("x")))]), ("x", [("d", V("x"))]), ("", [("d", V("x")), ("x", I(8))]), ("y", ["x", ("d", L(V("x"), V("y")))])):
        names = [q if isinstance(q, str) else q[0] for q in at]
        for args in ([["", I(30)]], [["", I(30)], ["", I(31)]], [["x", I(30)]], [["d", I(32)], ["x", I(30)]], []):
            for pre in ([], [asg("x", I(1))], [asg("x", I(1)), asg("y", I(2))]):
                call_ = tag(ch("H", *args), htxt("B") if b else NOHD)
                progs.append(fam(*(pre + [def_("H", b, at), [txt(*sum([["%s=" % n, e(V(n)), ";"] for n in names], []))] + ([emb(V(b))] if b else [])] + [call_] + ([asg("x", I(5)), call_, tag("div"), [asg("x", I(6)), call_]] if pre else []))))
    for dv in (V("x"), P(1, V("x")), Bin("+", V("x"), I(1)), S("a b"), L(V("x")), ["fstr", [t("<"), e(V("x")), t(">")]]):
        for order in (0, 1):
            progs.append(fam(asg("x", I(1)), def_("H", "body", ["a", ("d", dv)]), [txt(e(V("a")), " ", e(V("d"))), emb(V("body"))], asg("x", I(5)), tag(ch("H", ["", I(3)])), tag("div"), [asg("x", I(9)), tag(ch("H", ["a", x])), [txt("in", e(x))]],
                             asg("x", I(6)), tag(ch("H", ["d", x], ["a", I(0)])) if order else tag(ch("H", ["", I(0)], ["", x]), htxt("B"))))
    for hd, kids in ((NOHD, None), (htxt("t"), None), (full("/", ln("<i>")), None), (full("!", ln("{x}")), None), (head("|", ln("hd")), [txt("k")]), (NOHD, [txt("k"), tag("p", htxt("l"))]), (NOHD, [pas()]), (NOHD, [cmt()]),
                     (NOHD, [if_(F_, htxt("no"))]), (NOHD, [asg("q", I(1))]), (NOHD, [txt("k", m=1)]), (full("|", ln("")), None), (NOHD, [for_("i", L(), htxt("x"))])):
        for b in ("", "body"):
            progs.append(fam(*([def_("H", b, [("a", I(1))]), [txt("H", e(V("a")))] + ([tag("i"), [emb(V(b))]] if b else []), tag("H", hd)] + ([kids] if kids else []) + [txt("end")])))
            progs.append(fam(*([def_("H", b, [("a", I(1))]), [txt("H", e(V("a")))] + ([emb(V(b))] if b else []), tag([ch("p"), ch("H", ["", I(2)]), "b"] if kids is None else [ch("p"), ch("H", ["", I(2)])], hd)] + ([kids] if kids else []) + [txt("end")])))
    c.code_to_spec("defaults", variants(progs, 3))
    rnd(c, n=600, def_=10, call=18, ext=0, if_=2, for_=2, try_=2, pcs=.1)

def objects():
    """Lists and dicts made by the script and changed in place: every evaluation of a literal gives a new object."""
    lits = [L(), L(I(7)), L(S("a"), x), D(), D((S("k"), I(1))), ["if", T_, L(), L(I(1))], ["or", L(), L()], Call("P", I(1), L()), Idx(L(L()), I(0)), Q("?", L()), Bin("+", L(), L())]
    progs = []
    for lit in lits:
        d = lit[0] == "dict"
        add = lambda e_: mut("l", "setdefault", e_, I(0)) if d else mut("l", "append", e_)
        l = V("l")
        progs += [
            fam(asg("x", I(1)), def_("H", "", ["a"]), [asg("l", lit), add(V("a")), txt(e(l))], tag(ch("H", ["", I(1)])), tag(ch("H", ["", I(2)])), tag("p"), [tag(ch("H", ["", I(3)]))]),
            fam(asg("x", I(1)), def_("H", "", ["a", ("l", lit)]), [add(V("a")), txt(e(l))], tag(ch("H", ["", I(1)])), tag(ch("H", ["", I(2)])), tag("p"), [asg("x", I(5)), tag(ch("H", ["", I(3)]))]),
            fam(asg("x", I(1)), for_("i", L(I(1), I(2), I(3))), [asg("l", lit), add(V("i")), txt(e(l))], show("l")),
            fam(asg("x", I(1)), asg("l", lit), for_("i", L(I(1), I(2), I(3))), [add(V("i")), txt(e(l))], show("l")),
            fam(asg("x", I(1)), asg("l", lit), def_("H", "body", ["a"]), [add(V("a")), emb(V("body")), txt(e(l))], tag(ch("H", ["", I(1)])), tag(ch("H", ["", S("b")])), [txt(e(l)), add(x)], show("l")),
            fam(asg("x", I(1)), for_("i", L(I(1), I(2))), [tag("div"), [asg("l", lit), tag("p"), [add(V("i")), txt(e(l))], add(S("z")), txt(e(l))]]),
            fam(asg("x", I(1)), for_("i", L(I(1), I(2))), [try_(), [asg("l", lit), add(V("i")), exl(boom(1))], else_(), [asg("l", lit), add(S("e")), txt(e(l))]], show("l")),
            fam(asg("x", I(1)), while_(tick(3, 2)), [if_(T_), [asg("l", lit)], add(x), aug("x", "+", I(1)), txt(e(l))], show("l")),
            fam(asg("x", I(1)), for_("i", L(I(1), I(2))), [for_("j", lit), [txt(e(V("j")))], else_(), [txt("none")], asg("l", lit), add(V("i")), show("l")]),
            fam(asg("x", I(1)), def_("H", "body", ["a"]), [asg("l", lit), if_(V("a")), [add(V("a")), tag(ch("H", ["", Bin("-", V("a"), I(1))])) if 0 else txt("-")], emb(V("body")), add(S("q")), txt(e(l))], tag(ch("H", ["", I(1)])), [tag(ch("H", ["", I(2)])), [tag(ch("H", ["", I(0)]))]]),
        ]
    return progs

def C05(c):
    A = alpha([asg("x", I(2)), aug("x", "+", I(1)), show("x"), tag("H"), tag("div"), emb(V("body")), for_("i", L(I(1), I(2))), txt(e(V("a")))],
              pre=[asg("x", I(1)), def_("H", "body", [("a", S("d"))])] , suf=[show("x"), tag(ch("H", ["", I(9)]), htxt("B"))])
    # the first lines fall inside the definition or after it
    c.spec_to_code("inside", A, c.pick(3, 4), 3)
    A = alpha([asg("x", I(2)), show("x"), tag("G", htxt("B")), tag("H"), tag("div"), try_(), else_(), exl(boom(1)), def_("G", "b2", [], htxt("loc", e(x)))],
              pre=[asg("x", I(1)), def_("H", "body"), dict(if_(Cmp(x, ["==", I(1)])), d=1, ind="  "), dict(asg("k", S("set")), d=2, ind="    "), dict(emb(V("body")), d=1, ind="  "), dict(txt(e(Q("?", V("k")))), d=1, ind="  ")],
              suf=[tag("H"), show("x")])
    c.spec_to_code("repeated", A, c.pick(3, 4), 3)
    progs = []
    # conditionally assigned variables must not survive from one expansion/execution to the next
    cond = lambda v: [if_(v), [asg("k", S("set"))], txt(e(Q("?", V("k"))), ".")]
    for n1, n2 in itertools.product((0, 1), repeat=2):
        for mid in ([], [tag(ch("H", ["", I(0)]))], [try_(), [tag(ch("H", ["", I(1)])), exl(boom(1))]]):
            progs.append(fam(*([def_("H", "", ["a"]), cond(V("a"))] + [tag(ch("H", ["", I(n1)]))] + mid + [tag(ch("H", ["", I(n2)]))])))
            progs.append(fam(for_("a", L(I(n1), I(n2), I(n1))), [tag("div"), cond(V("a")) + [emb(L())]]))
            progs.append(fam(*([def_("H", "body", ["a"]), cond(V("a")) + [emb(V("body"))], tag(ch("H", ["", I(n1)])), [tag(ch("H", ["", I(n2)])), [tag(ch("H", ["", I(n1)]), htxt("x"))]]] + mid)))
    # nested definitions and closures
    progs += [fam(def_("H", "body", ["a"]), [def_("G", "b2", []), [txt("G", e(V("a"))), emb(V("b2"))], tag("G"), [emb(V("body"))], asg("a", I(5)), tag("G", htxt("q"))], tag(ch("H", ["", I(1)]), htxt("B")), tag(ch("H", ["", I(2)])), [txt("C")]),
              fam(def_("H"), [txt("H1")], tag("H"), def_("H"), [txt("H2"), tag("div") if 0 else txt("-")], tag("H")),
              fam(def_("H"), [txt("1")], def_("G"), [tag("H")], def_("H"), [txt("2")], tag("G"), tag("H")),
              fam(tag("div"), [def_("H"), [txt("in")], tag("H")], txt("o"), tag("H")),
              fam(asg("x", I(1)), def_("H"), [txt(e(x)), asg("x", I(2)), txt(e(x))], tag("H"), asg("x", I(7)), tag("H"), show("x")),
              fam(def_("H", "body", []), [asg("z", S("in")), emb(V("body"))], asg("z", S("out")), tag("H"), [txt(e(V("z")))], show("z")),
              fam(tag("div"), [asg("loc", I(1)), tag("p"), [txt(e(V("loc"))), asg("loc", I(2))], txt(e(V("loc")))], txt("end")),
              fam(def_("H", "", ["n"]), [for_("i", Call("range", V("n"))), [asg("s", Bin("+", Q("?", V("s")) if 0 else S(""), Call("str", V("i")))), txt(e(V("s")))]], tag(ch("H", ["", I(2)])), tag(ch("H", ["", I(1)])), tag(ch("H", ["", I(0)])))]
    c.code_to_spec("closures", variants(progs, 2))
    c.code_to_spec("objects", some(c, variants(objects(), 2), 500))
    rnd(c, n=600, def_=12, call=18, asg=14, aug=6, if_=6, tag=8, ext=0, try_=4, multi=.05, mk=.05, pcs=.1)

def C06(c):
    atoms = ["&", "<", ">", "{{", "}}", "$$", '"', "'", "\\", "x", "&amp;", "&lt;b>", "a b", "$$x", "{{x}}", ";", "#", "--", "@", "%", "|", "/", "!"]
    vals = [" a", "  b\n    c\n&", "\n", " ", "~", "~<\n~", "&", "<", ">", "&amp;", "{", "}", "$", '"', "'", "\\", "<a&b>", "{{", "$$", "{x}", "$x", "a\n<b>", "\\n", "&&<<"]
    progs = []
    for mk in "|/!":
        for n in (1, 2):
            for q in itertools.product(atoms, repeat=n):
                s = "".join(q)
                if mk != "!" and n == 2 and (s.count("{") % 2 or s.count("}") % 2): continue
                if s in ("$x", "x$"): continue
                progs.append(fam(text(mk, ln(s))))
                if n == 1:
                    progs += [fam(tag("p", full(mk, ln(s)))), fam(tag("p", head(mk, ln(s))), [tag("b", full(mk, ln(s)))]), fam(text(mk, ln(s), ln("k", s, p="  "))), fam(if_(T_, full(mk, ln(s)))), fam(def_("H", "body"), [text(mk, ln(s)), emb(V("body"))], tag("H", full(mk, ln(s))))]
        for v in vals:
            if mk == "!":
                progs.append(fam(asg("x", S(v)), text(mk, ln("x{x}$x"))))
                continue
            E_ = lambda f="": e(x, f)
            for mid in ([E_("$")], [E_("{")], ["&", E_("$"), "<"], [e(Bin("+", x, S("&")))], [e(["fstr", [e(x, ""), t("<")]])], [e(Cat(S("<"), x))], [e(Pipe(x, "upper"))], [e(Q("?", x))], [e(L(x))], [e(Call("f3", x))]):
                progs.append(fam(asg("x", S(v)), text(mk, ln(*mid))))
            progs.append(fam(asg("x", S(v)), tag("p", full(mk, ln(E_("{"))))))
            progs.append(fam(asg("x", S(v)), tag("p", head(mk, ln(E_("{")))), [text("|", ln(E_("$"))), text("/", ln(E_("$")))]))
            progs.append(fam(def_("H", "body", ["a"]), [text(mk, ln(e(V("a")))), emb(V("body")), text("/", ln(e(V("a"))))], tag(ch("H", ["", S(v)]), full(mk, ln("<")))))
            for h, at in (("b", []), ("X", [["", I(1)]]), ("F", [])):
                progs.append(fam(asg("x", S(v)), text(mk, ln("[", e(V("@1"), "{"), "]"), pc=[pc("@1", h, x, at)])))
                progs.append(fam(asg("x", S(v)), asg("y", V("@1"), pc=[pc("@1", h, x, at)]), text(mk, ln(e(y)))))
            progs.append(fam(tag("X", full(mk, ln(e(S(v)))))))
            progs.append(fam(tag("F", full(mk, ln(e(S(v)))))))
            progs.append(fam(tag("p", full(mk, ln(e(S(v)), "&")), mod="..."), text("/" if mk == "|" else "|", ln(e(S(v))))))
        for v in (NONE,):
            for form in ("$", "{"):
                if mk != "!":
                    progs.append(fam(asg("x", v), text(mk, ln("a", e(x, form)))))
                    progs.append(fam(asg("x", v), text(mk, ln("a", e(Q("?", x), form)))))
                    progs.append(fam(asg("x", v), tag("p", full(mk, ln(e(x, form))))))
        for v in (I(5), FL(1, 2), T_, L(S("<"), S("&")), T(S("'")), D((S("<"), S(">")))):
            if mk != "!": progs.append(fam(asg("x", v), text(mk, ln(e(x, "$"), "&"))))
    c.code_to_spec("kinds", variants(some(c, progs, 2000), 1))
    A = alpha([text("|", ln("a&", e(x))), text("/", ln("b&", e(x))), text("!", ln("c&$x")), tag("p", full("|", ln(e(x)))), tag("p", head("/", ln("<", e(x)))), tag("X"), tag(["b", "F"]), if_(T_)], pre=[asg("x", S("<&>"))])
    c.spec_to_code("mixed", A, 3, 3)
    rnd(c, n=400, text=20, mk=.6, tag=12, ext=4, pcs=.15)
    # other target languages: with another escape function, and with none
    for esc in ("tex", "none"):
        c.spec_to_code("mixed-" + esc, alpha([text("|", ln("a&", e(x))), text("/", ln("x&", e(x))), text("!", ln("x&$x")), tag("p", head("|", ln("<", e(x)))), tag(["b", "F"]), if_(T_)], pre=[asg("x", S("<&x>"))]), 3, 2, esc=esc)
        c.code_to_spec("kinds-" + esc, some(c, progs, 500), esc=esc)
        c.code_to_spec("random-" + esc, gen.programs(c.seed * 1000 + len(esc), c.pick(150, 2000), 12, 4, dict(text=20, mk=.6, tag=12, ext=4, pcs=.15)), esc=esc)

def C07(c):
    strs = ["", "a", "a b", "it's", 'say "hi"', '"\'', "a&b", "&amp;", "<x>", "a\nb", "a\tb", "a\rb", "x=y", "{", "$v", "\\n", "&quot;", "'\"&<>\n", " lead", "trail ", "&#10;", "/>", "--", "a\n\nb", "=\"", "`"]
    progs = []
    for s in strs:
        for n in ("title", "class", "id", "data-x", "a:b", "aria-label2", "data_k", "k_", "_v", "Ab_C"):
            progs.append(fam(tag(ch("p", [n, S(s)]), htxt("t"))))
        for n in ("title",):
            progs += [fam(tag(ch("br", [n, S(s)]))), fam(tag(ch("custom", ["", S("w")], [n, S(s)]), htxt("t"))), fam(asg("x", S(s)), tag(ch("p", [n, x], ["class", Bin("+", x, S("k"))]))), fam(tag(ch("p", [n, P(1, S(s))], ["k", P(2, T_)])))]
            progs.append(fam(def_("H", "", ["v"]), [tag(ch("p", [n, V("v")]), htxt(e(V("v"))))], tag(ch("H", ["", S(s)]))))
            progs.append(fam(asg("y", V("@1"), pc=[pc("@1", "b", S("q"), [[n, S(s)]])]), text("/", ln(e(y)))))
            progs.append(fam(tag(ch("p", [n, ["fstr", [t("v"), e(S(s))]]]))))
        for s2 in strs[:12]:
            progs.append(fam(tag(ch("p", ["class", S(s)], ["class", S(s2)]), htxt("t"))))
            progs.append(fam(tag(ch("p", ["title", S(s)], ["class", S("m")], ["title", S(s2)]))))
    vals = [T_, F_, NONE, I(0), I(-3), FL(1, 2), L(S("a")), D((S("a"), I(1))), T(I(1))]
    names = ["class", "id", "title", "k", "checked"]
    for v in vals:
        for n in names: progs += [fam(tag(ch("p", [n, v]), htxt("t"))), fam(tag(ch("br", [n, v]))), fam(tag(ch("p", ["a", S("1")], [n, v], ["z", S("2")])))]
        for v2 in (S("s"), T_, F_, I(1)):
            progs += [fam(tag(ch("p", ["k", v], ["k", v2]))), fam(tag(ch("p", ["k", v2], ["m", S("x")], ["k", v])))]
    # attributes take the values as they are, and leave them so
    for v in (L(), L(S("a")), L(I(1), S("b")), D((S("a"), I(1))), T(S("a")), S("s"), I(1), Set(I(1))):
        for at in ([["class", x], ["class", S("m")]], [["class", S("m")], ["class", x]], [["k", x], ["k", x]], [["k", x], ["k", S("p")], ["k", x]], [["id", x], ["k", x], ["id", V("w")]]):
            for n in ("p", "X", "br"):
                use = [tag(ch(n, *at))]
                progs += [fam(asg("x", v), asg("w", x), try_(), use, else_(), [txt("e")], show("x", "w")), fam(asg("x", v), for_("i", L(I(1), I(2))), [try_(use[0]["a"]["hd"]), use, else_(), [txt("e")]], show("x"))]
    # order of attributes, repetition, shortcuts
    at = [["class", S("c1")], ["class", S("c2")], ["id", S("i1")], ["id", S("i2")], ["title", S("t1")], ["title", S("t 2")], ["checked", T_], ["off", F_]]
    for k in (2, 3, 4):
        for q in itertools.permutations(at, k):
            progs.append(fam(tag(ch("p", *q), htxt("t"), sf=len(progs) % 64)))
    for s in ("A", "a-B", "B_9", "9", "9z", "-", "_", "--x", "Z", "x-1-Y", "__", "-0", "aZ09_-q", "\u00c9a"):
        for n in ("class", "id"):
            for sf in range(0, 64, 5):
                progs.append(fam(tag(ch("p", [n, S(s)], [n, S("Kk")], ["title", S(s)]), htxt("t"), sf=sf + len(progs) % 5)))
    base = [tag, ]
    for n in ("br", "img", "hr", "div", "a", "comment", "custom", ".", "p"):
        for at2 in ([], [["", I(1)]], [["k", S("v")]], [["", S("a")], ["k", S("v")]], [["", S("a")], ["", S("b")]]):
            for hd, kids in ((NOHD, None), (htxt("t"), None), (htxt(""), None), (full("|", ln("", p="")), None), (NOHD, [txt("k")]), (NOHD, [pas()]), (NOHD, [if_(F_, htxt("x"))]), (NOHD, [tag("b")]), (head("|", ln("h")), [txt("k")]), (NOHD, [for_("i", L(), htxt("x"))])):
                if n == "." and at2: continue
                if n == "comment" and hd["k"] != "-" and 0: continue
                progs.append(fam(*([txt("a"), tag(ch(n, *at2), hd)] + ([kids] if kids else []) + [txt("z")])))
    c.code_to_spec("attributes", some(c, progs, 3000))
    # the vocabulary of HTML, in both cases; names that are not in it
    voids = "area base br col command embed hr img input link meta param source track wbr".split()
    paired = """a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body button canvas caption center cite code colgroup data datalist dd
        del details dfn dialog dir div dl dt em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header html i iframe ins kbd label legend li
        main map mark meter nav noframes noscript object ol optgroup option output p picture pre progress q rp rt ruby s samp script section select small span strike strong
        style sub summary sup svg table tbody td template textarea tfoot th thead time title tr tt u ul var video""".split()
    odd = "Div bR Img H7 h7 h0 blink keygen marquee menu menuitem rb rtc slot math portal nobr foo null Null NULL XP XV xp Br".split()
    progs = []
    for n in voids + paired + [q.upper() for q in voids + paired] + odd:
        at = [] if n.lower() == "null" else [["checked", T_], ["off", F_], ["id", S("i")]]
        progs += [fam(tag(n)), fam(tag(n, htxt("t<"))), fam(txt("a"), tag(ch(n, *at)), [tag(n), [txt("k"), txt("l")]], txt("z")), fam(tag(ch(n, *at), full("|", ln("", p="")))), fam(tag(["p", n])), fam(asg("y", V("@1"), pc=[pc("@1", n, S("b") if n in paired else None, at)]), show("y"))]
    for n in ("XP", "XV", "p", "br"):
        for v in vals + [S(""), S("a<"), S('"')]:
            for k in ("checked", "class", "data-x"): progs += [fam(tag(ch(n, [k, v]))), fam(tag(ch(n, [k, v], [k, T_]))), fam(tag([ch("p", [k, T_]), ch(n, ["a", F_], [k, v])]))]
        progs += [fam(tag(ch(n, ["", I(1)]))), fam(tag(n), [tag(n), [txt("q")]])]
    c.code_to_spec("vocabulary", some(c, progs, 1600))
    A = alpha([tag(ch("p", ["class", S("a b")], ["class", x])), tag(ch("a", ["href", x], ["x", T_]), htxt("t")), tag(ch("img", ["src", x], ["alt", F_])), tag([ch("div", ["id", x]), ch("p", ["id", S("q")])]), tag("br", htxt(e(Q("?", F_)))), tag("br"), try_(), txt("t")], pre=[asg("x", S("<'\">"))])
    c.spec_to_code("nested", A, c.pick(3, 4), 3)
    rnd(c, n=300, tag=30, text=4, asg=3, def_=2, ext=0, mk=.05, multi=.02)

def C08(c):
    A = alpha([tag("div"), tag(["p", "b"]), tag(["ul", "H", "li"], head("|", ln("h"))), tag("."), tag("H"), tag(["i", "H"], htxt("B")), txt("t"), tag("p", htxt("q")), if_(T_), for_("i", L(I(1), I(2)))],
              pre=[def_("H", "body"), dict(tag("b", htxt("h")), d=1, ind="  "), dict(tag("span"), d=1, ind="  "), dict(emb(V("body")), d=2, ind="    ")], suf=[txt("end")])
    c.spec_to_code("chains", A, c.pick(3, 4), 3)
    A = alpha([tag("div"), tag("p", htxt("q")), tag("X"), tag(["div", "X", "b"], htxt("q")), asg("x", I(1)), cmt(), pas(), def_("G", "", [], htxt("g")), try_(), else_(), txt("t"), tag("br")])
    c.spec_to_code("blocks", A, c.pick(3, 4), 3)
    progs = []
    T3 = ["div", ".", "H", "X", "p", "K0"]
    H = [def_("H", "body"), [txt("H"), tag("i"), [emb(V("body"))], txt("h")], def_("K0", "b2"), [emb(V("b2"))]]
    bodies = [(NOHD, None), (htxt("t"), None), (head("|", ln("h")), [txt("k"), tag("b")]), (NOHD, [txt("k"), tag("b", htxt("l")), txt("m")]), (hemb(L()), None), (NOHD, [tag("p"), [tag("b"), [txt("deep")]], txt("n")])]
    for k in (1, 2, 3):
        for q in itertools.product(T3, repeat=k):
            if k > 1 and "." in q: continue            # the null tag stands alone
            for hd, kids in bodies:
                progs.append(fam(*(H + [txt("a"), tag("div"), [tag(list(q), hd)] + ([kids] if kids else []) + [txt("z")]])))
    c.code_to_spec("bodies", some(c, progs, 900))
    rnd(c, n=900, size=16, depth=5, tag=30, call=10, ext=6, text=6, emb_in_def=10, emb=2)

def C09(c):
    A = alpha([txt("a"), txt("b", m=1), text("|", ln("m"), ln("n", p="    "), ln("o", p="      ")), tag("p", htxt("i")), tag("div"), tag("ul", head("|", ln("h"))), if_(T_), for_("i", L(I(1), I(2))), txt("c", mod="<"), tag("b", htxt("j"), mod="...")],
              units=("  ",), suf=[txt("end")])
    c.spec_to_code("layout", A, 3, c.pick(3, 4))
    A = alpha([txt("a"), tag("p", m=1), tag("H"), tag("H", full("|", ln("x"), ln("y", p="      ")), mod="<"), emb(V("b")) if 0 else txt("d", mod="..."), tag("div", mod="..."), text("!", ln("v"), ln("w", p="  ", b=1)), if_(T_, htxt("q"), m=2), try_(mod="<")],
              pre=[def_("H", "body"), dict(txt("h"), d=1, ind="    "), dict(tag("i"), d=1, ind="    "), dict(emb(V("body"), m=1), d=2, ind="     "), dict(emb(V("body")), d=1, ind="    ")], units=("  ", "\t"))
    c.spec_to_code("expansions", A, 3, c.pick(2, 3))
    A = alpha([txt("a"), txt("b", m=1), tag("p"), tag("p", m=2), for_("i", L(I(1)))], suf=[])
    for tn in (1, 3): c.spec_to_code("ends%d" % tn, A, c.pick(2, 3), 2, tn=tn)
    progs = []
    conts = [lambda q: [tag("div"), q], lambda q: [if_(T_), q], lambda q: [for_("i", L(I(1), I(2))), q], lambda q: [tag("X"), q], lambda q: [tag("H"), q], lambda q: [try_(), [exl(boom(1))], else_(), q], lambda q: [tag(["div", "p"]), q], lambda q: [tag("H", mod="<"), q], lambda q: [tag("p", mod="..."), q],
             lambda q: [tag("ul", head("|", ln("h")), m=1), q], lambda q: [while_(tick(1, 1), m=1), q], lambda q: [tag("."), q], lambda q: [tag("H"), [tag("p"), q, txt("k")]]]
    leaves = [[txt("a")], [txt("a"), txt("b")], [txt("a", m=1), txt("b", m=2)], [text("|", ln("a"), ln("b", p="     "), ln("c", p="  "))], [text("/", ln("a"), ln("b", p="  ", b=2))], [text("!", ln("", p=""), ln("b", p="   "), ln("c", p="      "))], [tag("b")], [tag("b", full("|", ln("t"), ln("u", p="    "), ln("v", p="   ")))], [txt("a", mod="<"), txt("b", mod="...")],
              [pas(), txt("b", m=1)], [tag("br", m=1), txt("c")], [asg("q", I(1), m=1), txt("a")], [cmt(m=1), txt("a", m=1)], [emb(L()), txt("a")], [asg("s", S("p\n  q\n\nr")), txt("x", e(V("s")))], [text("|", ln("a"), ln("b", p=""), ln("c", p="")) if 0 else text("|", ln("a"), ln("b", p=" "))]]
    H = [def_("H", "body", []), [txt("("), tag("i"), [emb(V("body"))], emb(V("body"), m=1), txt(")")]]
    for unit in ("  ", "\t", "    "):
        for c1 in conts:
            for lf in leaves:
                progs.append(flat(H + c1(lf) + [txt("end")], unit=unit))
                for c2 in conts: progs.append(flat(H + c1(c2(lf)) + [txt("end", m=1)], unit=unit))
    c.code_to_spec("nesting", some(c, progs, 1100))
    # whitespace in embedded values is text, not layout
    vals = ["", " ", " a", "   a", "a\n        b", "  a\n  b", "\n", "\n   a", "a\n", "a\n\n   b\n c", "\ta", "a ", "~ a", "~", "a\n~b"]
    E_ = e(x, "{")
    forms = [[ln(E_, p="")], [ln(E_)], [ln(E_, p="   ")], [ln("k", E_)], [ln("k"), ln(E_, p="    ")], [ln(E_), ln("k", p="  ")], [ln(E_), ln(E_, p="     "), ln(E_, p="   ", b=1)], [ln("", p=""), ln(E_, p="   "), ln("k", p="  ")], [ln("", p=""), ln(E_, p="  ")], [ln(E_, p=""), ln(E_, p=" ")], [ln("~k"), ln("~", E_, p="  "), ln("~~k", p="   ")], [ln(E_, "~k", p=""), ln("k", E_, "|", p="      ")]]
    progs = []
    for v in vals:
        for q in forms:
            mk = "|/"[len(progs) % 2]
            # in every surrounding
            for k, w in enumerate((lambda: [text(mk, *q)], lambda: [tag("p"), [text(mk, *q)]], lambda: [tag("p", full(mk, *q))], lambda: [if_(T_), [tag("div", full(mk, *q))]], lambda: [def_("H", "", [], full(mk, *q)), tag("b"), [tag("H")]], lambda: [tag("p"), [txt("-"), text(mk, *q, mod="...")]], lambda: [for_("i", L(I(1), I(2)), full(mk, *q))], lambda: [asg("y", V("@1"), pc=[pc("@1", "b", x)]), text(mk, *[dict(l, s=[z if z != E_ else e(y, "{") for z in l["s"]]) for l in q])])):
                progs.append(fam(*([asg("x", S(v))] + w() + [txt("end")])))
            if len(q) == 1: progs.append(fam(asg("x", S(v)), tag("p", head(mk, *q)), [txt("z")]))
    c.code_to_spec("values", some(c, [p for p in progs if gen.sane(p)], 900))
    rnd(c, n=900, marg=.5, multi=.5, mod=.3, tag=14, def_=6, call=10, emb_in_def=10)

def members():
    """members and methods of values and of objects passed by the caller"""
    ob = V("ob"); sub = Mem(ob, "sub"); x = V("x")
    out = lambda ex: fam(asg("r", ex))
    progs = []
    vals = [ob, sub, x, Mem(sub, "up"), Mem(Mem(Mem(sub, "up"), "sub"), "up"), D((S("a"), I(1)), (S("n"), I(2)), (S("zz"), I(3))), V("mud"), V("mut"), S("a"), I(3), L(S("a")), T(), NONE, T_, FL(1, 2), Mem(ob, "bad"), boom(1), V("u"), P(3, ob), Idx(L(ob), I(0)), Idx(D((S("a"), ob)), S("a")), V("P"), ["if", P(4, T_), ob, sub]]
    for v in vals:
        for n in ("a", "n", "k", "z", "p", "bad", "zz", "sub", "up", "m_"):
            mm = Mem(v, n)
            progs += [fam(asg("x", D((S("a"), S("key")))), asg("r", mm)), fam(asg("x", ob), txt("t", e(mm), ";")), fam(try_(), [text("|", ln("t", e(mm, "{")))], else_(htxt("f")))]
    for mm in (Mem(ob, "a"), Mem(ob, "p"), Mem(ob, "k"), Mem(sub, "a"), Mem(ob, "z"), Mem(ob, "bad"), Mem(ob, "zz"), Mem(Mem(sub, "up"), "n")):
        progs += [out(Q("?", mm)), out(Q("!", mm)), out(["neg", mm]), out(Bin("+", mm, mm)), out(Bin("**", mm, I(2))), out(Idx(mm, I(0))), out(Idx(mm, I(1))), out(Slc(mm, I(0), I(1))), out(Call(mm, I(1))), out(Meth(mm, "upper")), out(Mem(mm, "a")), out(Cat(mm, S("b"))), out(Cat(S("b"), mm)), out(["not", mm]), out(["and", mm, P(1, I(2))]), out(["or", mm, P(1, I(2))]),
                  out(["fstr", [t("a"), e(mm), t(" b")]]), out(L(mm, T(mm))), out(D((mm, mm))), out(Pipe(mm, "str")), out(Pipe(mm, "f3", mm, c=mm)), out(["cmp", mm, ["==", mm], ["in", L(mm)]]), fam(tag(ch("p", ["title", mm], ["class", mm]), htxt(e(mm)))), fam(tag(ch("X", ["", mm], ["k", mm]), htxt(e(mm), ".", e(Q("?", mm))))), fam(for_("i", mm, htxt(e(V("i")), ";"))), fam(if_(mm, htxt("y")), else_(htxt("n"))),
                  fam(asg("x", mm), aug("x", "+", mm), show("x")), fam(def_("H", "b", [["v", mm]]), [tag("p", htxt(e(V("v"))))], tag("H", htxt("q"))), fam(asg("y", V("@1"), pc=[pc("@1", "b", mm, [["title", mm]])]), show("y")), fam(asg(["t", [["v", "x"], ["v", "y"]]], mm), show("x")), fam(text("/", ln("a.", e(mm), " .b"))), fam(text("!", ln("$ob.a")))]
    for f in ("f3", "P", "a", "zz", "bad"):
        g = Mem(ob, f)
        progs += [out(Call(g, I(1), S("v"))), out(Call(g, S("v"))), out(Call(g)), out(Call(g, a=P(5, S("k")))), out(Pipe(S("q"), g)), out(Pipe(S("q"), g, P(6, I(1)), c=I(2))), out(Pipe(P(7, S("q")), Idx(D((S("g"), g)), S("g")))), out(Call(g, Call(g, I(1), I(2)), I(3)))]
    progs += [out(Meth(ob, "m", P(1, I(4)))), out(Meth(ob, "m")), out(Meth(ob, "m", I(1), I(2))), out(Meth(ob, "nope", P(2, I(1)))), out(Meth(P(1, ob), "m", Meth(ob, "m", P(2, S("z"))))), out(Mem(Meth(ob, "m", ob), "a")), out(Mem(Call("P", I(9), sub), "up")), out(Mem(Q("?", ob), "a")), fam(asg("x", ob), asg("y", Mem(x, "n")), asg("x", sub), show("y"), txt(e(Mem(x, "a")))),
              out(["cmp", ob, ["==", Mem(sub, "up")]]), out(["cmp", ob, ["!=", sub]]), out(Call("str", ob)), out(Idx(ob, I(0))), out(Call("len", ob)), out(Bin("+", ob, ob)), out(["cmp", S("a"), ["in", ob]]), out(["cmp", ob, ["in", L(sub, ob)]]), fam(for_("i", ob, htxt("z"))), fam(emb(ob)), fam(txt(e(ob))), fam(tag(ch("p", ["title", ob]))), out(Idx(D((ob, I(1))), Mem(sub, "up")))]
    # methods
    sv = [S(""), S("a"), S(" a b\t"), S("a,b,,c"), S("aaa"), S("AbAb"), S("a b")]
    for v in sv:
        progs += [out(Meth(v, "strip")), out(Meth(v, "strip", P(1, S("x")))), out(Meth(v, "upper", I(1))), out(Meth(v, "split", P(1, I(1))))]
        for w in (S("a"), S(","), S("b"), S("aa"), S("xyz"), I(1), NONE): progs += [out(Meth(v, m, w)) for m in ("split", "count", "find", "startswith", "endswith")] + [out(Meth(v, "replace", w, S("-"))), out(Meth(v, "replace", w, w)), out(Meth(v, "replace", w)), out(Meth(w, "join", Call("list", v)))]
    lv = [L(), L(I(1)), L(I(1), S("a"), I(1), L(I(2))), T(), T(S("a"), NONE, S("a")), V("mut"), Mem(ob, "k")]
    for v in lv:
        for w in (I(1), S("a"), L(I(2)), NONE, B(True), FL(1, 1)): progs += [out(Meth(v, "index", w)), out(Meth(v, "count", w)), out(Q("?", Meth(v, "index", w)))]
        progs += [out(Meth(v, "index")), out(Meth(v, "copy")), out(Meth(v, "items")), out(Meth(v, "get", P(1, I(0))))]
    dv = [D(), D((S("a"), I(1))), D((I(1), S("x")), (S("b"), NONE), (T(I(1)), L())), V("mud"), D((B(True), S("t")), (FL(1, 1), S("f")))]
    for v in dv:
        for w in (S("a"), I(1), S("b"), T(I(1)), L(), S("k")): progs += [out(Meth(v, "get", w)), out(Meth(v, "get", P(1, w), P(2, S("d")))), out(Bin("+", Meth(v, "get", w), I(1)))]
        progs += [out(Meth(v, "get")), out(Meth(v, "get", I(1), I(2), I(3))), out(Meth(v, "copy_")), out(Meth(v, "keys", I(1)))]
        for m in ("keys", "values", "items"):
            w = Meth(v, m)
            progs += [out(w), out(Call("list", w)), out(Call("len", w)), out(Call("str", w)), out(["not", w]), out(["cmp", S("a"), ["in", w]]), out(["cmp", I(1), ["in", w]]), out(["cmp", T(S("a"), I(1)), ["in", w]]), out(Idx(w, I(0))), out(Bin("+", w, w)), out(Call(w)), out(["or", w, S("none")]), out(Q("?", w)), fam(txt("v", e(w))), fam(for_("i", w, htxt(e(V("i")), ";")), else_(htxt("no"))), fam(asg("x", w), for_("i", x), [for_("j", x, htxt(e(V("i")), e(V("j"), "{")))], show("x")), fam(asg(["t", [["v", "x"]]], w), show("x")), fam(emb(w)), out(Meth(S(","), "join", w)), fam(tag(ch("p", ["k", w])))]
        progs += [fam(for_(["t", [["v", "k"], ["v", "w"]]], Meth(v, "items"), htxt(e(V("k")), "=", e(Q("?", V("w"))), ";")), else_(htxt("no"))), fam(for_(["t", [["v", "k"], ["t", [["v", "w"]]]]], Meth(v, "items"), htxt(e(V("k"))))), fam(tag("ul"), [for_(["t", [["v", "k"], ["v", "w"]]], Meth(P(1, v), "items")), [tag(ch("li", ["title", P(2, V("k"))]), htxt(e(Q("?", V("w")))))]])]
    return [p for p in progs if gen.sane(p)]

def C15_ops():
    ops = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "is", "is not", "and", "or", "cat"]
    def mk(op, a, b):
        if op in OPLV: return Bin(op, a, b)
        if op in ("and", "or"): return [op, a, b]
        if op == "cat": return Cat(a, b)
        return Cmp(a, [op, b])
    return ops, mk

def okcat(x):
    """operands of a concatenation that can be written side by side"""
    try: Un(0).un(x); return True
    except AssertionError: return False

def nest_l(k, q): return q[0] if len(q) == 1 else [k, nest_l(k, q[:-1]), q[-1]]

def C15(c):
    ops, mk = C15_ops()
    progs = []
    out = lambda ex: fam(asg("r", ex)) if okcat(ex) else None
    A3 = [I(2), I(3), I(5)]
    for o1 in ops:                     # precedence and associativity of every pair of operators, both groupings
        for o2 in ops:
            if "cat" in (o1, o2): a, b, d = S("1"), S("2"), S("3")
            elif {o1, o2} & {"in", "not in"}: a, b, d = S("a"), S("ab"), S("abc")
            else: a, b, d = A3
            for ex in (mk(o2, mk(o1, a, b), d), mk(o1, a, mk(o2, b, d))): progs.append(out(ex))
            if {o1, o2} <= {"and", "or"} or o1 in ("<", "==", "in", "is not") and o2 in ("<", ">", "==", "!=", "not in"):
                if o2 not in ("and", "or"): progs.append(out(["cmp", P(1, a), [o1, P(2, b)], [o2, P(3, d)]]))
        for una in (["neg", I(2)], ["not", I(2)], ["not", ["not", S("a")]]):
            progs.append(out(mk(o1, una, I(3)))); progs.append(out(["neg" if una[0] == "neg" else "not", mk(o1, I(2), I(3))])); progs.append(out(mk(o1, I(3), una)))
        tern = ["if", I(1), I(2), I(0)]
        progs += [out(mk(o1, tern, I(3))), out(mk(o1, I(3), tern)), out(["if", mk(o1, I(2), I(3)), S("y"), S("n")]), out(["if", F_, S("y"), mk(o1, I(2), I(3))]), out(["if1", mk(o1, I(0), I(3)), S("y")])]
        progs += [out(Pipe(mk(o1, S("a"), S("b")), "list")), out(mk(o1, Pipe(S("a"), "upper"), S("b"))), out(mk(o1, S("a"), Pipe(S("b"), "upper")))]
    ntypes = len(progs)
    vals = [I(0), I(7), I(-3), T_, F_, FL(1, 2), FL(-5, 2), S(""), S("ab"), NONE, L(), L(I(1), S("a")), T(I(1)), T(), D(), D((S("a"), I(1)))]
    for o in ops:                      # every operator on every pair of types
        for a in vals:
            for b in vals:
                if a[0] == "lit" and a[1] == ["i", -3] or 1: progs.append(out(mk(o, a, b)))
    seqs = [S("abcd"), L(I(1), I(2), I(3)), T(I(1), I(2)), S(""), L(), Call("range", I(3)) if 0 else S("x")]
    idx = [I(0), I(1), I(-1), I(5), I(-5), T_, S("a"), NONE, FL(1, 1)]
    for s in seqs + [D((S("a"), I(1)), (I(1), I(2))), I(3), NONE]:
        for i in idx: progs.append(out(Idx(s, i)))
    pos = [NO, I(0), I(1), I(2), I(-1), I(-2), I(9)]
    for s in seqs[:3]:
        for i, j in itertools.product(pos, repeat=2):
            progs.append(out(Slc(s, i, j)))
            for k in (I(1), I(2), I(-1), I(0)): progs.append(out(Slc(s, i, j, k)))
    prec = [p for p in progs[:ntypes] if p]; rest = [p for p in progs[ntypes:] if p]
    # long chains
    nots = lambda k, v: v if not k else ["not", nots(k - 1, v)]
    prec += [out(nots(k, v)) for k in range(2, 8) for v in (I(0), S("a"), P(1, L()), ["cmp", I(1), ["<", I(2)]])]
    for op, vals2 in (("-", [9, 4, 3, 1, 5]), ("**", [2, 1, 3, 1, 2]), ("/", [64, 2, 4, 2, 1]), ("//", [64, 3, 2, 2, 1]), ("%", [99, 50, 30, 4, 3]), ("<<", [1, 2, 1, 3, 0]), (">>", [999, 1, 2, 1, 3]), ("^", [1, 3, 7, 2, 9]), ("|", [1, 2, 4, 8, 16]), ("&", [31, 30, 28, 24, 8])):
        for n in (3, 4, 5):
            ex = P(1, I(vals2[0]))
            for i, v in enumerate(vals2[1:n]): ex = Bin(op, ex, P(i + 2, I(v)))
            prec.append(out(ex))
    for o1, o2 in itertools.product(("+", "-"), repeat=2): prec.append(out(Bin(o2, Bin(o1, Bin(o2, Bin(o1, I(20), I(5)), I(3)), I(7)), I(1))))
    for o1, o2 in itertools.product(("*", "/", "//", "%"), repeat=2): prec.append(out(Bin(o2, Bin(o1, Bin(o2, Bin(o1, I(720), I(50)), I(3)), I(7)), I(2))))
    for o in ("in", "not in", "is", "is not", "==", "!=", "<", ">=") :
        for a, b in ((S("a"), S("abc")), (S("z"), L(S("z"))), (NONE, NONE) if o[:2] == "is" else (I(1), L(I(2)))): prec += [out(mk(o, a, b))] * 12
    for n in range(2, 6):
        for vs in ((1, 2, 3, 4, 5), (1, 2, 2, 4, 4), (3, 2, 1, 4, 5), (1, 1, 1, 1, 1)):
            for o in (["<"] * 4, ["<="] * 4, ["<", ">", "!=", "=="], ["==", "is not", "<", "!="]): prec.append(out(["cmp", P(0, I(vs[0]))] + [[o[i], P(i + 1, I(vs[i + 1]))] for i in range(n - 1)]))
        prec += [out(nest_l(k, [P(i, v) for i, v in enumerate((F_, I(0), S("b"), T_, L())[:n])])) for k in ("and", "or")]
        prec += [out(nest_l(k, [P(i, v) for i, v in enumerate((T_, I(4), S("b"), F_, L(I(1)))[:n])])) for k in ("and", "or")]
    c.code_to_spec("precedence", vary([p for p in prec if p]))
    c.code_to_spec("types", vary(some(c, rest, 2200)))
    # evaluation order and laziness, calls, members, containers
    P_ = P
    progs = [out(q) for q in (
        ["and", P(1, F_), P(2, T_)], ["and", P(1, I(3)), P(2, S("x"))], ["or", P(1, I(0)), P(2, L())], ["or", P(1, S("a")), P(2, T_)], ["and", ["or", P(1, F_), P(2, I(2))], P(3, I(3))], ["or", ["and", P(1, F_), P(2, I(2))], P(3, I(3))],
        ["and", P(1, T_), ["and", P(2, F_), P(3, T_)]], ["or", P(1, F_), ["or", P(2, I(7)), P(3, T_)]], ["not", P(1, S(""))], ["if", P(1, T_), P(2, I(1)), P(3, I(2))], ["if", P(1, F_), P(2, I(1)), P(3, I(2))],
        ["if1", P(1, F_), P(2, I(1))], ["if1", P(1, T_), P(2, I(1))], ["if", ["if", P(1, F_), T_, F_], P(2, I(1)), ["if", P(3, T_), P(4, I(5)), I(6)]],
        ["cmp", P(1, I(1)), ["<", P(2, I(2))], ["<", P(3, I(3))]], ["cmp", P(1, I(3)), ["<", P(2, I(2))], ["<", P(3, I(3))]], ["cmp", P(1, I(1)), ["==", P(2, I(1))], ["==", P(3, T_)]],
        ["cmp", P(1, I(1)), ["<", P(2, I(5))], [">", P(3, I(3))], ["!=", P(4, I(0))]], Bin("+", P(1, I(1)), Bin("*", P(2, I(2)), P(3, I(3)))), Bin("-", Bin("-", P(1, I(9)), P(2, I(3))), P(3, I(2))), Bin("**", P(1, I(2)), Bin("**", P(2, I(3)), P(3, I(2)))),
        L(P(1, I(1)), P(2, I(2)), T(P(3, I(3)))), D((P(1, S("a")), P(2, I(1))), (P(3, S("b")), P(4, I(2))), (P(5, S("a")), P(6, I(9)))), Idx(P(1, L(I(4), I(5))), P(2, I(1))), Slc(P(1, S("abcdef")), P(2, I(1)), P(3, I(5)), P(4, I(2))),
        Call("f3", P(1, S("p")), c=P(2, S("q")), b=P(3, S("r"))), Call("f3", P(1, S("p")), P(2, S("q")), P(3, S("r")), P(4, S("s"))), Call("f3"), Call("f3", S("a"), a=S("b")), Call("f3", S("a"), z=S("b")), Call("f3", b=S("b")), Call("f3", a=I(1)),
        Pipe(P(1, S("p")), "f3", P(2, S("q")), c=P(3, S("r"))), Pipe(Pipe(P(1, S("p")), "upper"), "f3"), Pipe(Pipe(S("ab"), "upper"), "lower"), Pipe(L(I(1)), "len"), Pipe(Bin("+", S("a"), S("b")), "upper"), Bin("+", S("a"), Pipe(S("b"), "upper")), Cat(S("a"), Pipe(S("b"), "upper"), S("c")),
        Cat(P(1, S("a")), P(2, I(1)), P(3, L(I(1)))), Cat(S("a"), NONE), Cat(P(1, NONE), P(2, S("a"))), Cat(I(1), I(2)), Cat(S("n"), Bin("+", I(1), I(2)), S("m")), ["cmp", Cat(S("a"), S("b")), ["==", S("ab")]], Cat(S("x"), Pipe(S("ab"), "len")),
        Meth(S("ab"), "upper"), Meth(Meth(S("ab"), "upper"), "lower"), Meth(S(","), "join", L(S("a"), S("b"))), Meth(S("ab"), "startswith", S("a")), Meth(S("ab"), "nope"), Meth(I(3), "upper"), Idx(Meth(S("ab"), "upper"), I(0)), Meth(Idx(L(S("q")), I(0)), "upper"), Meth(Slc(S("abc"), I(1)), "upper"),
        Call(I(3)), Call("len", S("abc")), Call("len", I(3)), Call("len"), Call("str", FL(3, 1)), Call("list", S("ab")), Call("list", D((S("k"), I(1)))), L(), T(), D(), T(I(1)), L(L(), T()), Idx(L(L(I(1), I(2)), I(3)), I(0)), Idx(Idx(L(L(I(1), I(2)), I(3)), I(0)), I(1)),
        boom(1), ["and", boom(1), P(2, I(1))], ["or", P(1, T_), boom(2)], ["if", P(1, T_), P(2, I(0)), boom(3)], L(P(1, I(1)), boom(2), P(3, I(1))), Call("P", I(1), boom(2)), Q("?", boom(1)), ["cmp", I(1), [">", I(2)], ["<", boom(3)]],
        Bin("/", I(7), I(2)), Bin("/", I(6), I(3)), Bin("//", I(-7), I(2)), Bin("%", I(-7), I(3)), Bin("**", I(2), ["neg", I(1)]) if 0 else I(0), Bin("%", FL(7, 2), I(2)), Bin("//", FL(7, 2), I(2)), Bin("<<", I(1), I(4)), Bin(">>", I(-5), I(1)), Bin("<<", I(1), I(-1)),
        ["neg", Bin("*", I(2), I(3))], ["neg", T_], ["neg", S("a")], ["not", NONE], ["not", ["neg", I(0)]], ["neg", V("len")] if 0 else I(1))]
    # arguments by position and by name in any order: evaluated as they are written
    aw = [["", P(1, S("p"))], ["", P(2, S("q"))], ["b", P(3, S("r"))], ["c", P(4, S("s"))], ["z", P(5, S("t"))], ["a", boom(6)]]
    for k in (1, 2, 3, 4):
        for q in itertools.permutations(aw, k):
            if k == 4 and len(progs) % 4: progs.append(None)
            else: progs.append(out(CallM("f3", *q)))
    progs += [out(CallM(Q("?", boom(7)), ["b", P(1, I(1))], ["", P(2, I(1))])), out(CallM("len", ["", P(1, S("ab"))])), out(CallM("nofun", ["", P(1, I(1))])), out(CallM("f3", ["c", CallM("f3", ["b", P(2, I(1))], ["", P(1, I(2))])], ["", P(3, I(4))]))]
    # sets
    U = [Set(P(1, I(1))), Set(P(1, I(1)), P(2, B(True)), P(3, FL(1, 1))), Set(P(1, S("a"))), Set(P(1, T(I(1), S("a")))), Set(P(1, NONE))]
    W = [Set(I(1), I(2)), Set(I(2), I(1), I(2)), Set(S("a"), I(1)), Set(T(), T(I(1)))]
    for u in U + W:
        progs += [out(Call("len", u)), out(["not", u]), out(["and", u, S("k")]), out(["cmp", u, ["==", W[0]]]), out(["cmp", u, ["!=", U[0]]]), out(["cmp", u, ["==", L(I(1))]]), out(["cmp", I(1), ["in", u]]), out(["cmp", S("a"), ["not in", u]]), out(["cmp", T(I(1)), ["in", u]]), out(["cmp", L(), ["in", u]]), out(["cmp", T(L()), ["in", u]]), out(["cmp", u, ["in", L(I(1), W[0])]]), out(["cmp", u, ["in", u]]), out(Idx(u, I(0))), out(D((u, I(1)))), out(Bin("+", u, u)), out(["neg", u]), out(Call(u)), out(Meth(u, "upper"))]
    for u, w in itertools.product(W + [Set(I(1)), Set(S("q")), L(I(1)), D(), I(1)], repeat=2):
        for o in ("-", "&", "|", "^", "+", "*"): progs.append(out(Call("len", Bin(o, u, w)))); progs.append(out(["cmp", Bin(o, u, w), ["==", W[0]]]))
        for o in ("<", "<=", ">", ">="): progs.append(out(["cmp", u, [o, w]]))
    for a, b in itertools.product((D(), D((S("a"), I(1))), D((S("a"), I(2)), (S("b"), I(3))), L()), repeat=2): progs.append(out(Bin("|", a, b)))
    for u in U: progs += [out(u), fam(for_("i", u, htxt(e(V("i")), ";"))), fam(txt("s", e(u))), out(Call("list", u)), fam(asg(["t", [["v", "x"]]], u), show("x")), fam(tag(ch("p", ["k", u])))]
    progs += [out(Set(P(1, I(1)), L())), out(Set(L())), out(Set(P(1, I(1)), boom(2), P(3, I(3)))), out(Set(T(L()))), out(Set(D()))]
    # tuples as keys
    dd = D((T(I(1), I(2)), S("u")), (T(), S("v")), (T(I(1)), S("w")), (T(I(1), T(I(2), NONE)), S("x")), (T(B(True), FL(2, 1)), S("y")))
    for k in (T(I(1), I(2)), T(), T(I(1)), T(I(1), T(I(2), NONE)), T(I(2), I(1)), T(I(1), L()), T(P(1, I(1)), P(2, I(2)))): progs += [out(Idx(dd, k)), out(["cmp", k, ["in", dd]]), out(Idx(L(I(1)), k)), out(D((k, I(1)), (k, I(2))))]
    c.code_to_spec("order", variants([p for p in progs if p], 2))
    c.code_to_spec("members", variants(some(c, members(), 1500), 2))
    # random expressions, deeper
    r = random.Random(c.seed)
    progs = []
    g = gen.Gen(r, 10, 4, dict(err=.05))
    for _ in range(c.pick(1500, 20000)):
        ex = rexpr(r, r.choice([2, 3, 3, 4]), [0])
        p = fam(asg("x", I(4)), asg("y", S("yy")), asg("r", ex)) if r.random() < .6 else fam(asg("x", I(4)), asg("y", S("yy")), txt("a", e(ex, "{"), "b"))
        if r.random() < .7: p[-1] = dict(p[-1], sf=r.randrange(64), a=dict(p[-1]["a"])); fix_lead(p[-1])
        if gen.sane(p): progs.append(p)
    c.code_to_spec("random", progs)

def rexpr(r, d, n):
    """random expressions with probes at the leaves, so that evaluation is observable"""
    def leaf():
        n[0] += 1
        v = r.choice([I(r.randrange(5)), I(r.randrange(5)), S(r.choice(["", "a", "bc"])), T_, F_, L(I(1)), L(), NONE if r.random() < .2 else I(6), V("x"), V("y")])
        return P(n[0], v) if r.random() < .6 else v
    if d == 0 or r.random() < .1: return leaf()
    k = r.randrange(16)
    go = lambda: rexpr(r, d - 1, n)
    if k < 4: return Bin(r.choice(["+", "-", "*", "//", "%", "&", "|", "^", "+", "*"]), go(), go())
    if k < 6: return [r.choice(["and", "or"]), go(), go()]
    if k == 6: return ["not", go()]
    if k < 9: return ["cmp", go()] + [[r.choice(["<", ">", "==", "!=", "<=", ">=", "==", "!="]), go()] for _ in range(r.choice([1, 1, 2, 3]))]
    if k == 9: return ["if", go(), go(), go()] if r.random() < .7 else ["if1", go(), go()]
    if k == 10: return r.choice([L, T])(*[go() for _ in range(r.randrange(3))])
    if k == 11: return Idx(go(), r.choice([I(0), I(1), I(-1), go()]))
    if k == 12: return Slc(go(), r.choice([NO, I(1), I(-1)]), r.choice([NO, I(2), I(-1)]))
    if k == 13: return Q(r.choice("??!"), go())
    if k == 14: return Call("f3", go(), **({"c": go()} if r.random() < .5 else {})) if r.random() < .6 else Pipe(go(), r.choice(["len", "upper", "list", "f3"]))
    if k == 15:
        a, b = go(), r.choice([S("t"), V("y"), P(99, go())])
        return Cat(a, b) if okcat(Cat(a, b)) else Bin("+", a, b)

PROBES = {"ob", "P", "boom", "kbd", "tick", "f3", "lazy", "pull", "bad", "mut", "mud", "X", "Y", "F", "G_", "XP", "XV"}
def C17(c):
    before = [[], [txt("t", m=1)], [cmt(), cmt(m=2)], [text("|", ln("a"), ln("b", p="    "), ln("c", p="    ", b=2))], [text("!", ln("{"), ln("$q", p="   ", b=1))], [tag("div"), [txt("in"), tag("p"), [txt("deep", m=1)]]],
              [tag("p", full("|", ln("h"), ln("tail", p="      ")))], [def_("G", "body", ["z"]), [txt(e(V("z")), m=1), emb(V("body"))]], [asg("k", S("x\ny\n")), txt("n", e(V("k")))], [if_(F_), [txt("no")], elif_(T_), [txt("yes")], else_(), [txt("no")]],
              [try_(), [exl(boom(1))], else_(), [txt("ok")]], [tag("ul", head("|", ln("hd"))), [txt("k"), txt("l", m=2)]], [for_("i", L(I(1), I(2)), htxt("it", e(V("i"))))], [text("--" if 0 else "|", ln("x" * 40))], [tag("X", htxt("x"), m=1)],
              [cmt(" a\x0cb\u2028c\x85"), txt("u\x0bv\x1cw\u2029z")], [tag("div", head("|", ln("q\x0c r"))), [text("!", ln("a\x1eb"), ln("\x1dc\x0c", p="    ", b=1)), cmt("\x0b", m=1)]]]
    H = [def_("H", "", ["a", ("b", I(1))]), [txt("h"), txt("u", e(Q("!", V("b"))))], def_("R", "body", [("q", I(1))]), [tag("p"), [if_(V("q")), [txt("w", e(V("q")))], emb(V("body")), txt("s", e(Q("!", V("q"))))]]]
    U = [if_(F_), [asg("un", I(1))]]
    errs = [txt(e(V("undef"))), tag("NoTag", htxt("t")), tag(["p", "NoTag"]), txt(e(V("un"))), asg(tu("v", "w"), L(I(1))), asg(tu("v", "w"), L(I(1), I(2), I(3))), asg("v", Q("!", I(0))), txt("a", e(NONE)), tag("H"), tag(ch("H", ["", I(1)], ["c", I(2)])), tag(ch("H", ["", I(1)], ["a", I(2)])),
            tag(ch("H", ["", I(1)], ["", I(2)], ["", I(3)])), tag(ch("H", ["", I(1)]), htxt("body")), tag(ch("H", ["", I(1)], ["b", I(0)])), tag(ch("R", ["q", I(0)])), tag(ch("R", ["body", I(0)])), text("|", ln("a"), ln("b", e(V("undef")), p="    "), ln("c", p="    ")), text("|", ln("a"), ln("b", p="    ", b=1), ln("c", e(V("un")), p="     ")),
            tag("p", full("|", ln("a"), ln("b", p="    "), ln("c", e(NONE), p="    "))), tag("p", head("|", ln("h", e(V("un"))))), for_(tu("v", "w"), L(I(1))), if_(V("undef"), htxt("x")), while_(V("un"), htxt("x")), if_(F_, htxt("a", e(V("undef")))), aug("un", "+", I(1)), emb(V("undef")), tag(ch("p", ["class", V("un")])), tag(ch("p", ["class", Q("!", F_)])),
            exl(V("un")), tag(ch("H", ["a", I(1)], ["", I(2)])), def_("H2", "x", ["x"]), def_("H2", "", ["x", "x"], htxt("z")), tag(ch("R", ["q", V("un")])), asg("v", Cat(S("a"), NONE)), text("/", ln("k", e(Q("!", S(""))))), txt(e(Idx(V("un"), I(0)))), for_("i", V("undef")), tag("G9" , hemb(V("undef")))]
    bads = ["$x = = 2", "if", "%", "p a=", "| {1 + }", "| {", "elif 1 | x", "@", "$x = [1, 2", "for x | y", "p ..", "&", "?? | x", "import", "from x import", "$ = 3", "x = 3", "$x = 'abc", "p )"]
    errs += [bad(s) for s in bads]
    wraps = [lambda q: q, lambda q: [tag("div"), q], lambda q: [tag("ul", head("|", ln("hd")), m=1), [txt("k")] + q], lambda q: [if_(T_), q], lambda q: [for_("i", L(I(1))), [txt("x")] + q], lambda q: [def_("Q"), q, tag("Q")], lambda q: [tag("R"), [tag("p"), q]]]
    progs = []
    for b in before:
        for er in errs:
            for w in wraps:
                if er["k"] == "def" and w in (wraps[3], wraps[4]): continue
                for after in ([], [txt("end", m=1)]):
                    progs.append(flat(H + U + b + w([dict(er, m=len(progs) % 3)]) + after))
    c.code_to_spec("lines", some(c, progs, 2600))
    c.code_to_spec("files", some(c, progs, 300, 4000), fn="/nowhere/dir/the_script.hy")
    # the very first lines of a script
    first = [flat(p + b + w([dict(er, m=m)]) + after) for er in errs for m in (0, 0, 1, 3) for p in ([], H, U) for b in [[], [], []] + before for w in wraps[:4] for after in ([], [txt("end", m=1)])
             if not (p and not {"H", "R", "un"} & json_names(er)) and not (er["k"] == "def" and w is wraps[3])]
    first = [q for q in first if not PROBES & json_names(q)]
    c.code_to_spec("first lines", some(c, first, 1200), pro=0)
    # the lines of indentation errors, and of lines that fit nowhere
    import props_lex
    props_lex.prep(c, "indentation", ["", "s", "ss", "t"], ["tag", "text", "leaf", "blank"], 3, every=c.pick(5, 1), trail=1, forms=2)
    props_lex.prep(c, "deeper indentation", ["", "s", "ss", "t"], ["tag", "blank"], 5, every=c.pick(10, 1), trail=1)
    c.code_to_spec("first lines of files", some(c, first, 200, 2000), pro=0, fn="/nowhere/dir/the_script.hy")
    A = alpha([txt("a"), text("|", ln("m"), ln("n", e(V("u")), p="    ", b=1)), tag("div"), txt(e(V("zz")), m=1), tag("p", htxt(e(V("u"))), m=2), cmt(m=1), tag("H"), bad("$x = ="), def_("H", "", ["q"], full("|", ln("x"), ln("y", p="      ")))],
              pre=[if_(F_), dict(asg("u", I(1)), d=1, ind="  ")])
    c.spec_to_code("layouts", A, c.pick(3, 4), 3)
    rnd(c, n=600, bad=.06, err=.03, marg=.5, multi=.5, cmt=4, def_=6, call=10)

def C19(c):
    A = alpha([tag("X"), tag("X", htxt("t", e(V("i")))), tag(["X", "Y"], htxt("u")), tag("F", htxt("f")), tag("G_"), tag("div"), if_(F_), for_("i", L(I(1), I(2))), try_(), exl(boom(1)), txt("z", e(P(3, V("i"))))], pre=[asg("i", I(0))])
    c.spec_to_code("occurrences", A, c.pick(3, 4), 3)
    progs = []
    atts = [[], [["", I(1)]], [["", P(1, S("a"))], ["", P(2, L(I(1)))]], [["k", P(1, T_)]], [["", P(2, I(1))], ["k", P(1, S("v"))], ["m", NONE]], [["k", S("a")], ["k", S("b")]], [["class", S("c")], ["id", S("i")], ["class", S("d")]], [["", V("i")], ["k", ["fstr", [t("i="), e(V("i"))]]]], [["", D((S("a"), I(1)))]], [["", boom(5)]]]
    bods = [(NOHD, None), (htxt("t"), None), (htxt("a<", e(P(9, S("&")))), None), (full("/", ln("a<", e(P(9, S("&"))))), None), (full("!", ln("{a}$b")), None), (full("|", ln("a"), ln("b", p="    "), ln("c", p="      ")), None), (head("|", ln("h")), [txt("k"), tag("p", htxt("q"))]), (NOHD, [txt("k"), tag("p"), [txt("q"), tag("Y", htxt("w"))], txt("m", m=1)]),
            (NOHD, [tag("X", htxt("in")), tag("F", htxt("in"))]), (NOHD, [if_(F_), [txt("no"), tag("Y")], else_(), [txt("yes"), tag("Y")]]), (NOHD, [try_(), [tag("Y", htxt("lost")), exl(boom(1))], else_(), [tag("Y", htxt("alt"))]]), (NOHD, [for_("j", L(I(1), I(2))), [tag(ch("Y", ["", V("j")]))]]), (NOHD, [pas()]), (NOHD, [tag("H"), [tag("Y", htxt("b"))]]), (NOHD, [asg("i", I(7)), txt(e(V("i")))])]
    H = [def_("H", "body"), [tag("i"), [emb(V("body"))], emb(V("body"))], asg("i", I(3))]
    for n in ("X", "F", "Y", "G_"):
        for at in atts:
            for hd, kids in bods:
                l = tag(ch(n, *at), hd)
                k = [kids] if kids else []
                progs.append(fam(*(H + [txt("a"), l] + k + [txt("z")])))
                progs.append(fam(*(H + [for_("i", L(I(1), I(2))), [tag("div"), [l] + k], txt("z")])))
                progs.append(fam(*(H + [tag("H"), [l] + k, txt("z")])))
                progs.append(fam(*(H + [def_("G", "b2", [("i", I(1))]), [l] + k + [emb(V("b2"))], tag(ch("G", ["", S("s")])), tag("G", htxt("t"))])))
                progs.append(fam(*(H + [try_(), [l] + k + [exl(boom(8))], else_(), [l] + k])))
                for cn in (["div", None], [None, "p"], ["X", None, "F"], ["G_", None], ["H", None], [None, "H"], [None, None], ["comment", None], [None, "comment"], ["br", None], ["XP", "comment", None]):
                    progs.append(fam(*(H + [tag([ch(n, *at) if q is None else ch(q) for q in cn], hd)] + k + [txt("z")])))
    c.code_to_spec("forms", some(c, progs, 2400))
    rnd(c, n=900, ext=18, tag=6, try_=6, for_=6, if_=6, call=8, pcs=.15)

def C20(c):
    tg = [tv("v"), tu("v"), tu("v", "w"), tu("v", "w", "u"), tu("v", tu("w", "u")), tu(tu("v"), "w"), tu(tu("v", "w"), tu("u", "z")), tu("v", tu("w", tu("u", "z"))), tu("v", "v")]
    vals = [I(1), NONE, S(""), S("a"), S("ab"), S("abc"), L(), L(I(1)), L(I(1), I(2)), L(I(1), I(2), I(3)), T(I(1), I(2)), T(I(1)), L(I(1), L(I(2), I(3))), L(S("ab"), S("cd")), T(L(I(1)), I(2)), L(T(I(1), I(2)), T(I(3), I(4))), L(I(1), L(I(2), S("xy"))), D((S("a"), I(1)), (S("b"), I(2))), D((S("k"), I(9))), D(),
            L(I(1), I(2), L()), L(L(I(1), I(2))), T(), FL(1, 2), T_, L(I(1), NONE), L(NONE, L(I(1), I(2)))]
    progs = []
    pre = [asg("v", S("old")), asg("w", S("old")), asg("u", S("old")), asg("z", S("old"))]
    for g in tg:
        for v in vals:
            progs.append(fam(*(pre + [asg(g, P(1, v)), show("v")])))
            lz = Call("lazy", v)
            if g != tv("v"): progs.append(fam(*(pre + [try_(), [asg(g, P(1, lz)), txt("ok")], else_(), [txt("failed")], exl(P(2, L(V("v"), V("w"), V("u"), V("z"))))])))
            progs.append(fam(*(pre + [for_(g, P(1, lz)), [exl(P(2, L(V("v"), V("w"))))], else_(), [txt("none")], exl(P(2, L(V("v"), V("w"))))])))
            progs.append(fam(*(pre + [try_(), [asg(g, P(1, v)), txt("ok")], else_(), [txt("failed")], exl(P(2, L(V("v"), V("w"), V("u"), V("z"))))])))
            progs.append(fam(*(pre + [for_(g, P(1, L(v, v))), [exl(P(2, L(V("v"), V("w"), V("u"), V("z"))))], txt("end")])))
            progs.append(fam(*(pre + [tag("div"), [asg(g, v), exl(P(2, L(V("v"), V("w"), V("u"), V("z"))))], exl(P(3, L(V("v"), V("w"))))])))
    ops = ["+", "-", "*", "/", "//", "%", "<<", ">>", "&", "|", "^"]
    for op in ops:
        for a in (I(7), I(2), S("ab"), L(I(1)), FL(3, 2), T_, NONE):
            for b in (I(2), I(3), S("c"), L(I(2)), I(0), Bin("+", I(1), I(2)) , Bin("-", V("x"), I(1)), ["if", T_, I(2), I(5)], ["or", I(0), I(3)]):
                progs.append(fam(asg("x", a), aug("x", op, b), show("x")))
                progs.append(fam(asg("x", a), asg("y", x), tag("p"), [aug("x", op, P(1, b)), exl(P(2, x))], exl(P(3, L(x, y)))))
    # tuples, the one-element form, chains of assignments, right sides that read the targets
    more = [[asg("x", T(I(1), I(2))), asg(tu("x", "y"), x)], [asg("a", I(1)), asg("b", I(2)), asg(tu("a", "b"), T(V("b"), V("a"))), show("a", "b")], [asg("x", T(I(1))), exl(P(1, x))], [asg("x", T()), exl(P(1, x))], [asg("x", L(I(1), I(2))), asg(tu("x", "y"), x), show("x", "y")],
            [asg("x", L(I(1))), asg("y", x), aug("x", "+", L(I(2))), exl(P(1, x))], [asg("x", I(1)), aug("x", "+", x), aug("x", "*", Bin("+", x, x)), show("x")], [asg("x", Q("?", boom(1))), show("x")], [for_(tu("k", "v"), L(T(S("a"), I(1)), S("xy"), L(I(5), I(6)))), [txt(e(V("k")), e(V("v")))], show("k", "v")],
            [for_(tu("k", tu("v", "w")), L(T(I(1), T(I(2), I(3))), T(I(4), S("ab")))), [txt(e(V("k")), e(V("v")), e(V("w")))]], [for_("i", T(I(1), I(2)), htxt(e(V("i")))), show("i")], [for_("i", L(I(1), I(2))), [for_("i", S("ab")), [txt(e(V("i")))], txt(e(V("i")))], show("i")],
            [for_("i", L(I(1), I(2), I(3))), [aug("i", "*", I(2)), txt(e(V("i")))]], [asg("q", L(I(1), I(2))), for_("i", V("q")), [asg("q", I(0)), txt(e(V("i")))], show("q")]]
    progs += [fam(*m) for m in more]
    c.code_to_spec("targets", variants(some(c, progs, 1700), 1) + variants([fam(*m) for m in more], 4))
    A = alpha([asg(tu("x", "y"), V("q")), asg("q", T(x, y)), asg(tu("q", "x"), T(L(I(1), I(2)), y)), aug("x", "+", y), asg("y", I(2)), for_(tu("x", "y"), L(V("q"), V("q"))), try_(), tag("p"), exl(P(1, L(x, y)))], pre=[asg("x", I(1)), asg("y", S("a")), asg("q", L(I(3), I(4)))])
    c.spec_to_code("sequences", A, c.pick(3, 4), 2)
    rnd(c, n=500, asg=25, aug=15, for_=10, text=5, tag=5, ext=0, def_=1, multi=.02, mk=.02)

def C22(c):
    b = V("body")
    bodies = [(NOHD, None), (htxt("t"), None), (full("|", ln("a"), ln("b", p="    "), ln("c", p="      ")), None), (head("|", ln("h")), [tag("p", htxt("k")), txt("l")]), (NOHD, [tag("p", htxt("1")), tag("b", htxt("2")), tag("p"), [tag("b", htxt("3")), txt("4")]]), (NOHD, [txt("x"), txt("y", m=1), tag("X", htxt("ext"))]), (NOHD, [txt("p", mod="<"), tag("i", mod="...")]),
              (NOHD, [tag("."), [tag("i", htxt("1")), tag("b", htxt("2")), txt("3")], tag("p"), [tag("."), [tag("b", htxt("4")), tag("b")]]]), (NOHD, [tag("."), tag("."), [tag(".", htxt("in"))], txt("x")])]
    exprs = [b, Idx(b, I(0)), Idx(b, I(-1)), Idx(b, I(9)), Slc(b, I(0), I(1)), Slc(b, I(1)), Slc(b, NO, I(-1)), Slc(b, NO, NO, I(2)), Slc(b, NO, NO, I(-1)), Slc(b, I(5)), Idx(b, S("p")), Idx(b, S("b")), Idx(b, S("none")), L(b, b), L(Idx(b, I(0)), Slc(b, I(1))), L(), T(b), L(L(b), NONE), NONE, I(3), S("text"), S(""), L(I(1)), L(S("a")), D(), Idx(Idx(b, S("p")), I(0)), Slc(Idx(b, S("p")), I(0), I(1)), ["if", T_, b, L()], ["or", L(), b], ["and", b, Slc(b, I(0))], Q("?", Idx(b, I(9))), Q("?", b), Q("!", b), T_]
    places = [lambda q: [q], lambda q: [tag("div"), [q]], lambda q: [txt("("), tag("ul"), [tag("li"), [q], q], txt(")")], lambda q: [for_("i", L(I(1), I(2))), [q, txt("-")]], lambda q: [if_(T_), [q], else_(), [txt("no")]], lambda q: [tag("G"), [q, txt("g")]], lambda q: [q, dict(q, m=1), dict(q, mod="<"), dict(q, mod="...")], lambda q: [tag("X"), [q]], lambda q: [try_(), [q, exl(boom(1))], else_(), [q]], lambda q: [tag("p", hemb(q["a"]["e"]))], lambda q: [tag(["div", "G"], hemb(q["a"]["e"])), txt("t")],
              lambda q: [asg("s", q["a"]["e"]), emb(V("s")), tag("b"), [emb(V("s"))]], lambda q: [if_(T_, hemb(q["a"]["e"])), txt("z")]]
    progs = []
    G = [def_("G", "b3"), [tag("i"), [emb(V("b3"))], emb(V("b3"))]]
    for hd, kids in bodies:
        for ex in exprs:
            for pl in places:
                for call in ([tag("H", hd)] + ([kids] if kids else []), [tag("div"), [tag("H", hd)] + ([kids] if kids else []), txt("end")]):
                    progs.append(flat(G + [def_("H", "body")] + [pl(emb(ex))] + call))
    c.code_to_spec("places", some(c, progs, 2000))
    A = alpha([emb(b), emb(Slc(b, I(0), I(1)), m=1), emb(Idx(b, S("p"))), tag("div"), tag("G"), tag("p", hemb(b)), for_("i", L(I(1), I(2))), if_(V("body")), txt("t")], pre=[def_("G", "b2"), dict(tag("i"), d=1, ind=" "), dict(emb(V("b2")), d=2, ind="   "), def_("H", "body"), dict(txt("<"), d=1, ind="    ")],
              suf=[tag("H", head("|", ln("h"))), dict(tag("p", htxt("q")), d=1, ind="  "), dict(text("|", ln("u"), ln("v", p="     ")), d=1, ind="  "), tag("H", htxt("z"))], mind=1)
    c.spec_to_code("inside", A, c.pick(3, 4), 3)
    rnd(c, n=700, emb_in_def=20, emb=4, def_=14, call=18, tag=12, ext=2, pcs=.05)

def C23(c):
    inner = [I(0), I(7), S(""), S("a"), L(), L(I(1)), NONE, F_, T_, D(), boom(2), kbd(2), x, V("un"), Idx(S("ab"), I(9)), Bin("/", I(1), I(0)), Bin("+", I(1), I(2)), Bin("-", I(2), I(2)), ["and", T_, boom(2)], ["or", S("s"), boom(2)], Call("f3", S("p")), Call("len", S("")), Pipe(S("b"), "upper"), Meth(S("ab"), "nope"), ["if", x, S("t"), S("")], ["not", I(1)], ["cmp", I(1), ["<", I(2)]], L(boom(2)), Cat(S("a"), NONE), Cat(S("a"), S("b")), FL(0, 1), Call("boom")]
    ctxs = [lambda q: [txt("<", e(q, "$"), ">")], lambda q: [txt("<", e(q, "{"), ">")], lambda q: [asg("r", q)], lambda q: [asg("r", P(1, q))], lambda q: [asg("r", L(P(1, I(1)), q, P(3, I(1))))], lambda q: [asg("r", ["or", q, P(5, S("dflt"))])], lambda q: [asg("r", Bin("+", L(q), L(I(1))))], lambda q: [if_(q, htxt("yes")), else_(htxt("no"))],
            lambda q: [for_("i", q), [txt(e(V("i")))], else_(), [txt("none")]], lambda q: [tag(ch("p", ["title", q]), htxt("t"))], lambda q: [tag(ch("H", ["", q]))], lambda q: [tag(ch("X", ["k", q]))], lambda q: [txt(e(Q("?", Cat(S("p"), q))))], lambda q: [txt(e(Q("!", L(q))))], lambda q: [txt("a", e(["fstr", [t("f"), e(q)]]))], lambda q: [while_(["and", tick(4, 2), q]), [txt("w")]],
            lambda q: [emb(q)], lambda q: [txt("[", e(Q("?", Q("!", q))), "]")], lambda q: [txt("[", e(Q("!", Q("?", q))), "]")], lambda q: [text("/", ln("k"), ln("l", e(q), p="   "))], lambda q: [tag("p", htxt(e(q)), q=True), txt("z")], lambda q: [txt(e(q), q=True), txt("z")], lambda q: [aug("x", "+", q), show("x")], lambda q: [try_(), [txt("t", e(q))], else_(), [txt("alt")]], lambda q: [txt(e(Idx(L(q, I(5)), I(1))))], lambda q: [asg("r", Pipe(q, "str"))], lambda q: [asg("r", Q("?", Call("P", I(1), q)))], lambda q: [asg("r", Bin("*", q, I(2)))], lambda q: [asg("r", ["not", q])], lambda q: [asg("r", ["cmp", q, ["==", S("")]])]]
    progs = []
    for i in inner:
        for q in "?!":
            for k, ct in enumerate(ctxs):
                try: progs.append(fam(*([def_("H", "", ["a"]), [txt("H", e(V("a")))], if_(F_), [asg("un", I(1))], asg("x", I(0))] + ct(Q(q, i)))))
                except AssertionError: pass
    progs = [p for p in progs if gen.sane(p)]
    c.code_to_spec("contexts", variants(some(c, progs, 1900), 1))
    # which (sub)expression a qualifier belongs to
    f = lambda q, z: [Bin("+", S("a"), Q(q, z)), Q(q, Bin("+", S("a"), z)), ["or", S(""), Q(q, z)], Q(q, ["or", S(""), z]), ["and", S("k"), Q(q, z)], Pipe(Q(q, z), "str"), Q(q, Pipe(z, "str")), Pipe(S("b"), "f3", Q(q, z)), Cat(S("a"), Q(q, z)), Q(q, Cat(S("a"), z)), ["if", Q(q, z), S("y"), S("n")], Q(q, ["if", z, S("y"), S("")]), ["not", Q(q, z)], Q(q, ["not", z]), L(Q(q, z), z), Idx(D((S("k"), Q(q, z))), S("k")), Call("f3", Q(q, z), b=Q(q, z)), Slc(S("abc"), Q(q, z)), Q(q, Slc(S("abc"), I(9))), Q(q, Meth(z, "upper")), Q(q, Idx(z, I(0))), Q(q, Idx(Meth(z, "upper"), I(0))), ["cmp", Q(q, z), ["!=", Q(q, S("x"))]], ["neg", Q(q, I(0))], Bin("**", Q(q, I(2)), I(3)), Bin("*", I(2), Q(q, z))]
    progs = []
    for q in "?!":
        for z in (S("s"), S(""), x, V("un"), boom(1), NONE, I(0)):
            for ex in f(q, z):
                p0 = [if_(F_), [asg("un", I(1))], asg("x", S("xx"))]
                for last in (asg("r", ex), txt("(", e(ex, "{"), ")"), tag(ch("X", ["", ex]))):
                    if okcat(ex): progs.append(fam(*(p0 + [last])))
    c.code_to_spec("extent", some(c, variants(progs, 2), 1100))
    A = alpha([txt("a", e(Q("?", x))), txt("b", e(Q("!", x))), asg("x", Q("?", V("un"))), asg("x", Q("!", P(1, x))), asg("x", I(3)), asg("x", Q("?", boom(2))), tag("p", htxt(e(Q("!", x))), q=True), txt("c", e(x), q=True), txt("d", e(kbd(3)), q=True), try_(), else_(), if_(Q("?", x))], pre=[if_(F_), dict(asg("un", I(1)), d=1, ind="  "), asg("x", S(""))])
    c.spec_to_code("blocks", A, c.pick(3, 4), 2)
    rnd(c, n=400, opt=14, err=.2, try_=6)

def stored():
    """Tags kept in variables and called later: they refer to the variables around their definition as they are at the call."""
    two = lambda l, *q: dict(l, pc=list(q))
    H = [def_("H", "body", [("a", S("A"))]), [txt("H", e(V("a")), e(x)), tag("i"), [emb(V("body"))]]]
    progs = []
    outs = lambda b=None, at=(), f="$f": [text("/", ln("[", e(V("@1"), "{"), "]"), pc=[pc("@1", f, b, at)]), asg("y", V("@1"), pc=[pc("@1", f, b, at)]), tag(ch("p", ["title", V("@1")]), htxt("t"), pc=[pc("@1", f, b, at)]), exl(P(5, V("@1")), pc=[pc("@1", f, b, at)])]
    for o in outs() + outs(S("b")) + outs(x, [["", S("1")]]) + outs(S("<b>"), [["a", x]]) + outs(None, [["zz", I(1)]]) + outs(boom(1)):
        progs += [
            fam(asg("x", I(1)), *(H + [btag("f", "H"), asg("x", I(2)), o, show("x")])),
            fam(asg("x", I(1)), *(H + [btag("f", "H"), aug("x", "+", I(4)), tag("div"), [o, asg("x", I(9)), o], o])),
            fam(asg("x", I(1)), *(H + [btag("f", "H"), for_("x", L(I(5), I(6))), [o], show("x")])),
            fam(asg("x", I(1)), *(H + [btag("f", "H"), def_("G", "", ["x"]), [asg("x", Bin("+", x, I(1))), o, show("x")], tag(ch("G", ["", I(7)])), o])),
            fam(asg("x", I(1)), *(H + [for_("i", L(I(1), I(2))), [btag("f", "H"), asg("x", V("i")), o], o])),
fam(asg("x", I(1)), *(H + [tag("div"), [btag("f", "H"), asg("x", I(3)), o]])),
            fam(asg("x", I(1)), *(H + [btag("f", "H"), try_(), [asg("x", I(3)), o, exl(boom(2))], else_(), [o]])),
            fam(asg("x", I(1)), btag("f", "b"), if_(F_), [btag("f", "X")], o) if o["pc"][0]["at"] == [] else fam(asg("x", I(1)), btag("f", "X"), o),
            fam(asg("x", I(1)), if_(F_), [btag("f", "b")], o if o["pc"][0]["body"] != [boom(1)] else txt("k")),
            fam(asg("x", I(1)), *(H + [btag("f", "H"), def_("H", "body", [("a", I(0))]), [txt("second")], o, btag("f", "H"), o])),
            fam(asg("x", I(1)), tag("div"), [asg("x", I(2)), def_("H", "body", [("a", I(0))]), [txt(e(x), e(V("a"))), asg("x", I(4)), txt(e(x))], btag("f", "H"), o, asg("x", I(3)), tag("p"), [asg("x", I(8)), o]]),
        ]
    # called after the place of its definition has been left: the variables have the values of the time when the tag was stored
    for o in outs(f="$f[]") + outs(x, [["", S("1")]], "$f[]"):
        progs += [
            fam(asg("x", I(1)), asg("f", L()), tag("div"), [asg("x", I(2)), asg("z", S("u")), def_("H", "body", [("a", I(0))]), [txt(e(x), e(V("z")), e(V("a"))), aug("x", "+", I(5)), txt(e(x))], btag("f", "H", cell=1), asg("x", I(3)), o], asg("x", I(6)), o, tag("p"), [asg("x", I(7)), o]),
            fam(asg("x", I(1)), asg("f", L()), def_("G", "b2", ["z"]), [def_("H", "body", [("a", x)]), [txt(e(x), e(V("z")), e(V("a"))), emb(V("b2"))], btag("f", "H", cell=1), asg("z", S("w")), o], tag(ch("G", ["", I(4)]), htxt("bb")), asg("x", I(6)), o, tag("p"), [asg("x", I(7)), o], try_(), [tag(ch("G", ["", S("k")])), exl(boom(3))], else_(), [txt("e")], o),
            fam(asg("x", I(1)), asg("f", L()), tag("div"), [asg("y", I(2)), tag("p"), [def_("H", "body", [("a", V("y"))]), [txt(e(V("y")), e(V("a")))], btag("f", "H", cell=1)], asg("y", I(3)), o], o),
        ]
    return progs

def C24(c):
    H = [def_("H", "body", ["a", ("b", S("B"))]), [tag(ch("p", ["class", V("a")]), htxt("H", e(V("b")))), tag("i"), [emb(V("body"))]], def_("N", "", [("n", I(1))]), [txt("n", e(V("n"))), txt("m", m=1)], def_("W", "body"), [emb(V("body"))], def_("Z", "body", [("a", I(1))], full("|", ln("z", e(V("a"))))), asg("x", S("<x>"))]
    calls = []
    for body in (None, S("t"), S(""), S("<&>"), x, I(5), I(0), B(False), L(), NONE, S("a\nb"), P(7, S("q")), Q("?", boom(1)), boom(2), kbd(3), Bin("+", x, S("k"))):
        for h, ats in (("b", ([], [["class", S("c")]], [["class", x], ["id", S("i")]], [["", I(1)]], [["data_k", x], ["Kv_", S("1")]], [["_a", I(1)], ["for_", T_]])), ("br", ([], [["id", S("k")]])), ("div", ([],)), ("H", ([["", S("1")]], [["", S("1")], ["", S("2")]], [["a", S("1")], ["b", P(8, x)]], [], [["", I(1)], ["z", I(1)]])), ("N", ([], [["n", I(4)]], [["", I(0)]])), ("W", ([],)), ("Z", ([], [["", x]])),
                       ("X", ([], [["", P(9, I(1))], ["k", x]], [["a_b", x], ["_", I(2)], ["Ab", F_]])), ("F", ([], [["", I(1)]], [["k_v", S("q")]])), ("custom", ([["", S("w")]], [])), ("NoTag", ([],)), ("comment", ([],))):
            for at in ats: calls.append(pc("@1", h, body, at))
    use = [lambda: [text("/", ln("[", e(V("@1"), "{"), "]"))], lambda: [txt("[", e(V("@1"), "{"), "]")], lambda: [asg("y", V("@1"))], lambda: [tag(ch("p", ["title", V("@1")]), htxt("t"))], lambda: [exl(P(4, V("@1")))], lambda: [tag(ch("H", ["", V("@1")]), htxt("t"))], lambda: [asg("y", Bin("+", V("@1"), S("|")))], lambda: [asg("y", ["if", T_, V("@1"), S("no")])], lambda: [tag("X", htxt("t", e(V("@1"), "{")))], lambda: [tag("div", full("/", ln("a", e(V("@1"), "{"))))],
           lambda: [txt("a", e(Q("?", V("@1")), "{"))] if 0 else [asg("y", L(V("@1"), V("@1")))]]
    progs = []
    for cl in calls:
        for k, u in enumerate(use):
            l = u()[0]
            inl = l["k"] == "tag" and l["a"]["hd"]["k"] == "full" and k in (8, 9)
            if k == 7: continue
            if k == 10: l = asg("y", L(V("@1"), I(1)))
            if inl: continue            # calls in an inline body are made in the scope of the tag: see "scopes"
            l = dict(l, pc=[cl], sf=len(progs) % 64); l["a"] = dict(l["a"]); fix_lead(l)
            show_y = [text("/", ln(e(y)))] if l["k"] == "asg" else []
            for pre in ([], [tag("div")]):
                tree = H + (pre + [[l] + show_y] if pre else [l] + show_y) + [txt("end")]
                progs.append(fam(*tree))
    c.code_to_spec("calls", some(c, [p for p in progs if gen.sane(p)], 2200))
    # nested calls, calls in loops, in try, inside definitions; two calls in one expression
    two = lambda l, *q: dict(l, pc=list(q))
    progs = []
    for h1, h2 in itertools.product(["b", "H", "W", "X", "F", "Z"], repeat=2):
        a1 = [["", S("1")]] if h1 == "H" else []
        a2 = [["", S("2")]] if h2 == "H" else []
        q1, q2 = pc("@1", h1, x, a1), pc("@2", h2, V("@1"), a2)
        q3 = pc("@2", h2, S("s"), a2)
        for l in (text("/", ln(e(V("@2"), "{")), pc=[q1, q2]), asg("y", V("@2"), pc=[q1, q2]), text("/", ln(e(V("@1"), "{"), "-", e(V("@2"), "{")), pc=[q1, q3]), exl(P(1, Bin("+", V("@1"), V("@2"))), pc=[q1, q3])):
            for w in (lambda q: [q], lambda q: [for_("i", L(I(1), I(2))), [q]], lambda q: [try_(), [q, exl(boom(1))], else_(), [q]], lambda q: [tag("H" if 0 else "W"), [q]], lambda q: [def_("D9", "", [("x", S("loc"))]), [q], tag("D9"), tag(ch("D9", ["", S("z")]))], lambda q: [tag("p"), [asg("x", S("in")), q]]):
                progs.append(fam(*(H + w(l))))
    c.code_to_spec("nested", some(c, [p for p in progs if gen.sane(p)], 700))
    c.code_to_spec("stored", some(c, variants(stored(), 2), 600))
    # the call gives what the block renders to
    rnd(c, n=600, pcs=.5, def_=10, call=8, ext=3)

def C25(c):
    z = V("zz")
    refs = [txt(e(z)), txt("a", e(Q("?", z))), tag("p", htxt(e(z))), tag("p", head("|", ln(e(z)))), tag("Undef"), tag(["p", "Undef"], htxt("t")), tag(ch("p", ["class", z])), tag(ch("H", ["", z])), asg("q", z), asg("zz", z), aug("zz", "+", I(1)), if_(z, htxt("t")), while_(["and", tick(50, 2), z], htxt("t")), for_("i", z, htxt("t")), emb(z), exl(P(9, z)), tag("Undef", q=True), txt(e(z), q=True), asg("q", ["or", I(1), z]), asg("q", ["and", F_, z]), asg("q", ["if", T_, I(1), z]), asg("q", L(I(1), D((S("a"), z)))), asg("q", Call(z, I(1))), asg("q", Call("f3", I(1), c=z)), asg("q", Pipe(I(1), z)),
            asg("q", Meth(z, "upper")), asg("q", Idx(S("a"), z)), asg("q", Slc(S("a"), I(0), z)), asg("q", ["fstr", [t("k"), e(z)]]), asg("q", Cat(S("a"), z)), asg("q", V("@1"), pc=[pc("@1", "Undef", S("a"))]), asg("q", V("@1"), pc=[pc("@1", "b", z)]), def_("K", "", [("a", z)], htxt("t")), def_("K", "", [], htxt(e(z))), tag("p", hemb(z)), text("!", ln("$zz {zz}")), cmt(" $zz"), txt("$$zz {{zz}}"), tag("H", full("!", ln("{zz}"))), asg("q", S("$zz")),
            elif_(z), tag(ch("p", ["zz", S("zz")])), asg("q", Call("f3", S("k"), b=I(1))), tag("K9"),
            # a default value does not see the attributes of its own definition
            def_("K", "", ["zz", ("a", z)], htxt("t")), def_("K", "", [("zz", z)], htxt("t")), def_("K", "zz", [("a", z)], htxt("t")), def_("K", "", [("a", z), ("zz", I(1))], htxt("t", e(z))), def_("K", "", ["zz"], htxt("t", e(z))), def_("K", "zz", [], hemb(z))]
    ok = [asg("zz", I(1)), def_("Undef", "", [], htxt("u")), asg(tu("a", "zz"), L(I(1), I(2))), for_("zz", L(), htxt("f")), if_(F_), aug("x", "+", I(1))]
    ctx = [lambda q: [q], lambda q: [if_(F_), [q]], lambda q: [if_(T_), [txt("t")], else_(), [q]], lambda q: [try_(), [exl(P(1, I(1))), q], else_(), [txt("t")]], lambda q: [for_("i", L()), [q]], lambda q: [while_(F_), [tag("div"), [q]]], lambda q: [def_("N9"), [q]], lambda q: [tag("div"), [tag("p"), [q]]], lambda q: [tag("H2"), [q]], lambda q: [for_("i", L(I(1))), [txt("t")], else_(), [q]], lambda q: [tag("X"), [q]],
           lambda q: [q, asg("zz", I(1)), def_("Undef"), [txt("t")]], lambda q: [tag("div"), [asg("zz", I(1)), def_("Undef"), [txt("t")]], q], lambda q: [def_("M9", "", ["zz"]), [def_("Undef"), [txt("t")], txt(e(z))], q], lambda q: [asg("zz", L()), def_("Undef"), [txt("u")], q], lambda q: [if_(F_), [asg("zz", I(2))], q], lambda q: [for_("zz", L(I(1))), [q]], lambda q: [def_("M9", "zz", []), [q], tag("M9")], lambda q: [tag("div"), [asg("zz", I(1)), tag("p"), [q]]], lambda q: [try_(), [asg("zz", I(1))], else_(), [q]],
           lambda q: [for_("i", L(I(1))), [q, asg("zz", I(1))]], lambda q: [asg("zz", I(3)), for_("i", L(I(1), I(2))), [q, asg("zz", I(1))]], lambda q: [asg("zz", I(3)), tag("div"), [while_(tick(1, 1)), [q, asg("zz", I(1))]]]]
    progs = []
    for r in refs:
        for ct in ctx:
            tr = [def_("H", "", ["a"]), [txt("h")], def_("H2", "b2"), [emb(V("b2"))], exl(P(0, I(0)))]
            if r["k"] == "elif": progs.append(fam(*(tr + ct(if_(T_, htxt("q"))) + [r, txt("t")]))) if ct is ctx[0] else None; continue
            if r["k"] == "def" and any(isinstance(q, dict) and q["k"] in ("if", "for", "while", "try") for q in ct(r)): pass
            progs.append(fam(*(tr + ct(r) + [txt("end")])))
    progs = [p for p in progs if gen.sane(p)]
    c.code_to_spec("references", some(c, variants(progs, 1), 1400))
    A = alpha([txt(e(x)), txt(e(P(1, y))), asg("x", I(1)), asg("y", x), aug("x", "+", I(1)), tag("H"), tag("div"), def_("H"), if_(F_), for_("x", L()), try_(), else_(), def_("G", "", ["x"])])
    c.spec_to_code("declarations", A, c.pick(3, 4), 3)
    rnd(c, n=700, bad=.04, def_=8, call=8, if_=8, try_=6)

from props_mod import C11, C12, C13, C26
from props_dom import C14
from props_lex import C10, C18
from props_lib import C16
from props_conc import C21
