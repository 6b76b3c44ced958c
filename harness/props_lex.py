"""Checks of the lexical layer: indentation (HPrep)."""
import json, random
INDS = ["", "s", "ss", "t", "st", "ts", "sss", "tt"]

LINES = ["$x", "$x.", "$x.upper", "$x.upper()", "$x.upper().", "$x.upper().lower()!", "$y[0]", "$y[0]?", "$y[2][0]", "$y [0]", "$x (0)", "$x.", "$x..", "$x.0", "$x.upper ()", "$x. upper()", "$y[ 0 ]", "$y[0:1]", "$y[:]", "$y[::2]", "$y[k:]", "$y[", "$y[]", "$y[x", "$f3(x)", "$f3( x , k )", "$f3(x,b=k)", "$f3(x)(0)", "$f3()", "$f3(",
         "$z?", "$z!", "$x!", "$x?", "$x!!", "$z??", "$n?", "$n", "$nope", "$nope?", "{nope}?", "{z}?", "{z}!", "{x}!", "{x}?", "{x}.", "{x}[0]", "{x}(0)", "{ x }", "{x }y", "{$x}", "{$x}$x", "$x$x", "$x{x}", "$x$k.$k", "$$", "$$x", "$$$x", "$x$$", "$$$$", "{{", "}}", "{{x}}", "{{{x}}}", "{{$x}}", "{x}}}", "{{{x}", "{{}}", "{ {'k': 'v'}['k'] }", "{'{{'}", "{'}}'}", "{'$$'}", "{'$x'}", "{'{x}'}", '{"{x}"}', "{'{\\\"{x}\\\"}'}", "{x 'a' k}", "{x, k}", "{x,}", "{x", "x}", "}", "{", "{}", "{ }", "$", "$ x", "$(x)", "$[x]", "$0", "$_", "$x_", "$x0", "$xx", "$x-k", "$x:k", "$x|k", "a$x b", "$x's", "$d['k']", '$d["k"]', "$d[k]", "$d[0]", "$d.k", "$x[0].upper()", "$x.upper()[0]", "$x[0](0)", "{x.upper()}", "{x .upper()}", "{x.upper ()}", "{y [0]}", "{y[0], x}", "{x if k}", "{x if z}", "{x if z else k}", "{x or k}!", "{z or n}?", "$iffy", "$note", "$Trueish", "{Trueish}", "{note is note}", "{k is note}", "{not x}", "{notx}?", "{k in y}", "{k inx}", "{5 in y}", "{x:str}", "{x : f3(k) : str}", "{k+k}", "{-k}", "{ -k }", "{k--k}", "{k - -k}", "{k -k}", "{2**3**0}", "{1 < k < 5}", "{(1 < k) == True}", "{r'$x'}", "{r'{x}' x}", "$x\\n", "{x}\\", "\\$x", "\\{x}", "\\$$", "{'\\x41'}", "{'a\\\\'}", "{0.5}", "{.5}", "{5.}", "{05}", "{1e1}?", "{[x,k,]}", "{[ ]}", "{()}", "{(x)}", "{(x,)}", "{( x , k )}", "$y[0,]?", "{y[0 , 1]}?", "{d[x]}?", "$len(x)", "$len(y)!", "$len", "{len(z)}?", "{len(z)}!", "{f3(*y)}", "{x!r}", "{x:>5}", "{x=}", "{x;k}", "{x#k}", "{x}#k", "$x#k", "#$x", "{x} -- $x", "<$x>&amp;", "&lt;{'<'}", "%x", "@x", "{%x}?", "$x%k", "| $x", "! {x}", "/ {z}"]
LITERALS = ["'a'", '"a"', "'a$x'", "'a{x}b'", '"{x}$k"', "'a' 'b'", "'a' k 'b'", "'a'x", "r'a'", 'r"a"', "r'\\n$x{x}'", 'r"{{$$"', "r'a' 'b'", "r 'a'", "'\\n'", "'\\t\\r\\\\'", "'\\x41\\x7b'", "'\\u0041'", "'\\u0105'", "'\\101\\0\\60'", "'\\a\\b\\f\\v'", "'\\q\\z\\ '", "'\\\\n'", "'\\\\\\n'", '"\\\'"', "'\\\"'", "'$$'", "'$$x'", "'{{x}}'", "'{{{x}}}'", "'{x}}}'", "'$x.upper()'", "'$y[0].'", "'$x\\n'", "'\\x24x'", "'\\x7bx\\x7d'", "'{\"$x\"}'", "'{\"{x}\"}'", "'{x!}'", "'$z?'", "'{z}!'", "'{nope}?'", "'$n'", "'{n}'", "''", '""', "'' ''", "'\"'", '"\'"', "'{x if k else z}'", "'a\\'", "'}'", "'{'", "'$'", "'$ x'", "'{}'", "'{ x }'", "'{x, k}'", "'{d[\"k\"]}'", "'#'", "'a -- b'", "'|'", "'$x|k'", "'a:b'", "'a' : str", "'%s' 'b'", "'a'.upper()", "'ab'[0]", "'ab' [0]", "'a'('b')", "'$x'?", "'$z'!", "('a')", "['a', \"b\"]", "{'a': \"$x\"}", "'a' + \"b\"", "'a' * 2", "'a' in 'ab'", "f3('a', b='$x')", "f3('{x}' k)", "'$iffy'", "'$Trueish'", "'$$$x$$'"]
MUT = list("$x.()[]0{}?! ky") + ["upper", "'", "$", "{", "}", ",", ":"]
MUTQ = list("$x'\"\\{}n0 k") + ["\\n", "\\", "x41", "r", "$", "{{", "?"]

def prep(c, part, inds, kinds, maxn, scripts=(), every=1, **flags):
    if c.enough(): return
    def fix(r):
        r.update(dict(dict(trail=0, chars=0, forms=0), **{k: (v if v != 2 else r["n"] % (8 if k == "chars" else 2) == 1) for k, v in flags.items()}))
    c.replay(part, "prep", "HPrep", dict(PrepFile="prep.json", MaxN=maxn), ["Emit", "Nested", "SameList"], ["BlankNeutral"], {"prep.json": json.dumps({"inds": inds, "kinds": kinds, "scripts": list(scripts)})}, fix, every=every)

def C10(c):
    prep(c, "tags", INDS, ["tag"], 4, every=c.pick(1, 1), forms=2)
    prep(c, "blocks", INDS[:5], ["tag", "text", "leaf", "blank", "if"], 3, trail=1, every=c.pick(2, 1), forms=2)
    prep(c, "text and comments", ["", "s", "ss", "sss", "t"], ["tag", "text", "cmt", "full", "odd"], 3, trail=2, chars=2)
    prep(c, "deeper", ["", "s", "ss", "sss"], ["tag", "text", "blank"], c.pick(4, 5), every=c.pick(5, 3), trail=2, chars=2, forms=2)
    rng = random.Random(c.seed)
    kinds = ["tag", "tag", "if", "text", "raw", "cmt", "full", "leaf", "blank", "odd"]
    S = []
    for _ in range(c.pick(3500, 60000)):
        q, levels = [], [rng.choice(["", "", "", "s", "t"])]
        for k in range(rng.randrange(4, 14)):
            x = rng.random()
            if x < .35: ind = levels[-1] + rng.choice(["s", "ss", "t", "ssss", "st"]); levels.append(ind)
            elif x < .95:
                cut = rng.randrange(len(levels)); levels = levels[:cut + 1]; ind = levels[-1]
            else: ind = rng.choice(INDS)
            x = rng.choice(kinds)
            if x == "odd" and rng.random() < .8 and not any(k in ("text", "raw", "cmt", "full") for i, k in q[-2:]): x = "tag"
            q.append([ind, x])
        S.append(q)
    prep(c, "random scripts", [], [], 0, S, trail=2, chars=2, forms=2)

def lex(c, part, toks=(), maxn=0, mode="line", pre="=", suf="", jobs=(), every=1):
    if c.enough(): return
    c.replay(part, "lex", "HLex", dict(LexFile="lex.json", MaxN=maxn), ["Emit", "Plain", "Faithful", "Longest", "Literal"], ["Advances"],
             {"lex.json": json.dumps({"toks": list(toks), "pre": pre, "suf": suf, "mode": mode, "jobs": [{"mode": m, "src": s} for m, s in jobs]})}, every=every)

def mutate(rng, s, toks):
    q = list(s)
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randrange(len(q) + 1)
        x = rng.random()
        if x < .4 and q: del q[min(k, len(q) - 1)]
        elif x < .8: q.insert(k, rng.choice(toks))
        elif q: j = min(k, len(q) - 1); q[j] = rng.choice(toks)
    return "".join(q)

def C18(c):
    rng = random.Random(c.seed)
    L = [("line", s) for s in LINES]
    lex(c, "lines", jobs=[("line", "=" + s) for s in LINES] + [("raw", "=" + s) for s in LINES] + [("expr", s) for s in LITERALS] + [("line", "=" + mutate(rng, s, MUT)) for s in LINES for _ in range(c.pick(14, 200))] + [("expr", mutate(rng, s, MUTQ)) for s in LITERALS for _ in range(c.pick(14, 200))])
    # everything short
    lex(c, "chains", ["$", "x", ".", "(", ")", "[", "]", "0", "?", " ", "upper"] + (["!", "y"] if c.thorough else []), c.pick(4, 5), pre="=$x", every=c.pick(3, 5))
    lex(c, "braces", ["$", "{", "}", "x", "'", " ", "?", "k"], c.pick(5, 6), every=c.pick(7, 3))
    lex(c, "literals", ["\\", "n", "x41", "'", "$", "{", "}", "x", "0"], c.pick(4, 6), mode="expr", pre="'", suf="'", every=c.pick(2, 5))
