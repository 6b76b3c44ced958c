------------------------------- MODULE HCore -------------------------------
(***************************************************************************)
(* The abstract machine of the Hypertag language.                          *)
(*                                                                         *)
(* A program is a sequence of line records, one per block or clause:       *)
(*   d    depth, ind: indentation string, m: blank lines before,           *)
(*   mod  layout modifier: "", "<" or "...",  q: TRUE for the prefix "?",  *)
(*   k    kind, a: arguments, pc: tag calls occurring in the expressions.  *)
(* Kinds and arguments:                                                    *)
(*   text [mk, lead, ls]   asg [tg, e]   aug [x, op, e]   ex [e]           *)
(*   tag  [ch, hd]         emb [e]       pass, cmt [..]                    *)
(*   mut  [x, m, e]: method m of the list or dict held by x is called with *)
(*        arguments e, for its effect on x                                 *)
(*   btag [x, h, cell]: the tag h, as a function, is assigned to x, or put  *)
(*        into a container held by x (cell = 1)                            *)
(*   if, elif, while [e, hd]   else, try [hd]   for [tg, e, hd]            *)
(*   def  [n, b, at, hd]                                                   *)
(* hd, the inline body, is [k] with k = "-" none; "full": text block       *)
(* [mk, lead, ls]; "head": headline of a mixed body [mk, ls]; "emb" [e].   *)
(* ls: physical lines [p: leading spaces, b: blank lines before, s: segs]. *)
(*                                                                         *)
(* State: `ph` phase; `prog`; `ctl` control stack, last frame on top;      *)
(* `env` store: a stack of scope instances [s: scope, v: name -> value],   *)
(* where a scope is the line of a tagged block or definition, 0 for the    *)
(* document; `lg` log of calls to the outside; `ret` outcome of the block  *)
(* that has just ended; `res` the final result.                            *)
(***************************************************************************)
EXTENDS HExpr

CONSTANTS PRO,      \* number of lines of the fixed prolog (context block) before the program
          ESC,      \* escape function of the runtime: "html", "none" or "tex"
          TN        \* number of newlines that end the script

VARIABLES ph, prog, ctl, env, lg, ret, res
vars == <<ph, prog, ctl, env, lg, ret, res>>

(* the elements of HTML, in lower and in upper case: void ones, which have no body, and the others *)
VOIDS ==
   {"area", "base", "br", "col", "command", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "AREA",
    "BASE", "BR", "COL", "COMMAND", "EMBED", "HR", "IMG", "INPUT", "LINK", "META", "PARAM", "SOURCE", "TRACK", "WBR"}
MARKUPS ==
   {"a", "abbr", "acronym", "address", "applet", "article", "aside", "audio", "b", "basefont", "bdi", "bdo", "big", "blockquote", "body",
    "button", "canvas", "caption", "center", "cite", "code", "colgroup", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "dir",
    "div", "dl", "dt", "em", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4",
    "h5", "h6", "head", "header", "html", "i", "iframe", "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "meter", "nav",
    "noframes", "noscript", "object", "ol", "optgroup", "option", "output", "p", "picture", "pre", "progress", "q", "rp", "rt", "ruby", "s",
    "samp", "script", "section", "select", "small", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody",
    "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "tt", "u", "ul", "var", "video", "A", "ABBR", "ACRONYM",
    "ADDRESS", "APPLET", "ARTICLE", "ASIDE", "AUDIO", "B", "BASEFONT", "BDI", "BDO", "BIG", "BLOCKQUOTE", "BODY", "BUTTON", "CANVAS",
    "CAPTION", "CENTER", "CITE", "CODE", "COLGROUP", "DATA", "DATALIST", "DD", "DEL", "DETAILS", "DFN", "DIALOG", "DIR", "DIV", "DL", "DT",
    "EM", "FIELDSET", "FIGCAPTION", "FIGURE", "FONT", "FOOTER", "FORM", "FRAME", "FRAMESET", "H1", "H2", "H3", "H4", "H5", "H6", "HEAD",
    "HEADER", "HTML", "I", "IFRAME", "INS", "KBD", "LABEL", "LEGEND", "LI", "MAIN", "MAP", "MARK", "METER", "NAV", "NOFRAMES", "NOSCRIPT",
    "OBJECT", "OL", "OPTGROUP", "OPTION", "OUTPUT", "P", "PICTURE", "PRE", "PROGRESS", "Q", "RP", "RT", "RUBY", "S", "SAMP", "SCRIPT",
    "SECTION", "SELECT", "SMALL", "SPAN", "STRIKE", "STRONG", "STYLE", "SUB", "SUMMARY", "SUP", "SVG", "TABLE", "TBODY", "TD", "TEMPLATE",
    "TEXTAREA", "TFOOT", "TH", "THEAD", "TIME", "TITLE", "TR", "TT", "U", "UL", "VAR", "VIDEO"}
EXTS == {"X", "Y"}
FEXTS == {"F"}
(* kinds: "M" "V" HTML elements; "MX" "VX" elements of XHTML; "X" a tag that is an object; "F" a function of the body's *)
(* text; "G" a function of the body's tree; "C" custom; "K" comment; "0" null; "N" a hypertag                          *)
TagKind(n) == CASE n = "." -> "0" [] n \in MARKUPS -> "M" [] n \in VOIDS -> "V" [] n \in EXTS -> "X" [] n \in FEXTS -> "F" [] n = "G_" -> "G"
                [] n = "XP" -> "MX" [] n = "XV" -> "VX" [] n = "custom" -> "C" [] n = "comment" -> "K" [] OTHER -> ""
TagName(n) == CASE n = "." -> "null" [] n = "XP" -> "xp-1" [] n = "XV" -> "xv" [] OTHER -> n

---------------------------------------------------------------------------
(* Block structure of a program *)

Ctl(l) == l.k \in {"if", "elif", "else", "for", "while", "try"} \/ l.q
ScopeLine(l) == l.k \in {"tag", "def"}

Par(p, i) == LET D == {j \in 1..i - 1 : p[j].d < p[i].d /\ \A x \in j + 1..i - 1 : p[x].d >= p[i].d}
             IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A x \in D : x <= j
EndOf(p, i) == LET D == {j \in i + 1..Len(p) : p[j].d <= p[i].d}
               IN IF D = {} THEN Len(p) ELSE (CHOOSE j \in D : \A x \in D : j <= x) - 1
RECURSIVE ScopeOf(_, _), ScopeChain(_, _), InControl(_, _), GroupEnd(_, _)
ScopeOf(p, i) == LET r == Par(p, i) IN IF r = 0 THEN 0 ELSE IF ScopeLine(p[r]) THEN r ELSE ScopeOf(p, r)
ScopeChain(p, i) == LET s == ScopeOf(p, i) IN IF s = 0 THEN <<0>> ELSE <<s>> \o ScopeChain(p, s)
InControl(p, i) == LET r == Par(p, i) IN r # 0 /\ (Ctl(p[r]) \/ InControl(p, r))
ClauseNext(p, i) == LET j == EndOf(p, i) + 1
                    IN IF j <= Len(p) /\ p[j].d = p[i].d /\ p[j].k \in {"elif", "else"} THEN j ELSE 0
GroupEnd(p, i) == LET j == ClauseNext(p, i) IN IF j = 0 THEN EndOf(p, i) ELSE GroupEnd(p, j)

(* physical line number, tl: index of the physical line within the block *)
LsHeight(ls, n) == LET f[j \in 0..n] == IF j = 0 THEN 0 ELSE f[j - 1] + (IF j = 1 THEN 1 ELSE 1 + ls[j].b) IN f[n]
Height(l) == IF l.k = "text" THEN LsHeight(l.a.ls, Len(l.a.ls))
             ELSE IF l.k \in {"tag", "def", "if", "elif", "else", "for", "while", "try"} /\ l.a.hd.k = "full"
                  THEN LsHeight(l.a.hd.ls, Len(l.a.hd.ls)) ELSE 1
LineNo(p, i, tl) == LET f[j \in 0..i - 1] == IF j = 0 THEN PRO ELSE f[j - 1] + p[j].m + Height(p[j])
                        ls == IF p[i].k = "text" THEN p[i].a.ls ELSE IF tl > 1 THEN p[i].a.hd.ls ELSE <<>>
                    IN f[i - 1] + p[i].m + (IF tl <= 1 THEN 1 ELSE LsHeight(ls, tl))

---------------------------------------------------------------------------
(* Static resolution of names.                                             *)
(* Position 2i is the place of line i before its own declarations, 2i+1    *)
(* after them; `inner` tells that the place lies inside the scope opened   *)
(* by line i itself (inline body of a tag or a definition).                *)

RECURSIVE TgVars(_)
TgVars(tg) == IF tg[1] = "v" THEN {tg[2]} ELSE UNION {TgVars(tg[2][i]) : i \in DOMAIN tg[2]}
Assigns(l) == CASE l.k \in {"asg", "for"} -> TgVars(l.a.tg) [] l.k = "aug" \/ (l.k = "btag" /\ l.a.cell = 0) -> {l.a.x} [] OTHER -> {}
Params(l) == {l.a.at[i][1] : i \in DOMAIN l.a.at} \cup (IF l.a.b = "" THEN {} ELSE {l.a.b})

ChainAt(p, i, inner) == IF inner /\ ScopeLine(p[i]) THEN <<i>> \o ScopeChain(p, i) ELSE ScopeChain(p, i)
OuterOf(p, s) == IF s = 0 THEN <<>> ELSE ScopeChain(p, s)

RECURSIVE Declared(_, _, _, _)
(* x is declared in scope s at position pos: by a parameter, by an earlier assignment, or ahead of a loop *)
(* around this place which assigns x, when x is already visible from an outer scope                      *)
Declared(p, s, x, pos) ==
    \/ s # 0 /\ p[s].k = "def" /\ pos > 2 * s /\ x \in Params(p[s])
    \/ \E j \in 1..Len(p) : 2 * j + 1 <= pos /\ x \in Assigns(p[j]) /\ ScopeOf(p, j) = s
    \/ \E L \in 1..Len(p) :
          /\ p[L].k \in {"for", "while"} /\ ScopeOf(p, L) = s
          /\ (IF p[L].k = "for" THEN 2 * L + 1 ELSE 2 * L) <= pos /\ pos <= 2 * GroupEnd(p, L) + 1
          /\ \E j \in L..GroupEnd(p, L) : x \in Assigns(p[j]) /\ ScopeOf(p, j) = s
          /\ \E t \in Range(OuterOf(p, s)) : Declared(p, t, x, 2 * L)

Chain(p, i, inner, after, x) ==
    SelectSeq(ChainAt(p, i, inner), LAMBDA s : Declared(p, s, x, 2 * i + (IF after THEN 1 ELSE 0)))

(* the definition a tag name refers to: the last one before, in the innermost scope that has any; 0 if none *)
RECURSIVE FindDef(_, _, _, _)
FindDef(p, chain, n, i) ==
    IF chain = <<>> THEN 0
    ELSE LET D == {j \in 1..i - 1 : p[j].k = "def" /\ p[j].a.n = n /\ EndOf(p, j) < i /\ ScopeOf(p, j) = Head(chain)}
         IN IF D # {} THEN CHOOSE j \in D : \A x \in D : x <= j ELSE FindDef(p, Tail(chain), n, i)
TagDef(p, i, n) == FindDef(p, ScopeChain(p, i), n, i)
TagDefIn(p, i, inner, n) == FindDef(p, ChainAt(p, i, inner), n, i)

(* references made by line i in the order of analysis: <<"v", name, inner, after, tl>> or <<"t", tag>> or <<"c", tag>> *)
RefVars(xs, inner, after, tl) == [i \in DOMAIN xs |-> <<"v", xs[i], inner, after, tl>>]
LsRefs(mk, ls, inner, after) == IF mk = "!" THEN <<>> ELSE CatAll([j \in DOMAIN ls |-> RefVars(SegVars(ls[j].s), inner, after, j)])
HdRefs(hd, after) == CASE hd.k \in {"full", "head"} -> LsRefs(hd.mk, hd.ls, TRUE, after)
                       [] hd.k = "emb" -> RefVars(Vars(hd.e), TRUE, after, 1)
                       [] OTHER -> <<>>
AtExprs(at) == [i \in DOMAIN at |-> at[i][2]]
PcNames(l) == {l.pc[i].v : i \in DOMAIN l.pc}
PcRefs(l) == CatAll([i \in DOMAIN l.pc |-> (IF l.pc[i].vr THEN RefVars(<<l.pc[i].h>>, FALSE, FALSE, 1) ELSE <<<<"c", l.pc[i].h>>>>) \o RefVars(VarsSeq(l.pc[i].body) \o VarsSeq(AtExprs(l.pc[i].at)), FALSE, FALSE, 1)])
Refs(l) == PcRefs(l) \o
    CASE l.k = "text" -> LsRefs(l.a.mk, l.a.ls, FALSE, FALSE)
      [] l.k \in {"asg", "ex", "emb"} -> RefVars(Vars(l.a.e), FALSE, FALSE, 1)
      [] l.k = "mut" -> RefVars(<<l.a.x>> \o VarsSeq(l.a.e), FALSE, FALSE, 1)
      [] l.k = "btag" -> (IF l.a.cell = 0 THEN <<>> ELSE RefVars(<<l.a.x>>, FALSE, FALSE, 1)) \o <<<<"c", l.a.h>>>>
      [] l.k = "aug" -> RefVars(Append(Vars(l.a.e), l.a.x), FALSE, FALSE, 1)
      [] l.k \in {"if", "elif", "while", "for"} -> RefVars(Vars(l.a.e), FALSE, FALSE, 1) \o HdRefs(l.a.hd, TRUE)
      [] l.k \in {"else", "try"} -> HdRefs(l.a.hd, TRUE)
      [] l.k = "tag" -> CatAll([c \in DOMAIN l.a.ch |-> RefVars(VarsSeq(AtExprs(l.a.ch[c].at)), FALSE, FALSE, 1)
                                                         \o <<<<"t", l.a.ch[c].n>>>>]) \o HdRefs(l.a.hd, TRUE)
      [] l.k = "def" -> RefVars(VarsSeq(SelectSeq(AtExprs(l.a.at), LAMBDA e : e[1] # "none")), FALSE, FALSE, 1) \o HdRefs(l.a.hd, TRUE)
      [] OTHER -> <<>>

RECURSIVE BadRef(_, _, _)
BadRef(p, i, rs) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         IF r[1] = "v" THEN IF r[2] \in PcNames(p[i]) \/ Chain(p, i, r[3], r[4], r[2]) # <<>> THEN BadRef(p, i, Tail(rs))
                            ELSE <<"Name", LineNo(p, i, r[5])>>
         ELSE IF TagKind(r[2]) # "" \/ TagDef(p, i, r[2]) # 0 THEN BadRef(p, i, Tail(rs))
         ELSE <<IF r[1] = "t" THEN "UndefTag" ELSE "Name", LineNo(p, i, 1)>>

(* the first error found by the analysis, as <<class, line>>; <<>> when the program is accepted *)
RECURSIVE StaticErr(_, _)
StaticErr(p, i) == IF i > Len(p) THEN <<>>
                   ELSE IF p[i].k = "def" /\ InControl(p, i) THEN <<"Syntax", LineNo(p, i, 1)>>
                   ELSE LET e == BadRef(p, i, Refs(p[i])) IN IF e # <<>> THEN e ELSE StaticErr(p, i + 1)

(* errors found before the analysis, when the tree is built: a positional attribute after a keyword one, *)
(* or two formal attributes of the same name                                                             *)
WrongOrder(at) == \E i \in DOMAIN at, j \in DOMAIN at : i < j /\ at[i][1] # "" /\ at[j][1] = ""
Formals(l) == [i \in DOMAIN l.a.at |-> l.a.at[i][1]] \o (IF l.a.b = "" THEN <<>> ELSE <<l.a.b>>)
Malformed(l) == \/ l.k = "tag" /\ \E c \in DOMAIN l.a.ch : WrongOrder(l.a.ch[c].at)
                \/ l.k = "def" /\ \E i, j \in DOMAIN Formals(l) : i # j /\ Formals(l)[i] = Formals(l)[j]
(* kind "bad": a line that is no block at all; parsing stops there, before anything else is looked at *)
Rejected(p) == LET B == {i \in 1..Len(p) : p[i].k = "bad"} D == {i \in 1..Len(p) : Malformed(p[i])}
               IN IF B # {} THEN <<"Syntax", LineNo(p, CHOOSE i \in B : \A j \in B : i <= j, 1)>>
                  ELSE IF D = {} THEN StaticErr(p, 1)
                  ELSE <<"Syntax", LineNo(p, CHOOSE i \in D : \A j \in D : i <= j, 1)>>

---------------------------------------------------------------------------
(* Store *)

Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
TopOf(ev, s) == LET D == {n \in 1..Len(ev) : ev[n].s = s} IN IF D = {} THEN 0 ELSE CHOOSE n \in D : \A m \in D : m <= n
RECURSIVE LookUp(_, _, _)
LookUp(ev, chain, x) == IF chain = <<>> THEN <<"unb">>
                        ELSE LET n == TopOf(ev, Head(chain))
                             IN IF n # 0 /\ x \in DOMAIN ev[n].v THEN ev[n].v[x] ELSE LookUp(ev, Tail(chain), x)
RECURSIVE SlotOf(_, _, _)
(* the scope in which LookUp finds x *)
SlotOf(ev, chain, x) == IF chain = <<>> THEN 0 ELSE LET n == TopOf(ev, Head(chain)) IN IF n # 0 /\ x \in DOMAIN ev[n].v THEN Head(chain) ELSE SlotOf(ev, Tail(chain), x)
Bind(ev, s, x, v) == LET n == TopOf(ev, s) IN [ev EXCEPT ![n].v = (x :> v) @@ @]

(* names visible to the expressions of line i *)
En(ev, p, i, inner, after, names, pv) ==
    [x \in names |-> IF x \in DOMAIN pv THEN pv[x] ELSE LookUp(ev, Chain(p, i, inner, after, x), x)]
EnOf(ev, p, i, inner, after, es, pv) == En(ev, p, i, inner, after, Range(VarsSeq(es)), pv)

(* Binding of targets: [ev, er]; values are bound from left to right and stay bound when it fails later on *)
RECURSIVE Assign(_, _, _, _), AssignSeq(_, _, _, _, _)
Assign(ev, s, tg, v) ==
    IF tg[1] = "v" THEN [ev |-> Bind(ev, s, tg[2], v), er |-> ""]
    ELSE IF ~Items(v)[1] THEN [ev |-> ev, er |-> "TypeError"]
    ELSE AssignSeq(ev, s, tg[2], Items(v)[2], 1)
AssignSeq(ev, s, tgs, vs, i) ==
    IF i > Len(vs) THEN [ev |-> ev, er |-> IF i <= Len(tgs) THEN "ValueError" ELSE ""]
    ELSE IF i > Len(tgs) THEN [ev |-> ev, er |-> "ValueError"]
    ELSE LET r == Assign(ev, s, tgs[i], vs[i]) IN IF r.er # "" THEN r ELSE AssignSeq(r.ev, s, tgs, vs, i + 1)

---------------------------------------------------------------------------
(* Text blocks: [t, er, lg, tl] *)

Escape(s) == CASE ESC = "html" -> Esc(s) [] ESC = "none" -> s [] ESC = "tex" -> ReplCh(ReplCh(ReplCh(s, "&", "\\&"), "<", "$<$"), "x", "xx")
RECURSIVE EvalLines(_, _, _, _, _)
EvalLines(mk, ls, en, log, i) ==
    IF i > Len(ls) THEN [t |-> <<>>, er |-> "", lg |-> log, tl |-> 0]
    ELSE LET r == IF mk = "!" THEN [v |-> [j \in DOMAIN ls[i].s |-> ls[i].s[j][2]], er |-> "", lg |-> log]
                  ELSE EvalSegs(ls[i].s, en, log, 1)
         IN IF r.er # "" THEN [t |-> <<>>, er |-> r.er, lg |-> r.lg, tl |-> i]
            ELSE LET s == StrJoin(r.v, "")
                     this == TSplit(ls[i].p \o (IF mk = "|" THEN Escape(s) ELSE s))
                     rest == EvalLines(mk, ls, en, r.lg, i + 1)
                 IN IF rest.er # "" THEN rest ELSE [rest EXCEPT !.t = <<this>> \o @]
(* what a line begins with *)
LineHead(mk, l) == l.p \o (IF l.s = <<>> THEN "" ELSE IF mk = "!" \/ l.s[1][1] = "t" THEN l.s[1][2] \o (IF Len(l.s) > 1 THEN "x" ELSE "") ELSE "x")
TextLayout(lead, mk, ls, ts) == TextBlock(lead, [i \in DOMAIN ls |-> LineHead(mk, ls[i])], ts, [i \in DOMAIN ls |-> 1 + ls[i].b])

LsVars(ls) == Range(CatAll([j \in DOMAIN ls |-> SegVars(ls[j].s)]))

(* the inline body of line i in frame-relative indentation I: [ns, er, lg, tl] *)
Fragment(v) == CASE v[1] = "dom" -> <<TRUE, v[2]>>
                 [] v[1] = "node" -> <<TRUE, <<v[2]>>>>
                 [] OTHER -> <<FALSE, <<>>>>
RECURSIVE FragList(_)
FragList(q) == IF q = <<>> THEN <<TRUE, <<>>>>
               ELSE LET h == IF Head(q)[1] = "l" THEN FragList(Head(q)[2])
                             ELSE IF Head(q)[1] = "n" THEN <<TRUE, <<>>>> ELSE Fragment(Head(q))
                        r == FragList(Tail(q))
                    IN <<h[1] /\ r[1], h[2] \o r[2]>>
(* nodes denoted by the value of an @ expression; an iterable stands for its elements *)
Embedded(v) == IF v[1] \in {"dom", "node"} THEN Fragment(v)
               ELSE IF v[1] \in {"l", "t"} THEN FragList(v[2])
               ELSE IF v[1] = "view" THEN FragList(v[3])
               ELSE IF v[1] \in {"s", "d"} /\ Items(v)[2] = <<>> THEN <<TRUE, <<>>>>
               ELSE <<FALSE, <<>>>>

Embed(e, en, log, I) == LET r == Eval(e, en, log) IN
    IF r.er # "" THEN [ns |-> <<>>, er |-> r.er, lg |-> r.lg, tl |-> 1]
    ELSE IF ~Embedded(r.v)[1] THEN [ns |-> <<>>, er |-> IF r.v[1] \in {"l", "t", "s", "d", "view"} THEN "TypeError0" ELSE "TypeErrorEx", lg |-> r.lg, tl |-> 1]
    ELSE [ns |-> SetAll(Embedded(r.v)[2], I), er |-> "", lg |-> r.lg, tl |-> 1]

Inline(ev, i, hd, log, I, pv) ==
    CASE hd.k = "full" ->
            LET r == EvalLines(hd.mk, hd.ls, En(ev, prog, i, TRUE, TRUE, LsVars(hd.ls), pv), log, 1)
            IN IF r.er # "" THEN [ns |-> <<>>, er |-> r.er, lg |-> r.lg, tl |-> r.tl]
               ELSE [ns |-> <<TextNode(TextLayout(hd.lead, hd.mk, hd.ls, r.t), <<"a", I>>)>>, er |-> "", lg |-> r.lg, tl |-> 0]
      [] hd.k = "head" ->
            LET r == EvalLines(hd.mk, hd.ls, En(ev, prog, i, TRUE, TRUE, LsVars(hd.ls), pv), log, 1)
            IN IF r.er # "" THEN [ns |-> <<>>, er |-> r.er, lg |-> r.lg, tl |-> 1]
               ELSE [ns |-> <<TextNode(<<DropN(r.t[1][1], IF PrefixOf(" ", LineHead(hd.mk, hd.ls[1])) THEN 1 ELSE 0)>> \o Tail(r.t[1]), <<>>)>>, er |-> "", lg |-> r.lg, tl |-> 0]
      [] hd.k = "emb" -> Embed(hd.e, EnOf(ev, prog, i, TRUE, TRUE, <<hd.e>>, pv), log, I)
      [] OTHER -> [ns |-> <<>>, er |-> "", lg |-> log, tl |-> 0]

---------------------------------------------------------------------------
(* Attributes of a tag occurrence, evaluated positional first: [pos, kw, er, lg].            *)
(* Values of a repeated keyword attribute are joined with a space, they must be strings.     *)

RECURSIVE MergeKw(_, _, _, _, _)
MergeKw(at, i, en, acc, log) ==
    IF i > Len(at) THEN [kw |-> acc, er |-> "", lg |-> log]
    ELSE LET r == Eval(at[i][2], en, log) IN
         IF r.er # "" THEN [kw |-> acc, er |-> r.er, lg |-> r.lg]
         ELSE LET D == {j \in DOMAIN acc : acc[j][1] = at[i][1]} IN
              IF D = {} THEN MergeKw(at, i + 1, en, Append(acc, <<at[i][1], r.v>>), r.lg)
              ELSE LET j == CHOOSE j \in D : TRUE IN
                   IF acc[j][2][1] # "s" \/ r.v[1] # "s" THEN [kw |-> acc, er |-> "TypeError", lg |-> r.lg]
                   ELSE MergeKw(at, i + 1, en, [acc EXCEPT ![j][2] = Str(@[2] \o " " \o r.v[2])], r.lg)
EvalAttrs(at, en, log) ==
    LET ps == SelectSeq(at, LAMBDA x : x[1] = "")
        ks == SelectSeq(at, LAMBDA x : x[1] # "")
        p  == EvalSeq(AtExprs(ps), en, log)
    IN IF p.er # "" THEN [pos |-> <<>>, kw |-> <<>>, er |-> p.er, lg |-> p.lg]
       ELSE LET k == MergeKw(ks, 1, en, <<>>, p.lg) IN [pos |-> p.v, kw |-> k.kw, er |-> k.er, lg |-> k.lg]

(* Binding of attributes and body to definition j: [er, at, ps, lg, dl]; dl: the error is located at the definition *)
RECURSIVE BindRest(_, _, _, _, _, _)
BindRest(ev, j, i, bound, kw, log) ==
    LET ps == prog[j].a.at IN
    IF i > Len(ps) THEN [er |-> "", ps |-> bound, lg |-> log, dl |-> FALSE]
    ELSE IF KwGet(bound, ps[i][1]) # <<>> THEN BindRest(ev, j, i + 1, bound, kw, log)
    ELSE IF ps[i][2][1] = "none" THEN [er |-> "TypeErrorEx", ps |-> bound, lg |-> log, dl |-> FALSE]
    ELSE LET r == Eval(ps[i][2], EnOf(ev, prog, j, FALSE, FALSE, <<ps[i][2]>>, <<>>), log)
         IN IF r.er # "" THEN [er |-> r.er, ps |-> bound, lg |-> r.lg, dl |-> TRUE]
            ELSE BindRest(ev, j, i + 1, Append(bound, <<ps[i][1], r.v>>), kw, r.lg)
BindAttrs(ev, j, body, pos, kw, log) ==
    LET a  == prog[j].a
        n  == Len(pos)
        T  == [er |-> "TypeErrorEx", ps |-> <<>>, at |-> <<>>, lg |-> log, dl |-> FALSE]
        nm == {a.at[i][1] : i \in DOMAIN a.at}
    IN IF n > Len(a.at) THEN T
       ELSE IF a.b # "" /\ KwGet(kw, a.b) # <<>> THEN T
       ELSE IF \E i \in DOMAIN kw : kw[i][1] \notin nm THEN T
       ELSE IF \E i \in 1..n : KwGet(kw, a.at[i][1]) # <<>> THEN T
       ELSE LET dom == [i \in 1..n |-> <<a.at[i][1], pos[i]>>] \o kw
                r == BindRest(ev, j, 1, dom, kw, log)
            IN IF r.er # "" THEN [er |-> r.er, ps |-> <<>>, at |-> <<>>, lg |-> r.lg, dl |-> r.dl]
               ELSE IF a.b = "" /\ body # <<>> THEN [T EXCEPT !.er = "VoidTag", !.lg = r.lg]
               ELSE [er |-> "", at |-> dom, lg |-> r.lg, dl |-> FALSE,
                     ps |-> r.ps \o (IF a.b = "" THEN <<>> ELSE <<<<a.b, <<"dom", body>>>>>>)]
RECURSIVE FunOf(_)
FunOf(pairs) == IF pairs = <<>> THEN <<>> ELSE (pairs[1][1] :> pairs[1][2]) @@ FunOf(Tail(pairs))

---------------------------------------------------------------------------
(* Rendering: [t, er, lg].  External tags are expanded here, outermost first. *)

RECURSIVE RenderNode(_, _), RenderSeq(_, _)
RenderSeq(q, log) ==
    IF q = <<>> THEN [t |-> TEmpty, er |-> "", lg |-> log]
    ELSE LET a == RenderNode(Head(q), log) IN IF a.er # "" THEN a
         ELSE LET r == RenderSeq(Tail(q), a.lg) IN IF r.er # "" THEN r ELSE [r EXCEPT !.t = TCat(a.t, @)]

AttrText(a, x) == IF a[2] = Bool(TRUE) THEN (IF x THEN a[1] \o "=\"" \o a[1] \o "\"" ELSE a[1]) ELSE a[1] \o "=" \o QuoteAttr(PyStr(a[2]))
OpenTag(name, kw, x) == StrJoin(<<name>> \o LET q == SelectSeq(kw, LAMBDA a : a[2] # Bool(FALSE)) IN [i \in DOMAIN q |-> AttrText(q[i], x)], " ")
Paired(open, t, close) == TCat(TCat(TStr(open), t), IF StartsNL(t) THEN <<"", close>> ELSE TStr(close))

Expanded(n, log) ==
    LET log1 == IF n.tk = "X" THEN Append(log, <<"X", n.tg, n.pos, n.kw>>) ELSE IF n.tk = "G" THEN Append(log, <<"G", Len(Norm(n.ch)), n.pos, n.kw>>) ELSE log
        early == IF (n.tk \in {"M", "V", "MX", "VX"} /\ n.pos # <<>>) \/ (n.tk = "K" /\ (n.pos # <<>> \/ n.kw # <<>>)) \/ (n.tk = "C" /\ Len(n.pos) # 1)
                 THEN "TypeError0" ELSE ""
    IN IF early # "" THEN [t |-> TEmpty, er |-> early, lg |-> log1]
       ELSE LET b == RenderSeq(n.ch, log1) IN
            IF b.er # "" THEN b
            ELSE CASE n.tk \in {"N", "0"} -> b
                   [] n.tk \in {"M", "MX"} -> [b EXCEPT !.t = Paired("<" \o OpenTag(n.tg, n.kw, n.tk = "MX") \o ">", b.t, "</" \o n.tg \o ">")]
                   [] n.tk = "C" -> IF n.pos[1][1] # "s" THEN [b EXCEPT !.er = "TypeError0"] ELSE [b EXCEPT !.t = Paired("<" \o OpenTag(PyStr(n.pos[1]), n.kw, FALSE) \o ">", b.t, "</" \o PyStr(n.pos[1]) \o ">")]
                   [] n.tk = "K" -> [b EXCEPT !.t = Paired("<!--", b.t, "-->")]
                   [] n.tk \in {"V", "VX"} -> IF b.t # TEmpty THEN [b EXCEPT !.er = "VoidTag0"]
                                    ELSE [b EXCEPT !.t = TStr("<" \o OpenTag(n.tg, n.kw, n.tk = "VX") \o " />")]
                   [] n.tk = "X" -> [b EXCEPT !.t = Paired("[" \o n.tg \o "|", b.t, "]")]
                   [] n.tk = "G" -> LET b2 == RenderSeq(n.ch, b.lg) IN IF b2.er # "" THEN b2 ELSE [b2 EXCEPT !.t = TCat(TCat(TCat(TStr("{"), b.t), TCat(TStr("~"), b2.t)), TStr("}"))]
                   [] n.tk = "F" -> [b EXCEPT !.t = TCat(TCat(TStr("("), b.t), TStr(")")), !.lg = Append(@, <<"F", b.t, n.pos, n.kw>>)]
RenderNode(n, log) ==
    LET b == IF n.k = "T" THEN [t |-> n.t, er |-> "", lg |-> log] ELSE Expanded(n, log)
        t == IF n.out THEN TCat(TNL(1), b.t) ELSE b.t
    IN IF b.er # "" THEN b ELSE [b EXCEPT !.t = IF n.ind = <<>> THEN t ELSE AddIndent(t, n.ind[2])]

---------------------------------------------------------------------------
(* Control stack *)

Fr(f, i, fr) == [f |-> f, i |-> i, e |-> 0, acc |-> <<>>, its |-> <<>>, k |-> 0, el |-> Len(env), x |-> <<>>, n |-> 0, src |-> <<>>,
                 base |-> fr.base, cut |-> fr.cut, pv |-> <<>>]
Fr0 == [base |-> "", cut |-> 0]
SeqFr(i, e, fr) == [Fr("seq", i, fr) EXCEPT !.e = e]
AbsInd(fr, i) == fr.base \o DropN(prog[i].ind, fr.cut)

NoRet == [t |-> "-", ns |-> <<>>, er |-> "", ln |-> 0]
RetOk(ns) == [NoRet EXCEPT !.t = "ok", !.ns = ns]
RetEr(er, ln) == [NoRet EXCEPT !.t = "er", !.er = er, !.ln = ln]

(* output of the block in line i: top margin, first node on a new line, modifiers *)
Block(i, ns) == LET mg == IF prog[i].m > 0 THEN <<TextNode(TNL(prog[i].m), <<>>)>> ELSE <<>>
                    n1 == IF prog[i].mod = "..." THEN ns ELSE SetOut(ns, TRUE)
                IN IF ns = <<>> THEN mg ELSE mg \o (IF prog[i].mod = "<" THEN Dedent(n1) ELSE n1)

(* hand the output of an ended block over to the frame c's top *)
Deliver(c, ns) ==
    LET fr == Top(c) IN
    IF fr.f = "seq"
    THEN [c |-> [c EXCEPT ![Len(c)] = [fr EXCEPT !.acc = @ \o Block(fr.i, ns), !.i = GroupEnd(prog, fr.i) + 1, !.k = 0, !.pv = <<>>]], r |-> NoRet]
    ELSE [c |-> c, r |-> RetOk(ns)]

Push(fr) == ctl' = Append(ctl, fr)
Fail(er, i, tl) == ret' = RetEr(er, LineNo(prog, i, tl)) /\ UNCHANGED <<ctl, env>>
Keep == UNCHANGED <<ph, prog, res>>

Running == ph = "run" /\ ret.t = "-"
TopFr == Top(ctl)
(* the line whose block is to be started now: by a sequence, or by the prefix "?" *)
AtLine(i) == /\ Running /\ TopFr.i = i
             /\ \/ TopFr.f = "seq" /\ TopFr.i <= TopFr.e /\ ~prog[i].q
                \/ TopFr.f = "opt" /\ TopFr.n = 0
Ready(i) == AtLine(i) /\ TopFr.k = Len(prog[i].pc)
(* "opt" frames start their block only once *)
Mark(c) == IF Top(c).f = "opt" THEN [c EXCEPT ![Len(c)].n = 1] ELSE c
Give(ns) == LET d == Deliver(Mark(ctl), ns) IN ctl' = d.c /\ ret' = d.r

---------------------------------------------------------------------------
(* Actions *)

(* static analysis of the whole program, before anything is executed *)
Analyse ==
    /\ ph = "check"
    /\ LET e == Rejected(prog) IN
       IF e # <<>> THEN /\ ph' = "done" /\ res' = [er |-> e[1], ln |-> e[2], rl |-> 0, t |-> TEmpty, tree |-> <<>>, sym |-> <<>>]
                        /\ UNCHANGED <<prog, ctl, env, lg, ret>>
       ELSE /\ ph' = "run" /\ ctl' = <<SeqFr(1, Len(prog), Fr0)>> /\ env' = <<[s |-> 0, v |-> <<>>]>>
            /\ UNCHANGED <<prog, lg, ret, res>>

DoText(i) ==
    /\ Ready(i) /\ prog[i].k = "text"
    /\ LET a == prog[i].a
           r == EvalLines(a.mk, a.ls, En(env, prog, i, FALSE, FALSE, LsVars(a.ls), TopFr.pv), lg, 1)
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN Fail(r.er, i, r.tl)
             ELSE Give(<<TextNode(TextLayout(a.lead, a.mk, a.ls, r.t), <<"a", AbsInd(TopFr, i)>>)>>) /\ UNCHANGED env
    /\ Keep

DoEmbed(i) ==
    /\ Ready(i) /\ prog[i].k = "emb"
    /\ LET r == Embed(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, TopFr.pv), lg, AbsInd(TopFr, i))
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN Fail(r.er, i, 1) ELSE Give(r.ns) /\ UNCHANGED env
    /\ Keep

DoAssign(i) ==
    /\ Ready(i) /\ prog[i].k = "asg"
    /\ LET r == Eval(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, TopFr.pv), lg)
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN Fail(r.er, i, 1)
             ELSE LET b == Assign(env, ScopeOf(prog, i), prog[i].a.tg, r.v) IN
                  /\ env' = b.ev
                  /\ IF b.er # "" THEN ret' = RetEr(b.er, LineNo(prog, i, 1)) /\ UNCHANGED ctl ELSE Give(<<>>)
    /\ Keep

DoAugAssign(i) ==
    /\ Ready(i) /\ prog[i].k = "aug"
    /\ LET a == prog[i].a
           r == Eval(a.e, EnOf(env, prog, i, FALSE, FALSE, <<a.e>>, TopFr.pv), lg)
           cur == LookUp(env, Chain(prog, i, FALSE, FALSE, a.x), a.x)
           v == BinOp(a.op, cur, r.v, r.lg)
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN Fail(r.er, i, 1)
             ELSE IF cur[1] = "unb" THEN Fail("Unbound", i, 1)
             ELSE IF v.er # "" THEN Fail(v.er, i, 1)
             ELSE env' = Bind(env, ScopeOf(prog, i), a.x, v.v) /\ Give(<<>>)
    /\ Keep

DoExpr(i) ==
    /\ Ready(i) /\ prog[i].k = "ex"
    /\ LET r == Eval(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, TopFr.pv), lg)
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN Fail(r.er, i, 1) ELSE Give(<<>>) /\ UNCHANGED env
    /\ Keep

(* a mutable value is changed in place, where it is stored; no two variables hold the same one in the programs considered *)
Mutated(v, m, args) ==
    CASE v[1] = "l" /\ m = "append" -> <<"l", Append(v[2], args[1])>>
      [] v[1] = "l" /\ m = "extend" -> <<"l", v[2] \o Items(args[1])[2]>>
      [] v[1] = "l" /\ m = "insert" -> <<"l", <<args[2]>> \o v[2]>>
      [] v[1] = "l" /\ m = "clear" -> <<"l", <<>>>>
      [] v[1] = "d" /\ m = "clear" -> <<"d", <<>>>>
      [] v[1] = "d" /\ m = "setdefault" -> IF \E i \in DOMAIN v[2] : PyEq(v[2][i][1], args[1]) THEN v ELSE <<"d", Append(v[2], args)>>
      [] OTHER -> <<"unb">>
DoMutate(i) ==
    /\ Ready(i) /\ prog[i].k = "mut"
    /\ LET a == prog[i].a
           ch == Chain(prog, i, FALSE, FALSE, a.x)
           cur == LookUp(env, ch, a.x)
           r == EvalSeq(a.e, EnOf(env, prog, i, FALSE, FALSE, a.e, TopFr.pv), lg)
       IN IF cur[1] = "unb" THEN lg' = lg /\ Fail("Unbound", i, 1)
          ELSE IF Mutated(cur, a.m, <<Str(""), None>>)[1] = "unb" THEN lg' = lg /\ Fail("AttributeError", i, 1)
          ELSE /\ lg' = r.lg
               /\ IF r.er # "" THEN Fail(r.er, i, 1)
                  ELSE LET s == SlotOf(env, ch, a.x) new == Mutated(cur, a.m, r.v) c == Deliver(Mark(ctl), <<>>) IN
                       /\ env' = Bind(env, s, a.x, new)
                       /\ ctl' = [n \in DOMAIN c.c |-> IF c.c[n].f = "for" /\ c.c[n].src = <<"var", s, a.x>> /\ c.c[n].its = cur[2] THEN [c.c[n] EXCEPT !.its = new[2]] ELSE c.c[n]]
                       /\ ret' = c.r
    /\ Keep

(* the tag as a value: its definition, and the variables it may refer to as they are now, for the case that they are gone later *)
DoBindTag(i) ==
    /\ Ready(i) /\ prog[i].k = "btag"
    /\ LET j == TagDef(prog, i, prog[i].a.h)
           x == prog[i].a.x
           s == IF prog[i].a.cell = 0 THEN ScopeOf(prog, i) ELSE SlotOf(env, Chain(prog, i, FALSE, FALSE, x), x)
       IN
       /\ env' = Bind(env, s, x, <<"tg", prog[i].a.h, j, env, i>>)
       /\ Give(<<>>)
    /\ UNCHANGED lg /\ Keep
(* instances of the scopes around definition j that have ended, restored from ev0 *)
Restored(ev, ev0, j) ==
    LET sc == IF j = 0 THEN <<>> ELSE Rev(ScopeChain(prog, j))
        gone == SelectSeq(sc, LAMBDA s : TopOf(ev, s) = 0 /\ TopOf(ev0, s) # 0)
    IN [n \in DOMAIN gone |-> ev0[TopOf(ev0, gone[n])]]

(* blocks with no effect at the place where they stand *)
DoNothing(i) ==
    /\ Ready(i) /\ prog[i].k \in {"pass", "cmt", "def"}
    /\ Give(<<>>) /\ UNCHANGED <<env, lg>> /\ Keep

(* ---- tag calls in expressions: %H(body, attributes) ---- *)
StartCall(i) ==
    /\ AtLine(i) /\ TopFr.k < Len(prog[i].pc)
    /\ LET c0 == prog[i].pc[TopFr.k + 1]
           tv == IF c0.vr THEN LookUp(env, Chain(prog, i, FALSE, FALSE, c0.h), c0.h) ELSE <<"tg", c0.h, TagDef(prog, i, c0.h), <<>>, i>>
           c == IF tv[1] = "tg" THEN [c0 EXCEPT !.h = tv[2]] ELSE c0
           j == IF tv[1] = "tg" THEN tv[3] ELSE 0
           old == IF tv[1] = "tg" THEN Restored(env, tv[4], j) ELSE <<>>
           ev == env \o old
           en == EnOf(env, prog, i, FALSE, FALSE, c.body \o AtExprs(c.at), TopFr.pv)
           b == EvalSeq(c.body, en, lg)
           a == EvalAttrs(c.at, en, b.lg)
           body == IF c.body = <<>> \/ b.v[1] = None THEN <<>> ELSE <<TextNode(TSplit(PyStr(b.v[1])), <<>>)>>
           bd == BindAttrs(ev, j, body, a.pos, a.kw, a.lg)
           fr0 == [Fr("call", i, TopFr) EXCEPT !.x = c.v, !.k = Len(old)]
           done(v) == ctl' = [ctl EXCEPT ![Len(ctl)].k = @ + 1, ![Len(ctl)].pv = (c.v :> v) @@ @]
       IN IF tv[1] = "unb" THEN lg' = lg /\ Fail("Unbound", i, 1)
          ELSE IF b.er # "" THEN lg' = b.lg /\ Fail(b.er, i, 1)
          ELSE IF a.er # "" THEN lg' = a.lg /\ Fail(a.er, i, 1)
          ELSE IF tv[1] # "tg" THEN lg' = a.lg /\ Fail("TypeError", i, 1)
          ELSE IF j = 0 THEN
               LET n == Elem(TagName(c.h), TagKind(c.h), a.pos, a.kw, body, "")
                   r == Expanded(n, a.lg)
               IN /\ lg' = r.lg
                  /\ IF r.er # "" THEN Fail(r.er, i, 1)
                     ELSE done(Str(StrJoin(r.t, "\n"))) /\ UNCHANGED <<env, ret>>
          ELSE /\ lg' = bd.lg
               /\ IF bd.er # "" THEN Fail(bd.er, IF bd.dl THEN j ELSE tv[5], 1)
                  ELSE /\ ctl' = ctl \o <<fr0, [Fr("exp", j, Fr0) EXCEPT !.cut = Len(prog[j].ind), !.x = bd.at]>>
                       /\ env' = Append(ev, [s |-> j, v |-> FunOf(bd.ps)])
                       /\ UNCHANGED ret
    /\ Keep

(* the expansion called from an expression has ended: render it to text *)
EndCall ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f = "call"
    /\ LET r == RenderSeq(RelAll(ret.ns, ""), lg)
           c == Pop(ctl)
       IN /\ lg' = r.lg
          /\ IF r.er # "" THEN ctl' = c /\ ret' = RetEr(r.er, LineNo(prog, TopFr.i, 1))
             ELSE /\ ctl' = [c EXCEPT ![Len(c)].k = @ + 1, ![Len(c)].pv = (TopFr.x :> Str(StrJoin(r.t, "\n"))) @@ @]
                  /\ ret' = NoRet
    /\ env' = SubSeq(env, 1, TopFr.el) /\ Keep

(* ---- tagged blocks: body first, in a scope of its own, then the tags from right to left ---- *)
EnterTag(i) ==
    /\ Ready(i) /\ prog[i].k = "tag"
    /\ LET ev == Append(env, [s |-> i, v |-> <<>>])
           I == AbsInd(TopFr, i)
           h == Inline(ev, i, prog[i].a.hd, lg, I, TopFr.pv)
           fr == [Fr("tag", i, TopFr) EXCEPT !.k = Len(prog[i].a.ch), !.acc = h.ns, !.pv = TopFr.pv]
       IN /\ lg' = h.lg
          /\ IF h.er # "" THEN Fail(h.er, i, h.tl)
             ELSE IF EndOf(prog, i) > i
             THEN /\ env' = ev /\ ctl' = Mark(ctl) \o <<fr, SeqFr(i + 1, EndOf(prog, i), TopFr)>> /\ UNCHANGED ret
             ELSE /\ ctl' = Append(Mark(ctl), fr) /\ UNCHANGED <<env, ret>>
    /\ Keep

LeaveBody ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f = "tag" /\ Len(env) > TopFr.el
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].acc = @ \o ret.ns]
    /\ env' = Pop(env) /\ ret' = NoRet /\ UNCHANGED lg /\ Keep

ApplyTag ==
    /\ Running /\ TopFr.f = "tag"
    /\ LET fr == TopFr
           i == fr.i
           I == AbsInd(fr, i)
           c == prog[i].a.ch[fr.k]
           a == EvalAttrs(c.at, EnOf(env, prog, i, FALSE, FALSE, AtExprs(c.at), fr.pv), lg)
           j == TagDef(prog, i, c.n)
           bd == BindAttrs(env, j, fr.acc, a.pos, a.kw, a.lg)
       IN IF fr.k = 0
          THEN LET d == Deliver(Pop(ctl), SetAll(fr.acc, I)) IN ctl' = d.c /\ ret' = d.r /\ UNCHANGED <<env, lg>>
          ELSE IF a.er # "" THEN lg' = a.lg /\ Fail(a.er, i, 1)
          ELSE IF j = 0
          THEN /\ ctl' = [ctl EXCEPT ![Len(ctl)].acc = <<Elem(TagName(c.n), TagKind(c.n), a.pos, a.kw, @, I)>>, ![Len(ctl)].k = @ - 1]
               /\ lg' = a.lg /\ UNCHANGED <<env, ret>>
          ELSE /\ lg' = bd.lg
               /\ IF bd.er # "" THEN Fail(bd.er, IF bd.dl THEN j ELSE i, 1)
                  ELSE /\ Push([Fr("exp", j, fr) EXCEPT !.base = I, !.cut = Len(prog[j].ind), !.x = bd.at])
                       /\ env' = Append(env, [s |-> j, v |-> FunOf(bd.ps)])
                       /\ UNCHANGED ret
    /\ Keep

(* ---- expansion of a hypertag; its scope has been opened by the caller ---- *)
EnterExpansion ==
    /\ Running /\ TopFr.f = "exp" /\ TopFr.n = 0
    /\ LET fr == TopFr
           h == Inline(env, fr.i, prog[fr.i].a.hd, lg, fr.base, <<>>)
           fr1 == [fr EXCEPT !.n = 1, !.acc = h.ns]
       IN /\ lg' = h.lg
          /\ IF h.er # "" THEN Fail(h.er, fr.i, h.tl)
             ELSE IF EndOf(prog, fr.i) > fr.i
             THEN ctl' = Pop(ctl) \o <<fr1, SeqFr(fr.i + 1, EndOf(prog, fr.i), fr)>> /\ UNCHANGED <<env, ret>>
             ELSE ctl' = Append(Pop(ctl), fr1) /\ ret' = RetOk(<<>>) /\ UNCHANGED env
    /\ Keep

LeaveExpansion ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f = "exp"
    /\ LET fr == TopFr
           ns == SetOut(SetAll(fr.acc \o ret.ns, fr.base), FALSE)
       IN /\ ctl' = Pop(ctl)
          /\ ret' = RetOk(<<Elem(prog[fr.i].a.n, "N", <<>>, fr.x, ns, fr.base)>>)
    /\ env' = Pop(env) /\ UNCHANGED lg /\ Keep

(* the tag frame takes the output of the expansion *)
TakeExpansion ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f = "tag" /\ Len(env) = TopFr.el
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].acc = ret.ns, ![Len(ctl)].k = @ - 1]
    /\ ret' = NoRet /\ UNCHANGED <<env, lg>> /\ Keep

(* ---- sequences ---- *)
EndSeq ==
    /\ Running /\ TopFr.f = "seq" /\ TopFr.i > TopFr.e /\ Len(ctl) > 1
    /\ LET d == Deliver(Pop(ctl), TopFr.acc) IN ctl' = d.c /\ ret' = d.r
    /\ UNCHANGED <<env, lg>> /\ Keep

(* body of a clause: inline text or nested blocks *)
ClauseFr(fr, i) == SeqFr(i + 1, EndOf(prog, i), fr)
HdOf(i) == prog[i].a.hd

(* start the body of clause i on top of frames c: an inline text is delivered at once *)
StartClause(c, fr, i, ev, log) ==
    LET h == Inline(ev, i, HdOf(i), log, AbsInd(fr, i), <<>>)
    IN IF HdOf(i).k = "-" THEN [c |-> Append(c, ClauseFr(fr, i)), r |-> NoRet, lg |-> log]
       ELSE IF h.er # "" THEN [c |-> c, r |-> RetEr(h.er, LineNo(prog, i, h.tl)), lg |-> h.lg]
       ELSE [c |-> c, r |-> RetOk(h.ns), lg |-> h.lg]

(* ---- if/elif/else ---- *)
EnterIf(i) ==
    /\ Ready(i) /\ prog[i].k = "if"
    /\ Push([Fr("if", i, TopFr) EXCEPT !.k = i, !.pv = TopFr.pv]) /\ UNCHANGED <<env, lg, ret>> /\ Keep

TestClause ==
    /\ Running /\ TopFr.f = "if"
    /\ LET fr == TopFr
           i == fr.k
           isElse == prog[i].k = "else"
           r == IF isElse THEN Ok(Bool(TRUE), lg) ELSE Eval(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, fr.pv), lg)
           nx == ClauseNext(prog, i)
       IN IF r.er # "" THEN lg' = r.lg /\ Fail(r.er, i, 1)
          ELSE IF Truth(r.v)
          THEN LET s == StartClause(ctl, fr, i, env, r.lg) IN ctl' = s.c /\ ret' = s.r /\ lg' = s.lg /\ UNCHANGED env
          ELSE IF nx # 0 THEN ctl' = [ctl EXCEPT ![Len(ctl)].k = nx] /\ lg' = r.lg /\ UNCHANGED <<env, ret>>
          ELSE LET d == Deliver(Pop(ctl), <<>>) IN ctl' = d.c /\ ret' = d.r /\ lg' = r.lg /\ UNCHANGED env
    /\ Keep

LeaveIf ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f = "if"
    /\ LET d == Deliver(Pop(ctl), SetAll(ret.ns, AbsInd(TopFr, TopFr.i))) IN ctl' = d.c /\ ret' = d.r
    /\ UNCHANGED <<env, lg>> /\ Keep

(* ---- loops; n counts iterations ---- *)
(* where the elements come from: "pull" takes them one by one, each only when it is needed; a loop over a variable goes  *)
(* through the object the variable holds when the loop starts, with the elements that calls made by the body add to it *)
Source(i, v) ==
    LET e == prog[i].a.e IN
    IF v[1] = "it" /\ Len(v) = 4 THEN <<"pull", v[3], v[4]>>
    ELSE IF v[1] = "l" /\ e[1] = "var" THEN <<"var", SlotOf(env, Chain(prog, i, FALSE, FALSE, e[2]), e[2]), e[2]>>
    ELSE <<"-">>
EnterFor(i) ==
    /\ Ready(i) /\ prog[i].k = "for"
    /\ LET r == Eval(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, TopFr.pv), lg) IN
       /\ lg' = r.lg
       /\ IF r.er # "" THEN Fail(r.er, i, 1)
          ELSE IF ~Items(r.v)[1] THEN Fail("TypeError", i, 1)
          ELSE Push([Fr("for", i, TopFr) EXCEPT !.its = Items(r.v)[2], !.src = Source(i, r.v)]) /\ UNCHANGED <<env, ret>>
    /\ Keep

EnterWhile(i) ==
    /\ Ready(i) /\ prog[i].k = "while"
    /\ Push(Fr("while", i, TopFr)) /\ UNCHANGED <<env, lg, ret>> /\ Keep

(* no more iterations: the else clause if there were none, otherwise the end *)
EndLoop(fr, log) ==
    LET el == ClauseNext(prog, fr.i)
        c  == [ctl EXCEPT ![Len(ctl)].k = 1]
    IN IF fr.n = 0 /\ el # 0
       THEN LET s == StartClause(c, fr, el, env, log) IN ctl' = s.c /\ ret' = s.r /\ lg' = s.lg
       ELSE LET d == Deliver(Pop(ctl), SetAll(fr.acc, AbsInd(fr, fr.i))) IN ctl' = d.c /\ ret' = d.r /\ lg' = log

NextFor ==
    /\ Running /\ TopFr.f = "for" /\ TopFr.k = 0
    /\ LET fr == TopFr i == fr.i pull == fr.src[1] = "pull" IN
       IF fr.n >= Len(fr.its) THEN IF pull /\ fr.src[3] THEN lg' = Append(lg, <<"boom", fr.src[2]>>) /\ Fail("Boom", i, 1) ELSE EndLoop(fr, lg) /\ UNCHANGED env
       ELSE LET v == fr.its[fr.n + 1]
                b == Assign(env, ScopeOf(prog, i), prog[i].a.tg, v)
                log == IF pull THEN Append(lg, <<"pull", fr.src[2], v>>) ELSE lg
                s == StartClause([ctl EXCEPT ![Len(ctl)].n = @ + 1], fr, i, b.ev, log)
            IN /\ env' = b.ev
               /\ IF b.er # "" THEN ret' = RetEr(b.er, LineNo(prog, i, 1)) /\ lg' = log /\ UNCHANGED ctl
                  ELSE ctl' = s.c /\ ret' = s.r /\ lg' = s.lg
    /\ Keep

NextWhile ==
    /\ Running /\ TopFr.f = "while" /\ TopFr.k = 0
    /\ LET fr == TopFr i == fr.i
           r == Eval(prog[i].a.e, EnOf(env, prog, i, FALSE, FALSE, <<prog[i].a.e>>, <<>>), lg) IN
       IF r.er # "" THEN lg' = r.lg /\ Fail(r.er, i, 1)
       ELSE IF ~Truth(r.v) THEN EndLoop(fr, r.lg) /\ UNCHANGED env
       ELSE LET s == StartClause([ctl EXCEPT ![Len(ctl)].n = @ + 1], fr, i, env, r.lg)
            IN ctl' = s.c /\ ret' = s.r /\ lg' = s.lg /\ UNCHANGED env
    /\ Keep

EndIteration ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f \in {"for", "while"}
    /\ IF TopFr.k = 0 THEN ctl' = [ctl EXCEPT ![Len(ctl)].acc = @ \o ret.ns] /\ ret' = NoRet
       ELSE LET d == Deliver(Pop(ctl), SetAll(ret.ns, AbsInd(TopFr, TopFr.i))) IN ctl' = d.c /\ ret' = d.r
    /\ UNCHANGED <<env, lg>> /\ Keep

(* ---- try; also the prefix "?" ---- *)
EnterTry(i) ==
    /\ Ready(i) /\ prog[i].k = "try"
    /\ Push([Fr("try", i, TopFr) EXCEPT !.k = i]) /\ UNCHANGED <<env, lg, ret>> /\ Keep

StartTry ==
    /\ Running /\ TopFr.f = "try"
    /\ LET s == StartClause(ctl, TopFr, TopFr.k, env, lg) IN ctl' = s.c /\ ret' = s.r /\ lg' = s.lg
    /\ UNCHANGED env /\ Keep

EnterOpt(i) ==
    /\ Running /\ TopFr.f = "seq" /\ TopFr.i = i /\ i <= TopFr.e /\ prog[i].q
    /\ Push(Fr("opt", i, TopFr)) /\ UNCHANGED <<env, lg, ret>> /\ Keep

LeaveTry ==
    /\ ph = "run" /\ ret.t = "ok" /\ TopFr.f \in {"try", "opt"}
    /\ LET d == Deliver(Pop(ctl), SetAll(ret.ns, AbsInd(TopFr, TopFr.i))) IN ctl' = d.c /\ ret' = d.r
    /\ UNCHANGED <<env, lg>> /\ Keep

Caught == ret.er \notin {"Kbd", "SKIP"} /\ TopFr.f \in {"try", "opt"}

(* an error leaves the topmost frame, closing its scope *)
Unwind ==
    /\ ph = "run" /\ ret.t = "er" /\ Len(ctl) > 0 /\ ~Caught
    /\ ctl' = Pop(ctl) /\ env' = SubSeq(env, 1, IF TopFr.f = "exp" THEN Len(env) - 1 ELSE TopFr.el)
    /\ UNCHANGED <<lg, ret>> /\ Keep

Catch ==
    /\ ph = "run" /\ ret.t = "er" /\ Len(ctl) > 0 /\ Caught
    /\ LET nx == IF TopFr.f = "try" THEN ClauseNext(prog, TopFr.k) ELSE 0
           d == Deliver(Pop(ctl), <<>>)
       IN IF nx # 0 THEN ctl' = [ctl EXCEPT ![Len(ctl)].k = nx] /\ ret' = NoRet
          ELSE ctl' = d.c /\ ret' = d.r
    /\ UNCHANGED <<env, lg>> /\ Keep

(* ---- end of the document ---- *)
Located(er) == er \notin {"TypeError", "ValueError0", "TypeError0", "VoidTag0", "Boom", "Kbd", "SKIP", "ZeroDivisionError", "IndexError", "KeyError", "AttributeError"}
Class(er) == IF er \in {"TypeError0", "TypeErrorEx"} THEN "TypeError" ELSE IF er = "VoidTag0" THEN "VoidTag" ELSE IF er = "ValueError0" THEN "ValueError" ELSE er

Abort ==
    /\ ph = "run" /\ ret.t = "er" /\ ctl = <<>>
    /\ ph' = "done"
    /\ res' = [er |-> Class(ret.er), ln |-> IF Located(ret.er) THEN ret.ln ELSE 0, rl |-> 0, t |-> TEmpty, tree |-> <<>>, sym |-> <<>>]
    /\ UNCHANGED <<prog, ctl, env, lg, ret>>

Document == RelAll(TopFr.acc \o (IF TN > 0 THEN <<TextNode(TNL(TN), <<>>)>> ELSE <<>>), "")
IsVal(v) == v[1] \notin {"dom", "node", "it", "tg"}
Exports == LET v == env[1].v D == {x \in DOMAIN v : IsVal(v[x])} IN [x \in D |-> v[x]]

Finish ==
    /\ Running /\ Len(ctl) = 1 /\ TopFr.i > TopFr.e
    /\ LET r == RenderSeq(Document, lg)
           t == IF StartsNL(r.t) THEN Tail(r.t) ELSE r.t
       IN /\ lg' = r.lg
          /\ ph' = "done"
          /\ res' = [er |-> Class(r.er), ln |-> 0, rl |-> Len(lg), t |-> IF r.er = "" THEN t ELSE TEmpty, tree |-> Norm(Document), sym |-> Exports]
    /\ ctl' = <<>> /\ UNCHANGED <<prog, env, ret>>

Step == \/ Analyse \/ Finish \/ Abort
        \/ \E i \in 1..Len(prog) : \/ DoText(i) \/ DoEmbed(i) \/ DoAssign(i) \/ DoAugAssign(i) \/ DoExpr(i) \/ DoMutate(i) \/ DoBindTag(i) \/ DoNothing(i)
                                   \/ StartCall(i) \/ EnterTag(i) \/ EnterIf(i) \/ EnterFor(i) \/ EnterWhile(i)
                                   \/ EnterTry(i) \/ EnterOpt(i)
        \/ EndCall \/ LeaveBody \/ ApplyTag \/ EnterExpansion \/ LeaveExpansion \/ TakeExpansion \/ EndSeq
        \/ TestClause \/ LeaveIf \/ NextFor \/ NextWhile \/ EndIteration \/ StartTry \/ LeaveTry \/ Unwind \/ Catch

---------------------------------------------------------------------------
(* Properties of the machine, checked in every state of every program *)

(* scopes are opened and closed in pairs: one instance per body or expansion in progress *)
RestoredScopes == LET f[n \in 0..Len(ctl)] == IF n = 0 THEN 0 ELSE f[n - 1] + (IF ctl[n].f = "call" THEN ctl[n].k ELSE 0) IN f[Len(ctl)]
OpenScopes == RestoredScopes + Len(SelectSeq(ctl, LAMBDA f : f.f = "exp"))
              + Len(SelectSeq([n \in DOMAIN ctl |-> n], LAMBDA n : ctl[n].f = "tag" /\ n < Len(ctl) /\ ctl[n + 1].f = "seq"))
ScopesBalanced == ph = "run" /\ ret.t = "-" /\ ctl # <<>> => Len(env) = 1 + OpenScopes
DocScopeFirst == env # <<>> => env[1].s = 0
(* the topmost instance is the scope of the line being executed *)
RightScope == \A i \in 1..Len(prog) : AtLine(i) => Top(env).s = ScopeOf(prog, i)
Terminated == ph = "done" => ctl = <<>> /\ (ret.t # "er" => Len(env) <= 1)
(* finished output is well-formed: all indentations have become relative *)
OutputSettled == ph = "run" /\ ctl # <<>> /\ Len(ctl) = 1 /\ Running /\ TopFr.i > TopFr.e => \A i \in DOMAIN Document : Settled(Document[i])

Stable(n) == \A k \in 1..n : env'[k] = env[k]
(* no step changes any scope but the innermost one: assignments never leak out; calls that modify an object in place *)
(* change the value of a variable found there, never which variables there are                                     *)
InPlace == /\ Running /\ \E i \in 1..Len(prog) : AtLine(i) /\ prog[i].k \in {"mut", "btag"}
           /\ Len(env') = Len(env) /\ \A k \in 1..Len(env) : DOMAIN env[k].v \subseteq DOMAIN env'[k].v
OnlyTopScope == [][ph = "run" /\ ph' = "run" /\ env # <<>> =>
                   IF InPlace THEN \A k \in 1..Len(env) : env'[k].s = env[k].s /\ (k < Len(env) => DOMAIN env'[k].v = DOMAIN env[k].v) ELSE
                   IF Len(env') > Len(env) THEN Stable(Len(env))
                   ELSE IF Len(env') < Len(env) THEN Stable(Len(env'))
                   ELSE Stable(Len(env) - 1)]_vars
(* a failure removes frames and leaves the output collected by the remaining ones as it was *)
NoResidue == [][ph = "run" /\ ret.t = "er" /\ ctl' # ctl =>
                \A n \in 1..Len(ctl') : n < Len(ctl) => \/ ctl'[n].acc = ctl[n].acc
                                                        \/ n = Len(ctl) - 1 /\ ctl'[n].f = "seq" /\ ctl'[n].acc = ctl[n].acc \o Block(ctl[n].i, <<>>)]_vars
LogGrows == [][SubSeq(lg', 1, Len(lg)) = lg]_vars

(* ---- the same guarantees stated once more, without the machine ---- *)

Same(n) == n < Len(ctl) /\ n < Len(ctl')                 \* the frame n goes on
(* blocks run in document order, each once; what a frame has collected is never taken back *)
InOrder == [][\A n \in 1..Len(ctl) : Same(n) /\ ctl[n].f = "seq" =>
                 /\ ctl'[n].f = "seq" /\ ctl'[n].e = ctl[n].e
                 /\ ctl'[n].i \in {ctl[n].i, GroupEnd(prog, ctl[n].i) + 1}
                 /\ SubSeq(ctl'[n].acc, 1, Len(ctl[n].acc)) = ctl[n].acc]_vars
(* clauses are tried one after another, never again; iterations are counted one by one *)
OneClause == [][\A n \in 1..Len(ctl) : n <= Len(ctl') /\ ctl[n].f = ctl'[n].f /\ (ctl[n].i = ctl'[n].i) =>
                 /\ ctl[n].f \in {"if", "try"} => ctl'[n].k \in {ctl[n].k, ClauseNext(prog, ctl[n].k), ctl[n].i}
                 /\ ctl[n].f \in {"for", "while"} /\ Same(n) => ctl'[n].n = ctl[n].n]_vars
(* the else clause of a loop runs only if there was no iteration, and a loop makes no more iterations than there are elements *)
(* (unless its body takes elements out of the very list it goes through)                                                    *)
Shrinks == \E i \in 1..Len(prog) : prog[i].k = "mut"
ElseOfEmpty == \A n \in DOMAIN ctl : /\ ctl[n].f \in {"for", "while"} /\ ctl[n].k = 1 => ctl[n].n = 0
                                     /\ ctl[n].f = "for" /\ ~Shrinks => ctl[n].n <= Len(ctl[n].its)
(* an expansion starts with its formal attributes, and nothing else *)
BoundExactly == Running /\ ctl # <<>> /\ TopFr.f = "exp" /\ TopFr.n = 0 => DOMAIN Top(env).v = Params(prog[TopFr.i]) /\ Top(env).s = TopFr.i
(* a program is rejected before anything is executed, or never *)
StaticFirst == [][ph = "check" /\ ph' = "done" => lg' = <<>> /\ env' = <<>>]_vars
NeverLater == ph = "run" => ret.er \notin {"Name", "UndefTag", "Syntax"}
(* what is not an Exception passes through everything *)
PassesThrough == [][ret.t = "er" /\ ret.er = "Kbd" => ret'.er = "Kbd"]_vars
(* errors point at a line of the program *)
PointsIn == ph = "done" /\ res.er # "SKIP" => \/ res.ln = 0
                         \/ \E i \in 1..Len(prog) : LineNo(prog, i, 1) <= res.ln /\ res.ln < LineNo(prog, i, 1) + Height(prog[i])

KindsIn(q) == LET w == Walk(q) IN {w[i].tk : i \in {j \in DOMAIN w : w[j].k = "E"}}
(* one expansion of each external tag found in the document, outermost first, in document order *)
Expands == LET w == Walk(Document) IN [i \in DOMAIN SelectSeq(w, LAMBDA n : n.tk = "X") |-> SelectSeq(w, LAMBDA n : n.tk = "X")[i].tg]
ExpandedOnce == [][ph = "run" /\ ph' = "done" /\ res'.er = "" /\ "G" \notin KindsIn(Document) =>
                     LET q == SelectSeq(SubSeq(lg', res'.rl + 1, Len(lg')), LAMBDA e : e[1] = "X") IN [i \in DOMAIN q |-> q[i][2]] = Expands]_vars

(* tags found in a text: <<"o", name>> opened, <<"c", name>> closed, <<"v", name>> closed at once *)
RECURSIVE UpTo(_, _, _), Tags(_)
UpTo(s, i, S) == IF i > Len(s) \/ Ch(s, i) \in S THEN i - 1 ELSE UpTo(s, i + 1, S)
Tags(s) == LET i == UpTo(s, 1, {"<"}) + 1 IN
           IF i > Len(s) THEN <<>>
           ELSE LET j == UpTo(s, i, {">"}) + 1
                    t == SubSeq(s, i + 1, j - 1)
                IN <<IF PrefixOf("/", t) THEN <<"c", DropN(t, 1)>>
                     ELSE <<IF Len(t) > 1 /\ DropN(t, Len(t) - 2) = " /" THEN "v" ELSE "o", SubSeq(t, 1, UpTo(t, 1, {" "}))>>>>
                   \o Tags(DropN(s, j))
RECURSIVE Shape(_)
Shape(q) == IF q = <<>> THEN <<>>
            ELSE LET n == Head(q) IN
                 (CASE n.k = "T" -> <<>>
                    [] n.tk \in {"M", "MX"} -> <<<<"o", n.tg>>>> \o Shape(n.ch) \o <<<<"c", n.tg>>>>
                    [] n.tk \in {"V", "VX"} -> <<<<"v", n.tg>>>>
                    [] OTHER -> Shape(n.ch)) \o Shape(Tail(q))
PlainOnly == \A i \in 1..Len(prog) : /\ prog[i].k = "text" => prog[i].a.mk = "|"
                                     /\ prog[i].k \in {"tag", "def", "if", "elif", "else", "for", "while", "try"} /\ prog[i].a.hd.k \in {"full", "head"} => prog[i].a.hd.mk = "|"
(* where no markup is written literally, an HTML reader finds in the output exactly the tags of the tree, nested like there: *)
(* neither text nor attributes can add, remove or break a tag                                                             *)
ReadsBack == [][ph = "run" /\ ph' = "done" /\ res'.er = "" /\ ESC = "html" /\ PlainOnly /\ KindsIn(Document) \subseteq {"M", "V", "MX", "VX", "N", "0"} =>
                  Tags(StrJoin(res'.t, "\n")) = Shape(Document)]_vars

(* a program made of nothing but tags in outline form and plain text of one line each is laid out like the program itself *)
PlainLine(l) == l.mod = "" /\ ~l.q /\ l.pc = <<>> /\
                \/ l.k = "text" /\ l.a.mk = "|" /\ Len(l.a.ls) = 1 /\ Len(l.a.ls[1].s) = 1 /\ l.a.ls[1].s[1][1] = "t" /\ l.a.ls[1].p \in {"", " "} /\ l.a.ls[1].s[1][2] # "" /\ ~IsSpace(Ch(l.a.ls[1].s[1][2], 1)) /\ (\A c \in 1..Len(l.a.ls[1].s[1][2]) : Ch(l.a.ls[1].s[1][2], c) \notin {"$", "{", "}"})
                \/ l.k = "tag" /\ l.a.hd.k = "-" /\ \A c \in DOMAIN l.a.ch : l.a.ch[c].at = <<>> /\ TagKind(l.a.ch[c].n) = "M"
RECURSIVE Outline(_, _, _)
Outline(p, i, e) ==
    IF i > e THEN <<>>
    ELSE LET x == EndOf(p, i) nx == Len(p[i].a.ch)
             op == StrJoin([c \in 1..nx |-> "<" \o p[i].a.ch[c].n \o ">"], "")
             cl == StrJoin([c \in 1..nx |-> "</" \o p[i].a.ch[nx + 1 - c].n \o ">"], "")
         IN [k \in 1..p[i].m |-> ""] \o
            (IF p[i].k = "text" THEN <<p[i].ind \o Escape(p[i].a.ls[1].s[1][2])>>
             ELSE IF x = i THEN <<p[i].ind \o op \o cl>>
             ELSE <<p[i].ind \o op>> \o Outline(p, i + 1, x) \o <<p[i].ind \o cl>>) \o Outline(p, x + 1, e)
LaidOut == ph = "done" /\ res.er = "" /\ TN = 0 /\ (\A i \in 1..Len(prog) : PlainLine(prog[i]) /\ (prog[i].k = "tag" => \A c \in DOMAIN prog[i].a.ch : TagDef(prog, i, prog[i].a.ch[c].n) = 0)) =>
              res.t = Outline(prog, 1, Len(prog))
=============================================================================
