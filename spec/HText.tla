------------------------------- MODULE HText -------------------------------
(***************************************************************************)
(* Text, document nodes, layout and rendering.                             *)
(*                                                                         *)
(* A text ("Txt") is a non-empty sequence of strings, its lines: <<"">> is *)
(* the empty text, <<"a","b">> is "a\nb".                                  *)
(*                                                                         *)
(* A document node is a record                                             *)
(*   k    "T" text, "E" element                                            *)
(*   t    Txt (text nodes)                                                 *)
(*   tg   tag name, tk: kind of tag, one of                                *)
(*        "M" markup, "V" void markup, "N" native hypertag, "0" null tag,  *)
(*        "X" external Tag, "F" function wrapped as a tag, "C" custom,     *)
(*        "K" comment                                                      *)
(*   pos, kw  attributes; kw is a sequence of <<name, value>>              *)
(*   ch   child nodes                                                      *)
(*   out  TRUE when the node starts on a new line                          *)
(*   ind  <<>> (inline), <<"a", s>> absolute, <<"r", s>> relative to the   *)
(*        nearest enclosing element                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, i)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)

Range(q) == {q[i] : i \in DOMAIN q}

RECURSIVE CatAll(_)
CatAll(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o CatAll(Tail(q))

RECURSIVE StrJoin(_, _)
StrJoin(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o StrJoin(Tail(q), sep)

PrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
DropN(s, n) == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))

IsSpace(c) == c \in {" ", "\t"}

RECURSIVE LeadLen(_, _)
LeadLen(s, i) == IF i > Len(s) THEN Len(s) ELSE IF IsSpace(Ch(s, i)) THEN LeadLen(s, i + 1) ELSE i - 1
LeadWS(s) == SubSeq(s, 1, LeadLen(s, 1))                \* leading whitespace
Blank(s)  == LeadLen(s, 1) = Len(s)

---------------------------------------------------------------------------
(* Txt *)

TEmpty == <<"">>
TStr(s) == <<s>>
TNL(n) == [i \in 1..n + 1 |-> ""]                        \* n newlines
TCat(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)
RECURSIVE TCatAll(_)
TCatAll(q) == IF q = <<>> THEN TEmpty ELSE IF Len(q) = 1 THEN q[1] ELSE TCat(q[1], TCatAll(Tail(q)))
(* the lines of a string *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, j) == IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
                      ELSE IF Ch(s, j) = "\n" THEN <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, j + 1, j + 1) ELSE SplitFrom(s, i, j + 1)
TSplit(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "\n" THEN SplitFrom(s, 1, 1) ELSE <<s>>
StartsNL(t) == Len(t) > 1 /\ t[1] = ""
AddIndent(t, s) == IF s = "" THEN t ELSE [i \in 1..Len(t) |-> IF i = 1 \/ t[i] = "" THEN t[i] ELSE s \o t[i]]

RECURSIVE CommonPrefix(_, _)
CommonPrefix(a, b) == IF a = "" \/ b = "" \/ Ch(a, 1) # Ch(b, 1) THEN ""
                      ELSE Ch(a, 1) \o CommonPrefix(DropN(a, 1), DropN(b, 1))
RECURSIVE CommonInd(_)
CommonInd(q) == IF Len(q) = 1 THEN q[1] ELSE CommonPrefix(q[1], CommonInd(Tail(q)))
(* longest whitespace prefix shared by all non-blank lines *)
GetIndent(t) == LET inds == SelectSeq(t, LAMBDA s : ~Blank(s))
                IN IF inds = <<>> THEN "" ELSE CommonInd([i \in DOMAIN inds |-> LeadWS(inds[i])])
DelIndent(t, s) == [i \in DOMAIN t |-> IF PrefixOf(s, t[i]) THEN DropN(t[i], Len(s)) ELSE t[i]]

(* Layout of a text block whose marker stands in (1-based) column `lead`: lines after the first keep their indentation   *)
(* relative to the headline.  wh[i]: what line i of the script begins with, as it is written, embeddings replaced with a  *)
(* letter; ts[i]: the line as rendered; nl[i]: newlines before it.  What the embedded values contain does not matter.     *)
TextBlock(lead, wh, ts, nl) ==
    LET Src(i) == IF i = 1 THEN Rep(" ", lead) \o wh[1] ELSE wh[i]
        inds == SelectSeq([i \in DOMAIN ts |-> Src(i)], LAMBDA s : ~Blank(s))
        g  == IF inds = <<>> THEN "" ELSE CommonInd([i \in DOMAIN inds |-> LeadWS(inds[i])])
        si == SubSeq(g, 1, IF Len(g) < lead + 1 THEN Len(g) ELSE lead + 1)
        d  == lead - Len(si)
        First(t) == IF d > 0 THEN DropN(t, IF PrefixOf(" ", wh[1]) THEN d + 1 ELSE d) ELSE t
        Cut(t, s) == IF PrefixOf(si, s) THEN <<DropN(t[1], Len(si))>> \o Tail(t) ELSE t
        Line(i) == IF i = 1 THEN LET t == Cut(<<Rep(" ", lead) \o ts[1][1]>> \o Tail(ts[1]), Src(1)) IN <<First(t[1])>> \o Tail(t)
                   ELSE Cut(ts[i], Src(i))
        RECURSIVE From(_)
        From(i) == IF i > Len(ts) THEN TEmpty ELSE IF i = 1 THEN TCat(Line(1), From(2)) ELSE TCat(TCat(TNL(nl[i]), Line(i)), From(i + 1))
    IN From(1)

---------------------------------------------------------------------------
(* Escaping *)

RECURSIVE EscFrom(_, _)
EscFrom(s, i) == IF i > Len(s) THEN ""
                 ELSE (CASE Ch(s, i) = "&" -> "&amp;" [] Ch(s, i) = "<" -> "&lt;" [] Ch(s, i) = ">" -> "&gt;"
                         [] OTHER -> Ch(s, i)) \o EscFrom(s, i + 1)
HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
Esc(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in {"&", "<", ">"} THEN EscFrom(s, 1) ELSE s
TEsc(t) == [i \in DOMAIN t |-> Esc(t[i])]

RECURSIVE ReplCh(_, _, _)
ReplCh(s, c, r) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = c THEN r ELSE Ch(s, 1)) \o ReplCh(DropN(s, 1), c, r)

(* attribute value in quotes: " unless the value contains " and no '; newline, CR, tab as entities *)
QuoteAttr(s) == LET e == ReplCh(ReplCh(ReplCh(Esc(s), "\n", "&#10;"), "\r", "&#13;"), "\t", "&#9;")
                IN IF HasCh(e, "\"") THEN IF HasCh(e, "'") THEN "\"" \o ReplCh(e, "\"", "&quot;") \o "\"" ELSE "'" \o e \o "'"
                   ELSE "\"" \o e \o "\""

(* inverse, as an HTML parser does it: used in invariants *)
RECURSIVE Unquote(_)
Unquote(s) == IF s = "" THEN "" ELSE
              LET try(p, r) == IF PrefixOf(p, s) THEN <<r \o Unquote(DropN(s, Len(p)))>> ELSE <<>>
                  q == try("&amp;", "&") \o try("&lt;", "<") \o try("&gt;", ">") \o try("&quot;", "\"")
                       \o try("&#10;", "\n") \o try("&#13;", "\r") \o try("&#9;", "\t")
              IN IF q # <<>> THEN q[1] ELSE Ch(s, 1) \o Unquote(DropN(s, 1))

---------------------------------------------------------------------------
(* Nodes *)

TextNode(t, ind) == [k |-> "T", t |-> t, tg |-> "", tk |-> "", pos |-> <<>>, kw |-> <<>>, ch |-> <<>>, out |-> FALSE, ind |-> ind]

RECURSIVE RelTo(_, _)
RelTo(n, s) == IF n.ind = <<>> THEN [n EXCEPT !.ch = [i \in DOMAIN n.ch |-> RelTo(n.ch[i], s)]]
               ELSE IF n.ind[1] = "a" THEN [n EXCEPT !.ind = <<"r", DropN(n.ind[2], Len(s))>>]
               ELSE n
RelAll(q, s) == [i \in DOMAIN q |-> RelTo(q[i], s)]

Elem(tg, tk, pos, kw, ch, s) == [k |-> "E", t |-> TEmpty, tg |-> tg, tk |-> tk, pos |-> pos, kw |-> kw,
                                 ch |-> RelAll(ch, s), out |-> FALSE, ind |-> <<"a", s>>]

SetInd(n, s) == IF n.k = "T" THEN [n EXCEPT !.ind = <<"a", s>>]
                ELSE [n EXCEPT !.ind = <<"a", s>>, !.ch = RelAll(n.ch, s)]
SetAll(q, s) == [i \in DOMAIN q |-> SetInd(q[i], s)]
Dedent(q)    == [i \in DOMAIN q |-> [q[i] EXCEPT !.ind = <<"r", "">>]]
SetOut(q, b) == IF q = <<>> THEN q ELSE [q EXCEPT ![1].out = b]

RECURSIVE Settled(_)
Settled(n) == /\ n.ind = <<>> \/ n.ind[1] = "r"
              /\ \A i \in DOMAIN n.ch : Settled(n.ch[i])

(* preorder walk, and selection by tag name *)
RECURSIVE Walk(_)
Walk(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Walk(Head(q).ch) \o Walk(Tail(q))
SelectTag(q, tg) == SelectSeq(Walk(q), LAMBDA n : n.k = "E" /\ n.tg = tg)
SelectAttr(q, a) == SelectSeq(Walk(q), LAMBDA n : \E i \in DOMAIN n.kw : n.kw[i][1] = a)

(* DOM.skip(tag): without the subtrees rooted at `tag` *)
RECURSIVE SkipTag(_, _)
SkipTag(q, tg) == LET r == SelectSeq(q, LAMBDA n : ~(n.k = "E" /\ n.tg = tg))
                  IN [i \in DOMAIN r |-> [r[i] EXCEPT !.ch = SkipTag(r[i].ch, tg)]]

(* the shape of the tree, for comparison with the real DOM: adjacent text merged *)
RECURSIVE Norm(_)
NormT(t, rest) == IF t = TEmpty THEN rest
                  ELSE IF rest # <<>> /\ Head(rest)[1] = "T" THEN <<<<"T", TCat(t, Head(rest)[2])>>>> \o Tail(rest)
                  ELSE <<<<"T", t>>>> \o rest
Norm(q) == IF q = <<>> THEN <<>>
           ELSE LET n == Head(q) rest == Norm(Tail(q))
                IN IF n.k = "T" THEN NormT(n.t, rest)
                   ELSE <<<<"E", n.tg, n.pos, n.kw, Norm(n.ch)>>>> \o rest
=============================================================================
