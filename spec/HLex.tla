-------------------------------- MODULE HLex --------------------------------
(***************************************************************************)
(* Text to expressions: how lines of text, string literals and expressions *)
(* are read, character by character.                                       *)
(*                                                                         *)
(* Other modules start from syntax trees.  Here a piece of source, a       *)
(* string, is parsed by the operators below to the trees of HExpr and then *)
(* evaluated.  The reader of a line is a transition system: each step      *)
(* consumes one piece of the line (an escape, an embedding, a run of plain *)
(* characters) and appends it to what was read.                            *)
(*                                                                         *)
(*   job    [mode, src]   mode "line": a line of text;  "expr": the right  *)
(*          side of an assignment;  "raw": a verbatim line                 *)
(*   pos    position of the next character                                 *)
(*   segs   segments read so far                                           *)
(*   st     "read", "bad" (syntax error), "done"                           *)
(***************************************************************************)
EXTENDS HExpr, Json

CONSTANTS LexFile, MaxN
In == JsonDeserialize(LexFile)     \* [toks |-> <<strings>>, pre |-> string, suf |-> string, mode |-> string, jobs |-> <<[mode, src]>>]
VARIABLES job, pos, segs, st
vars == <<job, pos, segs, st>>

---------------------------------------------------------------------------
(* Characters and names *)
CharsOf(s) == {Ch(s, k) : k \in 1..Len(s)}
LETTERS == CharsOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
DIGITS == CharsOf("0123456789")
OCTALS == CharsOf("01234567")
SPECIAL == {"$", "{", "}"}
Alpha(c) == c \in LETTERS
Digit(c) == c \in DIGITS
Alnum(c) == Alpha(c) \/ Digit(c)
RECURSIVE Ws(_, _), WordEnd(_, _), DigEnd(_, _)
Ws(s, i) == IF IsSpace(Ch(s, i)) THEN Ws(s, i + 1) ELSE i
WordEnd(s, i) == IF Alnum(Ch(s, i)) THEN WordEnd(s, i + 1) ELSE i
DigEnd(s, i) == IF Digit(Ch(s, i)) THEN DigEnd(s, i + 1) ELSE i
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)
Word(s, i) == IF Alpha(Ch(s, i)) THEN Sub(s, i, WordEnd(s, i) - 1) ELSE ""
At(s, i, w) == Sub(s, i, IF i + Len(w) - 1 > Len(s) THEN Len(s) ELSE i + Len(w) - 1) = w /\ i + Len(w) - 1 <= Len(s)
RESERVED == {"from", "import", "if", "else", "elif", "try", "for", "while", "break", "continue", "pass", "is", "in", "not", "and", "or"}

F == [ok |-> FALSE, i |-> 0, e |-> <<>>]
R(i, e) == [ok |-> TRUE, i |-> i, e |-> e]

Name(s, i) == IF Word(s, i) # "" /\ Word(s, i) \notin RESERVED THEN R(WordEnd(s, i), Word(s, i)) ELSE F

---------------------------------------------------------------------------
(* Numbers *)
RECURSIVE Dec(_), Pow10(_)
DigVal(c) == (CHOOSE k \in 1..10 : Ch("0123456789", k) = c) - 1
Dec(s) == IF s = "" THEN 0 ELSE 10 * Dec(SubSeq(s, 1, Len(s) - 1)) + DigVal(Ch(s, Len(s)))
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
FltLit(a, b) == IF Len(a) > 4 \/ Len(b) > 3 THEN <<"skip">> ELSE LET v == Float(Dec(a) * Pow10(Len(b)) + Dec(b), Pow10(Len(b))) IN IF Pow2(v[3]) THEN <<"lit", v>> ELSE <<"skip">>
Number(s, i) ==
    LET a == DigEnd(s, i)
        exp(j) == Ch(s, j) \in {"e", "E"} /\ (Digit(Ch(s, j + 1)) \/ (Ch(s, j + 1) \in {"+", "-"} /\ Digit(Ch(s, j + 2))))
    IN IF a > i THEN
          IF exp(a) THEN R(DigEnd(s, a + 2), <<"skip">>)
          ELSE IF Ch(s, a) # "." THEN R(a, IF a - i > 6 THEN <<"skip">> ELSE <<"lit", IntV(Dec(Sub(s, i, a - 1)))>>)
          ELSE LET b == DigEnd(s, a + 1) IN IF exp(b) THEN R(DigEnd(s, b + 2), <<"skip">>) ELSE R(b, FltLit(Sub(s, i, a - 1), Sub(s, a + 1, b - 1)))
       ELSE IF Ch(s, i) = "." /\ Digit(Ch(s, i + 1)) THEN LET b == DigEnd(s, i + 1) IN IF exp(b) THEN R(DigEnd(s, b + 2), <<"skip">>) ELSE R(b, FltLit("", Sub(s, i + 1, b - 1)))
       ELSE F

---------------------------------------------------------------------------
(* Characters denoted by escape sequences.  A character that can't be written in this specification is  *)
(* denoted by its code, as ~[code].                                                                     *)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeStr(n) == IF n = 10 THEN "\n" ELSE IF n = 9 THEN "\t" ELSE IF n = 13 THEN "\r" ELSE IF n >= 32 /\ n <= 126 THEN Ch(ASCII, n - 31) ELSE "~[" \o ToString(n) \o "]"
HEXD == "0123456789abcdef"
HEXU == "0123456789ABCDEF"
HexVal(c) == IF \E k \in 1..16 : Ch(HEXD, k) = c THEN (CHOOSE k \in 1..16 : Ch(HEXD, k) = c) - 1 ELSE IF \E k \in 1..16 : Ch(HEXU, k) = c THEN (CHOOSE k \in 1..16 : Ch(HEXU, k) = c) - 1 ELSE -1
RECURSIVE HexNum(_, _, _, _)
HexNum(s, i, n, acc) == IF n = 0 THEN acc ELSE IF Ch(s, i) = "" \/ HexVal(Ch(s, i)) < 0 THEN -1 ELSE HexNum(s, i + 1, n - 1, 16 * acc + HexVal(Ch(s, i)))
Oct(c) == c \in OCTALS
OctLen(s, i) == IF ~Oct(Ch(s, i)) THEN 0 ELSE IF ~Oct(Ch(s, i + 1)) THEN 1 ELSE IF ~Oct(Ch(s, i + 2)) THEN 2 ELSE 3
RECURSIVE OctNum(_, _, _, _)
OctNum(s, i, n, acc) == IF n = 0 THEN acc ELSE OctNum(s, i + 1, n - 1, 8 * acc + DigVal(Ch(s, i)))
(* a run of plain characters of a literal; "" in the second element when it has an escape sequence with no meaning *)
RECURSIVE Decode(_, _)
Decode(s, i) ==
    IF i > Len(s) THEN <<"", "ok">>
    ELSE LET c == Ch(s, i)  d == Ch(s, i + 1)
             go(t, j) == LET r == Decode(s, j) IN <<t \o r[1], r[2]>>
             hex(n) == LET v == HexNum(s, i + 2, n, 0) IN IF v < 0 THEN <<"", "skip">> ELSE go(CodeStr(v), i + 2 + n)
         IN IF c # "\\" THEN go(c, i + 1)
            ELSE CASE d = "" -> go(c, i + 1)
                   [] d = "n" -> go("\n", i + 2)
                   [] d = "t" -> go("\t", i + 2)
                   [] d = "r" -> go("\r", i + 2)
                   [] d = "a" -> go("~[7]", i + 2)
                   [] d = "b" -> go("~[8]", i + 2)
                   [] d = "f" -> go("~[12]", i + 2)
                   [] d = "v" -> go("~[11]", i + 2)
                   [] d \in {"\\", "'", "\""} -> go(d, i + 2)
                   [] d = "x" -> hex(2)
                   [] d = "u" -> hex(4)
                   [] d = "U" -> <<"", "skip">>
                   [] d = "N" -> <<"", "skip">>
                   [] Oct(d) -> LET n == OctLen(s, i + 1) IN go(CodeStr(OctNum(s, i + 1, n, 0)), i + 1 + n)
                   [] OTHER -> go(c, i + 1)

---------------------------------------------------------------------------
(* Expressions.  Operators of level n bind tighter than those of level n-1. *)
OPS == <<<<"|">>, <<"^">>, <<"&">>, <<"<<", ">>">>, <<"+", "-">>, <<"*", "//", "/", "%">>>>
RECURSIVE Expr(_, _), Augment(_, _), OrTest(_, _), AndTest(_, _), NotTest(_, _), Comparison(_, _), Concat(_, _), Pipeline(_, _), Level(_, _, _), PowExpr(_, _), Factor(_, _), Atom(_, _), Embedding(_, _),
          OrMore(_, _), AndMore(_, _), CmpMore(_, _), CatMore(_, _), PipeMore(_, _), LevelMore(_, _, _), Trailers(_, _, _), TrailersNoCall(_, _), Args(_, _, _, _), ExprList(_, _, _), DictItems(_, _, _), StrLit(_, _, _, _), TupleMore(_, _, _)

Kw(s, i, w) == Word(s, i) = w
Space(s, i) == IsSpace(Ch(s, i))

Expr(s, i) ==
    LET a == OrTest(s, i) IN
    IF ~a.ok THEN F
    ELSE LET j == Ws(s, a.i) IN
         IF j > a.i /\ At(s, j, "if") /\ Space(s, j + 2) THEN
            LET c == OrTest(s, Ws(s, j + 2)) IN
            IF ~c.ok THEN a
            ELSE LET k == Ws(s, c.i) IN
                 IF k > c.i /\ At(s, k, "else") /\ Space(s, k + 4) THEN
                    LET b == Expr(s, Ws(s, k + 4)) IN IF b.ok THEN R(b.i, <<"if", c.e, a.e, b.e>>) ELSE R(c.i, <<"if1", c.e, a.e>>)
                 ELSE R(c.i, <<"if1", c.e, a.e>>)
         ELSE a
OrTest(s, i) == LET a == AndTest(s, i) IN IF a.ok THEN OrMore(s, a) ELSE F
OrMore(s, a) == LET j == Ws(s, a.i) IN
    IF j > a.i /\ At(s, j, "or") /\ Space(s, j + 2) THEN LET b == AndTest(s, Ws(s, j + 2)) IN IF b.ok THEN OrMore(s, R(b.i, <<"or", a.e, b.e>>)) ELSE a ELSE a
AndTest(s, i) == LET a == NotTest(s, i) IN IF a.ok THEN AndMore(s, a) ELSE F
AndMore(s, a) == LET j == Ws(s, a.i) IN
    IF j > a.i /\ At(s, j, "and") /\ Space(s, j + 3) THEN LET b == NotTest(s, Ws(s, j + 3)) IN IF b.ok THEN AndMore(s, R(b.i, <<"and", a.e, b.e>>)) ELSE a ELSE a
NotTest(s, i) ==
    IF At(s, i, "not") /\ Space(s, i + 3) THEN LET a == NotTest(s, Ws(s, i + 3)) IN IF a.ok THEN R(a.i, <<"not", a.e>>) ELSE F
    ELSE Comparison(s, i)
CmpOpAt(s, i) ==
    IF \E k \in 1..4 : At(s, i, <<"==", "!=", "<>", ">=">>[k]) \/ At(s, i, "<=") THEN R(i + 2, Sub(s, i, i + 1))
    ELSE IF Ch(s, i) \in {"<", ">"} THEN R(i + 1, Ch(s, i))
    ELSE IF Kw(s, i, "not") /\ Space(s, i + 3) /\ Kw(s, Ws(s, i + 3), "in") THEN R(Ws(s, i + 3) + 2, "not in")
    ELSE IF Kw(s, i, "is") /\ Space(s, i + 2) /\ Kw(s, Ws(s, i + 2), "not") THEN R(Ws(s, i + 2) + 3, "is not")
    ELSE IF Kw(s, i, "in") \/ Kw(s, i, "is") THEN R(i + 2, Word(s, i))
    ELSE F
Comparison(s, i) == LET a == Concat(s, i) IN IF a.ok THEN CmpMore(s, a) ELSE F
CmpMore(s, a) == LET o == CmpOpAt(s, Ws(s, a.i)) IN
    IF ~o.ok THEN a
    ELSE LET b == Concat(s, Ws(s, o.i)) IN
         IF ~b.ok THEN a ELSE CmpMore(s, R(b.i, IF a.e[1] = "cmp" THEN Append(a.e, <<o.e, b.e>>) ELSE <<"cmp", a.e, <<o.e, b.e>>>>))
Concat(s, i) == LET a == Pipeline(s, i) IN IF a.ok THEN LET b == CatMore(s, R(a.i, <<a.e>>)) IN R(b.i, IF Len(b.e) = 1 THEN b.e[1] ELSE <<"cat", b.e>>) ELSE F
CatMore(s, a) == LET j == Ws(s, a.i) IN IF j = a.i THEN a ELSE LET b == Pipeline(s, j) IN IF b.ok THEN CatMore(s, R(b.i, Append(a.e, b.e))) ELSE a
Pipeline(s, i) == LET a == Level(s, i, 1) IN IF a.ok THEN PipeMore(s, a) ELSE F
PipeMore(s, a) == LET j == Ws(s, a.i) IN
    IF Ch(s, j) # ":" THEN a
    ELSE LET f == LET x == Atom(s, Ws(s, j + 1)) IN IF x.ok THEN TrailersNoCall(s, x) ELSE F IN
         IF ~f.ok THEN a
         ELSE LET c == IF Ch(s, f.i) = "(" THEN Args(s, Ws(s, f.i + 1), <<>>, <<>>) ELSE F IN
              PipeMore(s, IF c.ok THEN R(c.i, <<"pipe", a.e, f.e, c.e[1], c.e[2]>>) ELSE R(f.i, <<"pipe", a.e, f.e, <<>>, <<>>>>))
OpOf(s, i, n) == LET D == {k \in DOMAIN OPS[n] : At(s, i, OPS[n][k])} IN IF D = {} THEN F ELSE LET k == CHOOSE k \in D : \A m \in D : k <= m IN R(i + Len(OPS[n][k]), OPS[n][k])
Level(s, i, n) ==
    IF n = 7 THEN PowExpr(s, i)
    ELSE IF n = 5 THEN      \* additive operators; the first term may be negated
         LET neg == Ch(s, i) = "-"
             a == Level(s, Ws(s, IF neg THEN i + 1 ELSE i), 6)
         IN IF ~a.ok THEN F ELSE LevelMore(s, IF neg THEN R(a.i, <<"neg", a.e>>) ELSE a, 5)
    ELSE LET a == Level(s, i, n + 1) IN IF a.ok THEN LevelMore(s, a, n) ELSE F
LevelMore(s, a, n) == LET o == OpOf(s, Ws(s, a.i), n) IN
    IF ~o.ok THEN a
    ELSE LET b == Level(s, Ws(s, o.i), n + 1) IN IF b.ok THEN LevelMore(s, R(b.i, <<"bin", o.e, a.e, b.e>>), n) ELSE a
(* right-associative *)
PowExpr(s, i) == LET a == Factor(s, i) IN
    IF ~a.ok THEN F
    ELSE LET j == Ws(s, a.i) IN IF ~At(s, j, "**") THEN a ELSE LET b == PowExpr(s, Ws(s, j + 2)) IN IF b.ok THEN R(b.i, <<"bin", "**", a.e, b.e>>) ELSE a
Qual(s, a) == IF a.ok /\ Ch(s, a.i) \in {"?", "!"} THEN R(a.i + 1, <<"q", Ch(s, a.i), a.e>>) ELSE a
Factor(s, i) == LET a == Atom(s, i) IN IF a.ok THEN Qual(s, Trailers(s, a, TRUE)) ELSE F

(* tail operators: calls, indices, members *)
Slice0(s, i) ==          \* [ a : b : c ]
    LET val(j) == LET a == Level(s, Ws(s, j), 1) IN IF a.ok THEN R(Ws(s, a.i), a.e) ELSE R(Ws(s, j), <<"no">>)
        a == val(i)
    IN IF Ch(s, a.i) # ":" THEN F
       ELSE LET b == val(a.i + 1) IN
            LET c == IF Ch(s, b.i) = ":" THEN val(b.i + 1) ELSE F IN
            IF c.ok /\ Ch(s, c.i) = "]" THEN R(c.i, <<a.e, b.e, c.e>>) ELSE R(b.i, <<a.e, b.e, <<"no">>>>)
Trailer(s, a, i) ==
    CASE Ch(s, i) = "(" -> LET c == Args(s, Ws(s, i + 1), <<>>, <<>>) IN
                           IF ~c.ok THEN F
                           ELSE IF a.e[1] = "attr" THEN R(c.i, IF c.e[2] # <<>> THEN <<"skip">> ELSE <<"meth", a.e[2], a.e[3], c.e[1]>>)
                           ELSE R(c.i, <<"call", a.e, c.e[1], c.e[2]>>)
      [] Ch(s, i) = "[" -> LET c == Slice0(s, i + 1) IN
                           IF c.ok THEN (IF Ch(s, c.i) = "]" THEN R(c.i + 1, <<"slc", a.e, c.e[1], c.e[2], c.e[3]>>) ELSE F)
                           ELSE LET x == Augment(s, Ws(s, i + 1)) IN IF x.ok /\ Ch(s, Ws(s, x.i)) = "]" THEN R(Ws(s, x.i) + 1, <<"idx", a.e, x.e>>) ELSE F
      [] Ch(s, i) = "." -> LET n == Name(s, Ws(s, i + 1)) IN IF n.ok THEN R(n.i, <<"attr", a.e, n.e>>) ELSE F
      [] OTHER -> F
(* spaces before a tail operator are allowed inside { } only *)
Trailers(s, a, spaces) == LET t == Trailer(s, a, IF spaces THEN Ws(s, a.i) ELSE a.i) IN IF t.ok THEN Trailers(s, t, spaces) ELSE a
TrailersNoCall(s, a) == IF Ch(s, a.i) = "(" THEN a ELSE LET t == Trailer(s, a, a.i) IN IF t.ok THEN TrailersNoCall(s, t) ELSE a
(* arguments of a call, up to the closing bracket *)
Args(s, i, p, k) ==
    LET n == Name(s, i)
        kx == IF n.ok /\ Ch(s, Ws(s, n.i)) = "=" THEN Expr(s, Ws(s, Ws(s, n.i) + 1)) ELSE F
        isk == kx.ok
        a == IF isk THEN kx ELSE Expr(s, i)
        p2 == IF isk THEN p ELSE Append(p, IF k # <<>> THEN <<"skip">> ELSE a.e)
        k2 == IF isk THEN Append(k, <<n.e, a.e>>) ELSE k
        j == Ws(s, a.i)
    IN IF Ch(s, i) = ")" /\ p = <<>> /\ k = <<>> THEN R(i + 1, <<p, k>>)
       ELSE IF ~a.ok THEN F
       ELSE IF Ch(s, j) = ")" THEN R(j + 1, <<p2, k2>>)
       ELSE IF Ch(s, j) # "," THEN F
       ELSE IF Ch(s, Ws(s, j + 1)) = ")" THEN R(Ws(s, j + 1) + 1, <<p2, k2>>)
       ELSE Args(s, Ws(s, j + 1), p2, k2)

(* a tuple without brackets, or an expression *)
Augment(s, i) == LET a == Expr(s, i) IN
    IF ~a.ok THEN F
    ELSE IF Ch(s, Ws(s, a.i)) # "," THEN a
    ELSE LET t == TupleMore(s, Ws(s, a.i) + 1, <<a.e>>) IN R(t.i, <<"tup", t.e>>)
TupleMore(s, i, q) == LET a == Expr(s, Ws(s, i)) IN
    IF ~a.ok THEN R(i, q)
    ELSE IF Ch(s, Ws(s, a.i)) = "," THEN TupleMore(s, Ws(s, a.i) + 1, Append(q, a.e)) ELSE R(a.i, Append(q, a.e))
(* items up to a closing bracket; a trailing comma is allowed.  e = <<items, TRUE if it ended with a comma>> *)
ExprList(s, i, q) ==
    LET a == Expr(s, i) IN
    IF ~a.ok THEN R(i, <<q, TRUE>>)
    ELSE LET j == Ws(s, a.i) IN IF Ch(s, j) = "," THEN ExprList(s, Ws(s, j + 1), Append(q, a.e)) ELSE R(j, <<Append(q, a.e), FALSE>>)
DictItems(s, i, q) ==
    LET a == Level(s, i, 1)
        j == Ws(s, a.i)
        b == IF a.ok /\ Ch(s, j) = ":" THEN Expr(s, Ws(s, j + 1)) ELSE F
        k == Ws(s, b.i)
    IN IF ~b.ok THEN R(i, q) ELSE IF Ch(s, k) = "," THEN DictItems(s, Ws(s, k + 1), Append(q, <<a.e, b.e>>)) ELSE R(k, Append(q, <<a.e, b.e>>))

(* a formatted literal: from position i, after the opening quote q *)
StrLit(s, i, q, acc) ==
    LET c == Ch(s, i) IN
    IF c = "" THEN F
    ELSE IF c = q THEN R(i + 1, <<"fstr", acc>>)
    ELSE IF \E k \in 1..3 : At(s, i, <<"$$", "{{", "}}">>[k]) THEN StrLit(s, i + 2, q, Append(acc, <<"x", c>>))
    ELSE IF c \in {"{", "$"} THEN LET e == Embedding(s, i) IN IF e.ok THEN StrLit(s, e.i, q, Append(acc, <<"e", e.e>>)) ELSE F
    ELSE IF c = "}" THEN F
    ELSE LET D == {j \in i..Len(s) : Ch(s, j) \in SPECIAL \cup {q}}
             j == IF D = {} THEN Len(s) + 1 ELSE CHOOSE j \in D : \A m \in D : j <= m
             d == Decode(Sub(s, i, j - 1), 1)
         IN StrLit(s, j, q, Append(acc, IF d[2] = "skip" \/ (Ch(s, j) = q /\ Ch(s, j - 1) = "\\" /\ d[1] # "" /\ Ch(d[1], Len(d[1])) = "\\") THEN <<"e", <<"skip">>>> ELSE <<"x", d[1]>>))
RawEnd(s, i, q) == LET D == {j \in i..Len(s) : Ch(s, j) = q} IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A m \in D : j <= m
Quote(c) == c \in {"'", "\""}

Atom(s, i) ==
    LET c == Ch(s, i) n == Number(s, i) w == Word(s, i) IN
    IF n.ok THEN n
    ELSE IF Quote(c) THEN StrLit(s, i + 1, c, <<>>)
    ELSE IF c = "r" /\ Quote(Ch(s, i + 1)) /\ RawEnd(s, i + 2, Ch(s, i + 1)) > 0 THEN LET j == RawEnd(s, i + 2, Ch(s, i + 1)) IN R(j + 1, <<"lit", Str(Sub(s, i + 2, j - 1))>>)
    ELSE IF w \in {"True", "False"} THEN R(WordEnd(s, i), <<"lit", Bool(w = "True")>>)
    ELSE IF w = "None" THEN R(WordEnd(s, i), <<"lit", None>>)
    ELSE IF c = "%" THEN LET v == Name(s, i + 1) IN IF v.ok THEN R(v.i, <<"skip">>) ELSE F
    ELSE IF c = "$" THEN LET v == Name(s, i + 1) IN IF v.ok THEN R(v.i, <<"var", v.e>>) ELSE F
    ELSE IF w # "" THEN LET v == Name(s, i) IN IF v.ok THEN R(v.i, <<"var", v.e>>) ELSE F
    ELSE IF c = "(" THEN
        LET a == Expr(s, Ws(s, i + 1)) IN
        IF a.ok /\ Ch(s, Ws(s, a.i)) = ")" THEN R(Ws(s, a.i) + 1, IF a.e[1] = "cmp" THEN <<"par", a.e>> ELSE a.e)
        ELSE LET t == ExprList(s, Ws(s, i + 1), <<>>) IN
             IF ~t.ok \/ Ch(s, t.i) # ")" THEN F ELSE IF t.e[1] = <<>> \/ t.e[2] \/ Len(t.e[1]) > 1 THEN R(t.i + 1, <<"tup", t.e[1]>>) ELSE F
    ELSE IF c = "[" THEN LET t == ExprList(s, Ws(s, i + 1), <<>>) IN IF t.ok /\ Ch(s, t.i) = "]" THEN R(t.i + 1, <<"list", t.e[1]>>) ELSE F
    ELSE IF c = "{" THEN
        LET d == DictItems(s, Ws(s, i + 1), <<>>) IN
        IF Ch(s, d.i) = "}" THEN R(d.i + 1, <<"dict", d.e>>)
        ELSE LET t == ExprList(s, Ws(s, i + 1), <<>>) IN IF t.ok /\ t.e[1] # <<>> /\ Ch(s, t.i) = "}" THEN R(t.i + 1, <<"skip">>) ELSE F    \* a set
    ELSE F

(* { expression } or $ and the longest chain of tail operators *)
Embedding(s, i) ==
    IF Ch(s, i) = "{" THEN LET a == Augment(s, Ws(s, i + 1)) IN IF a.ok /\ Ch(s, Ws(s, a.i)) = "}" THEN Qual(s, R(Ws(s, a.i) + 1, a.e)) ELSE F
    ELSE IF Ch(s, i) = "$" THEN LET v == Name(s, i + 1) IN IF v.ok THEN Qual(s, Trailers(s, R(v.i, <<"var", v.e>>), FALSE)) ELSE F
    ELSE F

---------------------------------------------------------------------------
(* Meaning of what was read: the trees above in terms of HExpr; "skip" marks what isn't modelled *)
RECURSIVE Mean(_), Skips(_)
MeanSeq(q) == [i \in DOMAIN q |-> Mean(q[i])]
Mean(e) ==
    CASE e[1] = "par" -> Mean(e[2])
      [] e[1] = "fstr" -> <<"fstr", [i \in DOMAIN e[2] |-> IF e[2][i][1] = "x" THEN <<"e", <<"lit", Str(e[2][i][2])>>>> ELSE <<"e", Mean(e[2][i][2])>>]>>
      [] e[1] = "call" -> <<"call", Mean(e[2]), MeanSeq(e[3]), [i \in DOMAIN e[4] |-> <<e[4][i][1], Mean(e[4][i][2])>>]>>
      [] e[1] = "pipe" -> <<"pipe", Mean(e[2]), Mean(e[3]), MeanSeq(e[4]), [i \in DOMAIN e[5] |-> <<e[5][i][1], Mean(e[5][i][2])>>]>>
      [] e[1] = "bin" -> <<"bin", e[2], Mean(e[3]), Mean(e[4])>>
      [] e[1] \in {"neg", "not"} -> <<e[1], Mean(e[2])>>
      [] e[1] \in {"and", "or", "idx", "if1"} -> <<e[1], Mean(e[2]), Mean(e[3])>>
      [] e[1] = "if" -> <<"if", Mean(e[2]), Mean(e[3]), Mean(e[4])>>
      [] e[1] = "cmp" -> <<"cmp", Mean(e[2])>> \o [i \in 1..Len(e) - 2 |-> <<e[i + 2][1], Mean(e[i + 2][2])>>]
      [] e[1] \in {"list", "tup", "cat"} -> <<e[1], MeanSeq(e[2])>>
      [] e[1] = "dict" -> <<"dict", [i \in DOMAIN e[2] |-> <<Mean(e[2][i][1]), Mean(e[2][i][2])>>]>>
      [] e[1] = "slc" -> <<"slc", Mean(e[2]), Mean(e[3]), Mean(e[4]), Mean(e[5])>>
      [] e[1] = "meth" -> <<"meth", Mean(e[2]), e[3], MeanSeq(e[4])>>
      [] e[1] = "q" -> <<"q", e[2], Mean(e[3])>>
      [] OTHER -> e
AnySkip(q) == \E i \in DOMAIN q : Skips(q[i])
Skips(e) ==
    CASE e[1] \in {"skip", "attr"} -> TRUE
      [] e[1] = "par" -> Skips(e[2])
      [] e[1] = "fstr" -> \E i \in DOMAIN e[2] : e[2][i][1] = "e" /\ Skips(e[2][i][2])
      [] e[1] = "call" -> Skips(e[2]) \/ AnySkip(e[3]) \/ (\E i \in DOMAIN e[4] : Skips(e[4][i][2])) \/ \E i, j \in DOMAIN e[4] : i # j /\ e[4][i][1] = e[4][j][1]
      [] e[1] = "pipe" -> Skips(e[2]) \/ Skips(e[3]) \/ AnySkip(e[4]) \/ \E i \in DOMAIN e[5] : Skips(e[5][i][2])
      [] e[1] = "bin" -> Skips(e[3]) \/ Skips(e[4])
      [] e[1] \in {"neg", "not"} -> Skips(e[2])
      [] e[1] \in {"and", "or", "idx", "if1"} -> Skips(e[2]) \/ Skips(e[3])
      [] e[1] = "if" -> Skips(e[2]) \/ Skips(e[3]) \/ Skips(e[4])
      [] e[1] = "cmp" -> Skips(e[2]) \/ \E i \in 3..Len(e) : Skips(e[i][2])
      [] e[1] \in {"list", "tup", "cat"} -> AnySkip(e[2])
      [] e[1] = "dict" -> \E i \in DOMAIN e[2] : Skips(e[2][i][1]) \/ Skips(e[2][i][2])
      [] e[1] = "slc" -> Skips(e[2]) \/ Skips(e[3]) \/ Skips(e[4]) \/ Skips(e[5])
      [] e[1] = "meth" -> Skips(e[2]) \/ AnySkip(e[4]) \/ e[3] \notin {"upper", "lower", "startswith", "join", "zz"}
      [] e[1] = "q" -> Skips(e[3])
      [] OTHER -> FALSE

Env == [x |-> Str("aB"), y |-> <<"l", <<IntV(5), Str("q"), <<"l", <<IntV(0)>>>>>>>>, z |-> Str(""), n |-> None, k |-> IntV(3), note |-> IntV(2), Trueish |-> Str("tr"), iffy |-> IntV(1), d |-> <<"d", <<<<Str("k"), Str("v")>>, <<IntV(0), IntV(9)>>>>>>]

---------------------------------------------------------------------------
Src == job.src
RECURSIVE TokJoin(_)
TokJoin(q) == IF q = <<>> THEN "" ELSE In.toks[Head(q)] \o TokJoin(Tail(q))

Init == /\ \/ In.jobs # <<>> /\ \E j \in DOMAIN In.jobs : job = In.jobs[j]
           \/ In.toks # <<>> /\ \E n \in 1..MaxN : \E q \in [1..n -> DOMAIN In.toks] : job = [mode |-> In.mode, src |-> In.pre \o TokJoin(q) \o In.suf]
        /\ pos = 1 /\ segs = <<>> /\ st = "read"
PlainEnd(i) == LET D == {j \in i..Len(Src) : Ch(Src, j) \in SPECIAL} IN IF D = {} THEN Len(Src) + 1 ELSE CHOOSE j \in D : \A m \in D : j <= m
ReadEsc  == /\ \E k \in 1..3 : At(Src, pos, <<"$$", "{{", "}}">>[k])
            /\ segs' = Append(segs, <<"x", Ch(Src, pos), Sub(Src, pos, pos + 1)>>) /\ pos' = pos + 2 /\ UNCHANGED st
ReadEmb  == /\ ~\E k \in 1..3 : At(Src, pos, <<"$$", "{{", "}}">>[k])
            /\ Ch(Src, pos) \in SPECIAL
            /\ LET e == Embedding(Src, pos) IN IF e.ok THEN segs' = Append(segs, <<"e", e.e, Sub(Src, pos, e.i - 1)>>) /\ pos' = e.i /\ UNCHANGED st ELSE st' = "bad" /\ UNCHANGED <<segs, pos>>
ReadText == /\ pos <= Len(Src) /\ Ch(Src, pos) \notin SPECIAL
            /\ segs' = Append(segs, <<"x", Sub(Src, pos, PlainEnd(pos) - 1), Sub(Src, pos, PlainEnd(pos) - 1)>>) /\ pos' = PlainEnd(pos) /\ UNCHANGED st
Line == job.mode = "line" /\ st = "read" /\ pos <= Len(Src) /\ (ReadEsc \/ ReadEmb \/ ReadText)
Verb == job.mode = "raw" /\ st = "read" /\ pos <= Len(Src) /\ segs' = <<<<"x", Src, Src>>>> /\ pos' = Len(Src) + 1 /\ UNCHANGED st
(* an expression must take the whole source *)
Whole == /\ job.mode = "expr" /\ st = "read" /\ pos = 1
         /\ LET a == Augment(Src, Ws(Src, 1))
                b == IF a.ok /\ Ws(Src, a.i) = Len(Src) + 1 THEN a ELSE LET m == Embedding(Src, Ws(Src, 1)) IN IF m.ok THEN m ELSE F
            IN IF b.ok /\ Ws(Src, b.i) = Len(Src) + 1 THEN segs' = <<<<"e", b.e, Src>>>> /\ pos' = Len(Src) + 1 /\ UNCHANGED st ELSE st' = "bad" /\ UNCHANGED <<segs, pos>>
Finish == st = "read" /\ pos = Len(Src) + 1 /\ (job.mode # "expr" \/ segs # <<>>) /\ st' = "done" /\ UNCHANGED <<pos, segs>>
Next == (Line \/ Verb \/ Whole \/ Finish) /\ UNCHANGED job
Spec == Init /\ [][Next]_vars

Skipped == \E i \in DOMAIN segs : segs[i][1] = "e" /\ Skips(segs[i][2])
Unknown(e) == \E i \in DOMAIN Vars(e) : Vars(e)[i] \notin DOMAIN Env
Result ==
    IF st = "bad" THEN [er |-> "Syntax", v |-> None]
    ELSE IF Skipped THEN [er |-> "SKIP", v |-> None]
    ELSE IF \E i \in DOMAIN segs : segs[i][1] = "e" /\ Unknown(Mean(segs[i][2])) THEN [er |-> "Name", v |-> None]
    ELSE IF job.mode = "expr" THEN LET r == Eval(Mean(segs[1][2]), Env, <<>>) IN [er |-> r.er, v |-> r.v]
    ELSE LET r == Eval(Mean(<<"fstr", segs>>), Env, <<>>) IN [er |-> r.er, v |-> r.v]
Emit == st \in {"bad", "done"} => LET r == Result IN PrintT("@" \o ToJson([m |-> job.mode, s |-> Src, er |-> r.er, v |-> r.v]))

(* Properties *)
(* plain text has no special characters *)
Plain == \A i \in DOMAIN segs : segs[i][1] = "x" => ~(Len(segs[i][2]) > 1 /\ \E k \in 1..Len(segs[i][2]) : Ch(segs[i][2], k) \in SPECIAL) \/ job.mode = "raw"
(* the pieces put together are the part of the source that was read: nothing is lost or read twice *)
Faithful == StrJoin([i \in DOMAIN segs |-> segs[i][3]], "") = Sub(Src, 1, pos - 1)
(* what is read at $ is the longest chain: no longer piece of the source is a chain *)
StartOf(i) == 1 + Len(StrJoin([k \in 1..i - 1 |-> segs[k][3]], ""))
Longest == st = "done" => \A i \in DOMAIN segs : (segs[i][1] = "e" /\ job.mode = "line" /\ Ch(segs[i][3], 1) = "$") =>
             \A j \in StartOf(i) + Len(segs[i][3])..Len(Src) : LET q == Sub(Src, StartOf(i), j) e == Embedding(q, 1) IN ~(e.ok /\ e.i = Len(q) + 1)
Advances == [][pos' > pos \/ st' # st]_vars
(* text with no special characters denotes itself; one with doubled characters the single ones *)
Literal == (st = "done" /\ job.mode = "line" /\ ~\E i \in DOMAIN segs : segs[i][1] = "e") => Result.v = Str(Unesc(Src))
=============================================================================
