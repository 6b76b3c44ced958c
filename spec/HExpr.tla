------------------------------- MODULE HExpr -------------------------------
(***************************************************************************)
(* Values and expressions.                                                 *)
(*                                                                         *)
(* Values:  <<"i",n>> int, <<"b",bool>>, <<"f",p,q>> float p/q, <<"s",str>>,*)
(*   <<"n">> None, <<"l",seq>> list, <<"t",seq>> tuple, <<"d",pairs>> dict,*)
(*   <<"it",items>> one-shot iterator, <<"fn",name>> function, <<"dom",nodes>>, <<"node",node>>.             *)
(* Expressions are tuples, the first element says the kind: see Eval.      *)
(* Evaluation returns [v, er, lg]: a value, the class of the exception     *)
(* raised ("" if none) and the log of calls to probe functions.            *)
(* er = "SKIP" marks arithmetic outside of the modelled domain.            *)
(***************************************************************************)
EXTENDS HText

None == <<"n">>
IntV(n) == <<"i", n>>
Str(s) == <<"s", s>>
Bool(b) == <<"b", b>>
BIG == 1000000

Ok(v, lg) == [v |-> v, er |-> "", lg |-> lg]
Er(er, lg) == [v |-> None, er |-> er, lg |-> lg]

IsNum(v) == v[1] \in {"i", "b", "f"}
IsInt(v) == v[1] \in {"i", "b"}
IntOf(v) == IF v[1] = "b" THEN IF v[2] THEN 1 ELSE 0 ELSE v[2]
NumP(v) == IF v[1] = "f" THEN v[2] ELSE IntOf(v)
NumQ(v) == IF v[1] = "f" THEN v[3] ELSE 1

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Pow2(_)
Pow2(q) == q = 1 \/ (q % 2 = 0 /\ Pow2(q \div 2))
Float(p, q) == LET s == IF q < 0 THEN -1 ELSE 1 g == Gcd(Abs(p), Abs(q)) IN <<"f", (s * p) \div g, (s * q) \div g>>
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)

RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
RECURSIVE BitAnd(_, _), BitOr(_, _), BitXor(_, _)
Bit2(a) == a % 2
Half(a) == (a - (a % 2)) \div 2
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
                ELSE (IF Bit2(a) = 1 /\ Bit2(b) = 1 THEN 1 ELSE 0) + 2 * BitAnd(Half(a), Half(b))
BitOr(a, b)  == -1 - BitAnd(-1 - a, -1 - b)
BitXor(a, b) == BitOr(a, b) - BitAnd(a, b)

RECURSIVE PyEq(_, _)
PyEqSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : PyEq(a[i], b[i])
PyEq(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumP(a) * NumQ(b) = NumP(b) * NumQ(a)
              ELSE IF a[1] # b[1] THEN FALSE
              ELSE IF a[1] \in {"l", "t"} THEN PyEqSeq(a[2], b[2])
              ELSE IF a[1] = "n" THEN TRUE
              ELSE IF a[1] = "set" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : \E j \in DOMAIN b[2] : PyEq(a[2][i], b[2][j])
              ELSE IF a[1] = "d" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] :
                                        \E j \in DOMAIN b[2] : PyEq(a[2][i][1], b[2][j][1]) /\ PyEq(a[2][i][2], b[2][j][2])
              ELSE a[2] = b[2]

Truth(v) == CASE v[1] = "n" -> FALSE
              [] v[1] = "b" -> v[2]
              [] v[1] \in {"i", "f"} -> v[2] # 0
              [] v[1] = "s" -> v[2] # ""
              [] v[1] \in {"l", "t", "d", "dom", "set"} -> v[2] # <<>>
              [] v[1] = "view" -> v[3] # <<>>
              [] OTHER -> TRUE

RECURSIVE Hashable(_)
Hashable(v) == v[1] \in {"i", "b", "s", "n", "f", "fn", "dom", "node", "o"} \/ (v[1] = "t" /\ \A i \in DOMAIN v[2] : Hashable(v[2][i]))

CHARS == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == CHOOSE i \in 1..Len(CHARS) : Ch(CHARS, i) = c
RECURSIVE StrLt(_, _)
StrLt(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
               ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLt(DropN(a, 1), DropN(b, 1)) ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))

(* a < b as <<ok, result>> *)
RECURSIVE PyLt(_, _)
PyLt(a, b) ==
    IF IsNum(a) /\ IsNum(b) THEN <<TRUE, NumP(a) * NumQ(b) < NumP(b) * NumQ(a)>>
    ELSE IF a[1] = "s" /\ b[1] = "s" THEN <<TRUE, StrLt(a[2], b[2])>>
    ELSE IF a[1] = b[1] /\ a[1] \in {"l", "t"} THEN
        LET m == IF Len(a[2]) < Len(b[2]) THEN Len(a[2]) ELSE Len(b[2])
            D == {i \in 1..m : ~PyEq(a[2][i], b[2][i])}
        IN IF D = {} THEN <<TRUE, Len(a[2]) < Len(b[2])>>
           ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN PyLt(a[2][i], b[2][i])
    ELSE <<FALSE, FALSE>>

RECURSIVE StrIn(_, _)
StrIn(a, b) == PrefixOf(a, b) \/ (b # "" /\ StrIn(a, DropN(b, 1)))

(* str() and repr(); floats only when the fraction is a multiple of 1/2 *)
RECURSIVE Repr(_)
RECURSIVE FracDigits(_, _)
FracDigits(r, q) == IF r = 0 THEN "" ELSE ToString((10 * r) \div q) \o FracDigits((10 * r) % q, q)
StrFloat(v) == LET p == Abs(v[2]) q == v[3] IN
               (IF v[2] < 0 THEN "-" ELSE "") \o ToString(p \div q) \o "." \o (IF p % q = 0 THEN "0" ELSE FracDigits(p % q, q))
RECURSIVE ReprChars(_, _)
ReprChars(s, q) == IF s = "" THEN "" ELSE LET c == Ch(s, 1) IN
                   (IF c = q \/ c = "\\" THEN "\\" \o c ELSE IF c = "\n" THEN "\\n" ELSE IF c = "\t" THEN "\\t" ELSE IF c = "\r" THEN "\\r" ELSE c)
                   \o ReprChars(DropN(s, 1), q)
ReprStr(s) == LET q == IF HasCh(s, "'") /\ ~HasCh(s, "\"") THEN "\"" ELSE "'" IN q \o ReprChars(s, q) \o q
Repr(v) == CASE v[1] = "n" -> "None"
             [] v[1] = "b" -> IF v[2] THEN "True" ELSE "False"
             [] v[1] = "i" -> ToString(v[2])
             [] v[1] = "f" -> StrFloat(v)
             [] v[1] = "s" -> ReprStr(v[2])
             [] v[1] = "l" -> "[" \o StrJoin([i \in DOMAIN v[2] |-> Repr(v[2][i])], ", ") \o "]"
             [] v[1] = "t" -> IF Len(v[2]) = 1 THEN "(" \o Repr(v[2][1]) \o ",)"
                              ELSE "(" \o StrJoin([i \in DOMAIN v[2] |-> Repr(v[2][i])], ", ") \o ")"
             [] v[1] = "d" -> "{" \o StrJoin([i \in DOMAIN v[2] |-> Repr(v[2][i][1]) \o ": " \o Repr(v[2][i][2])], ", ") \o "}"
             [] v[1] = "set" -> IF Len(v[2]) = 1 THEN "{" \o Repr(v[2][1]) \o "}" ELSE "?"       \* elements have no order
             [] v[1] = "o" -> "<" \o v[2] \o ">"
             [] v[1] = "view" -> "dict_" \o v[2] \o "([" \o StrJoin([i \in DOMAIN v[3] |-> Repr(v[3][i])], ", ") \o "])"
             [] OTHER -> "?"
PyStr(v) == IF v[1] = "s" THEN v[2] ELSE Repr(v)

RECURSIVE Repeat(_, _)
Repeat(q, n) == IF n <= 0 THEN <<>> ELSE q \o Repeat(q, n - 1)

Num(a, b, p, q, lg) == IF Abs(p) > BIG \/ Abs(q) > BIG THEN Er("SKIP", lg)
                       ELSE IF a[1] = "f" \/ b[1] = "f" THEN LET r == Float(p, q) IN IF r[3] > 1024 THEN Er("SKIP", lg) ELSE Ok(r, lg)
                       ELSE Ok(IntV(p), lg)

RECURSIVE DictOf(_)
DictOf(q) == IF q = <<>> THEN <<>>
             ELSE LET d == DictOf(SubSeq(q, 1, Len(q) - 1))
                      l == q[Len(q)]
                      D == {i \in DOMAIN d : PyEq(d[i][1], l[1])}
                  IN IF D = {} THEN Append(d, l) ELSE [d EXCEPT ![CHOOSE i \in D : TRUE][2] = l[2]]

(* sets; the elements of a result are those of the operands *)
SetIn(x, s) == \E i \in DOMAIN s[2] : PyEq(x, s[2][i])
SubsetOf(a, b) == \A i \in DOMAIN a[2] : SetIn(a[2][i], b)
SetOp(op, a, b) == LET I(x) == SetIn(x, b)  J(x) == ~SetIn(x, b)  K(x) == ~SetIn(x, a) IN
                   <<"set", CASE op = "&" -> SelectSeq(a[2], I) [] op = "-" -> SelectSeq(a[2], J) [] op = "|" -> a[2] \o SelectSeq(b[2], K)
                              [] op = "^" -> SelectSeq(a[2], J) \o SelectSeq(b[2], K)>>

BinOp(op, a, b, lg) ==
    LET nn == IsNum(a) /\ IsNum(b)
        ii == IsInt(a) /\ IsInt(b)
        bb == a[1] = "b" /\ b[1] = "b"
        T  == Er("TypeError", lg)
        B(n) == IF bb THEN Ok(Bool(n = 1), lg) ELSE Ok(IntV(n), lg)
    IN
    CASE a[1] = "set" /\ b[1] = "set" /\ op \in {"-", "&", "|", "^"} -> Ok(SetOp(op, a, b), lg)
      [] a[1] = "d" /\ b[1] = "d" /\ op = "|" -> Ok(<<"d", DictOf(a[2] \o b[2])>>, lg)
      [] op = "+" -> IF nn THEN Num(a, b, NumP(a) * NumQ(b) + NumP(b) * NumQ(a), NumQ(a) * NumQ(b), lg)
                     ELSE IF a[1] = b[1] /\ a[1] \in {"s", "l", "t"} THEN Ok(<<a[1], a[2] \o b[2]>>, lg) ELSE T
      [] op = "-" -> IF nn THEN Num(a, b, NumP(a) * NumQ(b) - NumP(b) * NumQ(a), NumQ(a) * NumQ(b), lg) ELSE T
      [] op = "*" -> IF nn THEN Num(a, b, NumP(a) * NumP(b), NumQ(a) * NumQ(b), lg)
                     ELSE IF a[1] \in {"s", "l", "t"} /\ IsInt(b) THEN
                          (IF IntOf(b) > 9 THEN Er("SKIP", lg) ELSE IF a[1] = "s" THEN Ok(Str(Rep(a[2], IntOf(b))), lg) ELSE Ok(<<a[1], Repeat(a[2], IntOf(b))>>, lg))
                     ELSE IF b[1] \in {"s", "l", "t"} /\ IsInt(a) THEN
                          (IF IntOf(a) > 9 THEN Er("SKIP", lg) ELSE IF b[1] = "s" THEN Ok(Str(Rep(b[2], IntOf(a))), lg) ELSE Ok(<<b[1], Repeat(b[2], IntOf(a))>>, lg))
                     ELSE T
      [] op = "/" -> IF ~nn THEN T ELSE IF NumP(b) = 0 THEN Er("ZeroDivisionError", lg)
                     ELSE LET r == Float(NumP(a) * NumQ(b), NumQ(a) * NumP(b)) IN IF r[3] <= 1024 /\ Pow2(r[3]) THEN Ok(r, lg) ELSE Er("SKIP", lg)
      [] op \in {"//", "%"} ->
                     IF a[1] = "s" /\ op = "%" THEN Er("SKIP", lg)
                     ELSE IF ~nn THEN T ELSE IF NumP(b) = 0 THEN Er("ZeroDivisionError", lg)
                     ELSE LET x == NumP(a) * NumQ(b)  y == NumP(b) * NumQ(a)  d == NumQ(a) * NumQ(b) IN
                          IF op = "//" THEN (IF a[1] = "f" \/ b[1] = "f" THEN Ok(Float(FloorDiv(x, y), 1), lg) ELSE Ok(IntV(FloorDiv(x, y)), lg))
                          ELSE Num(a, b, FloorMod(x, y), d, lg)
      [] op = "**" -> IF ~nn THEN T ELSE IF ~IsInt(b) \/ Abs(IntOf(b)) > 5 \/ Abs(NumP(a)) > 9 \/ NumQ(a) > 8 THEN Er("SKIP", lg)
                      ELSE LET n == IntOf(b) IN
                           IF n >= 0 THEN Num(a, b, IPow(NumP(a), n), IPow(NumQ(a), n), lg)
                           ELSE IF NumP(a) = 0 THEN Er("ZeroDivisionError", lg)
                           ELSE LET r == Float(IPow(NumQ(a), -n), IPow(NumP(a), -n)) IN IF r[3] <= 1024 /\ Pow2(r[3]) THEN Ok(r, lg) ELSE Er("SKIP", lg)
      [] op \in {"<<", ">>"} -> IF ~ii THEN T ELSE IF IntOf(b) < 0 THEN Er("ValueError0", lg)
                      ELSE IF IntOf(b) > 9 \/ Abs(IntOf(a)) > 1000 THEN Er("SKIP", lg)
                      ELSE Ok(IntV(IF op = "<<" THEN IntOf(a) * IPow(2, IntOf(b)) ELSE IntOf(a) \div IPow(2, IntOf(b))), lg)
      [] op = "&" -> IF ii THEN B(BitAnd(IntOf(a), IntOf(b))) ELSE T
      [] op = "|" -> IF ii THEN B(BitOr(IntOf(a), IntOf(b))) ELSE T
      [] op = "^" -> IF ii THEN B(BitXor(IntOf(a), IntOf(b))) ELSE T

Single(v) == v[1] \in {"n", "b"}
CmpOp(op, a, b, lg) ==
    LET lt == PyLt(a, b)  gt == PyLt(b, a)  T == Er("TypeError", lg)
        isin == IF b[1] = "s" THEN IF a[1] = "s" THEN Ok(Bool(StrIn(a[2], b[2])), lg) ELSE T
                ELSE IF b[1] \in {"l", "t"} THEN Ok(Bool(\E i \in DOMAIN b[2] : PyEq(a, b[2][i])), lg)
                ELSE IF b[1] = "set" THEN (IF a[1] = "set" THEN Ok(Bool(FALSE), lg) ELSE IF ~Hashable(a) THEN T ELSE Ok(Bool(\E i \in DOMAIN b[2] : PyEq(a, b[2][i])), lg))
                ELSE IF b[1] = "view" THEN (IF b[2] = "keys" /\ ~Hashable(a) THEN T ELSE Ok(Bool(\E i \in DOMAIN b[3] : PyEq(a, b[3][i])), lg))
                ELSE IF b[1] = "d" THEN (IF ~Hashable(a) THEN T ELSE Ok(Bool(\E i \in DOMAIN b[2] : PyEq(a, b[2][i][1])), lg))
                ELSE T
        same == IF Single(a) \/ Single(b) THEN Ok(Bool(a[1] = b[1] /\ PyEq(a, b)), lg) ELSE Er("SKIP", lg)
        Neg(r) == IF r.er # "" THEN r ELSE Ok(Bool(~r.v[2]), r.lg)
    IN CASE a[1] = "set" /\ b[1] = "set" /\ op \in {"<", "<=", ">", ">="} ->
              Ok(Bool(CASE op = "<=" -> SubsetOf(a, b) [] op = ">=" -> SubsetOf(b, a) [] op = "<" -> SubsetOf(a, b) /\ ~SubsetOf(b, a) [] op = ">" -> SubsetOf(b, a) /\ ~SubsetOf(a, b)), lg)
         [] op = "==" -> Ok(Bool(PyEq(a, b)), lg)
         [] op \in {"!=", "<>"} -> Ok(Bool(~PyEq(a, b)), lg)
         [] op = "<" -> IF lt[1] THEN Ok(Bool(lt[2]), lg) ELSE T
         [] op = ">" -> IF gt[1] THEN Ok(Bool(gt[2]), lg) ELSE T
         [] op = "<=" -> IF ~gt[1] THEN T ELSE Ok(Bool(~gt[2]), lg)
         [] op = ">=" -> IF ~lt[1] THEN T ELSE Ok(Bool(~lt[2]), lg)
         [] op = "in" -> isin
         [] op = "not in" -> Neg(isin)
         [] op = "is" -> same
         [] op = "is not" -> Neg(same)

(* elements of an iterable value; <<FALSE>> when not iterable *)
Items(v) == CASE v[1] \in {"l", "t", "it", "set"} -> <<TRUE, v[2]>>
              [] v[1] = "s" -> <<TRUE, [i \in 1..Len(v[2]) |-> Str(Ch(v[2], i))]>>
              [] v[1] = "d" -> <<TRUE, [i \in DOMAIN v[2] |-> v[2][i][1]]>>
              [] v[1] = "view" -> <<TRUE, v[3]>>
              [] v[1] = "dom" -> <<TRUE, [i \in DOMAIN v[2] |-> <<"node", v[2][i]>>]>>
              [] OTHER -> <<FALSE, <<>>>>

ElemAt(v, i) == IF v[1] = "s" THEN Str(Ch(v[2], i)) ELSE IF v[1] = "dom" THEN <<"node", v[2][i]>> ELSE v[2][i]
Index(a, b, lg) ==
    CASE a[1] \in {"s", "l", "t", "dom"} /\ IsInt(b) ->
            LET n == IF IntOf(b) < 0 THEN IntOf(b) + Len(a[2]) ELSE IntOf(b)
            IN IF n < 0 \/ n >= Len(a[2]) THEN Er("IndexError", lg) ELSE Ok(ElemAt(a, n + 1), lg)
      [] a[1] = "dom" /\ b[1] = "s" -> Ok(<<"dom", SelectTag(a[2], b[2])>>, lg)
      [] a[1] = "d" -> IF ~Hashable(b) THEN Er("TypeError", lg)
                       ELSE LET D == {i \in DOMAIN a[2] : PyEq(a[2][i][1], b)}
                            IN IF D = {} THEN Er("KeyError", lg) ELSE Ok(a[2][CHOOSE i \in D : \A j \in D : j <= i][2], lg)
      [] OTHER -> Er("TypeError", lg)

(* seq[i:j:k], with <<"n">> for an omitted item *)
RECURSIVE SlicePos(_, _, _)
SlicePos(i, j, k) == IF (k > 0 /\ i >= j) \/ (k < 0 /\ i <= j) THEN <<>> ELSE <<i>> \o SlicePos(i + k, j, k)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Slice(a, i, j, k, lg) ==
    IF ~(a[1] \in {"s", "l", "t", "dom"}) THEN Er("TypeError", lg)
    ELSE IF \E x \in {i, j, k} : ~(x[1] \in {"n", "i", "b"}) THEN Er("TypeError", lg)
    ELSE LET n == Len(a[2])
             s == IF k[1] = "n" THEN 1 ELSE IntOf(k)
             norm(x, dflt) == IF x[1] = "n" THEN dflt
                              ELSE LET y == IF IntOf(x) < 0 THEN IntOf(x) + n ELSE IntOf(x)
                                   IN IF s > 0 THEN Clip(y, 0, n) ELSE Clip(y, -1, n - 1)
         IN IF s = 0 THEN Er("ValueError0", lg)
            ELSE LET p == IF s > 0 THEN SlicePos(norm(i, 0), norm(j, n), s) ELSE SlicePos(norm(i, n - 1), norm(j, -1), s)
                 IN IF a[1] = "s" THEN Ok(Str(StrJoin([x \in DOMAIN p |-> Ch(a[2], p[x] + 1)], "")), lg)
                    ELSE Ok(<<a[1], [x \in DOMAIN p |-> a[2][p[x] + 1]]>>, lg)

RECURSIVE UpStr(_), LowStr(_)
UPS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWS == "abcdefghijklmnopqrstuvwxyz"
MapCh(c, from, to) == IF \E i \in 1..26 : Ch(from, i) = c THEN Ch(to, CHOOSE i \in 1..26 : Ch(from, i) = c) ELSE c
UpStr(s) == IF s = "" THEN "" ELSE MapCh(Ch(s, 1), LOWS, UPS) \o UpStr(DropN(s, 1))
LowStr(s) == IF s = "" THEN "" ELSE MapCh(Ch(s, 1), UPS, LOWS) \o LowStr(DropN(s, 1))

(* Functions that can be called.  P, boom, kbd and tick are the probes passed in the context:    *)
(* P(id, v) returns v, boom raises an Exception, kbd an exception that is not an Exception,      *)
(* tick(id, n) is true the first n times it's called; f3(a, b='B', c='C') returns "a-b-c".       *)
KwGet(kw, name) == LET D == {i \in DOMAIN kw : kw[i][1] = name} IN IF D = {} THEN <<>> ELSE <<kw[CHOOSE i \in D : TRUE][2]>>
Count(lg, ev) == Len(SelectSeq(lg, LAMBDA x : x = ev))
RangeInt(a, b) == IF a >= b THEN <<>> ELSE [i \in 1..b - a |-> IntV(a + i - 1)]

Call(f, args, kw, lg) ==
    LET n == Len(args) T == Er("TypeError", lg) IN
    IF f[1] # "fn" THEN T ELSE
    CASE f[2] = "P" -> IF n # 2 \/ kw # <<>> THEN T ELSE Ok(args[2], Append(lg, <<"P", args[1][2], args[2]>>))
      [] f[2] \in {"boom", "kbd"} /\ (n # 1 \/ kw # <<>>) -> T
      [] f[2] = "tick" /\ (n # 2 \/ kw # <<>>) -> T
      [] f[2] = "boom" -> Er("Boom", Append(lg, <<"boom", args[1][2]>>))
      [] f[2] = "kbd" -> Er("Kbd", Append(lg, <<"kbd", args[1][2]>>))
      [] f[2] = "tick" -> LET e == <<"tick", args[1][2]>> IN Ok(Bool(Count(lg, e) < args[2][2]), Append(lg, e))
      [] f[2] = "f3" -> LET ps == <<"a", "b", "c">>
                            bad == n > 3 \/ \E i \in DOMAIN kw : ~(\E j \in 1..3 : ps[j] = kw[i][1] /\ j > n)
                            val(j) == IF j <= n THEN args[j] ELSE LET g == KwGet(kw, ps[j]) IN IF g # <<>> THEN g[1] ELSE Str(IF j = 2 THEN "B" ELSE "C")
                        IN IF bad \/ (n = 0 /\ KwGet(kw, "a") = <<>>) THEN T
                           ELSE Ok(Str(PyStr(val(1)) \o "-" \o PyStr(val(2)) \o "-" \o PyStr(val(3))), Append(lg, <<"f3">>))
      [] f[2] = "len" -> IF n # 1 \/ kw # <<>> THEN T ELSE IF args[1][1] \in {"s", "l", "t", "d", "dom", "set"} THEN Ok(IntV(Len(args[1][2])), lg)
                          ELSE IF args[1][1] = "view" THEN Ok(IntV(Len(args[1][3])), lg) ELSE T
      [] f[2] = "lazy" -> IF n = 1 /\ kw = <<>> /\ Items(args[1])[1] THEN Ok(<<"it", Items(args[1])[2]>>, lg) ELSE T    \* a generator; used once only
      [] f[2] = "str" -> IF n # 1 THEN Er("SKIP", lg) ELSE Ok(Str(PyStr(args[1])), lg)
      [] f[2] \in {"pull", "bad"} ->       \* generators that log every element taken from them, before it is used; "bad" fails at its end
            IF n = 2 /\ kw = <<>> /\ Items(args[2])[1] THEN Ok(<<"it", Items(args[2])[2], args[1][2], f[2] = "bad">>, lg) ELSE T
      [] f[2] = "list" -> IF n = 0 THEN Ok(<<"l", <<>>>>, lg) ELSE IF n = 1 /\ Items(args[1])[1] THEN Ok(<<"l", Items(args[1])[2]>>, lg) ELSE T
      [] f[2] = "range" -> IF n = 1 /\ IsInt(args[1]) THEN Ok(<<"l", RangeInt(0, IntOf(args[1]))>>, lg)
                           ELSE IF n = 2 /\ IsInt(args[1]) /\ IsInt(args[2]) THEN Ok(<<"l", RangeInt(IntOf(args[1]), IntOf(args[2]))>>, lg) ELSE T
      [] f[2] = "upper" -> IF n = 1 /\ kw = <<>> /\ args[1][1] = "s" THEN Ok(Str(UpStr(args[1][2])), lg) ELSE IF n = 1 THEN Er("AttributeError", lg) ELSE T
      [] f[2] = "lower" -> IF n = 1 /\ kw = <<>> /\ args[1][1] = "s" THEN Ok(Str(LowStr(args[1][2])), lg) ELSE IF n = 1 THEN Er("AttributeError", lg) ELSE T
      [] OTHER -> T
(* mutable objects of the caller *)
CONSTS == [ob |-> <<"o", "ob">>, mut |-> <<"l", <<<<"i", 1>>, <<"l", <<<<"i", 2>>>>>>>>>>, mud |-> <<"d", <<<<<<"s", "k">>, <<"l", <<<<"i", 3>>>>>>>>>>>>]
FUNS == {"ob", "mut", "mud", "P", "boom", "kbd", "tick", "f3", "lazy", "pull", "bad", "len", "str", "list", "range", "upper", "lower"}

(* members of the caller's objects; p and bad are computed when they are read *)
Member(v, name, lg) ==
    IF v = <<"o", "ob">> THEN
         CASE name = "a" -> Ok(Str("A<"), lg) [] name = "n" -> Ok(IntV(3), lg) [] name = "k" -> Ok(<<"l", <<IntV(1), <<"t", <<Str("u"), None>>>>>>>>, lg) [] name = "z" -> Ok(None, lg)
           [] name = "sub" -> Ok(<<"o", "sub">>, lg) [] name \in {"P", "f3"} -> Ok(<<"fn", name>>, lg)
           [] name = "p" -> Ok(IntV(7), Append(lg, <<"P", 52, IntV(7)>>)) [] name = "bad" -> Er("Boom", Append(lg, <<"boom", 51>>)) [] OTHER -> Er("AttributeError", lg)
    ELSE IF v = <<"o", "sub">> THEN CASE name = "a" -> Ok(Str("s"), lg) [] name = "up" -> Ok(<<"o", "ob">>, lg) [] OTHER -> Er("AttributeError", lg)
    ELSE Er("AttributeError", lg)

HasMeth(v, name) == name \in CASE v[1] = "s" -> {"upper", "lower", "startswith", "endswith", "join", "strip", "replace", "split", "count", "find"} [] v[1] = "l" -> {"index", "count", "copy"} [] v[1] = "t" -> {"index", "count"}
                                [] v[1] = "d" -> {"get", "keys", "values", "items"} [] v = <<"o", "ob">> -> {"m"} [] OTHER -> {}
RECURSIVE StripL(_), StripR(_), Repl(_, _, _), FindStr(_, _, _)
StripL(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t", "\n"} THEN StripL(DropN(s, 1)) ELSE s
StripR(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t", "\n"} THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* pieces of s between the occurrences of a, which is not empty *)
Repl(s, a, i) == IF i + Len(a) - 1 > Len(s) THEN <<s>>
                 ELSE IF SubSeq(s, i, i + Len(a) - 1) = a THEN <<SubSeq(s, 1, i - 1)>> \o Repl(DropN(s, i + Len(a) - 1), a, 1)
                 ELSE Repl(s, a, i + 1)
FindStr(s, a, i) == IF i + Len(a) - 1 > Len(s) THEN -1 ELSE IF SubSeq(s, i, i + Len(a) - 1) = a THEN i - 1 ELSE FindStr(s, a, i + 1)
SeqMeth(v, name, args, lg) ==
    LET D == {i \in DOMAIN v[2] : PyEq(v[2][i], args[1])} IN
    IF name = "copy" THEN IF args = <<>> THEN Ok(v, lg) ELSE Er("TypeError", lg)
    ELSE IF Len(args) # 1 THEN Er("TypeError", lg)
    ELSE IF name = "count" THEN Ok(IntV(Len(SelectSeq(v[2], LAMBDA x : PyEq(x, args[1])))), lg)
    ELSE IF D = {} THEN Er("ValueError0", lg) ELSE Ok(IntV((CHOOSE i \in D : \A j \in D : i <= j) - 1), lg)
DictMeth(v, name, args, lg) ==
    IF name = "get" THEN IF Len(args) \notin {1, 2} \/ ~Hashable(args[1]) THEN Er("TypeError", lg)
                         ELSE LET r == Index(v, args[1], lg) IN IF r.er = "" THEN r ELSE Ok(IF Len(args) = 2 THEN args[2] ELSE None, lg)
    ELSE IF args # <<>> THEN Er("TypeError", lg)
    ELSE Ok(<<"view", name, [i \in DOMAIN v[2] |-> CASE name = "keys" -> v[2][i][1] [] name = "values" -> v[2][i][2] [] OTHER -> <<"t", v[2][i]>>]>>, lg)
Meth(v, name, args, lg) ==
    IF ~HasMeth(v, name) THEN Er("AttributeError", lg)
    ELSE IF v[1] = "o" THEN IF Len(args) = 1 THEN Ok(args[1], Append(lg, <<"P", 50, args[1]>>)) ELSE Er("TypeError", lg)
    ELSE IF v[1] \in {"l", "t"} THEN SeqMeth(v, name, args, lg)
    ELSE IF v[1] = "d" THEN DictMeth(v, name, args, lg)
    ELSE CASE name = "strip" -> IF args = <<>> THEN Ok(Str(StripL(StripR(v[2]))), lg) ELSE Er("SKIP", lg)
           [] name = "replace" -> IF Len(args) # 2 \/ \E i \in DOMAIN args : args[i][1] # "s" THEN Er("TypeError", lg) ELSE IF args[1][2] = "" THEN Er("SKIP", lg) ELSE Ok(Str(StrJoin(Repl(v[2], args[1][2], 1), args[2][2])), lg)
           [] name = "split" -> IF Len(args) # 1 \/ args[1] = None THEN Er("SKIP", lg) ELSE IF args[1][1] # "s" THEN Er("TypeError", lg) ELSE IF args[1][2] = "" THEN Er("ValueError0", lg)
                                ELSE LET q == Repl(v[2], args[1][2], 1) IN Ok(<<"l", [i \in DOMAIN q |-> Str(q[i])]>>, lg)
           [] name = "count" -> IF Len(args) # 1 \/ args[1][1] # "s" THEN Er("TypeError", lg) ELSE IF args[1][2] = "" THEN Er("SKIP", lg) ELSE Ok(IntV(Len(Repl(v[2], args[1][2], 1)) - 1), lg)
           [] name = "find" -> IF Len(args) # 1 \/ args[1][1] # "s" THEN Er("TypeError", lg) ELSE Ok(IntV(FindStr(v[2], args[1][2], 1)), lg)
           [] name = "endswith" -> IF Len(args) = 1 /\ args[1][1] = "s" THEN Ok(Bool(Len(args[1][2]) <= Len(v[2]) /\ DropN(v[2], Len(v[2]) - Len(args[1][2])) = args[1][2]), lg) ELSE Er("TypeError", lg)
           [] name = "upper" -> IF args = <<>> THEN Ok(Str(UpStr(v[2])), lg) ELSE Er("TypeError", lg)
           [] name = "lower" -> IF args = <<>> THEN Ok(Str(LowStr(v[2])), lg) ELSE Er("TypeError", lg)
           [] name = "startswith" -> IF Len(args) = 1 /\ args[1][1] = "s" THEN Ok(Bool(PrefixOf(args[1][2], v[2])), lg) ELSE Er("TypeError", lg)
           [] name = "join" -> IF Len(args) # 1 \/ ~Items(args[1])[1] THEN Er("TypeError", lg)
                               ELSE LET q == Items(args[1])[2] IN
                                    IF \E i \in DOMAIN q : q[i][1] # "s" THEN Er("TypeError", lg)
                                    ELSE Ok(Str(StrJoin([i \in DOMAIN q |-> q[i][2]], v[2])), lg)
           [] OTHER -> Er("AttributeError", lg)

Qualify(q, r) == IF q = "" THEN r
                 ELSE IF r.er # "" THEN IF q = "?" /\ r.er # "Kbd" THEN Ok(Str(""), r.lg) ELSE r
                 ELSE IF Truth(r.v) THEN r
                 ELSE IF q = "?" THEN Ok(Str(""), r.lg) ELSE Er("FalseValue", r.lg)

(* Literal text of formatted strings and of text blocks: {{ }} $$ stand for single characters. *)
RECURSIVE Unesc(_)
Unesc(s) == IF s = "" THEN ""
            ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) \in {"{{", "}}", "$$"} THEN Ch(s, 1) \o Unesc(DropN(s, 2))
            ELSE Ch(s, 1) \o Unesc(DropN(s, 1))

(* a dict display: an equal key keeps its place and takes the last value *)
(***************************************************************************)
(* Eval(e, en, lg): `en` maps names to values, <<"unb">> when unbound.     *)
(*  <<"lit",v>>  <<"var",x>>  <<"call",f,args,kw>>  <<"pipe",e,f,args,kw>> *)
(*  <<"bin",op,a,b>> <<"neg",a>> <<"cmp",a,<<op,b>>,...>> <<"not",a>>      *)
(*  <<"and",a,b>> <<"or",a,b>> <<"if",c,a,b>> <<"if1",c,a>>                *)
(*  <<"list",es>> <<"tup",es>> <<"set",es>> <<"calm",f,args in order>> <<"dict",<<k,v>>s>> <<"idx",a,i>>           *)
(*  <<"slc",a,i,j,k>> (<<"no">> for omitted) <<"meth",a,name,args>>        *)
(*  <<"cat",es>> <<"q",qual,e>> <<"fstr",segs>>                            *)
(***************************************************************************)
RECURSIVE Eval(_, _, _), EvalSeq(_, _, _), EvalKw(_, _, _), EvalCmp(_, _, _, _, _), EvalCat(_, _, _), EvalSegs(_, _, _, _)

Eval(e, en, lg) ==
    CASE e[1] = "lit" -> Ok(e[2], lg)
      [] e[1] = "var" -> IF e[2] \in DOMAIN en THEN (IF en[e[2]][1] = "unb" THEN Er("Unbound", lg) ELSE Ok(en[e[2]], lg))
                         ELSE IF e[2] \in DOMAIN CONSTS THEN Ok(CONSTS[e[2]], lg) ELSE IF e[2] \in FUNS THEN Ok(<<"fn", e[2]>>, lg) ELSE Er("Name", lg)
      [] e[1] = "call" -> LET f == Eval(e[2], en, lg) IN IF f.er # "" THEN f ELSE
                          LET a == EvalSeq(e[3], en, f.lg) IN IF a.er # "" THEN Er(a.er, a.lg) ELSE
                          LET k == EvalKw(e[4], en, a.lg) IN IF k.er # "" THEN Er(k.er, k.lg) ELSE Call(f.v, a.v, k.v, k.lg)
      (* arguments in any order: they are evaluated as they are written *)
      [] e[1] = "calm" -> LET f == Eval(e[2], en, lg) IN IF f.er # "" THEN f ELSE
                          LET a == EvalSeq([i \in DOMAIN e[3] |-> e[3][i][2]], en, f.lg) IN IF a.er # "" THEN Er(a.er, a.lg) ELSE
                          LET q == [i \in DOMAIN e[3] |-> <<e[3][i][1], a.v[i]>>]
                              ps == SelectSeq(q, LAMBDA x : x[1] = "")
                          IN Call(f.v, [i \in DOMAIN ps |-> ps[i][2]], SelectSeq(q, LAMBDA x : x[1] # ""), a.lg)
      [] e[1] = "pipe" -> LET x == Eval(e[2], en, lg) IN IF x.er # "" THEN x ELSE
                          LET f == Eval(e[3], en, x.lg) IN IF f.er # "" THEN f ELSE
                          LET a == EvalSeq(e[4], en, f.lg) IN IF a.er # "" THEN Er(a.er, a.lg) ELSE
                          LET k == EvalKw(e[5], en, a.lg) IN IF k.er # "" THEN Er(k.er, k.lg) ELSE Call(f.v, <<x.v>> \o a.v, k.v, k.lg)
      [] e[1] = "bin" -> LET a == Eval(e[3], en, lg) IN IF a.er # "" THEN a ELSE
                         LET b == Eval(e[4], en, a.lg) IN IF b.er # "" THEN b ELSE BinOp(e[2], a.v, b.v, b.lg)
      [] e[1] = "neg" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a
                         ELSE IF a.v[1] = "n" THEN Er("SKIP", a.lg)
                         ELSE IF ~IsNum(a.v) THEN Er("TypeError", a.lg)
                         ELSE Ok(IF a.v[1] = "f" THEN <<"f", -a.v[2], a.v[3]>> ELSE IntV(-IntOf(a.v)), a.lg)
      [] e[1] = "cmp" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a ELSE EvalCmp(a.v, e, 3, en, a.lg)
      [] e[1] = "not" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a ELSE Ok(Bool(~Truth(a.v)), a.lg)
      [] e[1] = "and" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" \/ ~Truth(a.v) THEN a ELSE Eval(e[3], en, a.lg)
      [] e[1] = "or"  -> LET a == Eval(e[2], en, lg) IN IF a.er # "" \/ Truth(a.v) THEN a ELSE Eval(e[3], en, a.lg)
      [] e[1] = "if"  -> LET c == Eval(e[2], en, lg) IN IF c.er # "" THEN c ELSE IF Truth(c.v) THEN Eval(e[3], en, c.lg) ELSE Eval(e[4], en, c.lg)
      [] e[1] = "if1" -> LET c == Eval(e[2], en, lg) IN IF c.er # "" THEN c ELSE IF Truth(c.v) THEN Eval(e[3], en, c.lg) ELSE Ok(Str(""), c.lg)
      [] e[1] \in {"list", "tup"} -> LET a == EvalSeq(e[2], en, lg) IN IF a.er # "" THEN Er(a.er, a.lg) ELSE Ok(<<IF e[1] = "list" THEN "l" ELSE "t", a.v>>, a.lg)
      [] e[1] = "set" -> LET a == EvalSeq(e[2], en, lg) IN
                         IF a.er # "" THEN Er(a.er, a.lg)
                         ELSE IF \E i \in DOMAIN a.v : ~Hashable(a.v[i]) THEN Er("TypeError", a.lg)
                         ELSE LET d == DictOf([i \in DOMAIN a.v |-> <<a.v[i], None>>]) IN Ok(<<"set", [i \in DOMAIN d |-> d[i][1]]>>, a.lg)
      [] e[1] = "dict" -> LET a == EvalSeq(CatAll([i \in DOMAIN e[2] |-> e[2][i]]), en, lg) IN
                          IF a.er # "" THEN Er(a.er, a.lg)
                          ELSE IF \E i \in DOMAIN e[2] : ~Hashable(a.v[2 * i - 1]) THEN Er("TypeError", a.lg)
                          ELSE Ok(<<"d", DictOf([i \in DOMAIN e[2] |-> <<a.v[2 * i - 1], a.v[2 * i]>>])>>, a.lg)
      [] e[1] = "idx" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a ELSE
                         LET b == Eval(e[3], en, a.lg) IN IF b.er # "" THEN b ELSE Index(a.v, b.v, b.lg)
      [] e[1] = "slc" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a ELSE
                         LET b == EvalSeq(<<e[3], e[4], e[5]>>, en, a.lg) IN IF b.er # "" THEN Er(b.er, b.lg) ELSE Slice(a.v, b.v[1], b.v[2], b.v[3], b.lg)
      [] e[1] = "no" -> Ok(None, lg)
      [] e[1] = "meth" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a
                          ELSE IF ~HasMeth(a.v, e[3]) THEN Er("AttributeError", a.lg)
                          ELSE LET b == EvalSeq(e[4], en, a.lg) IN IF b.er # "" THEN Er(b.er, b.lg) ELSE Meth(a.v, e[3], b.v, b.lg)
      [] e[1] = "mem" -> LET a == Eval(e[2], en, lg) IN IF a.er # "" THEN a ELSE Member(a.v, e[3], a.lg)
      [] e[1] = "cat" -> EvalCat(e[2], en, lg)
      [] e[1] = "q" -> Qualify(e[2], Eval(e[3], en, lg))
      [] e[1] = "fstr" -> LET r == EvalSegs(e[2], en, lg, 1) IN IF r.er # "" THEN Er(r.er, r.lg) ELSE Ok(Str(StrJoin(r.v, "")), r.lg)

(* several expressions, left to right: v is the sequence of values *)
EvalSeq(es, en, lg) ==
    IF es = <<>> THEN [v |-> <<>>, er |-> "", lg |-> lg]
    ELSE LET a == Eval(Head(es), en, lg) IN
         IF a.er # "" THEN [v |-> <<>>, er |-> a.er, lg |-> a.lg]
         ELSE LET r == EvalSeq(Tail(es), en, a.lg) IN [r EXCEPT !.v = <<a.v>> \o @]
EvalKw(kw, en, lg) ==
    LET r == EvalSeq([i \in DOMAIN kw |-> kw[i][2]], en, lg)
    IN IF r.er # "" THEN r ELSE [r EXCEPT !.v = [i \in DOMAIN kw |-> <<kw[i][1], r.v[i]>>]]

(* a op1 b op2 c: a op1 b and b op2 c, each operand evaluated at most once *)
EvalCmp(left, e, i, en, lg) ==
    LET b == Eval(e[i][2], en, lg) IN IF b.er # "" THEN b ELSE
    LET r == CmpOp(e[i][1], left, b.v, b.lg) IN
    IF r.er # "" \/ ~Truth(r.v) \/ i = Len(e) THEN r ELSE EvalCmp(b.v, e, i + 1, en, r.lg)

EvalCat(es, en, lg) ==
    IF es = <<>> THEN Ok(Str(""), lg)
    ELSE LET a == Eval(Head(es), en, lg) IN
         IF a.er # "" THEN a ELSE IF a.v[1] = "n" THEN Er("NoneString", a.lg)
         ELSE LET r == EvalCat(Tail(es), en, a.lg) IN IF r.er # "" THEN r ELSE Ok(Str(PyStr(a.v) \o r.v[2]), r.lg)

(* Segments of a line of text: <<"t", source>> literal, <<"e", expr, form>> embedded (form: syntax only; *)
(* the qualifier of a whole embedding is an explicit <<"q",..>>).  v: sequence of strings.               *)
EvalSegs(sg, en, lg, i) ==
    IF i > Len(sg) THEN [v |-> <<>>, er |-> "", lg |-> lg]
    ELSE IF sg[i][1] = "t" THEN LET r == EvalSegs(sg, en, lg, i + 1) IN [r EXCEPT !.v = <<Unesc(sg[i][2])>> \o @]
    ELSE LET a == Eval(sg[i][2], en, lg) IN
         IF a.er # "" THEN [v |-> <<>>, er |-> a.er, lg |-> a.lg]
         ELSE IF a.v[1] = "n" THEN [v |-> <<>>, er |-> "NoneString", lg |-> a.lg]
         ELSE LET r == EvalSegs(sg, en, a.lg, i + 1) IN [r EXCEPT !.v = <<PyStr(a.v)>> \o @]

---------------------------------------------------------------------------
(* names read by an expression, in order of evaluation/analysis *)
RECURSIVE Vars(_), VarsSeq(_), SegVars(_)
VarsSeq(es) == IF es = <<>> THEN <<>> ELSE Vars(Head(es)) \o VarsSeq(Tail(es))
SegVars(sg) == IF sg = <<>> THEN <<>> ELSE (IF Head(sg)[1] = "e" THEN Vars(Head(sg)[2]) ELSE <<>>) \o SegVars(Tail(sg))
KwExprs(kw) == [i \in DOMAIN kw |-> kw[i][2]]
Vars(e) ==
    CASE e[1] = "var" -> IF e[2] \in FUNS THEN <<>> ELSE <<e[2]>>
      [] e[1] = "call" -> Vars(e[2]) \o VarsSeq(e[3]) \o VarsSeq(KwExprs(e[4]))
      [] e[1] = "calm" -> Vars(e[2]) \o VarsSeq(KwExprs(e[3]))
      [] e[1] = "pipe" -> Vars(e[2]) \o Vars(e[3]) \o VarsSeq(e[4]) \o VarsSeq(KwExprs(e[5]))
      [] e[1] = "bin" -> Vars(e[3]) \o Vars(e[4])
      [] e[1] \in {"neg", "not", "mem"} -> Vars(e[2])
      [] e[1] = "cmp" -> Vars(e[2]) \o VarsSeq([i \in 1..Len(e) - 2 |-> e[i + 2][2]])
      [] e[1] \in {"and", "or", "idx"} -> Vars(e[2]) \o Vars(e[3])
      [] e[1] = "if" -> Vars(e[3]) \o Vars(e[2]) \o Vars(e[4])
      [] e[1] = "if1" -> Vars(e[3]) \o Vars(e[2])
      [] e[1] \in {"list", "tup", "cat", "set"} -> VarsSeq(e[2])
      [] e[1] = "dict" -> VarsSeq(CatAll(e[2]))
      [] e[1] = "slc" -> Vars(e[2]) \o Vars(e[3]) \o Vars(e[4]) \o Vars(e[5])
      [] e[1] = "meth" -> Vars(e[2]) \o VarsSeq(e[4])
      [] e[1] = "q" -> Vars(e[3])
      [] e[1] = "fstr" -> SegVars(e[2])
      [] OTHER -> <<>>
=============================================================================
