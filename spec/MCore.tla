------------------------------- MODULE MCore -------------------------------
(***************************************************************************)
(* Exhaustive exploration: builds every program of at most MaxN lines over *)
(* an alphabet of lines, runs the abstract machine of HCore on it and      *)
(* prints the expected outcome for replay in the real code.                *)
(***************************************************************************)
EXTENDS HCore, Json

CONSTANTS AlphaFile, MaxN, MaxD

A == JsonDeserialize(AlphaFile)    \* [lines, units, pre: lines that start every program, suf: lines appended at the end, mind: minimum depth]

CanHold(l) == /\ l.k \in {"tag", "def", "if", "elif", "else", "for", "while", "try"}
              /\ l.q => l.k = "tag"
              /\ l.a.hd.k \in (IF l.k \in {"tag", "def"} THEN {"-", "head"} ELSE {"-"})

(* the clause that a clause in depth d appended to p would continue; 0 if none *)
Sibling(p, d) == LET D == {j \in 1..Len(p) : p[j].d <= d} IN
                 IF D = {} THEN 0 ELSE LET j == CHOOSE j \in D : \A x \in D : x <= j IN IF p[j].d = d THEN j ELSE 0
GroupHead(p, j) == LET f[i \in 0..j] == IF i = 0 THEN 0 ELSE IF p[i].d = p[j].d /\ p[i].k \notin {"elif", "else"} THEN i ELSE f[i - 1] IN f[j]
FitsClause(p, l, d) ==
    LET j == Sibling(p, d) IN
    /\ j # 0 /\ ~p[j].q
    /\ p[j].k \in {"if", "elif", "for", "while", "try", "else"}
    /\ IF l.k = "elif" THEN p[j].k \in {"if", "elif"}
       ELSE IF p[j].k = "else" THEN p[GroupHead(p, j)].k = "try" ELSE TRUE
UnitsFor(p, d) ==   \* indentation strings a line in depth d may have
    IF d = 0 THEN {""}
    ELSE LET r == CHOOSE j \in 1..Len(p) : p[j].d = d - 1 /\ \A x \in j + 1..Len(p) : p[x].d >= d
             S == {j \in r + 1..Len(p) : p[j].d = d}
         IN IF S # {} THEN {p[CHOOSE j \in S : TRUE].ind} ELSE {p[r].ind \o A.units[u] : u \in DOMAIN A.units}
Depths(p) == IF p = <<>> THEN {0} ELSE 0..(IF CanHold(Top(p)) THEN Top(p).d + 1 ELSE Top(p).d)
Fits(p, l, d) ==
    /\ d <= MaxD /\ d >= A.mind
    /\ l.k \in {"elif", "else"} => FitsClause(p, l, d) /\ l.mod = "" /\ l.m = 0
Placed(l, d, s) == [l EXCEPT !.d = d, !.ind = s]

Bound == MaxN + Len(A.pre) + Len(A.suf)
Build == /\ ph = "build" /\ Len(prog) < MaxN + Len(A.pre)
         /\ \E n \in DOMAIN A.lines, d \in Depths(prog) :
               /\ Fits(prog, A.lines[n], d)
               /\ \E s \in UnitsFor(prog, d) : prog' = Append(prog, Placed(A.lines[n], d, s))
         /\ UNCHANGED <<ph, ctl, env, lg, ret, res>>
(* a program is complete when it has been closed with the fixed last lines *)
Seal == /\ ph = "build" /\ Len(prog) > Len(A.pre)
        /\ prog' = prog \o A.suf /\ ph' = "check"
        /\ UNCHANGED <<ctl, env, lg, ret, res>>

Init == /\ ph = "build" /\ prog = A.pre /\ ctl = <<>> /\ env = <<>> /\ lg = <<>> /\ ret = NoRet
        /\ res = [er |-> "", ln |-> 0, rl |-> 0, t |-> TEmpty, tree |-> <<>>, sym |-> <<>>]
Run == ph \in {"check", "run"} /\ Step
Next == Build \/ Seal \/ Run
Spec == Init /\ [][Next]_vars

Expected == [er |-> res.er, ln |-> res.ln, t |-> res.t, tree |-> res.tree, sym |-> res.sym, lg |-> lg, rl |-> res.rl]
Emit == ph = "done" /\ res.er # "SKIP" => PrintT("@" \o ToJson([prog |-> prog, exp |-> Expected, tn |-> TN]))
(* every program comes to an end: nothing but "done" is stuck *)
NotStuck == ph \in {"check", "run"} => ENABLED Step
=============================================================================
