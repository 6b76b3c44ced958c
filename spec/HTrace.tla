------------------------------- MODULE HTrace -------------------------------
(***************************************************************************)
(* Validation of recorded executions: every record of TraceFile holds a    *)
(* program and what the real code did with it (calls made to the outside,  *)
(* in order; outcome).  The machine of HCore is run along the record:      *)
(* after every step the calls made so far must be a prefix of the recorded *)
(* ones, and the final outcome must be the recorded one.  The verdict is   *)
(* total: it names the first clause that fails.                            *)
(***************************************************************************)
EXTENDS HCore, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES n, verdict
tvars == <<vars, n, verdict>>
Obs == Traces[n].obs

RECURSIVE Kinds(_)
(* nodes and DOMs passed to the outside are compared by kind only *)
Kinds(v) == CASE v[1] \in {"dom", "node", "it"} -> <<v[1]>>
              [] v[1] \in {"l", "t"} -> <<v[1], [i \in DOMAIN v[2] |-> Kinds(v[2][i])]>>
              [] v[1] = "d" -> <<"d", [i \in DOMAIN v[2] |-> <<Kinds(v[2][i][1]), Kinds(v[2][i][2])>>]>>
              [] OTHER -> v
Vals(q) == [i \in DOMAIN q |-> Kinds(q[i])]
KwKinds(kw) == [i \in DOMAIN kw |-> <<kw[i][1], Kinds(kw[i][2])>>]
Event(e) == CASE e[1] \in {"P", "pull"} -> <<e[1], e[2], Kinds(e[3])>>
              [] e[1] \in {"X", "F", "G"} -> <<e[1], e[2], Vals(e[3]), KwKinds(e[4])>>
              [] OTHER -> e
RECURSIVE NormTree(_)
NormTree(q) == [i \in DOMAIN q |-> IF q[i][1] = "T" THEN q[i] ELSE <<"E", q[i][2], Vals(q[i][3]), KwKinds(q[i][4]), NormTree(q[i][5])>>]

Vals2(log) == [i \in DOMAIN log |-> Event(log[i])]
LogFits(log) == Len(log) <= Len(Obs.lg) /\ \A i \in 1..Len(log) : Event(log[i]) = Obs.lg[i]
SymFits(sym) == /\ DOMAIN sym = {Obs.sym[i][1] : i \in DOMAIN Obs.sym}
                /\ \A i \in DOMAIN Obs.sym : Kinds(sym[Obs.sym[i][1]]) = Obs.sym[i][2]
Judge(r, log) ==
    IF r.er = "SKIP" THEN "skip"
    ELSE IF r.er = "" /\ Obs.cls # <<>> THEN "error"
    ELSE IF r.er # "" /\ r.er \notin Range(Obs.cls) THEN "error"
    ELSE IF r.er # "" /\ r.ln # 0 /\ r.ln # Obs.ln THEN "line"
    ELSE IF Len(log) # Len(Obs.lg) \/ ~LogFits(log) THEN "log"
    ELSE IF r.er # "" THEN "ok"
    \* the same document rendered once more: the same calls once more
    ELSE IF Len(Obs.lg2) > 0 /\ Obs.lg2[1] # Vals2(SubSeq(log, r.rl + 1, Len(log))) THEN "again"
    ELSE IF r.t # Obs.t THEN "text"
    ELSE IF NormTree(r.tree) # Obs.tree THEN "tree"
    ELSE IF ~SymFits(r.sym) THEN "symbol"
    ELSE "ok"

TraceInit == /\ n \in 1..Len(Traces) /\ verdict = ""
             /\ prog = Traces[n].prog /\ ph = "check" /\ ctl = <<>> /\ env = <<>> /\ lg = <<>> /\ ret = NoRet
             /\ res = [er |-> "", ln |-> 0, rl |-> 0, t |-> TEmpty, tree |-> <<>>, sym |-> <<>>]
(* a step of the machine that is consistent with the recorded calls *)
TraceStep == /\ verdict = "" /\ ph # "done" /\ Step /\ UNCHANGED n
             /\ verdict' = IF ph' = "done" THEN Judge(res', lg')
                           ELSE IF Len(lg') > Len(lg) /\ ~LogFits(lg') /\ ret'.er # "SKIP" THEN "log" ELSE ""
TraceSpec == TraceInit /\ [][TraceStep]_tvars
Verdict == verdict # "" => PrintT("@" \o ToJson([n |-> Traces[n].n, v |-> verdict, exp |-> IF verdict \in {"ok", "skip"} THEN <<>> ELSE <<res, lg>>]))
=============================================================================
