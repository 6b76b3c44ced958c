-------------------------------- MODULE HConc --------------------------------
(***************************************************************************)
(* Threads rendering scripts with one runtime.                             *)
(*                                                                         *)
(* A world has scripts (flattened to lines) and threads; each thread       *)
(* renders one script once.  The threads share the runtime: the built-in   *)
(* symbols (loaded on first use), the cache of imported scripts and the    *)
(* imported scripts themselves, with the values their tags are expanded    *)
(* with.  Rendering consists of small steps; some of them are behind a     *)
(* gate, a point where the replay can stop a thread: the start, loading    *)
(* each of the built-in modules, the lookup of each imported script, each  *)
(* executed line.                                                          *)
(*                                                                         *)
(* Mode "sched":  a thread runs from a gate to its next gate undisturbed;  *)
(*                all schedules with at most MaxSwitch preemptions are     *)
(*                enumerated and printed, for replay                       *)
(* Mode "free":   all interleavings of all steps                           *)
(* Mode "trace":  is there an interleaving that passes the gates in the    *)
(*                order that was recorded from the real code, giving the   *)
(*                same results?                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS WorldFile, TraceFile, Mode, MaxSwitch
Worlds == ndJsonDeserialize(WorldFile)          \* [scripts: name -> lines, threads: names of scripts, warm: BOOLEAN]
Traces == IF Mode = "trace" THEN ndJsonDeserialize(TraceFile) ELSE <<>>      \* [n, w, order: numbers of threads, out: lines per thread, er: per thread]

VARIABLES w, tr,      \* world, trace (0 if none)
          th,         \* threads
          bi,         \* are the built-in symbols of the runtime loaded?
          cache,      \* script -> its instance, 0 if not loaded
          insts,      \* finished executions of imported scripts, oldest first
          cur,        \* thread that's running between gates, 0 if all are at gates
          sch, sw     \* order in which threads passed the gates; number of preemptions
vars == <<w, tr, th, bi, cache, insts, cur, sch, sw>>

W == Worlds[w]
N == Len(W.threads)
Lines(s) == W.scripts[s]
Names == DOMAIN W.scripts
Range(q) == {q[i] : i \in DOMAIN q}
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

---------------------------------------------------------------------------
(* Scripts.  [k |-> "imp", m, items]  [k |-> "set", n, e]  [k |-> "out", e]  [k |-> "def", n, ps, b]  *)
(* [k |-> "tag", n, a, b]: a tag with attributes and a body;  [k |-> "for", n, q, b]: q is a sequence  *)
(* of strings;  [k |-> "body"]: the actual body of a tag;  [k |-> "boom"]: fails;  [k |-> "mk", at]: an *)
(* element p with attributes at, a sequence of <<name, expression>>, and no body; [k |-> "ctx"]: the   *)
(* variable cx is passed by the caller of render().  Variable __file__ is the name of the script's file, *)
(* which is given by the caller, too.                                                                    *)
RECURSIVE Flat(_)
Flat1(l) == CASE l.k = "for" -> Cat([i \in DOMAIN l.q |-> <<[k |-> "bind", n |-> l.n, v |-> l.q[i]]>> \o Flat(l.b)])
              [] l.k = "tag" -> <<[k |-> "push"]>> \o Flat(l.b) \o <<[k |-> "apply", n |-> l.n, a |-> l.a]>>
              [] l.k = "mk" -> <<[k |-> "push"]>> \o [i \in DOMAIN l.at |-> [k |-> "at", n |-> l.at[i][1], e |-> l.at[i][2]]] \o <<[k |-> "elem"]>>
              [] OTHER -> <<l>>
Attr(n, v) == " " \o n \o "=\"" \o v \o "\""
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE Head(q) \o Glue(Tail(q))
Elem(q) == "<p" \o Glue(q) \o "></p>"
Flat(q) == Cat([i \in DOMAIN q |-> Flat1(q[i])])

RECURSIVE Val(_, _)
Val(e, env) == CASE e[1] = "c" -> e[2] [] e[1] = "v" -> env[e[2]] [] OTHER -> Val(e[2], env) \o Val(e[3], env)
Bind(env, n, v) == (n :> v) @@ env
Imports(s) == SelectSeq(Lines(s), LAMBDA l : l.k = "imp")
DefOf(s, t) == LET D == {i \in DOMAIN Lines(s) : Lines(s)[i].k = "def" /\ Lines(s)[i].n = t} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : TRUE
(* where a script has a tag from: itself or a script it imports *)
SourceOf(s, t) == LET D == {<<i, j>> \in (1..Len(Imports(s))) \X (1..9) : j \in DOMAIN Imports(s)[i].items /\ Imports(s)[i].items[j] = <<"%", t>>} IN IF D = {} THEN "" ELSE Imports(s)[(CHOOSE x \in D : TRUE)[1]].m
Params(d, a, env) == LET g == [i \in DOMAIN d.ps |-> Val(a[i], env)] IN [n \in Range(d.ps) |-> g[CHOOSE i \in DOMAIN d.ps : d.ps[i] = n]]

---------------------------------------------------------------------------
(* The result of a script alone, as a function: no shared state, no order. *)
(* [out: lines of output, env: values at the end, er: error]               *)
RECURSIVE Alone(_, _, _), AloneLines(_, _, _, _, _, _)
ModInit(m) == "__file__" :> m
CallInit(i) == ("__file__" :> "main" \o ToString(i)) @@ ("cx" :> "c" \o ToString(i))
ModEnv(s, by) == IF s \in by THEN [out |-> <<>>, env |-> <<>>, er |-> "Import"] ELSE Alone(s, by, ModInit(s))
(* imported symbols, all imports first; an error of the first one that fails *)
ImpErr(s, by) == LET D == {i \in DOMAIN Imports(s) : ModEnv(Imports(s)[i].m, by \cup {s}).er # ""} IN IF D = {} THEN "" ELSE ModEnv(Imports(s)[CHOOSE i \in D : \A j \in D : i <= j].m, by \cup {s}).er
ImpVars(env, l, e2) == LET V == {l.items[j][2] : j \in {j \in DOMAIN l.items : l.items[j][1] = "$"}} IN [n \in V |-> e2[n]] @@ env
Alone(s, by, init) ==
    LET er == ImpErr(s, by) IN
    IF er # "" THEN [out |-> <<>>, env |-> <<>>, er |-> er]
    ELSE AloneLines(Flat(Lines(s)), init, <<<<>>>>, s, by, <<>>)
(* base of a tag: values of the script it is defined in *)
AloneLines(q, env, bufs, s, by, body) ==
    IF q = <<>> THEN [out |-> bufs[1], env |-> env, er |-> ""]
    ELSE LET l == Head(q)
             rest(e, b) == AloneLines(Tail(q), e, b, s, by, body)
             put(x) == [bufs EXCEPT ![Len(bufs)] = @ \o x]
         IN CASE l.k = "imp" -> rest(ImpVars(env, l, ModEnv(l.m, by \cup {s}).env), bufs)
              [] l.k = "set" -> rest(Bind(env, l.n, Val(l.e, env)), bufs)
              [] l.k = "bind" -> rest(Bind(env, l.n, l.v), bufs)
              [] l.k = "out" -> rest(env, put(<<Val(l.e, env)>>))
              [] l.k = "at" -> rest(env, put(<<Attr(l.n, Val(l.e, env))>>))
              [] l.k = "elem" -> rest(env, LET up == Front(bufs) IN [up EXCEPT ![Len(up)] = Append(@, Elem(Last(bufs)))])
              [] l.k = "body" -> rest(env, put(body))
              [] l.k = "push" -> rest(env, Append(bufs, <<>>))
              [] l.k = "boom" -> [out |-> <<>>, env |-> env, er |-> "Boom"]
              [] l.k = "apply" ->
                   LET own == DefOf(s, l.n)
                       s2 == IF own # 0 THEN s ELSE SourceOf(s, l.n)
                       d == Lines(s2)[DefOf(s2, l.n)]
                       base == IF own # 0 THEN env ELSE ModEnv(s2, by \cup {s}).env
                       r == AloneLines(Flat(d.b), Params(d, l.a, env) @@ base, <<<<>>>>, s2, IF own # 0 THEN by ELSE by \cup {s}, Last(bufs))
                       up == Front(bufs)
                   IN IF r.er # "" THEN [out |-> <<>>, env |-> env, er |-> r.er] ELSE rest(env, [up EXCEPT ![Len(up)] = @ \o r.out])
              [] OTHER -> rest(env, bufs)
Result(i) == LET r == Alone(W.threads[i], {}, CallInit(i)) IN [out |-> r.out, er |-> r.er]

---------------------------------------------------------------------------
(* Threads.  ph: "start", "b1", "b2" (first and second built-in module), "run", "done";  passed: the   *)
(* gate is behind.  A frame is a script (ana: number of the next import, 0 when it is being executed) *)
(* or the body of a tag.                                                                               *)
ScriptFrame(s, init) == [s |-> s, tag |-> FALSE, q |-> Flat(Lines(s)), ana |-> 1, env |-> init, base |-> <<>>, imp |-> [m \in Names |-> 0], bufs |-> <<<<>>>>, body |-> <<>>]
Thread(i) == [ph |-> "start", passed |-> FALSE, fr |-> <<ScriptFrame(W.threads[i], CallInit(i))>>, out |-> <<>>, er |-> "", ran |-> <<>>]

Init == /\ w \in DOMAIN Worlds
        /\ tr \in IF Mode = "trace" THEN {i \in DOMAIN Traces : Traces[i].w = w} ELSE {0}
        /\ th = [i \in 1..N |-> Thread(i)]
        /\ bi = W.warm /\ cache = [m \in Names |-> 0] /\ insts = <<>> /\ cur = 0 /\ sch = <<>> /\ sw = 0

Top(t) == Last(th[t].fr)
LineGated(l) == l.k \in {"set", "out", "apply", "boom", "at"}
Gated(x) == \/ x.ph = "start" \/ (x.ph \in {"b1", "b2"} /\ Mode # "trace")
            \/ x.ph = "run" /\ LET f == Last(x.fr) IN IF f.ana > 0 THEN f.ana <= Len(Imports(f.s)) /\ Mode # "trace" ELSE f.q # <<>> /\ LineGated(Head(f.q))
AtGate(t) == Gated(th[t]) /\ ~th[t].passed
Done(t) == th[t].ph = "done"

Pass(t) == /\ AtGate(t)
           /\ CASE Mode = "sched" -> /\ cur = 0
                                     /\ LET free == IF sch = <<>> THEN TRUE ELSE Last(sch) = t \/ Done(Last(sch)) IN (IF free THEN TRUE ELSE sw < MaxSwitch) /\ sw' = IF free THEN sw ELSE sw + 1
                                     /\ cur' = t /\ sch' = Append(sch, t)
                [] Mode = "trace" -> Len(sch) < Len(Traces[tr].order) /\ Traces[tr].order[Len(sch) + 1] = t /\ sch' = Append(sch, t) /\ UNCHANGED <<cur, sw>>
                [] OTHER -> UNCHANGED <<cur, sch, sw>>
           /\ th' = [th EXCEPT ![t].passed = TRUE]
           /\ UNCHANGED <<w, tr, bi, cache, insts>>

Fail(x, er) == [x EXCEPT !.ph = "done", !.er = er, !.fr = <<>>, !.out = <<>>, !.passed = FALSE]
SetTop(x, f) == [x EXCEPT !.fr = Append(Front(@), f), !.passed = FALSE]
Next1(f) == [f EXCEPT !.q = Tail(@)]
Put(f, x) == [f EXCEPT !.bufs[Len(f.bufs)] = @ \o x]
(* scripts being loaded by the thread *)
Loading(x) == {x.fr[i].s : i \in {i \in 2..Len(x.fr) : ~x.fr[i].tag}}

(* x: thread after the step; the shared state is changed by three steps only *)
Local(t, x) == th' = [th EXCEPT ![t] = x] /\ UNCHANGED <<bi, cache, insts>>
Builtins(t) ==      \* checked at the start; loaded completely before they become visible
    LET x == th[t] IN
    CASE x.ph = "start" -> Local(t, [x EXCEPT !.ph = IF bi THEN "run" ELSE "b1", !.passed = FALSE])
      [] x.ph = "b1" -> Local(t, [x EXCEPT !.ph = "b2", !.passed = FALSE])
      [] x.ph = "b2" -> bi' = TRUE /\ th' = [th EXCEPT ![t] = [x EXCEPT !.ph = "run", !.passed = FALSE]] /\ UNCHANGED <<cache, insts>>
Analyse(t) ==       \* imports of a script, in order, before it is executed
    LET x == th[t]
        f == Top(t)
        l == Imports(f.s)[f.ana]
    IN IF f.ana > Len(Imports(f.s)) THEN Local(t, SetTop(x, [f EXCEPT !.ana = 0]))
       ELSE IF cache[l.m] # 0 THEN Local(t, SetTop(x, [f EXCEPT !.ana = @ + 1, !.imp[l.m] = cache[l.m]]))
       ELSE IF l.m \in Loading(x) THEN Local(t, Fail(x, "Import"))
       ELSE Local(t, [x EXCEPT !.fr = Append(@, ScriptFrame(l.m, ModInit(l.m))), !.passed = FALSE, !.ran = Append(@, l.m)])
Execute(t) ==
    LET x == th[t]
        f == Top(t)
        l == Head(f.q)
        g == Next1(f)
    IN CASE l.k = "imp" -> Local(t, SetTop(x, [g EXCEPT !.env = ImpVars(f.env, l, insts[f.imp[l.m]].env)]))
         [] l.k = "set" -> Local(t, SetTop(x, [g EXCEPT !.env = Bind(f.env, l.n, Val(l.e, f.env))]))
         [] l.k = "bind" -> Local(t, SetTop(x, [g EXCEPT !.env = Bind(f.env, l.n, l.v)]))
         [] l.k = "out" -> Local(t, SetTop(x, Put(g, <<Val(l.e, f.env)>>)))
         [] l.k = "at" -> Local(t, SetTop(x, Put(g, <<Attr(l.n, Val(l.e, f.env))>>)))
         [] l.k = "elem" -> Local(t, SetTop(x, [g EXCEPT !.bufs = LET up == Front(f.bufs) IN [up EXCEPT ![Len(up)] = Append(@, Elem(Last(f.bufs)))]]))
         [] l.k = "body" -> Local(t, SetTop(x, Put(g, f.body)))
         [] l.k = "push" -> Local(t, SetTop(x, [g EXCEPT !.bufs = Append(@, <<>>)]))
         [] l.k = "boom" -> Local(t, Fail(x, "Boom"))
         [] l.k = "apply" ->     \* the values of the tag's script are copied: the expansion leaves nothing behind
              LET own == DefOf(f.s, l.n) # 0
                  s2 == IF own THEN f.s ELSE SourceOf(f.s, l.n)
                  d == Lines(s2)[DefOf(s2, l.n)]
                  k == insts[f.imp[s2]]
                  base == IF own THEN (IF f.tag THEN f.base ELSE f.env) ELSE k.env
                  n == [s |-> s2, tag |-> TRUE, q |-> Flat(d.b), ana |-> 0, env |-> Params(d, l.a, f.env) @@ base, base |-> base, imp |-> IF own THEN f.imp ELSE k.imp, bufs |-> <<<<>>>>, body |-> Last(f.bufs)]
              IN Local(t, [x EXCEPT !.fr = Append(Append(Front(@), [g EXCEPT !.bufs = Front(@)]), n), !.passed = FALSE])
         [] OTHER -> Local(t, SetTop(x, g))
Return(t) ==
    LET x == th[t]
        f == Top(t)
        up == Front(x.fr)
    IN IF Len(x.fr) = 1 THEN Local(t, [x EXCEPT !.ph = "done", !.fr = <<>>, !.out = f.bufs[1]])
       ELSE IF f.tag THEN Local(t, [x EXCEPT !.fr = Append(Front(up), Put(Last(up), f.bufs[1]))])
       ELSE /\ insts' = Append(insts, [s |-> f.s, env |-> f.env, imp |-> f.imp])
            /\ cache' = [cache EXCEPT ![f.s] = Len(insts) + 1]
            /\ th' = [th EXCEPT ![t].fr = Append(Front(up), LET p == Last(up) IN [p EXCEPT !.ana = @ + 1, !.imp[f.s] = Len(insts) + 1])]
            /\ UNCHANGED bi

Act(t) == /\ ~Done(t) /\ (Gated(th[t]) => th[t].passed)
          /\ (Mode = "sched" => cur = t)
          /\ IF th[t].ph # "run" THEN Builtins(t) ELSE IF Top(t).ana > 0 THEN Analyse(t) ELSE IF Top(t).q # <<>> THEN Execute(t) ELSE Return(t)
          /\ cur' = IF Mode = "sched" /\ ~(th'[t].ph = "done" \/ (Gated(th'[t]) /\ ~th'[t].passed)) THEN t ELSE 0
          /\ UNCHANGED <<w, tr, sch, sw>>
(* steps that neither read nor change what's shared commute with those of other threads: when validating a trace they are done first *)
Private(t) == /\ ~Done(t) /\ th[t].ph = "run" /\ (Gated(th[t]) => th[t].passed)
              /\ Top(t).ana = 0 /\ (Top(t).q # <<>> \/ Len(th[t].fr) = 1 \/ Top(t).tag)
Eager == IF Mode = "trace" THEN {t \in 1..N : Private(t)} ELSE {}
Next == IF Eager # {} THEN Act(CHOOSE t \in Eager : TRUE) ELSE \E t \in 1..N : Pass(t) \/ Act(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == \A t \in 1..N : Done(t)
Emit == AllDone => IF Mode = "sched" THEN PrintT("@" \o ToJson([w |-> w, sch |-> sch, res |-> [t \in 1..N |-> [out |-> th[t].out, er |-> th[t].er]]]))
                   ELSE IF Mode = "trace" /\ Len(sch) = Len(Traces[tr].order) /\ \A t \in 1..N : th[t].er = Traces[tr].er[t] /\ th[t].out = Traces[tr].out[t]
                   THEN PrintT("@" \o ToJson([n |-> Traces[tr].n])) ELSE TRUE

---------------------------------------------------------------------------
(* Properties *)
(* every thread gets what it would get alone *)
Same == \A t \in 1..N : Done(t) => [out |-> th[t].out, er |-> th[t].er] = Result(t)
(* what is in the cache has been executed completely, with the values of an execution alone *)
Whole == \A m \in Names : cache[m] # 0 => insts[cache[m]].s = m /\ Alone(m, {}, ModInit(m)).er = "" /\ insts[cache[m]].env = Alone(m, {}, ModInit(m)).env
(* no thread executes a script twice; without overlapping, a script is executed once *)
Once == \A t \in 1..N : Cardinality(Range(th[t].ran)) = Len(th[t].ran)
(* some thread can always move: no deadlock *)
Live == AllDone \/ Mode # "free" \/ ENABLED Next
(* instances don't change once they are there *)
Frozen == [][\A i \in DOMAIN insts : insts'[i] = insts[i]]_vars
BuiltinsStay == [][bi => bi']_vars
Finishes == <>AllDone
=============================================================================
