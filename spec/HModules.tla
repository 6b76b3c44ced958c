------------------------------ MODULE HModules ------------------------------
(***************************************************************************)
(* Runtimes, modules and histories: what a sequence of renderings gives in *)
(* a world of files.                                                       *)
(*                                                                         *)
(* A world is a set of scripts ("hy") and Python modules ("py", "__init__")*)
(* in folders; folders are sequences of names, <<"site",...>> is on the    *)
(* Python path, <<"cwd">> is the working folder.  Scripts are sequences of *)
(* lines of a small sublanguage: imports, context blocks, assignments,     *)
(* definitions, uses, calls to the outside.  An operation renders a main   *)
(* script in one of two runtimes (or through the Django backend), or       *)
(* changes a file between two renderings.                                  *)
(*                                                                         *)
(* A script is executed like in the implementation language: all its lines *)
(* are analysed first (names are resolved, imported modules are loaded,    *)
(* recursively), then they are executed in order.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT WorldFile
Worlds == ndJsonDeserialize(WorldFile)

VARIABLES w,        \* chosen world
          fi, fc, oc,   \* chosen alternatives of files and operations
          oi,       \* number of the current operation
          stack,    \* scripts being executed, main script first
          cache,    \* per runtime: loaded scripts <<loc, inst, symbols, env>>
          py,       \* imported Python modules
          log,      \* calls made by scripts during the current operation
          inst,     \* number of executions so far
          results   \* results of finished operations
vars == <<w, fi, fc, oc, oi, stack, cache, py, log, inst, results>>

W == Worlds[w]
Range(q) == {q[i] : i \in DOMAIN q}
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
First(q, P(_)) == LET D == {i \in DOMAIN q : P(q[i])} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
Final(q, P(_)) == LET D == {i \in DOMAIN q : P(q[i])} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : j <= i

---------------------------------------------------------------------------
(* Files *)
Alt(i) == W.files[i].alts[fc[i]]
Files == {i \in DOMAIN W.files : ~Alt(i).absent}
FileAt(d, n, k) == LET D == {i \in Files : W.files[i].d = d /\ W.files[i].n = n /\ W.files[i].k = k} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : TRUE
Script(d, n) == FileAt(d, n, "hy")
DirExists(d) == \E i \in Files : Len(W.files[i].d) >= Len(d) /\ SubSeq(W.files[i].d, 1, Len(d)) = d

(* Python's import system: a dotted name below the only entry of the path *)
Site(ps) == <<"site">> \o ps
PyKind(ps) == IF FileAt(Site(ps), "__init__", "py") # 0 THEN "package"
              ELSE IF FileAt(Site(Front(ps)), Last(ps), "py") # 0 THEN "module"
              ELSE IF DirExists(Site(ps)) THEN "namespace" ELSE "none"
PyFile(ps) == IF PyKind(ps) = "package" THEN FileAt(Site(ps), "__init__", "py") ELSE FileAt(Site(Front(ps)), Last(ps), "py")
Importable(ps) == /\ ps # <<>> /\ PyKind(ps) # "none"
                  /\ \A i \in 1..Len(ps) - 1 : PyKind(SubSeq(ps, 1, i)) \in {"package", "namespace"}
(* prefixes that get imported on the way, also when the import fails in the end *)
Reached(ps) == LET ok(i) == \A j \in 1..i : Importable(SubSeq(ps, 1, j)) IN {i \in 1..Len(ps) : ok(i)}
PyEvents(ps, done) == LET new(i) == i \in Reached(ps) /\ ~(SubSeq(ps, 1, i) \in done) IN
    Cat([i \in 1..Len(ps) |-> IF new(i) /\ PyKind(SubSeq(ps, 1, i)) # "namespace" /\ Alt(PyFile(SubSeq(ps, 1, i))).ran # ""
                              THEN <<Alt(PyFile(SubSeq(ps, 1, i))).ran>> ELSE <<>>])
PySymbols(ps) == IF PyKind(ps) = "namespace" THEN <<>> ELSE Alt(PyFile(ps)).symbols       \* sequence of <<symbol, value>>

---------------------------------------------------------------------------
(* Resolution of an import path [up |-> number of leading dots, ps |-> names] by a script in folder dir (<<>> or <<folder>>)
   of package pkg (<<>> or <<names>>) *)
NotFound == [k |-> "none", er |-> "", loc |-> <<>>, pkg |-> <<>>, tried |-> <<>>]
Base(q, up) == SubSeq(q, 1, Len(q) - (up - 1))
Resolve(path, dir, pkg) ==
    LET ps == path.ps
        name == Last(ps)
        hy(d, p, tried) == [k |-> "hy", er |-> "", loc |-> <<d, name>>, pkg |-> p, tried |-> tried]
        python(qs, tried) == IF qs # <<>> /\ Importable(qs) THEN [k |-> "py", er |-> "", loc |-> qs, pkg |-> <<>>, tried |-> tried \o <<qs>>]
                             ELSE [NotFound EXCEPT !.tried = tried \o (IF qs = <<>> THEN <<>> ELSE <<qs>>)]
        beyond == pkg # <<>> /\ Len(pkg[1]) - (path.up - 1) < 1
    IN
    IF path.up > 0 THEN
        IF beyond THEN [NotFound EXCEPT !.er = "Import"]
        ELSE IF dir # <<>> /\ Len(dir[1]) >= path.up - 1 /\ Script(Base(dir[1], path.up) \o Front(ps), name) # 0
             THEN hy(Base(dir[1], path.up) \o Front(ps), IF pkg = <<>> THEN <<>> ELSE <<Base(pkg[1], path.up) \o Front(ps)>>, <<>>)
        ELSE python(IF pkg = <<>> THEN <<>> ELSE Base(pkg[1], path.up) \o ps, <<>>)
    ELSE
        LET r == First(W.resolve, LAMBDA x : x[1] = ps)
            parent == Front(ps)
            t == IF parent # <<>> THEN <<parent>> ELSE <<>>         \* the package is imported in step 2
        IN
        IF r # 0 /\ Script(W.resolve[r][2], W.resolve[r][3]) # 0 THEN [hy(W.resolve[r][2], <<>>, <<>>) EXCEPT !.loc = <<W.resolve[r][2], W.resolve[r][3]>>]
        ELSE IF parent # <<>> /\ Importable(parent) /\ PyKind(parent) = "package" /\ Script(Site(parent), name) # 0 THEN hy(Site(parent), <<parent>>, t)
        ELSE IF Script(<<"cwd">> \o parent, name) # 0 THEN hy(<<"cwd">> \o parent, <<>>, t)
        ELSE IF dir # <<>> /\ Script(dir[1] \o parent, name) # 0 THEN hy(dir[1] \o parent, IF pkg = <<>> THEN <<>> ELSE <<pkg[1] \o parent>>, t)
        ELSE python(ps, t)

---------------------------------------------------------------------------
(* Names and values.  A scope is a sequence of <<symbol, value>>, the last pair with a symbol counts. *)
Builtins == <<<<"%b", <<"M", "b">>>>, <<"%div", <<"M", "div">>>>, <<"%section", <<"M", "section">>>>, <<"%p", <<"M", "p">>>>, <<"$len", <<"fn", "len">>>>>>
Look(scope, sym) == Final(scope, LAMBDA x : x[1] = sym)
RECURSIVE Lookup(_, _)
Lookup(env, sym) == IF env = <<>> THEN <<>>
                    ELSE LET i == Look(Last(env), sym) IN IF i # 0 THEN <<Last(env)[i][2]>> ELSE Lookup(Front(env), sym)
Known(names, sym) == \E i \in DOMAIN names : sym \in names[i]

RECURSIVE Vars(_)
Vars(e) == CASE e[1] = "v" -> <<"$" \o e[2]>> [] e[1] = "cat" -> Vars(e[2]) \o Vars(e[3]) [] e[1] = "len" -> <<"$len">> [] OTHER -> <<>>
(* value of an expression: [er, v] *)
RECURSIVE Ev(_, _)
Ev(e, env) ==
    CASE e[1] = "c" -> [er |-> "", v |-> <<"s", e[2]>>]
      [] e[1] = "v" -> LET x == Lookup(env, "$" \o e[2]) IN IF x = <<>> THEN [er |-> "Unbound", v |-> <<>>] ELSE [er |-> "", v |-> x[1]]
      [] e[1] = "len" -> LET x == Lookup(env, "$len")[1] IN
                         IF x[1] = "fn" THEN [er |-> "", v |-> <<"s", IF x[2] = "len" THEN "2" ELSE x[2]>>] ELSE [er |-> "TypeError", v |-> <<>>]
      [] OTHER -> LET a == Ev(e[2], env) b == Ev(e[3], env) IN
                  IF a.er # "" THEN a ELSE IF b.er # "" THEN b ELSE [er |-> "", v |-> <<"s", a.v[2] \o b.v[2]>>]

(* environment of a definition made by execution n in d nested scopes: of a script being executed, or the final one of a loaded module *)
EnvOf(n, d) == LET s == First(stack, LAMBDA f : f.inst = n) IN
            IF s # 0 THEN SubSeq(stack[s].env, 1, d)
            ELSE LET all == Cat(cache) j == First(all, LAMBDA m : m.inst = n) IN <<Builtins, all[j].env>>
(* lines produced by a tag *)
RECURSIVE Expand(_), BodyOut(_, _)
BodyOut(b, env) ==
    IF b = <<>> THEN [er |-> "", t |-> <<>>]
    ELSE LET h == IF b[1][1] = "tag" THEN LET x == Lookup(env, "%" \o b[1][2]) IN IF x = <<>> THEN [er |-> "Unbound", t |-> <<>>] ELSE Expand(x[1])
                  ELSE LET r == Ev(b[1][2], env) IN [er |-> r.er, t |-> IF r.er = "" THEN <<r.v[2]>> ELSE <<>>]
         IN IF h.er # "" THEN h ELSE LET r == BodyOut(Tail(b), env) IN [r EXCEPT !.t = h.t \o @]
Expand(v) == CASE v[1] = "M" -> [er |-> "", t |-> <<"<" \o v[2] \o "></" \o v[2] \o ">">>]
               [] v[1] = "ext" -> [er |-> "", t |-> <<"(" \o v[2] \o ")">>]
               [] OTHER -> BodyOut(v[3], EnvOf(v[2], v[4]))

---------------------------------------------------------------------------
(* The machine *)
Frame(loc, lines, dir, pkg, ctx) ==
    [loc |-> loc, inst |-> inst + 1, lines |-> lines, i |-> 1, it |-> 1, ph |-> "an", dir |-> dir, pkg |-> pkg, ctx |-> ctx, prolog |-> TRUE,
     names |-> <<{Builtins[i][1] : i \in DOMAIN Builtins}, {}>>, bound |-> <<>>, env |-> <<Builtins, <<>>>>, out |-> <<>>]
Op == W.ops[oi][oc[oi]]
Rt == Op.rt
Busy == stack # <<>>
Top == Last(stack)
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
FailLog(er, lg) == /\ log' = lg /\ results' = Append(results, [er |-> er, t |-> <<>>, log |-> lg]) /\ stack' = <<>> /\ oi' = oi + 1 /\ UNCHANGED <<cache, py, inst>>
Fail(er) == FailLog(er, log)
Stay == UNCHANGED <<cache, py, log, inst, results, oi>>
Next1(f) == [f EXCEPT !.i = @ + 1, !.it = 1]
Declare(f, sym) == [f EXCEPT !.names = [@ EXCEPT ![Len(@)] = @ \cup {sym}]]
Bind(f, sym, v) == [f EXCEPT !.bound = Append(@, <<f.i, sym, v>>)]

(* beginning of an operation *)
Begin ==
    /\ ~Busy /\ oi <= Len(W.ops)
    /\ IF Op.how = "write"                  \* a script is written, changed or removed by somebody else between two renderings
       THEN LET i == CHOOSE i \in DOMAIN W.files : W.files[i].d = Op.path /\ W.files[i].n = Op.name /\ W.files[i].k = "hy" IN
            /\ fc' = [fc EXCEPT ![i] = Op.alt] /\ oi' = oi + 1 /\ log' = <<>>
            /\ results' = Append(results, [er |-> "", t |-> <<>>, log |-> <<>>]) /\ UNCHANGED <<w, oc, stack, cache, py, inst>>
       ELSE IF Op.how = "file"
       THEN LET D == {j \in DOMAIN W.dirs : Script(W.dirs[j] \o Op.path, Op.name) # 0}
                j == CHOOSE j \in D : \A x \in D : j <= x
            IN IF D = {} THEN FailLog("NoTemplate", <<>>) /\ UNCHANGED <<w, fc, oc>>
               ELSE /\ stack' = <<Frame(<<>>, Alt(Script(W.dirs[j] \o Op.path, Op.name)).lines, <<W.dirs[j] \o Op.path>>, <<>>, Op.ctx)>>
                    /\ inst' = inst + 1 /\ log' = <<>> /\ UNCHANGED <<w, fc, oc, oi, cache, py, results>>
       ELSE /\ stack' = <<Frame(<<>>, Op.lines, Op.dir, Op.pkg, Op.ctx)>>
            /\ inst' = inst + 1 /\ log' = <<>>
            /\ UNCHANGED <<w, fc, oc, oi, cache, py, results>>

(* an item of an import: the module is loaded first if needed, the symbol is bound afterwards *)
Item(l) == l.items[Top.it]
BindFrom(symbols, f) ==
    LET it == Item(f.lines[f.i]) 
        g == First(symbols, LAMBDA x : x[1] = it[1])
        done(h) == IF f.it = Len(f.lines[f.i].items) THEN Next1(h) ELSE [h EXCEPT !.it = @ + 1]
        public == SelectSeq(symbols, LAMBDA x : SubSeq(x[1], 2, 2) # "_")
        RECURSIVE all(_, _)
        all(h, q) == IF q = <<>> THEN h ELSE all(Bind(Declare(h, q[1][1]), q[1][1], q[1][2]), Tail(q))
    IN IF it[1] = "*" THEN [ok |-> TRUE, f |-> done(all(f, public))]
       ELSE IF g = 0 THEN [ok |-> FALSE, f |-> f]
       ELSE [ok |-> TRUE, f |-> done(Bind(Declare(f, it[2]), it[2], symbols[g][2]))]
Import ==
    LET l == Top.lines[Top.i]
        r == Resolve(l.path, Top.dir, Top.pkg)
        ev == LET RECURSIVE go(_, _)
                  go(q, done) == IF q = <<>> THEN <<>> ELSE PyEvents(q[1], done) \o go(Tail(q), done \cup {SubSeq(q[1], 1, i) : i \in Reached(q[1])})
              IN go(r.tried, py)
        py2 == py \cup UNION {{SubSeq(q, 1, i) : i \in Reached(q)} : q \in Range(r.tried)}
        found == First(cache[Rt], LAMBDA m : m.loc = r.loc)
        give(symbols) == LET b == BindFrom(symbols, Top) IN
                         IF b.ok THEN /\ SetTop(b.f) /\ py' = py2 /\ log' = log \o ev /\ UNCHANGED <<cache, inst, results, oi>>
                         ELSE /\ log' = log \o ev /\ results' = Append(results, [er |-> "Import", t |-> <<>>, log |-> log \o ev])
                              /\ stack' = <<>> /\ oi' = oi + 1 /\ py' = py2 /\ UNCHANGED <<cache, inst>>
    IN IF r.er # "" THEN Fail(r.er)
       ELSE IF r.k = "none" \/ (r.k = "hy" /\ found = 0 /\ \E j \in DOMAIN stack : stack[j].loc = r.loc)      \* missing, or being loaded just now
            THEN /\ log' = log \o ev /\ results' = Append(results, [er |-> "Import", t |-> <<>>, log |-> log \o ev])
                 /\ stack' = <<>> /\ oi' = oi + 1 /\ py' = py2 /\ UNCHANGED <<cache, inst>>
       ELSE IF r.k = "py" THEN give(PySymbols(r.loc))
       ELSE IF found # 0 THEN give(cache[Rt][found].symbols)
       ELSE /\ stack' = Append(stack, Frame(r.loc, Alt(Script(r.loc[1], r.loc[2])).lines, <<r.loc[1]>>, r.pkg, <<>>))
            /\ inst' = inst + 1 /\ py' = py2 /\ log' = log \o ev /\ UNCHANGED <<cache, results, oi>>

Check(f, syms, er) == \A i \in DOMAIN syms : Known(f.names, syms[i])
NameErr(f, syms) == LET i == First(syms, LAMBDA s : ~Known(f.names, s)) IN
                    IF i = 0 THEN "" ELSE IF SubSeq(syms[i], 1, 1) = "%" THEN "UndefTag" ELSE "Name"
BodySyms(b) == Cat([i \in DOMAIN b |-> IF b[i][1] = "tag" THEN <<"%" \o b[i][2]>> ELSE Vars(b[i][2])])
Analyse ==
    /\ Busy /\ Top.ph = "an"
    /\ IF Top.i > Len(Top.lines) THEN SetTop([Top EXCEPT !.ph = "tr", !.i = 1, !.it = 1]) /\ Stay
       ELSE LET l == Top.lines[Top.i]
                f == IF l.k \in {"cmt", "context"} THEN Top ELSE [Top EXCEPT !.prolog = FALSE]
                move(syms, g) == LET x == NameErr(f, syms) IN IF x = "" THEN SetTop(Next1(g)) /\ Stay ELSE Fail(x)
            IN CASE l.k = "context" ->
                        IF ~f.prolog THEN Fail("Syntax")
                        ELSE LET it == Item(l) c == First(f.ctx, LAMBDA x : x[1] = it[1]) IN
                             IF c = 0 THEN Fail("Import")
                             ELSE LET g == Bind(Declare(f, it[2]), it[2], f.ctx[c][2]) IN
                                  SetTop(IF f.it = Len(l.items) THEN Next1(g) ELSE [g EXCEPT !.it = @ + 1]) /\ Stay
                 [] l.k = "import" -> IF f.prolog # Top.prolog THEN SetTop(f) /\ Stay ELSE Import
                 [] l.k = "ctlimport" -> Fail("Syntax")         \* an import inside a control block
                 [] l.k = "set" -> move(Vars(l.e), Declare(f, "$" \o l.n))
                 [] l.k = "def" -> move(BodySyms(l.b), Declare(f, "%" \o l.n))
                 [] l.k = "out" -> move(Vars(l.e), f)
                 [] l.k = "tag" -> move(<<"%" \o l.n>>, f)
                 [] l.k = "open" -> move(<<"%section">>, [f EXCEPT !.names = Append(@, {})])
                 [] l.k = "close" -> move(<<>>, [f EXCEPT !.names = Front(@)])
                 [] OTHER -> move(<<>>, f)
    /\ UNCHANGED <<w, fc, oc>>

Assign(f, sym, v) == [f EXCEPT !.env = [@ EXCEPT ![Len(@)] = Append(@, <<sym, v>>)]]
RECURSIVE AssignAll(_, _)
AssignAll(f, q) == IF q = <<>> THEN f ELSE AssignAll(Assign(f, q[1][2], q[1][3]), Tail(q))
Symbols(scope) == SelectSeq([i \in DOMAIN scope |-> IF Look(scope, scope[i][1]) = i THEN scope[i] ELSE <<"", <<>>>>], LAMBDA x : x[1] # "")
Execute ==
    /\ Busy /\ Top.ph = "tr" /\ Top.i <= Len(Top.lines)
    /\ LET f == Top
           l == f.lines[f.i]
           go(g) == SetTop(Next1(g)) /\ Stay
           print(r) == IF r.er # "" THEN Fail(r.er) ELSE go([f EXCEPT !.out = @ \o r.t])
       IN CASE l.k \in {"import", "context"} -> go(AssignAll(f, SelectSeq(f.bound, LAMBDA b : b[1] = f.i)))
            [] l.k = "set" -> LET r == Ev(l.e, f.env) IN IF r.er # "" THEN Fail(r.er) ELSE go(Assign(f, "$" \o l.n, r.v))
            [] l.k = "def" -> go(Assign(f, "%" \o l.n, <<"nat", f.inst, l.b, Len(f.env)>>))
            [] l.k = "out" -> LET r == Ev(l.e, f.env) IN print([er |-> r.er, t |-> IF r.er = "" THEN <<r.v[2]>> ELSE <<>>])
            [] l.k = "tag" -> print(Expand(Lookup(f.env, "%" \o l.n)[1]))
            [] l.k = "open" -> go([f EXCEPT !.env = Append(@, <<>>), !.out = Append(@, "<section>")])
            [] l.k = "close" -> go([f EXCEPT !.env = Front(@), !.out = Append(@, "</section>")])
            [] l.k = "log" -> SetTop(Next1(f)) /\ log' = Append(log, l.n) /\ UNCHANGED <<cache, py, inst, results, oi>>
            [] l.k = "boom" -> Fail("Boom")
            [] OTHER -> go(f)
    /\ UNCHANGED <<w, fc, oc>>
(* end of a script: a module enters the cache of the runtime, the main script gives the result of the operation *)
Return ==
    /\ Busy /\ Top.ph = "tr" /\ Top.i > Len(Top.lines)
    /\ IF Len(stack) = 1
       THEN /\ results' = Append(results, [er |-> "", t |-> Top.out, log |-> log]) /\ stack' = <<>> /\ oi' = oi + 1 /\ UNCHANGED <<cache, py, log, inst>>
       ELSE /\ cache' = [cache EXCEPT ![Rt] = Append(@, [loc |-> Top.loc, inst |-> Top.inst, symbols |-> Symbols(Top.env[2]), env |-> Top.env[2]])]
            /\ stack' = Front(stack) /\ UNCHANGED <<py, log, inst, results, oi>>
    /\ UNCHANGED <<w, fc, oc>>

Choices(n, len(_)) == {f \in [1..n -> 1..9] : \A i \in 1..n : f[i] <= len(i)}
Init == /\ w \in DOMAIN Worlds
        /\ fi \in [1..Len(W.files) -> 1..W.maxf] /\ fc = fi /\ \A i \in DOMAIN W.files : fc[i] <= Len(W.files[i].alts)
        /\ oc \in [1..Len(W.ops) -> 1..W.maxo] /\ \A i \in DOMAIN W.ops : oc[i] <= Len(W.ops[i])
        /\ oi = 1 /\ stack = <<>> /\ cache = <<<<>>, <<>>>> /\ py = {} /\ log = <<>> /\ inst = 0 /\ results = <<>>
Next == (Begin \/ Analyse \/ Execute \/ Return) /\ UNCHANGED fi
Spec == Init /\ [][Next]_vars

Done == ~Busy /\ oi > Len(W.ops)
Emit == Done => PrintT("@" \o ToJson([w |-> w, fc |-> fi, oc |-> oc, results |-> results]))

(* Properties of the machine *)
Once == \A r \in 1..2 : \A i, j \in DOMAIN cache[r] : cache[r][i].loc = cache[r][j].loc => i = j
NoReentry == \A i, j \in DOMAIN stack : i # j => stack[i].loc # stack[j].loc
Progress == Done \/ ENABLED Next
(* modules never change after they have been loaded, and are never dropped *)
CacheGrows == [][\A r \in 1..2 : Len(cache'[r]) >= Len(cache[r]) /\ SubSeq(cache'[r], 1, Len(cache[r])) = cache[r]]_vars
(* what somebody else does to the files never changes what is loaded already *)
LoadedStays == [][fc' # fc => ~Busy /\ UNCHANGED <<stack, cache, py, inst>>]_vars
(* only the running script's own scope is written *)
OwnScope == [][\A i \in 1..Len(stack) - 1 : i <= Len(stack') => stack'[i].env = stack[i].env]_vars
(* isolation: an operation that was executed before in the same runtime, with no Python module or script loaded in
   between for the first time, gives the same result *)
Repeatable == \A i, j \in DOMAIN results :
    (i < j /\ W.ops[i][oc[i]] = W.ops[j][oc[j]] /\ (\A k \in i..j : W.ops[k][oc[k]].how # "write") /\ results[i].er = "" /\ results[j].er = "") => results[i].t = results[j].t
=============================================================================
