-------------------------------- MODULE HDom --------------------------------
(***************************************************************************)
(* Documents as a heap of nodes: queries, copies and transformations.      *)
(*                                                                         *)
(* heap[i] is node i: kind "E" (element; tag is the name of a tag object   *)
(* or "" for a node without tag) or "T" (text); kw its attributes in       *)
(* order; body the numbers of its children.  A document (DOM) is a         *)
(* sequence of nodes.  doms holds all documents made so far; every step    *)
(* applies one operation to one of them.  Queries return documents of the  *)
(* SAME nodes, copies and skip() return new nodes, alter() changes the     *)
(* document it is called on.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS DomFile,   \* {shapes: [[parent of node 1, ...]], labels: [[kind, tag, kw]], forests: [heap..], ops: [...], depth}
          Depth
In == JsonDeserialize(DomFile)

VARIABLES heap, doms, hist, start, h0     \* h0: the heap at the beginning
vars == <<heap, doms, hist, start, h0>>

Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Sel(q, P(_)) == SelectSeq(q, P)

TagName(t) == IF t = "a2" THEN "a" ELSE t          \* two tag objects have the same name
IsName(t) == t # ""
---------------------------------------------------------------------------
(* Traversal *)
Pred(p, nd) == CASE p[1] = "none" -> FALSE [] p[1] = "all" -> TRUE [] p[1] = "name" -> nd.kind = "E" /\ nd.tag # "" /\ TagName(nd.tag) = p[2]
                 [] p[1] = "text" -> nd.kind = "T" [] p[1] = "attr" -> \E i \in DOMAIN nd.kw : nd.kw[i][1] = p[2] [] p[1] = "leaf" -> nd.body = <<>>
RECURSIVE Walk(_, _, _, _)
Walk(h, ns, skip, order) ==
    Cat([i \in DOMAIN ns |->
        IF Pred(skip, h[ns[i]]) THEN <<>>
        ELSE IF order = "preorder" THEN <<ns[i]>> \o Walk(h, h[ns[i]].body, skip, order)
        ELSE Walk(h, h[ns[i]].body, skip, order) \o <<ns[i]>>])
All(h, ns) == Walk(h, ns, <<"none">>, "preorder")
IsTree(h, ns) == LET q == All(h, ns) IN Cardinality(Range(q)) = Len(q)

(* constraints of select() and skip(): tag <<>>, <<"name", n>> or <<"inst", t>>; attrs: sequence of <<key>> (defined) or <<key, value>> *)
(* values of attributes are compared like in Python *)
Num(v) == IF v[1] = "b" THEN (IF v[2] THEN 1 ELSE 0) ELSE v[2]
Eq(a, b) == IF {a[1], b[1]} \subseteq {"i", "b"} THEN Num(a) = Num(b) ELSE a[1] = b[1] /\ a = b
Match(nd, op) ==
    /\ CASE op.tag = <<>> -> TRUE
         [] op.tag[1] = "name" -> nd.kind = "E" /\ nd.tag # "" /\ TagName(nd.tag) = op.tag[2]
         [] OTHER -> nd.kind = "E" /\ nd.tag = op.tag[2]
    /\ \A i \in DOMAIN op.attrs : \E j \in DOMAIN nd.kw : nd.kw[j][1] = op.attrs[i][1] /\ (Len(op.attrs[i]) = 2 => Eq(nd.kw[j][2], op.attrs[i][2]))
Select(h, ns, op) == Sel(Walk(h, ns, <<"none">>, op.order), LAMBDA n : Match(h[n], op))

(* copies: [h |-> heap with the new nodes, ns |-> their numbers] *)
RECURSIVE CopyAll(_, _)
CopyAll(h, ns) ==
    IF ns = <<>> THEN [h |-> h, ns |-> <<>>]
    ELSE LET id == Len(h) + 1
             kids == CopyAll(Append(h, h[ns[1]]), h[ns[1]].body)
             me == [kids.h EXCEPT ![id] = [h[ns[1]] EXCEPT !.body = kids.ns]]
             rest == CopyAll(me, Tail(ns))
         IN [h |-> rest.h, ns |-> <<id>> \o rest.ns]
RECURSIVE Prune(_, _, _)
Prune(h, ns, op) ==          \* the subtrees of matching nodes removed, in place
    IF ns = <<>> THEN [h |-> h, ns |-> <<>>]
    ELSE LET rest(g) == Prune(g, Tail(ns), op) IN
         IF Match(h[ns[1]], op) THEN rest(h)
         ELSE LET kids == Prune(h, h[ns[1]].body, op)
                  r == rest([kids.h EXCEPT ![ns[1]].body = kids.ns])
              IN [h |-> r.h, ns |-> <<ns[1]>> \o r.ns]

(* Python's indexing and slicing *)
Norm(i, n, lo, hi) == LET j == IF i < 0 THEN i + n ELSE i IN IF j < lo THEN lo ELSE IF j > hi THEN hi ELSE j
RECURSIVE Steps(_, _, _)
Steps(i, j, k) == IF (k > 0 /\ i >= j) \/ (k < 0 /\ i <= j) THEN <<>> ELSE <<i>> \o Steps(i + k, j, k)
Slice(ns, a, b, k) ==
    LET n == Len(ns)
        st == IF k = <<>> THEN 1 ELSE k[1]
        lo == IF st > 0 THEN 0 ELSE -1
        hi == IF st > 0 THEN n ELSE n - 1
        i == IF a = <<>> THEN (IF st > 0 THEN lo ELSE hi) ELSE Norm(a[1], n, lo, hi)
        j == IF b = <<>> THEN (IF st > 0 THEN hi ELSE lo) ELSE Norm(b[1], n, lo, hi)
        q == Steps(i, j, st)
    IN [x \in DOMAIN q |-> ns[q[x] + 1]]

(* Transformations: what transform(node) returns *)
New(h, nd) == [h |-> Append(h, nd), ns |-> <<Len(h) + 1>>]
Elem(t, kw, body) == [kind |-> "E", tag |-> t, text |-> "", kw |-> kw, body |-> body]
TextNode(s) == [kind |-> "T", tag |-> "", text |-> s, kw |-> <<>>, body |-> <<>>]
Transform(h, n, tr) ==
    LET nd == h[n] same == [h |-> h, ns |-> <<n>>] IN
    CASE tr = "same" -> same
      [] tr = "drop b" -> IF Pred(<<"name", "b">>, nd) THEN [h |-> h, ns |-> <<>>] ELSE same
      [] tr = "drop" -> [h |-> h, ns |-> <<>>]
      [] tr = "twice" -> LET c == CopyAll(h, <<n>>) IN [h |-> c.h, ns |-> <<n>> \o c.ns]
      [] tr = "copy" -> CopyAll(h, <<n>>)
      [] tr = "unwrap a" -> IF Pred(<<"name", "a">>, nd) THEN [h |-> h, ns |-> nd.body] ELSE same
      [] tr = "wrap" -> New(h, Elem("b", <<<<"w", <<"i", 1>>>>>>, <<n>>))
      [] tr = "wrap text" -> IF nd.kind = "T" THEN New(h, Elem("i", <<>>, <<n>>)) ELSE same
      [] tr = "text" -> IF nd.body = <<>> THEN New(h, TextNode("new")) ELSE same
      [] tr = "mark" -> IF nd.kind = "E" THEN [h |-> [h EXCEPT ![n].kw = Sel(@, LAMBDA p : p[1] # "m") \o <<<<"m", <<"i", 1>>>>>>], ns |-> <<n>>] ELSE same
      [] tr = "leaf after b" -> IF Pred(<<"name", "b">>, nd) THEN LET x == New(h, TextNode("t")) IN [h |-> x.h, ns |-> <<n>> \o x.ns] ELSE same
RECURSIVE TransAll(_, _, _), Alter(_, _, _, _, _), Inside(_, _, _, _, _)
TransAll(h, ns, tr) == IF ns = <<>> THEN [h |-> h, ns |-> <<>>]
                       ELSE LET x == Transform(h, ns[1], tr) r == TransAll(x.h, Tail(ns), tr) IN [h |-> r.h, ns |-> x.ns \o r.ns]
Inside(h, ns, tr, skip, order) ==          \* alter() of the bodies of nodes ns
    IF ns = <<>> THEN h
    ELSE IF Pred(skip, h[ns[1]]) THEN Inside(h, Tail(ns), tr, skip, order)
    ELSE LET x == Alter(h, h[ns[1]].body, tr, skip, order) IN Inside([x.h EXCEPT ![ns[1]].body = x.ns], Tail(ns), tr, skip, order)
Alter(h, ns, tr, skip, order) ==
    IF order = "postorder" THEN TransAll(Inside(h, ns, tr, skip, order), ns, tr)
    ELSE LET x == TransAll(h, ns, tr) IN [h |-> Inside(x.h, x.ns, tr, skip, order), ns |-> x.ns]

---------------------------------------------------------------------------
(* Markup of a document of inline nodes *)
RECURSIVE Markup(_, _), Attrs(_)
AV(v) == IF v[1] = "s" THEN v[2] ELSE IF v[1] = "i" THEN ToString(v[2]) ELSE IF v[1] = "n" THEN "None" ELSE ""
Attrs(kw) == IF kw = <<>> THEN "" ELSE " " \o kw[1][1] \o "=\"" \o AV(kw[1][2]) \o "\"" \o Attrs(Tail(kw))
Markup(h, ns) == IF ns = <<>> THEN ""
    ELSE LET nd == h[ns[1]] b == Markup(h, nd.body) IN
         (IF nd.kind = "T" THEN nd.text ELSE IF nd.tag \in {"", "null"} THEN b
          ELSE "<" \o TagName(nd.tag) \o Attrs(nd.kw) \o ">" \o b \o "</" \o TagName(nd.tag) \o ">") \o Markup(h, Tail(ns))

---------------------------------------------------------------------------
(* One operation on document d *)
Result(h, d, op) ==          \* [er, h, d: document afterwards, new: documents made, val: other results]
    LET ns == doms[d]
        ok(g, me, made, val) == [er |-> "", h |-> g, d |-> me, new |-> made, val |-> val]
        fail(e) == [er |-> e, h |-> h, d |-> ns, new |-> <<>>, val |-> <<>>]
        oth == doms[IF d = 1 THEN Len(doms) ELSE 1]
    IN
    CASE op.o = "walk" -> ok(h, ns, <<Walk(h, ns, op.skip, op.order)>>, <<>>)
      [] op.o = "select" -> ok(h, ns, <<Select(h, ns, op)>>, <<>>)
      [] op.o = "skip" -> LET c == CopyAll(h, ns) r == Prune(c.h, c.ns, op) IN ok(r.h, ns, <<r.ns>>, <<>>)
      [] op.o = "copy" -> LET c == CopyAll(h, ns) IN ok(c.h, ns, <<c.ns>>, <<>>)
      [] op.o = "slice" -> ok(h, ns, <<Slice(ns, op.a, op.b, op.k)>>, <<>>)
      [] op.o = "item" -> LET i == IF op.i < 0 THEN op.i + Len(ns) ELSE op.i IN
                          IF i < 0 \/ i >= Len(ns) THEN fail("IndexError") ELSE ok(h, ns, <<<<ns[i + 1]>>>>, <<>>)
      [] op.o = "len" -> ok(h, ns, <<>>, <<Len(ns)>>)
      [] op.o = "render" -> ok(h, ns, <<>>, <<Markup(h, ns)>>)
      [] op.o = "get" -> ok(h, ns, <<>>, [i \in DOMAIN ns |-> LET q == Sel(h[ns[i]].kw, LAMBDA p : p[1] = op.k) IN IF q = <<>> THEN <<"n">> ELSE q[1][2]])
      [] op.o = "body" -> IF ns = <<>> THEN fail("IndexError") ELSE ok(h, ns, <<h[ns[1]].body>>, <<>>)     \* the children of the first node, as a new document
      [] op.o = "concat" -> ok(h, ns, <<CASE op.how = "self" -> ns \o ns [] op.how = "other" -> ns \o oth [] op.how = "front" -> oth \o ns
                                          [] op.how = "one" -> LET f == IF ns = <<>> THEN <<>> ELSE <<ns[1]>> IN f \o oth \o f>>, <<>>)
      [] op.o = "bad" -> fail("TypeError")
      [] op.o = "set" -> IF ns = <<>> \/ h[ns[1]].kind = "T" THEN fail("SKIP") ELSE ok([h EXCEPT ![ns[1]].kw = Sel(@, LAMBDA p : p[1] # op.k) \o <<<<op.k, op.v>>>>], ns, <<>>, <<>>)
      [] op.o = "push" -> IF ns = <<>> \/ h[ns[1]].kind = "T" THEN fail("SKIP") ELSE ok([Append(h, TextNode("pushed")) EXCEPT ![ns[1]].body = Append(@, Len(h) + 1)], ns, <<>>, <<>>)
      [] op.o = "pop" -> IF ns = <<>> THEN fail("SKIP") ELSE ok(h, SubSeq(ns, 1, Len(ns) - 1), <<>>, <<>>)
      [] op.o = "alter" -> IF ~IsTree(h, ns) THEN fail("SKIP") ELSE LET r == Alter(h, ns, op.tr, op.skip, op.order) IN ok(r.h, r.ns, <<>>, <<>>)

Forest(shape, labels) == [i \in DOMAIN shape |-> [labels[i] EXCEPT !.body = Sel([j \in DOMAIN shape |-> j], LAMBDA j : shape[j] = i)]]
Init == /\ \/ start \in DOMAIN In.forests /\ heap = In.forests[start]
           \/ start = 0 /\ \E s \in Range(In.shapes) : \E lb \in [DOMAIN s -> Range(In.labels)] :
                 /\ \A i \in DOMAIN s : s[i] # 0 => lb[s[i]].kind = "E"
                 /\ heap = Forest(s, lb)
        /\ doms = <<Sel([i \in DOMAIN heap |-> i], LAMBDA i : \A j \in DOMAIN heap : i \notin Range(heap[j].body))>>
        /\ hist = <<>> /\ h0 = heap
Step == /\ Len(hist) < Depth
        /\ \E d \in DOMAIN doms : \E k \in DOMAIN In.ops :
              LET r == Result(heap, d, In.ops[k]) IN
              /\ r.er # "SKIP"
              /\ heap' = r.h
              /\ doms' = [doms EXCEPT ![d] = r.d] \o r.new
              /\ hist' = Append(hist, [d |-> d, k |-> k, er |-> r.er, val |-> r.val, n |-> Len(r.new)])
              /\ UNCHANGED <<start, h0>>
Next == Step
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT("@" \o ToJson([init |-> h0, heap |-> heap, doms |-> doms, hist |-> hist]))

---------------------------------------------------------------------------
(* Properties *)
Query(op) == op.o \in {"walk", "select", "skip", "copy", "slice", "item", "len", "render", "get", "body", "concat", "bad"}
LastOp == In.ops[hist'[Len(hist')].k]
(* queries change neither the documents nor the nodes that exist *)
QueriesPure == [][hist' # hist /\ Query(LastOp) => /\ \A i \in DOMAIN heap : heap'[i] = heap[i]
                                                  /\ \A d \in DOMAIN doms : doms'[d] = doms[d]]_vars
(* copies and skip() share no node with anything that existed *)
CopiesFresh == [][hist' # hist /\ LastOp.o \in {"copy", "skip"} => \A n \in Range(All(heap', doms'[Len(doms')])) : n > Len(heap)]_vars
(* select returns exactly the matching nodes, walk every node once *)
Exact == [][hist' # hist /\ LastOp.o = "select" /\ IsTree(heap, doms[hist'[Len(hist')].d]) =>
             LET q == doms'[Len(doms')] a == All(heap, doms[hist'[Len(hist')].d]) IN
             Range(q) = {n \in Range(a) : Match(heap[n], LastOp)} /\ Cardinality(Range(q)) = Len(q)]_vars
(* after skip() nothing that matches is left, and nothing else is missing but descendants of what matched *)
Skipped == [][hist' # hist /\ LastOp.o = "skip" => \A n \in Range(All(heap', doms'[Len(doms')])) : ~Match(heap'[n], LastOp)]_vars
Acyclic == \A i \in DOMAIN heap : i \notin Range(All(heap, heap[i].body))
=============================================================================
