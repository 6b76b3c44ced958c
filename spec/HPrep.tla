------------------------------- MODULE HPrep -------------------------------
(***************************************************************************)
(* Block structure from indentation.                                       *)
(*                                                                         *)
(* A script is a sequence of lines <<ind, kind>>: ind a string of "s"      *)
(* (space) and "t" (tab), kind one of                                      *)
(*   tag, if     blocks that may contain blocks                            *)
(*   text, raw, cmt, full   blocks that take all deeper lines as text      *)
(*   leaf        a block that can contain nothing                          *)
(*   odd         a line that begins, after spaces and tabs, with whitespace *)
(*               of another kind: contents of a text block, never a block  *)
(*   blank       a line of whitespace only                                 *)
(* The machine reads one line per step and keeps the stack of open lists   *)
(* of blocks, each with its exact indentation string.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS PrepFile, MaxN
In == JsonDeserialize(PrepFile)          \* [inds, kinds, scripts]: the alphabet, or given scripts

VARIABLES script, i, stack, tree, text, prev, er
vars == <<script, i, stack, tree, text, prev, er>>
(* stack: open lists of blocks, outermost first: [ind, at], at: number of the line the list belongs to, 0 for the document
   tree: for each line read so far its place: <<"block", parent line>>, <<"text", line of its block>>, <<"none">>
   text: line of the text block that takes deeper lines, 0 for none;  prev: last line that is not blank, 0 for none *)

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Proper(p, s) == Len(p) < Len(s) /\ Prefix(p, s)
Ind(k) == script[k][1]
Kind(k) == script[k][2]
Top == stack[Len(stack)]
Open(kind) == kind \in {"tag", "if"}
Takes(kind) == kind \in {"text", "raw", "cmt", "full"}
(* the document is rejected when any two consecutive lines have incomparable indentations *)
NextCode(k) == LET D == {j \in k + 1..Len(script) : Kind(j) # "blank"} IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A x \in D : j <= x
Clashes == {NextCode(k) : k \in {j \in DOMAIN script : Kind(j) # "blank" /\ NextCode(j) # 0 /\ ~Prefix(Ind(j), Ind(NextCode(j))) /\ ~Prefix(Ind(NextCode(j)), Ind(j))}}
Incompatible == Clashes # {}
(* the line an error is reported at: the first that clashes with the one before, or the one where the script stops being valid *)
ErrLine == CASE er = "Indentation" -> (CHOOSE k \in Clashes : \A x \in Clashes : k <= x)
             [] er = "Syntax" -> i - 1
             [] OTHER -> 0

Init == /\ \/ In.kinds # <<>> /\ \E n \in 1..MaxN : script \in [1..n -> {<<In.inds[a], In.kinds[b]>> : a \in DOMAIN In.inds, b \in DOMAIN In.kinds}]
           \/ \E k \in DOMAIN In.scripts : script = In.scripts[k]
        /\ i = 1 /\ stack = <<>> /\ tree = <<>> /\ text = 0 /\ prev = 0 /\ er = IF Incompatible THEN "Indentation" ELSE ""

Place(x) == tree' = Append(tree, x)
Step ==
    /\ er = "" /\ i <= Len(script)
    /\ i' = i + 1 /\ UNCHANGED script
    /\ LET ind == Ind(i) kind == Kind(i)
           block(st) == /\ stack' = st /\ Place(<<"block", st[Len(st)].at>>) /\ text' = (IF Takes(kind) THEN i ELSE 0) /\ prev' = i /\ UNCHANGED er
           bad == er' = "Syntax" /\ UNCHANGED <<stack, tree, text, prev>>
       IN IF kind = "blank" THEN Place(<<"none", 0>>) /\ UNCHANGED <<stack, text, prev, er>>
          ELSE IF text # 0 /\ Proper(Ind(text), ind) THEN Place(<<"text", text>>) /\ prev' = i /\ UNCHANGED <<stack, text, er>>
          ELSE IF kind = "odd" THEN bad
          ELSE IF stack = <<>> THEN block(<<[ind |-> ind, at |-> 0]>>)
          ELSE IF ind = Top.ind THEN block(stack)
          ELSE IF Proper(Top.ind, ind) THEN
               (* deeper than the last block: its first child *)
               LET last == prev IN IF text = 0 /\ Open(Kind(last)) THEN block(Append(stack, [ind |-> ind, at |-> last])) ELSE bad
          ELSE LET D == {k \in DOMAIN stack : stack[k].ind = ind} IN
               IF D = {} THEN bad ELSE block(SubSeq(stack, 1, CHOOSE k \in D : TRUE))
Spec == Init /\ [][Step]_vars

Done == er # "" \/ i > Len(script)
Emit == Done => PrintT("@" \o ToJson([s |-> script, er |-> er, ln |-> ErrLine, tree |-> IF er = "" THEN tree ELSE <<>>]))

(* Properties *)
(* open lists have strictly growing indentations *)
Nested == \A k \in 2..Len(stack) : Proper(stack[k - 1].ind, stack[k].ind)
Blocks == {k \in DOMAIN tree : tree[k][1] = "block"}
(* two blocks belong to the same list only if their indentations are equal, and blocks of one list with no line of
   a shorter indentation in between belong together; contained blocks are strictly deeper *)
SameList == er = "" => \A a, b \in Blocks : a < b =>
    /\ (tree[a][2] = tree[b][2] => Ind(a) = Ind(b))
    /\ (tree[b][2] = a => Proper(Ind(a), Ind(b)))
    /\ ((Ind(a) = Ind(b) /\ \A c \in Blocks : a < c /\ c < b => Prefix(Ind(a), Ind(c))) => tree[a][2] = tree[b][2])
(* blank lines change nothing *)
BlankNeutral == [][i' = i + 1 /\ Kind(i) = "blank" => UNCHANGED <<stack, text, prev, er>>]_vars
=============================================================================
