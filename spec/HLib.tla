-------------------------------- MODULE HLib --------------------------------
(***************************************************************************)
(* Standard functions and tags on texts and sequences.                     *)
(*                                                                         *)
(* Text functions are specified as readers: the text is consumed one       *)
(* character at a time, and the state of the reader holds what the         *)
(* function would return if the text ended here.  What the documentation   *)
(* promises is stated separately, as invariants over the whole text.       *)
(* Functions of sequences are producers: each step takes one element of    *)
(* each argument.                                                          *)
(*                                                                         *)
(*   f      the function and its parameters (a record chosen initially)    *)
(*   s      the text consumed so far / for producers, "" throughout        *)
(*   out    what was produced so far: a text, lines, or a sequence         *)
(*   aux    state of the reader                                            *)
(***************************************************************************)
EXTENDS HText, Json

CONSTANT LibFile
In == JsonDeserialize(LibFile)       \* [funs |-> <<record>>, texts |-> <<string>>]
VARIABLES f, s, out, aux, todo
vars == <<f, s, out, aux, todo>>

WS(c) == c \in {" ", "\t", "\n"}
LowerOf == [A |-> "a", B |-> "b"]
UpperOf == [a |-> "A", b |-> "B"]
Low(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
Up(c)  == IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c

RECURSIVE StripL(_), StripR(_)
StripL(x) == IF x # "" /\ WS(Ch(x, 1)) THEN StripL(DropN(x, 1)) ELSE x
StripR(x) == IF x # "" /\ WS(Ch(x, Len(x))) THEN StripR(SubSeq(x, 1, Len(x) - 1)) ELSE x
Strip(x) == StripR(StripL(x))

(* lines of a text; a newline at the end doesn't open a new line *)
TextLines(x) == IF x = "" THEN <<>> ELSE LET q == TSplit(x) IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q

RECURSIVE UniqueOf(_, _)
UniqueOf(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN UniqueOf(Tail(q), seen) ELSE <<Head(q)>> \o UniqueOf(Tail(q), seen \cup {Head(q)})

(* position of the last space in x, 0 if none *)
RECURSIVE LastSpace(_, _)
LastSpace(x, i) == IF i = 0 THEN 0 ELSE IF Ch(x, i) = " " THEN i ELSE LastSpace(x, i - 1)

(* crop as documented *)
CropBad == f.length < Len(f.end) \/ f.leeway < 0
CropOf(x) ==
    IF Len(x) <= f.length + f.leeway THEN x
    ELSE LET max  == f.length - Len(f.end)
             head == SubSeq(x, 1, max)
             sp   == LastSpace(head, max)
             word == IF sp = 0 THEN head ELSE SubSeq(head, 1, sp - 1)
         IN (IF f.killwords THEN head ELSE IF Len(word) < max - f.maxdrop THEN head ELSE word) \o f.end

(* cycle: number of tuples, -1: unlimited *)
LenOf(q) == Len(q)
MaxOf(A) == CHOOSE x \in A : \A y \in A : y <= x
CycleLen == IF f.seqs = <<>> \/ \E i \in DOMAIN f.seqs : f.seqs[i] = <<>> THEN 0
            ELSE IF f.stop = "first" THEN Len(f.seqs[1])
            ELSE IF f.stop = "longest" THEN MaxOf({Len(f.seqs[i]) : i \in DOMAIN f.seqs})
            ELSE -1
CycleAt(k) == [i \in DOMAIN f.seqs |-> f.seqs[i][(((k - 1) % Len(f.seqs[i])) + 1)]]

(* filters of Django, imported from hypertag.django.filters: f.name, f.arg (a character, or a text), f.num                *)
(* "~" stands for the character of an ellipsis                                                                          *)
Slugs == {"a", "b", "-", "_"}
RECURSIVE SlugOf(_, _), StripDash(_), StripDashR(_), Spaces(_), Without(_, _), CountWords(_, _)
SlugOf(x, gap) == IF x = "" THEN ""                               \* letters, digits and _ stay; runs of spaces and hyphens become one hyphen; the rest vanishes
                  ELSE LET c == Low(Ch(x, 1)) IN
                       IF WS(c) \/ c = "-" THEN (IF gap THEN "" ELSE "-") \o SlugOf(DropN(x, 1), TRUE)
                       ELSE IF c \in Slugs THEN c \o SlugOf(DropN(x, 1), FALSE) ELSE SlugOf(DropN(x, 1), gap)
StripDash(x) == IF x # "" /\ Ch(x, 1) \in {"-", "_"} THEN StripDash(DropN(x, 1)) ELSE x
StripDashR(x) == IF x # "" /\ Ch(x, Len(x)) \in {"-", "_"} THEN StripDashR(SubSeq(x, 1, Len(x) - 1)) ELSE x
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Without(x, c) == IF x = "" THEN "" ELSE (IF Ch(x, 1) = c THEN "" ELSE Ch(x, 1)) \o Without(DropN(x, 1), c)
CountWords(x, in) == IF x = "" THEN 0 ELSE IF WS(Ch(x, 1)) THEN CountWords(DropN(x, 1), FALSE) ELSE (IF in THEN 0 ELSE 1) + CountWords(DropN(x, 1), TRUE)
DjOf(x) == CASE f.name = "cut" -> Without(x, f.arg)
             [] f.name = "capfirst" -> IF x = "" THEN "" ELSE Up(Ch(x, 1)) \o DropN(x, 1)
             [] f.name = "lower" -> out
             [] f.name = "upper" -> out
             [] f.name = "truncatechars" -> IF Len(x) <= f.num THEN x ELSE SubSeq(x, 1, f.num - 1) \o "~"
             [] f.name = "ljust" -> x \o Spaces(f.num - Len(x))
             [] f.name = "rjust" -> Spaces(f.num - Len(x)) \o x
             [] f.name = "wordcount" -> ToString(CountWords(x, FALSE))
             [] f.name = "length" -> ToString(Len(x))
             [] f.name = "add" -> x \o f.arg
             [] f.name = "first" -> IF x = "" THEN "" ELSE Ch(x, 1)
             [] f.name = "last" -> IF x = "" THEN "" ELSE Ch(x, Len(x))
             [] f.name = "default" -> IF x = "" THEN f.arg ELSE x
             [] f.name = "slugify" -> StripDashR(StripDash(SlugOf(x, FALSE)))
             [] f.name = "ordinal" -> IF x = "" THEN "" ELSE x \o (IF Len(x) > 1 /\ Ch(x, Len(x) - 1) = "1" THEN "th" ELSE CASE Ch(x, Len(x)) = "1" -> "st" [] Ch(x, Len(x)) = "2" -> "nd" [] Ch(x, Len(x)) = "3" -> "rd" [] OTHER -> "th")

Reader == f.fn \in {"merge", "inline", "lower", "upper", "unique", "dedent", "crop", "doctype", "dj"}
Alphabet == Range(f.alpha)

(* what the reader holds after one more character *)
Start == CASE f.fn = "merge" -> [o |-> "", a |-> FALSE]
         [] f.fn \in {"unique", "dedent"} -> [o |-> <<>>, a |-> FALSE]
         [] OTHER -> [o |-> "", a |-> FALSE]
Read(c) ==
    CASE f.fn = "merge" ->          \* aux: a gap is pending
           IF WS(c) THEN [o |-> out, a |-> out # ""] ELSE [o |-> out \o (IF aux THEN " " ELSE "") \o c, a |-> FALSE]
      [] f.fn = "inline" -> [o |-> out \o (IF c = "\n" THEN "&#10;" ELSE c), a |-> FALSE]
      [] f.fn = "lower" \/ (f.fn = "dj" /\ f.name = "lower") -> [o |-> out \o Low(c), a |-> FALSE]
      [] f.fn = "upper" \/ (f.fn = "dj" /\ f.name = "upper") -> [o |-> out \o Up(c), a |-> FALSE]
      [] OTHER           -> [o |-> out, a |-> FALSE]

Init == /\ \E k \in DOMAIN In.funs : f = In.funs[k]
        /\ \/ s = "" /\ todo = "" /\ ~(Reader /\ f.given)
           \/ s = "" /\ Reader /\ f.given /\ \E k \in f.lo..f.hi : todo = In.texts[k]
        /\ out = (IF Reader THEN Start.o ELSE <<>>) /\ aux = FALSE
Consume(c) == /\ s' = s \o c /\ out' = Read(c).o /\ aux' = Read(c).a /\ UNCHANGED f
Grow == /\ Reader /\ ~f.given /\ Len(s) < f.max /\ \E c \in Alphabet : Consume(c)
        /\ UNCHANGED todo
Feed == /\ Reader /\ f.given /\ todo # "" /\ Consume(Ch(todo, 1)) /\ todo' = DropN(todo, 1)
Produce ==
    /\ f.fn = "cycle" /\ f.ok /\ Len(out) < f.take /\ (CycleLen < 0 \/ Len(out) < CycleLen)
    /\ out' = Append(out, CycleAt(Len(out) + 1)) /\ UNCHANGED <<f, s, aux, todo>>
Change ==
    /\ f.fn = "changes" /\ Len(out) < Len(f.seqs[1])
    /\ LET i == Len(out) + 1 IN
       out' = Append(out, <<f.seqs[1][i], IF i = 1 THEN f.first ELSE IF f.seqs[1][i] # f.seqs[1][i - 1] THEN "True" ELSE "False">>)
    /\ UNCHANGED <<f, s, aux, todo>>
Next == Grow \/ Feed \/ Produce \/ Change
Spec == Init /\ [][Next]_vars

Failure == IF f.fn = "crop" /\ CropBad THEN TRUE ELSE IF f.fn = "cycle" THEN ~f.ok ELSE FALSE
Result ==
    CASE f.fn = "crop" -> IF CropBad THEN "" ELSE CropOf(s)
      [] f.fn = "unique" -> StrJoin(UniqueOf(IF f.strip THEN SelectSeq([i \in DOMAIN TextLines(s) |-> Strip(TextLines(s)[i])], LAMBDA x : x # "") ELSE TextLines(s), {}), "\n")
      [] f.fn = "dedent" -> IF f.full THEN StrJoin([i \in DOMAIN TSplit(s) |-> DropN(TSplit(s)[i], LeadLen(TSplit(s)[i], 1))], "\n")
                            ELSE StrJoin(DelIndent(TSplit(s), GetIndent(TSplit(s))), "\n")
      [] f.fn = "dj" -> DjOf(s)
      [] f.fn = "doctype" -> "<!DOCTYPE " \o f.value \o ">"
      [] OTHER -> out
Done == IF Reader THEN ~f.given \/ todo = "" ELSE IF f.fn = "cycle" THEN ~f.ok \/ Len(out) = f.take \/ Len(out) = CycleLen ELSE Len(out) = Len(f.seqs[1])
Emit == Done => PrintT("@" \o ToJson([f |-> f, s |-> s, bad |-> Failure, r |-> IF Failure THEN out ELSE Result]))

---------------------------------------------------------------------------
(* What the documentation promises *)
IsPrefix(p, x) == PrefixOf(p, x)
IsSuffix(p, x) == Len(p) <= Len(x) /\ SubSeq(x, Len(x) - Len(p) + 1, Len(x)) = p
RECURSIVE NoGap(_)
NoGap(x) == Len(x) < 2 \/ (~(WS(Ch(x, 1)) /\ WS(Ch(x, 2))) /\ NoGap(DropN(x, 1)))
RECURSIVE Words(_, _)
Words(x, cur) == IF x = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
                 ELSE IF WS(Ch(x, 1)) THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Words(DropN(x, 1), "") ELSE Words(DropN(x, 1), cur \o Ch(x, 1))
DjContract == f.fn = "dj" /\ Done =>
    LET r == DjOf(s) IN
    /\ (f.name = "cut" => ~\E i \in 1..Len(r) : Ch(r, i) = f.arg)
    /\ (f.name = "truncatechars" => Len(r) <= f.num)
    /\ (f.name \in {"ljust", "rjust"} => Strip(r) = Strip(s) /\ Len(r) = MaxOf({Len(s), f.num}))
    /\ (f.name = "slugify" => \A i \in 1..Len(r) : Ch(r, i) \in Slugs /\ (i < Len(r) => ~(Ch(r, i) = "-" /\ Ch(r, i + 1) = "-")))
MergeContract == f.fn = "merge" /\ Done => out = Strip(out) /\ NoGap(out) /\ ~\E i \in 1..Len(out) : Ch(out, i) \in {"\t", "\n"} /\ Words(out, "") = Words(s, "") /\ out = StrJoin(Words(s, ""), " ")
InlineContract == f.fn = "inline" /\ Done => StrJoin(TSplit(s), "&#10;") = out
CaseContract == f.fn \in {"lower", "upper"} /\ Done => Len(out) = Len(s) /\ \A i \in 1..Len(s) : Ch(out, i) = IF f.fn = "lower" THEN Low(Ch(s, i)) ELSE Up(Ch(s, i))
CropContract == f.fn = "crop" /\ Done /\ ~CropBad =>
    LET r == CropOf(s) IN
    /\ Len(r) <= f.length + f.leeway
    /\ (Len(s) <= f.length + f.leeway <=> (r = s /\ Len(s) <= f.length + f.leeway))
    /\ (Len(s) > f.length + f.leeway =>
          /\ Len(r) <= f.length /\ IsSuffix(f.end, r)
          /\ LET p == SubSeq(r, 1, Len(r) - Len(f.end)) IN
             /\ IsPrefix(p, s)
             /\ (f.killwords => Len(r) = f.length)
             /\ Len(p) >= f.length - Len(f.end) - f.maxdrop                 \* no more than maxdrop characters are lost
             /\ (Len(r) < f.length => Ch(s, Len(p) + 1) = " " /\ ~\E i \in Len(p) + 2..f.length - Len(f.end) : Ch(s, i) = " "))
UniqueContract == f.fn = "unique" /\ Done =>
    LET q == IF f.strip THEN SelectSeq([i \in DOMAIN TextLines(s) |-> Strip(TextLines(s)[i])], LAMBDA x : x # "") ELSE TextLines(s)
        u == UniqueOf(q, {})
    IN /\ Range(u) = Range(q)
       /\ \A i, j \in DOMAIN u : i # j => u[i] # u[j]
       /\ \A i, j \in DOMAIN u : i < j => (CHOOSE k \in DOMAIN q : q[k] = u[i] /\ \A m \in 1..k - 1 : q[m] # u[i]) < (CHOOSE k \in DOMAIN q : q[k] = u[j] /\ \A m \in 1..k - 1 : q[m] # u[j])
DedentContract == f.fn = "dedent" /\ Done =>
    LET a == TSplit(s) b == TSplit(Result) IN
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : Strip(a[i]) = Strip(b[i]) /\ IsSuffix(b[i], a[i])
    /\ (f.full => \A i \in DOMAIN b : b[i] = "" \/ ~IsSpace(Ch(b[i], 1)))
    /\ (~f.full /\ (\E w \in DOMAIN b : ~Blank(b[w])) => LET N == {x \in DOMAIN b : ~Blank(b[x])} IN
           \A y, z \in N : LeadLen(a[y], 1) - LeadLen(b[y], 1) = LeadLen(a[z], 1) - LeadLen(b[z], 1))
CycleContract == f.fn = "cycle" /\ f.ok =>
    /\ \A k \in DOMAIN out : Len(out[k]) = Len(f.seqs)
    /\ \A i \in DOMAIN f.seqs : \A k \in DOMAIN out : (k <= Len(f.seqs[i]) => out[k][i] = f.seqs[i][k]) /\ (k > Len(f.seqs[i]) => out[k][i] = out[k - Len(f.seqs[i])][i])
ChangesContract == f.fn = "changes" =>
    /\ [k \in DOMAIN out |-> out[k][1]] = SubSeq(f.seqs[1], 1, Len(out))
    /\ \A k \in DOMAIN out : k > 1 => (out[k][2] = "False" <=> out[k][1] = out[k - 1][1])
=============================================================================
