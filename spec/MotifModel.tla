----------------------------- MODULE MotifModel -----------------------------
(***************************************************************************)
(* The sliding window that counts temporal motifs, on every small set of    *)
(* timed edges: edges enter in groups of equal time, and leave in groups    *)
(* when they are more than delta behind.  What the window has counted at     *)
(* every step is what TemporalMotif defines.  Exports every edge set and     *)
(* delta: the harness counts motifs in them with the real function.          *)
(***************************************************************************)
EXTENDS TemporalMotif, TLC, Json

CONSTANTS V, Ts, MaxEdges, Deltas, Lengths

VARIABLES E, delta, n,      \* the edges, the longest span, the length of the motifs counted
          from, to,         \* the times of the window: from <= t < to, as indexes of the sorted times
          count             \* how many sequences of edges the window has seen, by the pairs they link
vars == <<E, delta, n, from, to, count>>

Key == V \X V \X Ts
Stamps == Times(E)
Nth(i) == CHOOSE t \in Stamps : Cardinality({s \in Stamps : s < t}) = i
Group(i) == {e \in E : e[3] = Nth(i)}
Last == Cardinality(Stamps)

Pairs(c) == [i \in DOMAIN c |-> <<c[i][1], c[i][2]>>]
Of(x) == IF x \in DOMAIN count THEN count[x] ELSE 0
Set(f, x, k) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN k ELSE f[y]]

(* a new group extends every sequence that is not complete, longest first, so that no sequence takes two edges of it *)
Enter(G) ==
  LET P == {<<e[1], e[2]>> : e \in G}
      longer == {Append(x, p) : x \in {y \in DOMAIN count : Len(y) < n}, p \in P}
      single == {<<p>> : p \in P}
  IN [y \in DOMAIN count \cup longer \cup single |->
        Of(y) + (IF y[Len(y)] \notin P THEN 0
                 ELSE IF Len(y) = 1 THEN 1
                 ELSE Of(SubSeq(y, 1, Len(y) - 1)))]
(* a group that leaves takes with it the incomplete sequences it begins, shortest first *)
RECURSIVE Leave(_, _, _)
Leave(c, P, k) ==
  IF k >= n THEN c
  ELSE Leave([y \in DOMAIN c |->
                IF Len(y) = k /\ y[1] \in P
                THEN c[y] - (IF k = 1 THEN 1 ELSE LET r == SubSeq(y, 2, k) IN IF r \in DOMAIN c THEN c[r] ELSE 0)
                ELSE c[y]], P, k + 1)

Init ==
  /\ E \in {S \in UNION {kSubset(k, Key) : k \in 1 .. MaxEdges} : TRUE}
  /\ delta \in Deltas /\ n \in Lengths
  /\ from = 0 /\ to = 0 /\ count = <<>>
TooOld == to < Last /\ from < to /\ Nth(from) + delta < Nth(to)
DropGroup == /\ TooOld
             /\ count' = Leave(count, {<<e[1], e[2]>> : e \in Group(from)}, 1)
             /\ from' = from + 1
             /\ UNCHANGED <<E, delta, n, to>>
TakeGroup == /\ to < Last /\ ~TooOld
             /\ count' = Enter(Group(to))
             /\ to' = to + 1
             /\ UNCHANGED <<E, delta, n, from>>
Next == DropGroup \/ TakeGroup
Spec == Init /\ [][Next]_vars

(*-------------------------------- laws -----------------------------------*)
Window == UNION {Group(i) : i \in from .. to - 1}
Seen == UNION {Group(i) : i \in 0 .. to - 1}
Span == IF E = {} THEN 0 ELSE Max(Stamps) - Min(Stamps)
(* incomplete sequences are those within the window, complete ones all that were *)
Exact ==
  \A k \in 1 .. n :
    LET C == Chains(IF k < n THEN Window ELSE Seen, k, IF k < n THEN Span ELSE delta)
    IN /\ {Pairs(c) : c \in C} \subseteq DOMAIN count
       /\ \A y \in DOMAIN count : Len(y) = k => count[y] = Cardinality({c \in C : Pairs(c) = y})
NeverNegative == \A y \in DOMAIN count : count[y] >= 0
NoLonger == \A y \in DOMAIN count : Len(y) <= n

(* an occurrence grows with delta, and the whole span allows every sequence *)
Total1(m, d) == Total(E, m, d)
Motifs == {<<<<1, 2>>>>, <<<<1, 2>>, <<2, 3>>>>, <<<<1, 2>>, <<2, 1>>>>, <<<<1, 2>>, <<1, 2>>>>, <<<<1, 1>>, <<1, 2>>>>}
Grows == to = 0 => \A m \in Motifs : Total1(m, delta) <= Total1(m, delta + 1) /\ Total1(m, 0) = (IF Len(m) = 1 THEN Total1(m, 9) ELSE 0)
(* every pair of edges at different times is an occurrence of exactly one shape *)
Shapes2 == {<<<<1, 1>>, <<1, 1>>>>, <<<<1, 1>>, <<1, 2>>>>, <<<<1, 1>>, <<2, 1>>>>, <<<<1, 1>>, <<2, 2>>>>,
            <<<<1, 1>>, <<2, 3>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<1, 2>>, <<2, 2>>>>, <<<<1, 2>>, <<3, 3>>>>,
            <<<<1, 2>>, <<1, 2>>>>, <<<<1, 2>>, <<2, 1>>>>, <<<<1, 2>>, <<1, 3>>>>, <<<<1, 2>>, <<3, 1>>>>,
            <<<<1, 2>>, <<2, 3>>>>, <<<<1, 2>>, <<3, 2>>>>, <<<<1, 2>>, <<3, 4>>>>}
ShapesPartition == to = 0 =>
  FoldSet(LAMBDA m, a : a + Total(E, m, delta), 0, Shapes2) = Cardinality(Chains(E, 2, delta))
(* occurrences counted by node sequence and by position add up *)
AddsUp == to = 0 => \A m \in Motifs :
  /\ LET B == BySequence(E, m, delta) IN FoldSet(LAMBDA s, a : a + B[s], 0, DOMAIN B) = Total(E, m, delta)
  /\ \A p \in {Flat(m)[i] : i \in 1 .. 2 * Len(m)} :
       FoldSet(LAMBDA x, a : a + ByPosition(E, m, delta, x, p), 0, V) = Total(E, m, delta)

Laws == Exact /\ NeverNegative /\ NoLonger /\ Grows /\ ShapesPartition /\ AddsUp

Export == (to = Last /\ n = Min(Lengths)) => PrintT("STATE " \o ToJson([es |-> E, delta |-> delta]))
=============================================================================
