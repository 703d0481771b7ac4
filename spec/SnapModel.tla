------------------------------ MODULE SnapModel ------------------------------
(***************************************************************************)
(* All histories of a small snapshot graph by the transitions of SnapGraph.  *)
(* Checks the laws of C12 and C13 in every reachable state and for every     *)
(* update, and exports each state with a history that leads to it and the    *)
(* updates possible in it, which the harness replays on the real classes.    *)
(***************************************************************************)
EXTENDS SnapGraph, Json

CONSTANTS Dir, Times, MaxSnaps, MaxOps

VARIABLES S, hist
vars == <<S, hist>>

One == <<"w", <<"n", 16, "">>>>
Bunches == {<<>>, <<<<1, 2, <<>>>>>>, <<<<2, 1, <<One>>>>, <<2, 2, <<>>>>>>}
Spans0 == {s \in Times \X Times : s[1] <= s[2]}
Bnd == {<<>>} \cup {<<t>> : t \in Times}
Windows == {w \in Bnd \X Bnd : Given(w[1]) /\ Given(w[2]) => w[1][1] < w[2][1]}

Inserts == {[op |-> "add", s |-> s[1], e |-> s[2], es |-> es] : s \in Spans0, es \in Bunches}
Nothing == [sb |-> <<>>, b |-> <<>>, e |-> <<>>]
Addresses == {[Nothing EXCEPT !.b = w[1], !.e = w[2]] : w \in Windows}
               \cup {[Nothing EXCEPT !.sb = <<<<i>>>>] : i \in 0 .. MaxSnaps - 1}
               \cup {[Nothing EXCEPT !.sb = <<<<1, 0>>>>]}
NodeUpdates == {[op |-> "add_nodes", at |-> x, ns |-> <<<<3, <<One>>>>>>] : x \in Addresses}
EdgeUpdates == {[op |-> "add_edges", at |-> x, es |-> es] : x \in Addresses,
                es \in {<<<<1, 2, <<One>>>>>>, <<<<2, 3, <<>>>>, <<3, 2, <<One>>>>>>}}
Updates == NodeUpdates \cup EdgeUpdates

Fits(r) == Given(r.at.sb) => \A i \in DOMAIN r.at.sb[1] : r.at.sb[1][i] < Cardinality(DOMAIN S)
F(r, G) == IF r.op = "add_nodes" THEN SNodes(G, r.ns, {}) ELSE SEdges(G, r.es, {})
Updated(x, r) == Update(x, r.at.sb, r.at.b, r.at.e, LAMBDA G : F(r, G))

Init == S = EmptyFn /\ hist = <<>>
DoAdd == \E r \in Inserts :
  /\ Len(hist) < MaxOps /\ Cardinality(DOMAIN S) < MaxSnaps
  /\ \A s \in DOMAIN S : ~Overlap(s, <<r.s, r.e>>)
  /\ S' = Insert(S, r.s, r.e, FromEbunch(Dir, FALSE, r.es))
  /\ hist' = Append(hist, r)
DoUpdate == \E r \in Updates :
  /\ Len(hist) < MaxOps /\ DOMAIN S # {} /\ Fits(r)
  /\ S' = Updated(S, r)
  /\ S' # S
  /\ hist' = Append(hist, r)
Next == DoAdd \/ DoUpdate
Spec == Init /\ [][Next]_vars
View == S

(*-------------------------------- laws -----------------------------------*)
Points == Min(Times) - 1 .. Max(Times) + 1
Covers(s, t) == IF Instant(s) THEN s[1] = t ELSE s[1] <= t /\ t < s[2]
NoOverlap == Disjoint(S)
InOrder == \A i \in 1 .. (Cardinality(DOMAIN S) - 1) :
  LET o == Order(S) IN o[i][2] <= o[i + 1][1] /\ Before(o[i], o[i + 1])
OneGraphAtATime == \A t \in Points : Cardinality({s \in DOMAIN S : Covers(s, t)}) <= 1
(* retrieval by window: the snapshots with an instant in it, in order *)
RetrievesWindow == \A w \in Windows :
  ByWindow(S, w[1], w[2])
    = SelectSeq(Order(S), LAMBDA s : \E t \in Points :
        Covers(s, t) /\ (Given(w[1]) => w[1][1] <= t) /\ (Given(w[2]) => t < w[2][1]))
CuttingKeepsTheGraph == \A t \in Times, u \in Points :
  /\ At(CutAt(S, t), u) = At(S, u)
  /\ Disjoint(CutAt(S, t))
  /\ CutAt(CutAt(S, t), t) = CutAt(S, t)
Laws == NoOverlap /\ InOrder /\ OneGraphAtATime /\ RetrievesWindow /\ CuttingKeepsTheGraph

Did == hist'[Len(hist')]
In(x, t) == (Given(x.b) => x.b[1] <= t) /\ (Given(x.e) => t < x.e[1])
UpdatesPointwise == [][hist' # hist /\ Did.op \in {"add_nodes", "add_edges"} =>
  \A t \in Points :
    At(S', t) = IF At(S, t) = <<>> THEN <<>>
                ELSE IF Given(Did.at.sb)
                THEN LET s == CHOOSE x \in DOMAIN S : Covers(x, t)
                     IN IF \E i \in DOMAIN Did.at.sb[1] : Order(S)[Did.at.sb[1][i] + 1] = s
                        THEN <<F(Did, At(S, t)[1])>> ELSE At(S, t)
                ELSE IF In(Did.at, t) THEN <<F(Did, At(S, t)[1])>> ELSE At(S, t)]_vars
AddsOne == [][hist' # hist /\ Did.op = "add" =>
  /\ DOMAIN S' = DOMAIN S \cup {<<Did.s, Did.e>>}
  /\ \A s \in DOMAIN S : S'[s] = S[s]]_vars

Export == PrintT("STATE " \o
  IF hist = <<>>
  THEN ToJson([kind |-> "snapshot", dir |-> Dir, nodes |-> 3, times |-> Cardinality(Times), tries |-> Updates,
               hist |-> hist])
  ELSE ToJson([hist |-> hist]))
=============================================================================
