----------------------------- MODULE GraphModel -----------------------------
(***************************************************************************)
(* All histories of a small graph, by the transitions of DynGraph.  Checks   *)
(* that what the specification says the queries answer obeys the laws the    *)
(* properties state, in every graph that can be reached, and that every      *)
(* transition changes only what it may.  Exports every reachable graph with  *)
(* a history leading to it and the removals possible in it: the harness      *)
(* replays them on the real classes.                                        *)
(***************************************************************************)
EXTENDS Projection, Json

CONSTANTS Kind, Dir,
          Nodes, Times,
          MaxEdges,
          Attrs,          \* attribute sets used when adding
          LoneNodes       \* BOOLEAN: add nodes by themselves too

NoAttrs == {{}}
SomeAttrs == {{<<"w", 1>>}, {<<"w", 2>>, <<"color", 1>>}}

VARIABLES g, hist
vars == <<g, hist>>
IsInterval == Kind = "interval"

Spans1 == {s \in Times \X Times : IF IsInterval THEN s[1] <= s[2] ELSE s[1] = s[2]}
Bnd == {<<>>} \cup {<<t>> : t \in Times}
Windows == {w \in Bnd \X Bnd : ~Reversed(w[1], w[2])}
Incs == IF IsInterval THEN {<<TRUE, FALSE>>} ELSE BOOLEAN \X BOOLEAN

Log(r) == hist' = Append(hist, r)

DoAddEdge ==
  \E u, v \in Nodes, s \in Spans1, a \in Attrs :
     /\ Cardinality(EdgesOf(g) \cup {Key(g, u, v, s[1], s[2])}) <= MaxEdges
     /\ g' = AddEdge(g, u, v, s[1], s[2], a)
     /\ Log([op |-> "add_edge", u |-> u, v |-> v, lo |-> s[1], hi |-> s[2], a |-> a])
DoAddNode ==
  \E n \in Nodes, a \in {{}} \cup {{p} : p \in {q \in UNION Attrs : q[2] = 2}} :
     /\ LoneNodes
     /\ g' = AddNode(g, n, a)
     /\ Log([op |-> "add_node", n |-> n, a |-> a])
EdgeRemovals ==
  {[op |-> "remove_edge", u |-> u, v |-> v, b |-> w[1], e |-> w[2], inc |-> i, exact |-> FALSE] :
     u \in Nodes, v \in Nodes, w \in Windows, i \in Incs}
ExactRemovals ==
  IF ~IsInterval THEN {} ELSE
  {[op |-> "remove_edge", u |-> u, v |-> v, b |-> <<s[1]>>, e |-> <<s[2]>>, inc |-> <<TRUE, FALSE>>,
    exact |-> TRUE] : u \in Nodes, v \in Nodes, s \in Spans1}
NodeRemovals ==
  {[op |-> "remove_node", n |-> n, b |-> w[1], e |-> w[2], inc |-> i] : n \in Nodes, w \in Windows, i \in Incs}
Removals == EdgeRemovals \cup ExactRemovals \cup NodeRemovals

Removed(x, r) ==
  IF r.op = "remove_node" THEN RemoveNode(x, r.n, r.b, r.e, r.inc)
  ELSE IF r.exact THEN RemoveExact(x, r.u, r.v, r.b[1], r.e[1])
  ELSE RemoveEdge(x, r.u, r.v, r.b, r.e, r.inc)

DoRemove ==
  \E r \in Removals :
     /\ Removed(g, r) # g
     /\ g' = Removed(g, r)
     /\ Log(r)

Init == g = EmptyGraph(Kind, Dir, {}) /\ hist = <<>>
Next == DoAddEdge \/ DoAddNode \/ DoRemove
Spec == Init /\ [][Next]_vars
View == g

(*-------------------------------- laws -----------------------------------*)
E0 == EdgesOf(g)
H(w, i) == Hits(g, E0, w[1], w[2], i)
Def == <<TRUE, FALSE>>

EndpointsAreNodes == Ends(E0) \subseteq NodesOf(g)
OneKeyPerEdge == \A k \in E0 : Norm(g, k) = k
OneValuePerName == \A k \in E0 : \A p, q \in g.edges[k] : p[1] = q[1] => p = q

(* a window divides at any time within it *)
WindowsDivide == \A w \in Windows, m \in Times :
  ((Given(w[1]) => w[1][1] <= m) /\ (Given(w[2]) => m <= w[2][1])) =>
     IF IsInterval
     THEN (w[1] # w[2] /\ w[2] = <<m>>) \/ H(w, Def) = H(<<w[1], <<m>>>>, Def) \cup H(<<<<m>>, w[2]>>, Def)
     ELSE \/ w[1] = <<m>> \/ w[2] = <<m>>
          \/ /\ H(w, Def) = H(<<w[1], <<m>>>>, Def) \cup H(<<<<m>>, w[2]>>, Def)
             /\ H(<<w[1], <<m>>>>, Def) \cap H(<<<<m>>, w[2]>>, Def) = {}
(* a wider window never loses an edge *)
WindowsGrow == \A w, x \in Windows : \A i \in Incs :
  (/\ (Given(x[1]) => Given(w[1]) /\ x[1][1] <= w[1][1])
   /\ (Given(x[2]) => Given(w[2]) /\ w[2][1] <= x[2][1])
   /\ (IF IsInterval THEN w[1] = w[2] /\ Given(w[1]) => (w = x \/ ~Given(x[2]) \/ w[2][1] < x[2][1])
       ELSE w[1] # w[2])) => H(w, i) \subseteq H(x, i)
NoWindowIsEverything == \A i \in Incs : H(<<<<>>, <<>>>>, i) = E0
PointQueries == \A t \in Times, i \in Incs :
  H(<<<<t>>, <<t>>>>, i) = IF IsInterval THEN {k \in E0 : k[3] = t \/ (k[3] < t /\ t < k[4])}
                           ELSE {k \in E0 : k[3] = t}

(* the queries agree with each other *)
QueriesAgree == \A w \in Windows, i \in Incs :
  /\ \A u, v \in Nodes :
       HasEdge(g, u, v, w[1], w[2], i)
         <=> Hits(g, ByEnds(g, <<{u}>>, <<{v}>>), w[1], w[2], i) # {}
  /\ \A n \in Nodes : (Given(w[1]) \/ Given(w[2])) =>
       (n \in NodesAt(g, w[1], w[2], i) <=> Degree(g, n, "", w[1], w[2], i) > 0)
  /\ NodesAt(g, w[1], w[2], i) \subseteq NodesOf(g)
Symmetric == ~Dir => \A us, vs \in SUBSET Nodes : ByEnds(g, <<us>>, <<vs>>) = ByEnds(g, <<vs>>, <<us>>)

(* every edge is counted at both its ends *)
Handshake == \A w \in Windows, i \in Incs :
  LET K == H(w, i)
      loops == Cardinality({k \in K : k[1] = k[2]})
      sum(d) == SumOver([n \in NodesOf(g) |-> Degree(g, n, d, w[1], w[2], i)], NodesOf(g))
  IN IF Dir THEN /\ sum("in") = Cardinality(K) /\ sum("out") = Cardinality(K)
                 /\ sum("") = 2 * Cardinality(K)
     ELSE sum("") = 2 * Cardinality(K) - loops

(* the degree changes add up to the degrees *)
ChangesAddUp == (IsInterval /\ E0 # {} /\ AllPositive(g)) =>
  \A n \in NodesOf(g), t \in Times, d \in (IF Dir THEN {"", "in", "out"} ELSE {""}) :
     ActiveAt(g, n, d, t) = Degree(g, n, d, <<t>>, <<t>>, Def)

BoundsTight == E0 # {} =>
  LET bd == Bounds(g)
  IN /\ \A k \in E0 : bd[1] <= k[3] /\ k[4] <= bd[2]
     /\ Stamps(g, "all", <<>>, <<>>, <<TRUE, TRUE>>) = Los(E0) \cup His(E0)
     /\ bd[1] \in Stamps(g, "begin", <<>>, <<>>, <<TRUE, TRUE>>)
     /\ bd[2] \in Stamps(g, "end", <<>>, <<>>, <<TRUE, TRUE>>)

(* equal slices lose no edge, and an impulse is in exactly one *)
SlicesCover == E0 # {} => \A n \in 2 .. 4 :
  LET bd == Bounds(g)
      S(j) == SliceHits(g, bd[1], bd[2] - bd[1], n, n, j)
      on == {j \in 0 .. n - 1 : TRUE}
  IN bd[1] < bd[2] => \A k \in E0 :
       /\ \E j \in on : k \in S(j)
       /\ ~IsInterval => Cardinality({j \in on : k \in S(j)}) = 1

(* the snapshots of to_snapshot_graph tell who is linked when *)
SnapshotsPartition == (E0 # {} /\ (~IsInterval \/ AllPositive(g) \/ AllInstant(g))) =>
  LET sp == Spans(g)
  IN /\ \A j \in 1 .. (Len(sp) - 1) : sp[j][2] <= sp[j + 1][1]
     /\ ~AllInstant(g) =>
          /\ sp[1][1] = Bounds(g)[1] /\ sp[Len(sp)][2] = Bounds(g)[2]
          /\ \A j \in 1 .. (Len(sp) - 1) : sp[j][2] = sp[j + 1][1]
          /\ \A k \in E0 : {t \in Bounds(g)[1] .. Bounds(g)[2] - 1 : k[3] <= t /\ t < k[4]}
               = {t \in Bounds(g)[1] .. Bounds(g)[2] - 1 :
                    \E j \in DOMAIN sp : sp[j][1] <= t /\ t < sp[j][2] /\ k \in SpanHits(g, sp[j])}
     /\ AllInstant(g) => \A k \in E0 : Cardinality({j \in DOMAIN sp : k \in SpanHits(g, sp[j])}) = 1

Laws ==
  /\ EndpointsAreNodes /\ OneKeyPerEdge /\ OneValuePerName
  /\ WindowsDivide /\ WindowsGrow /\ NoWindowIsEverything /\ PointQueries
  /\ QueriesAgree /\ Symmetric /\ Handshake /\ ChangesAddUp /\ BoundsTight
  /\ SlicesCover /\ SnapshotsPartition

(*--------------------------- transition laws ------------------------------*)
Other(k) == k \in EdgesOf(g') => g'.edges[k] = g.edges[k]
Did == hist'[Len(hist')]
AddsOne == [][hist' # hist /\ Did.op = "add_edge" =>
  LET k == Key(g, Did.u, Did.v, Did.lo, Did.hi)
  IN /\ EdgesOf(g') = EdgesOf(g) \cup {k}
     /\ \A x \in EdgesOf(g) \ {k} : Other(x)
     /\ NodesOf(g') = NodesOf(g) \cup {Did.u, Did.v}
     /\ \A n \in NodesOf(g) : g'.nodes[n] = g.nodes[n]
     /\ \A p \in Did.a : p \in g'.edges[k]
     /\ AddEdge(g', Did.u, Did.v, Did.lo, Did.hi, Did.a) = g'
     /\ Dir \/ AddEdge(g, Did.v, Did.u, Did.lo, Did.hi, Did.a).edges = g'.edges]_vars
RemovesOnlyHits == [][hist' # hist /\ Did.op = "remove_edge" =>
  /\ \A x \in EdgesOf(g') : Other(x)
  /\ g'.nodes = g.nodes
  /\ ~Did.exact => EdgesOf(g) \ EdgesOf(g') = Hits(g, Linking(g, Did.u, Did.v), Did.b, Did.e, Did.inc)
  /\ ~Did.exact => ~HasEdge(g', Did.u, Did.v, Did.b, Did.e, Did.inc)
  /\ Did.exact => Cardinality(EdgesOf(g)) - Cardinality(EdgesOf(g')) = 1]_vars
RemovesNodeOnly == [][hist' # hist /\ Did.op = "remove_node" =>
  /\ \A x \in EdgesOf(g') : Other(x)
  /\ EdgesOf(g) \ EdgesOf(g') = Hits(g, Touching(g, Did.n), Did.b, Did.e, Did.inc)
  /\ NodesOf(g) \ NodesOf(g') \subseteq {Did.n}
  /\ Did.n \in NodesOf(g') <=> Touching(g', Did.n) # {}
  /\ \A n \in NodesOf(g') : g'.nodes[n] = g.nodes[n]]_vars

(* the first line describes the model and lists the removals to try in every graph *)
Export == PrintT("STATE " \o
  IF hist = <<>>
  THEN ToJson([kind |-> Kind, dir |-> Dir, nodes |-> Cardinality(Nodes), times |-> Cardinality(Times),
               tries |-> EdgeRemovals \cup ExactRemovals \cup NodeRemovals, hist |-> hist])
  ELSE ToJson([hist |-> hist]))
=============================================================================
