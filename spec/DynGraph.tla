------------------------------ MODULE DynGraph ------------------------------
(***************************************************************************)
(* State and transitions shared by the four edge-based graph classes       *)
(* (IntervalGraph, IntervalDiGraph, ImpulseGraph, ImpulseDiGraph), as pure  *)
(* functions on a graph value                                              *)
(*                                                                         *)
(*   [kind  |-> "interval" | "impulse",                                    *)
(*    dir   |-> BOOLEAN,                                                   *)
(*    nodes |-> function  node -> attributes,                              *)
(*    edges |-> function  <<u, v, lo, hi>> -> attributes,                  *)
(*    attr  |-> attributes of the graph]                                   *)
(*                                                                         *)
(* An impulse at t is <<u, v, t, t>>.  Attributes are sets of <<key,value>> *)
(* pairs with distinct keys.  In an undirected graph an edge is held under *)
(* its ordered endpoints, so that (u,v) and (v,u) name the same edge.      *)
(***************************************************************************)
EXTENDS TimeWindows, FiniteSets, FiniteSetsExt, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

Merge(old, new) == {p \in old : \A q \in new : q[1] # p[1]} \cup new

EmptyFn == [x \in {} |-> {}]

EmptyGraph(kind, dir, attr) ==
  [kind |-> kind, dir |-> dir, nodes |-> EmptyFn, edges |-> EmptyFn, attr |-> attr]

NodesOf(g) == DOMAIN g.nodes
EdgesOf(g) == DOMAIN g.edges

Key(g, u, v, lo, hi) == IF g.dir \/ u <= v THEN <<u, v, lo, hi>> ELSE <<v, u, lo, hi>>
Norm(g, k) == Key(g, k[1], k[2], k[3], k[4])

OldNode(g, n) == IF n \in NodesOf(g) THEN g.nodes[n] ELSE {}
OldEdge(g, k) == IF k \in EdgesOf(g) THEN g.edges[k] ELSE {}

(*----------------------------- selections --------------------------------*)
Linking(g, u, v) ==
  {k \in EdgesOf(g) : \/ k[1] = u /\ k[2] = v
                      \/ ~g.dir /\ k[1] = v /\ k[2] = u}
Into(g, n)  == {k \in EdgesOf(g) : k[2] = n \/ (~g.dir /\ k[1] = n)}
OutOf(g, n) == {k \in EdgesOf(g) : k[1] = n \/ (~g.dir /\ k[2] = n)}
Touching(g, n) == {k \in EdgesOf(g) : k[1] = n \/ k[2] = n}

(* edges by endpoints: us, vs are <<>> (not given) or <<set of nodes>>     *)
ByEnds(g, us, vs) ==
  {k \in EdgesOf(g) :
     IF g.dir
     THEN (Given(us) => k[1] \in us[1]) /\ (Given(vs) => k[2] \in vs[1])
     ELSE IF Given(us) /\ Given(vs)
          THEN (k[1] \in us[1] /\ k[2] \in vs[1]) \/ (k[2] \in us[1] /\ k[1] \in vs[1])
          ELSE /\ Given(us) => (k[1] \in us[1] \/ k[2] \in us[1])
               /\ Given(vs) => (k[1] \in vs[1] \/ k[2] \in vs[1])}

(* does edge k meet the window of a query?  inc only matters for impulses  *)
Hit(g, k, b, e, inc) ==
  IF g.kind = "interval" THEN Meets(k[3], k[4], b, e) ELSE InWindow(k[3], b, e, inc)
Hits(g, K, b, e, inc) == {k \in K : Hit(g, k, b, e, inc)}

Ends(K) == {k[1] : k \in K} \cup {k[2] : k \in K}

(*----------------------------- transitions -------------------------------*)
AddNode(g, n, a) == [g EXCEPT !.nodes = (n :> Merge(OldNode(g, n), a)) @@ @]

BadInterval(lo, hi) == lo > hi

AddEdge(g, u, v, lo, hi, a) ==
  IF BadInterval(lo, hi) THEN g
  ELSE LET k == Key(g, u, v, lo, hi)
           g1 == AddNode(AddNode(g, u, {}), v, {})
       IN [g1 EXCEPT !.edges = (k :> Merge(OldEdge(g, k), a)) @@ @]

(* nodes given one after the other as <<n, own attributes>>, plus common   *)
(* attributes: the own ones win                                            *)
RECURSIVE AddNodes(_, _, _)
AddNodes(g, ns, a) ==
  IF ns = <<>> THEN g
  ELSE AddNodes(AddNode(AddNode(g, ns[1][1], a), ns[1][1], Rng(ns[1][2])), Tail(ns), a)

(* edges one after the other; the first malformed or refused one stops     *)
WellFormed(e) == Len(e) = 4 /\ ~BadInterval(e[3], e[4])
RECURSIVE AddEdges(_, _, _)
AddEdges(g, es, a) ==
  IF es = <<>> THEN g
  ELSE IF ~WellFormed(es[1]) THEN g
  ELSE AddEdges(AddEdge(g, es[1][1], es[1][2], es[1][3], es[1][4], a), Tail(es), a)

Drop(g, K) == [g EXCEPT !.edges = [k \in (DOMAIN @) \ K |-> @[k]]]

RemoveEdge(g, u, v, b, e, inc) == Drop(g, Hits(g, Linking(g, u, v), b, e, inc))
RemoveExact(g, u, v, lo, hi)   == Drop(g, {Key(g, u, v, lo, hi)})

RemoveNode(g, n, b, e, inc) ==
  IF n \notin NodesOf(g) THEN g
  ELSE LET g1 == Drop(g, Hits(g, Touching(g, n), b, e, inc))
       IN IF Touching(g1, n) # {} THEN g1
          ELSE [g1 EXCEPT !.nodes = [m \in (DOMAIN @) \ {n} |-> @[m]]]

SetAttr(g, a) == [g EXCEPT !.attr = Merge(@, a)]

(*------------------------------- queries ---------------------------------*)
NodesAt(g, b, e, inc) ==
  IF ~Given(b) /\ ~Given(e) THEN NodesOf(g) ELSE Ends(Hits(g, EdgesOf(g), b, e, inc))

HasEdge(g, u, v, b, e, inc) == Hits(g, Linking(g, u, v), b, e, inc) # {}
HasExact(g, u, v, lo, hi)   == Key(g, u, v, lo, hi) \in EdgesOf(g)

Degree(g, n, dirn, b, e, inc) ==
  LET I == Cardinality(Hits(g, Into(g, n), b, e, inc))
      O == Cardinality(Hits(g, OutOf(g, n), b, e, inc))
  IN IF dirn = "in" THEN I ELSE IF dirn = "out" THEN O
     ELSE IF g.dir THEN I + O ELSE O

SumOver(f, S) == MapThenSumSet(LAMBDA x : f[x], S)

DegreeSum(g, dirn, b, e, inc) ==
  LET N == NodesAt(g, b, e, inc)
  IN SumOver([n \in N |-> Degree(g, n, dirn, b, e, inc)], N)

(* earliest and latest time over the edges *)
Los(K) == {k[3] : k \in K}
His(K) == {k[4] : k \in K}
MinOf(S) == Min(S)
MaxOf(S) == Max(S)
Bounds(g) == <<MinOf(Los(EdgesOf(g))), MaxOf(His(EdgesOf(g)))>>

(* the timestamps listed by unique_timestamps and its two variants         *)
Stamps(g, which, b, e, inc) ==
  IF EdgesOf(g) = {} THEN {}
  ELSE LET lo == IF Given(b) THEN b[1] ELSE Bounds(g)[1]
           hi == IF Given(e) THEN e[1] ELSE Bounds(g)[2]
           T  == (IF which # "end" THEN Los(EdgesOf(g)) ELSE {})
                 \cup (IF which # "begin" THEN His(EdgesOf(g)) ELSE {})
       IN {t \in T : Between(t, lo, hi, inc)}

(* degree changes over [b, e): one entry per selected edge that starts in   *)
(* it, one per selected edge that ends before e; an edge counted twice in a *)
(* directed degree (a self-loop) has its entries twice                     *)
Multiplicity(g, n, dirn, k) ==
  IF ~g.dir \/ dirn # "" THEN 1
  ELSE (IF k[1] = n THEN 1 ELSE 0) + (IF k[2] = n THEN 1 ELSE 0)
Selected(g, n, dirn, b, e, inc) ==
  Hits(g, IF dirn = "in" THEN Into(g, n)
          ELSE IF dirn = "out" THEN OutOf(g, n) ELSE Touching(g, n), b, e, inc)
CountAt(g, n, dirn, K) == SumOver([k \in K |-> Multiplicity(g, n, dirn, k)], K)

DeltaEntries(g, n, dirn, b, e, t) ==
  LET K == Selected(g, n, dirn, <<b>>, <<e>>, <<TRUE, FALSE>>)
  IN CountAt(g, n, dirn, {k \in K : k[3] = t /\ k[3] >= b})
     + CountAt(g, n, dirn, {k \in K : k[4] = t /\ k[4] < e})
DeltaTimes(g, n, dirn, b, e) ==
  LET K == Selected(g, n, dirn, <<b>>, <<e>>, <<TRUE, FALSE>>)
  IN {k[3] : k \in {x \in K : x[3] >= b}} \cup {k[4] : k \in {x \in K : x[4] < e}}
ActiveAt(g, n, dirn, t) ==
  CountAt(g, n, dirn, {k \in Selected(g, n, dirn, <<>>, <<>>, <<TRUE, FALSE>>) : k[3] <= t /\ t < k[4]})
=============================================================================
