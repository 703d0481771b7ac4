------------------------------ MODULE SnapGraph ------------------------------
(***************************************************************************)
(* State and transitions of SnapshotGraph and SnapshotDiGraph.             *)
(*                                                                         *)
(*  static graph  [dir, multi : BOOLEAN,                                   *)
(*                 nodes : node -> attributes,                             *)
(*                 edges : <<u, v, key>> -> attributes]                    *)
(*  (key 0 in a simple graph; an undirected edge has ordered endpoints)    *)
(*                                                                         *)
(*  snapshot graph: function  span <<s, e>> -> static graph; an instant is *)
(*  <<t, t>>, anything longer covers [s, e).                               *)
(***************************************************************************)
EXTENDS DynGraph, SequencesExt

(*---------------------------- static graphs ------------------------------*)
StaticEmpty(dir, multi) == [dir |-> dir, multi |-> multi, nodes |-> EmptyFn, edges |-> EmptyFn]

SPair(G, u, v) == IF G.dir \/ u <= v THEN <<u, v>> ELSE <<v, u>>
SNode(G, n, a) ==
  [G EXCEPT !.nodes = (n :> Merge(IF n \in DOMAIN G.nodes THEN G.nodes[n] ELSE {}, a)) @@ @]
Parallel(G, p) == {k \in DOMAIN G.edges : <<k[1], k[2]>> = p}
SEdge(G, u, v, a) ==
  LET G1 == SNode(SNode(G, u, {}), v, {})
      p == SPair(G, u, v)
      k == <<p[1], p[2], IF G.multi THEN Cardinality(Parallel(G, p)) ELSE 0>>
  IN [G1 EXCEPT !.edges = (k :> Merge(IF k \in DOMAIN G.edges THEN G.edges[k] ELSE {}, a)) @@ @]

(* nodes <<n, own>>, edges <<u, v, own>>; own attributes win over common a *)
RECURSIVE SNodes(_, _, _)
SNodes(G, ns, a) ==
  IF ns = <<>> THEN G ELSE SNodes(SNode(G, ns[1][1], Merge(a, Rng(ns[1][2]))), Tail(ns), a)
RECURSIVE SEdges(_, _, _)
SEdges(G, es, a) ==
  IF es = <<>> THEN G ELSE SEdges(SEdge(G, es[1][1], es[1][2], Merge(a, Rng(es[1][3]))), Tail(es), a)

FromEbunch(dir, multi, es) == SEdges(StaticEmpty(dir, multi), es, {})

Induced(G, N) ==
  [G EXCEPT !.nodes = [n \in DOMAIN @ \cap N |-> @[n]],
            !.edges = [k \in {x \in DOMAIN @ : x[1] \in N /\ x[2] \in N} |-> @[k]]]

(* what networkx reports about a static graph.  A number is <<"n", 16 * x,  *)
(* _>> as an attribute value; weights, sizes, degrees are 16-fold too.      *)
SOrder(G) == Cardinality(DOMAIN G.nodes)
Weight(G, k, w) ==   \* w is <<>> or <<name of the weight attribute>>
  IF w = <<>> THEN 16
  ELSE IF \E p \in G.edges[k] : p[1] = w[1] THEN (CHOOSE p \in G.edges[k] : p[1] = w[1])[2][2] ELSE 16
SSize(G, w) == MapThenSumSet(LAMBDA k : Weight(G, k, w), DOMAIN G.edges)
SDegree(G, n, w) ==
  MapThenSumSet(LAMBDA k : Weight(G, k, w), {k \in DOMAIN G.edges : k[1] = n})
  + MapThenSumSet(LAMBDA k : Weight(G, k, w), {k \in DOMAIN G.edges : k[2] = n})

(* conversion of one static graph; in a directed graph both orientations of *)
(* an undirected edge (a self-loop once), both with its attributes          *)
ToDirected(G) ==
  [G EXCEPT !.dir = TRUE,
            !.edges = [k \in DOMAIN G.edges \cup {<<x[2], x[1], x[3]>> : x \in DOMAIN G.edges} |->
                         IF k \in DOMAIN G.edges THEN G.edges[k]
                         ELSE G.edges[<<k[2], k[1], k[3]>>]]]
UPair(k) == IF k[1] <= k[2] THEN <<k[1], k[2]>> ELSE <<k[2], k[1]>>
(* is R an undirected version of the simple graph G?  where both            *)
(* orientations are linked each attribute comes from one of the two         *)
IsUndirectedOf(R, G) ==
  /\ R.dir = FALSE /\ R.multi = G.multi /\ R.nodes = G.nodes
  /\ IF ~G.dir THEN R.edges = G.edges
     ELSE /\ {UPair(k) : k \in DOMAIN R.edges} = {UPair(k) : k \in DOMAIN G.edges}
          /\ ~G.multi =>
             /\ Cardinality(DOMAIN R.edges) = Cardinality({UPair(k) : k \in DOMAIN G.edges})
             /\ \A k \in DOMAIN R.edges :
                  LET all == UNION {G.edges[x] : x \in {y \in DOMAIN G.edges : UPair(y) = UPair(k)}}
                  IN R.edges[k] \subseteq all /\ {p[1] : p \in R.edges[k]} = {p[1] : p \in all}

(*--------------------------- snapshot graphs -----------------------------*)
Instant(s) == s[1] = s[2]
Overlap(s, t) ==   \* do two spans share an instant?
  IF Instant(s) /\ Instant(t) THEN s = t
  ELSE IF Instant(s) THEN t[1] <= s[1] /\ s[1] < t[2]
  ELSE IF Instant(t) THEN s[1] <= t[1] /\ t[1] < s[2]
  ELSE s[1] < t[2] /\ t[1] < s[2]
Before(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
Disjoint(S) == \A s, t \in DOMAIN S : s # t => ~Overlap(s, t)

Order(S) == SetToSortSeq(DOMAIN S, Before)   \* spans in chronological order

Insert(S, s, e, G) == (<<s, e>> :> G) @@ S

(* does the span s meet the window?  bounds as in TimeWindows *)
SpanIn(s, b, e) ==
  /\ Given(e) => s[1] < e[1]
  /\ Given(b) => (s[2] > b[1] \/ s[1] >= b[1])
ByWindow(S, b, e) == SelectSeq(Order(S), LAMBDA s : SpanIn(s, b, e))
ByIndex(S, idx) == LET o == Order(S) IN [i \in DOMAIN idx |-> o[idx[i] + 1]]
Picked(S, sb, b, e) == IF Given(sb) THEN ByIndex(S, sb[1]) ELSE ByWindow(S, b, e)

(* cutting at t the snapshot that has t strictly inside it *)
CutSpans(s, t) == IF s[1] < t /\ t < s[2] THEN {<<s[1], t>>, <<t, s[2]>>} ELSE {s}
CutAt(S, t) ==
  LET D == UNION {CutSpans(s, t) : s \in DOMAIN S}
  IN [d \in D |-> S[CHOOSE s \in DOMAIN S : d \in CutSpans(s, t)]]
Cut(S, b, e) ==
  LET S1 == IF Given(b) THEN CutAt(S, b[1]) ELSE S
  IN IF Given(e) THEN CutAt(S1, e[1]) ELSE S1

(* apply f to the addressed snapshots *)
Within(s, b, e) ==
  /\ Given(b) => s[1] >= b[1]
  /\ Given(e) => s[1] < e[1]
Update(S, sb, b, e, f(_)) ==
  IF Given(sb)
  THEN LET K == Rng(ByIndex(S, sb[1])) IN [s \in DOMAIN S |-> IF s \in K THEN f(S[s]) ELSE S[s]]
  ELSE LET C == Cut(S, b, e) IN [s \in DOMAIN C |-> IF Within(s, b, e) THEN f(C[s]) ELSE C[s]]

UpdateNodes(S, sb, b, e, ns, a) == Update(S, sb, b, e, LAMBDA G : SNodes(G, ns, a))
UpdateEdges(S, sb, b, e, es, a) == Update(S, sb, b, e, LAMBDA G : SEdges(G, es, a))

(* the graph reported at an instant, <<>> if none *)
At(S, t) ==
  LET K == {s \in DOMAIN S : IF Instant(s) THEN s[1] = t ELSE s[1] <= t /\ t < s[2]}
  IN IF K = {} THEN <<>> ELSE <<S[CHOOSE s \in K : TRUE]>>
=============================================================================
