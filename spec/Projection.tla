----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* Static projections of a dynamic graph, division into equal slices, and  *)
(* conversion to and from snapshot graphs and networkx graphs.             *)
(*                                                                         *)
(* A static (networkx) graph is observed as                                *)
(*   [dir, multi : BOOLEAN, nodes : Seq(<<n, attrs>>),                     *)
(*    edges : Seq(<<u, v, attrs, tb, te>>)]                                *)
(* where attrs is a sequence of <<key,value>> without the time attributes, *)
(* and tb / te are <<>> or <<time>>: the time attributes carried.          *)
(***************************************************************************)
EXTENDS DynGraph, SequencesExt

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, img, K) ==   \* the sequence s is the bag of images img[k], k in K
  /\ Len(s) = Cardinality(K)
  /\ \A x \in Rng(s) : Count(s, x) = Cardinality({k \in K : img[k] = x})

PairOf(dir, u, v) == IF dir \/ u <= v THEN <<u, v>> ELSE <<v, u>>

(* is the observed static graph r exactly the projection of the edges K?   *)
DirOk(g, r) == r.dir = g.dir
MultiOk(r, multi) == r.multi = multi
NodesOk(K, r) == /\ Len(r.nodes) = Cardinality(Ends(K))
                 /\ {x[1] : x \in Rng(r.nodes)} = Ends(K)
NodeDataOk(g, r, ndata) ==
  \A x \in Rng(r.nodes) : x[1] \in NodesOf(g) => Rng(x[2]) = (IF ndata THEN g.nodes[x[1]] ELSE {})

TimeAttrs(g, k, tdata) == IF ~tdata THEN <<<<>>, <<>>>>
                      ELSE IF g.kind = "interval" THEN <<<<k[3]>>, <<k[4]>>>>
                      ELSE <<<<k[3]>>, <<>>>>

MultiEdgesOk(g, K, r, edata, tdata) ==
  SameBag([i \in DOMAIN r.edges |->
             LET x == r.edges[i] IN <<PairOf(g.dir, x[1], x[2]), Rng(x[3]), <<x[4], x[5]>>>>],
          [k \in K |-> <<PairOf(g.dir, k[1], k[2]), IF edata THEN g.edges[k] ELSE {}, TimeAttrs(g, k, tdata)>>],
          K)

(* one edge per linked pair; where several edges link the pair, each       *)
(* requested attribute comes from one of them                              *)
SimpleEdgesOk(g, K, r, edata, tdata) ==
  LET obs == [i \in DOMAIN r.edges |-> PairOf(g.dir, r.edges[i][1], r.edges[i][2])]
      pairs == {PairOf(g.dir, k[1], k[2]) : k \in K}
  IN /\ Rng(obs) = pairs
     /\ Len(obs) = Cardinality(pairs)
     /\ \A i \in DOMAIN obs :
          LET x == r.edges[i]
              Kp == {k \in K : PairOf(g.dir, k[1], k[2]) = obs[i]}
              all == UNION {g.edges[k] : k \in Kp}
          IN /\ IF edata
                THEN /\ Rng(x[3]) \subseteq all
                     /\ {p[1] : p \in Rng(x[3])} = {p[1] : p \in all}
                     /\ \A p, q \in Rng(x[3]) : p[1] = q[1] => p = q
                ELSE x[3] = <<>>
             /\ \E k \in Kp : <<x[4], x[5]>> = TimeAttrs(g, k, tdata)

EdgesOk(g, K, r, multi, edata, tdata) ==
  IF multi THEN MultiEdgesOk(g, K, r, edata, tdata) ELSE SimpleEdgesOk(g, K, r, edata, tdata)

ProjectionOk(g, K, r, multi, edata, tdata, ndata) ==
  /\ DirOk(g, r) /\ MultiOk(r, multi) /\ NodesOk(K, r) /\ NodeDataOk(g, r, ndata)
  /\ EdgesOk(g, K, r, multi, edata, tdata)

(*------------------------------ slices -----------------------------------*)
(* The whole span [B, E] cut into n slices of length L = num/den; all times *)
(* are multiplied by den to stay integral.  The last slice has no end.     *)
Scale(g, den) == g.kind
SliceHits(g, B, num, den, n, i) ==    \* i in 0 .. n-1
  LET b == B * den + num * i
      e == B * den + num * (i + 1)
  IN {k \in EdgesOf(g) :
        IF g.kind = "interval"
        THEN Meets(k[3] * den, k[4] * den, <<b>>, IF i = n - 1 THEN <<>> ELSE <<e>>)
        ELSE InWindow(k[3] * den, <<b>>, IF i = n - 1 THEN <<>> ELSE <<e>>, <<TRUE, FALSE>>)}
CeilDiv(a, b) == (a + b - 1) \div b

(*------------------------- to_snapshot_graph -----------------------------*)
Sort(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

AllPositive(g) == \A k \in EdgesOf(g) : k[3] < k[4]
AllInstant(g)  == \A k \in EdgesOf(g) : k[3] = k[4]

(* the spans of the snapshots, in order *)
Spans(g) ==
  IF AllInstant(g)
  THEN LET T == Sort(Los(EdgesOf(g))) IN [i \in DOMAIN T |-> <<T[i], T[i]>>]
  ELSE LET T == Sort(Los(EdgesOf(g)) \cup His(EdgesOf(g)))
       IN [i \in 1 .. (Len(T) - 1) |-> <<T[i], T[i + 1]>>]

(* edges active throughout a span *)
SpanHits(g, s) ==
  {k \in EdgesOf(g) : IF s[1] = s[2] THEN k[3] = s[1] ELSE k[3] <= s[1] /\ k[4] >= s[2]}

SnapshotsOk(g, res, multi, edata, tdata, ndata) ==
  LET sp == Spans(g)
  IN /\ Len(res) = Len(sp)
     /\ \A i \in DOMAIN res :
          /\ <<res[i][1], res[i][2]>> = sp[i]
          /\ ProjectionOk(g, SpanHits(g, sp[i]), res[i][3], multi, edata, tdata, ndata)

(*--------------------------- from_networkx_graph -------------------------*)
(* each networkx edge <<u, v, lo, hi, attrs>> is added in turn             *)
RECURSIVE FromEdges(_, _)
FromEdges(g, es) ==
  IF es = <<>> THEN g
  ELSE FromEdges(AddEdge(g, es[1][1], es[1][2], es[1][3], es[1][4], Rng(es[1][5])), Tail(es))

(*--------------------------- from_snapshot_graph -------------------------*)
(* snapshot i (0-based) has the slot [b + i*p, b + (i+1)*p)                 *)
(* snaps: sequence of sequences of <<u, v, attrs>>                         *)
PairsIn(dir, snap) == {PairOf(dir, x[1], x[2]) : x \in Rng(snap)}
SlotsOk(dir, snaps, b, p, E) ==    \* E: set of <<u, v, lo, hi, attrs>> reported
  /\ \A x \in E : /\ x[3] < x[4]
                  /\ x[3] >= b /\ x[4] <= b + p * Len(snaps)
                  /\ (x[3] - b) % p = 0 /\ (x[4] - b) % p = 0
  /\ \A i \in DOMAIN snaps :
       LET lo == b + p * (i - 1)
       IN {PairOf(dir, x[1], x[2]) : x \in {y \in E : y[3] <= lo /\ y[4] >= lo + p}}
          = PairsIn(dir, snaps[i])
SlotAttrsOk(dir, snaps, b, p, E) ==
  \A x \in E : \E i \in DOMAIN snaps :
     /\ x[3] <= b + p * (i - 1) /\ x[4] >= b + p * i
     /\ \E y \in Rng(snaps[i]) : PairOf(dir, y[1], y[2]) = PairOf(dir, x[1], x[2])
                                 /\ Rng(y[3]) = Rng(x[5])
=============================================================================
