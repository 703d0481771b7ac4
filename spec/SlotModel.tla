------------------------------ MODULE SlotModel ------------------------------
(***************************************************************************)
(* All short sequences of small snapshots, and the interval graph each       *)
(* should become: a pair is linked throughout a slot exactly when the        *)
(* snapshot of the slot links it.  Checks that the relation used on the real  *)
(* results accepts the graph of longest runs and the graph of single slots,   *)
(* refuses any graph that lacks, adds or misplaces an edge, and that turning   *)
(* the graph into snapshots again tells the same links.  Exports the           *)
(* sequences: the harness builds the real graphs from them.                    *)
(***************************************************************************)
EXTENDS Projection, Json

CONSTANTS Dir, Pairs, MaxSlots, Begin, Period

TwoWays == {<<1, 2>>, <<2, 1>>, <<2, 2>>}
Few == {<<1, 2>>, <<2, 3>>, <<2, 2>>}
Signed == -2

VARIABLE snaps      \* sequence of sets of pairs
AddSlot == Len(snaps) < MaxSlots /\ \E P \in SUBSET Pairs : snaps' = Append(snaps, P)
Init == snaps = <<>>
Next == AddSlot
Spec == Init /\ [][Next]_snaps

Seqs == [i \in DOMAIN snaps |-> SetToSeq({<<p[1], p[2], <<>>>> : p \in snaps[i]})]
At(i) == Begin + Period * (i - 1)
Linked(i, p) == PairOf(Dir, p[1], p[2]) \in {PairOf(Dir, q[1], q[2]) : q \in snaps[i]}
AllPairs == {PairOf(Dir, p[1], p[2]) : p \in UNION Rng(snaps)}
E5(p, i, j) == <<p[1], p[2], At(i), At(j + 1), <<>>>>
Runs ==
  {E5(p, i, j) : <<p, i, j>> \in
     {t \in AllPairs \X (DOMAIN snaps) \X (DOMAIN snaps) :
        /\ t[2] <= t[3]
        /\ \A k \in t[2] .. t[3] : Linked(k, t[1])
        /\ t[2] = 1 \/ ~Linked(t[2] - 1, t[1])
        /\ t[3] = Len(snaps) \/ ~Linked(t[3] + 1, t[1])}}
Singles == {E5(p, i, i) : <<p, i>> \in {t \in AllPairs \X (DOMAIN snaps) : Linked(t[2], t[1])}}
Ok(E) == SlotsOk(Dir, Seqs, Begin, Period, E) /\ SlotAttrsOk(Dir, Seqs, Begin, Period, E)

Accepts == Ok(Runs) /\ Ok(Singles)
Discriminates ==
  /\ \A x \in Runs : ~Ok(Runs \ {x}) /\ ~Ok((Runs \ {x}) \cup {[x EXCEPT ![4] = @ + Period]})
                      /\ ~Ok((Runs \ {x}) \cup {[x EXCEPT ![3] = @ + Period]})
                      /\ ~Ok((Runs \ {x}) \cup {[x EXCEPT ![3] = @ + 1]})
  /\ Dir => \A x \in Runs : (x[1] # x[2] /\ ~\E y \in Runs : y[1] = x[2] /\ y[2] = x[1])
                              => ~Ok((Runs \ {x}) \cup {[x EXCEPT ![1] = x[2], ![2] = x[1]]})
  /\ \A i \in DOMAIN snaps, p \in {<<1, 1>>, <<1, 3>>, <<1, 2>>} : ~Linked(i, p) => ~Ok(Runs \cup {E5(p, i, i)})

Empty == EmptyGraph("interval", Dir, {})
GraphOf(E) == FromEdges(Empty, SetToSeq(E))
RunsMaximal == \A x, y \in Runs : (x # y /\ x[1] = y[1] /\ x[2] = y[2]) => x[4] < y[3] \/ y[4] < x[3]
(* back to snapshots: at every slot the same pairs are linked *)
ThereAndBack == Runs # {} =>
  LET g == GraphOf(Runs)
      sp == Spans(g)
  IN \A i \in DOMAIN snaps :
       LET J == {j \in DOMAIN sp : sp[j][1] <= At(i) /\ At(i) < sp[j][2]}
       IN IF J = {} THEN snaps[i] = {}
          ELSE \A j \in J : {<<k[1], k[2]>> : k \in SpanHits(g, sp[j])} = {PairOf(Dir, p[1], p[2]) : p \in snaps[i]}
SameNodes == NodesOf(GraphOf(Runs)) = Ends(UNION Rng(snaps))

Laws == Accepts /\ Discriminates /\ RunsMaximal /\ ThereAndBack /\ SameNodes
Export == PrintT("STATE " \o ToJson([kind |-> "slots", dir |-> Dir, snaps |-> snaps]))
=============================================================================
