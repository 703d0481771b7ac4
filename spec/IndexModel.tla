----------------------------- MODULE IndexModel -----------------------------
(***************************************************************************)
(* The time index of the interval graphs: a binary search tree over the     *)
(* distinct intervals, ordered by (begin, end), balanced by rotations, each  *)
(* node knowing the latest end in its subtree.  Searching it must find       *)
(* exactly the intervals that meet the window, whatever was put in and taken *)
(* out before (C22, C02, C04).                                              *)
(*                                                                         *)
(* A tree is <<>> or <<k, left, right, height, max>>.                        *)
(* Every distinct tree is exported with a history that leads to it; the      *)
(* harness replays the history on the real graph and queries every window.   *)
(***************************************************************************)
EXTENDS DynGraph, Json

CONSTANTS Times,      \* begin and end times
          Short,      \* longest interval looked at
          MaxHeld,    \* intervals held at once
          MaxOps      \* operations

Keys == {k \in Times \X Times : k[1] <= k[2] /\ k[2] - k[1] <= Short}
           \cup {<<Min(Times), Max(Times)>>}

VARIABLES tree, held, ops
vars == <<tree, held, ops>>

K(t) == t[1]
L(t) == t[2]
R(t) == t[3]
H(t) == IF t = <<>> THEN 0 ELSE t[4]
M(t) == t[5]
Bal(t) == H(L(t)) - H(R(t))

Larger(a, b) == IF a > b THEN a ELSE b
MaxIn(k, l, r) ==
  LET x == IF l = <<>> THEN k[2] ELSE Larger(k[2], M(l))
  IN IF r = <<>> THEN x ELSE Larger(x, M(r))
Mk(k, l, r) == <<k, l, r, 1 + Larger(H(l), H(r)), MaxIn(k, l, r)>>
Leaf(k) == <<k, <<>>, <<>>, 0, k[2]>>

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

RotLeft(t)  == Mk(K(R(t)), Mk(K(t), L(t), L(R(t))), R(R(t)))
RotRight(t) == Mk(K(L(t)), L(L(t)), Mk(K(t), R(L(t)), R(t)))

RECURSIVE Insert(_, _)
Insert(t, k) ==
  IF t = <<>> THEN Leaf(k)
  ELSE LET u == IF Before(k, K(t)) THEN Mk(K(t), Insert(L(t), k), R(t))
                ELSE Mk(K(t), L(t), Insert(R(t), k))
       IN IF Bal(u) > 1
          THEN RotRight(IF R(L(u)) # <<>> /\ K(R(L(u))) = k THEN Mk(K(u), RotLeft(L(u)), R(u)) ELSE u)
          ELSE IF Bal(u) < -1
          THEN RotLeft(IF L(R(u)) # <<>> /\ K(L(R(u))) = k THEN Mk(K(u), L(u), RotRight(R(u))) ELSE u)
          ELSE u

RECURSIVE First(_)
First(t) == IF L(t) = <<>> THEN K(t) ELSE First(L(t))

RECURSIVE Discard(_, _)
Discard(t, k) ==
  IF K(t) = k /\ (L(t) = <<>> \/ R(t) = <<>>)
  THEN IF L(t) # <<>> THEN L(t) ELSE R(t)
  ELSE LET u == IF K(t) = k THEN Mk(First(R(t)), L(t), Discard(R(t), First(R(t))))
                ELSE IF Before(k, K(t)) THEN Mk(K(t), Discard(L(t), k), R(t))
                ELSE Mk(K(t), L(t), Discard(R(t), k))
       IN IF Bal(u) > 1
          THEN RotRight(IF Bal(L(u)) < 0 THEN Mk(K(u), RotLeft(L(u)), R(u)) ELSE u)
          ELSE IF Bal(u) < -1
          THEN RotLeft(IF Bal(R(u)) > 0 THEN Mk(K(u), L(u), RotRight(R(u))) ELSE u)
          ELSE u

(* what a search visits and reports *)
RECURSIVE Found(_, _, _)
Found(t, b, e) ==
  (IF L(t) # <<>> /\ (Given(b) => M(L(t)) >= b[1]) THEN Found(L(t), b, e) ELSE {})
  \cup (IF Meets(K(t)[1], K(t)[2], b, e) THEN {K(t)} ELSE {})
  \cup (IF R(t) # <<>> /\ (Given(e) => K(t)[1] <= e[1]) /\ (Given(b) => M(R(t)) >= b[1])
        THEN Found(R(t), b, e) ELSE {})
Search(t, b, e) == IF t = <<>> THEN {} ELSE Found(t, b, e)

(*------------------------------ behaviour --------------------------------*)
Init == tree = <<>> /\ held = {} /\ ops = <<>>
Put(k) == /\ Len(ops) < MaxOps /\ Cardinality(held) < MaxHeld /\ k \notin held
          /\ tree' = Insert(tree, k)
          /\ held' = held \cup {k}
          /\ ops' = Append(ops, <<"put", k[1], k[2]>>)
Take(k) == /\ Len(ops) < MaxOps /\ k \in held
           /\ tree' = Discard(tree, k)
           /\ held' = held \ {k}
           /\ ops' = Append(ops, <<"take", k[1], k[2]>>)
DoPut == \E k \in Keys : Put(k)
DoTake == \E k \in Keys : Take(k)
Next == DoPut \/ DoTake
Spec == Init /\ [][Next]_vars
View == tree

(*------------------------------ properties -------------------------------*)
RECURSIVE InOrder(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(L(t)) \o <<K(t)>> \o InOrder(R(t))
RECURSIVE MaxRight(_)
MaxRight(t) == t = <<>> \/ /\ M(t) = Max({InOrder(t)[i][2] : i \in DOMAIN InOrder(t)})
                           /\ MaxRight(L(t)) /\ MaxRight(R(t))

Holds == Rng(InOrder(tree)) = held /\ Len(InOrder(tree)) = Cardinality(held)
Sorted == \A i \in 1 .. (Len(InOrder(tree)) - 1) : Before(InOrder(tree)[i], InOrder(tree)[i + 1])
LatestEnds == MaxRight(tree)
Bnd == {<<>>} \cup {<<t>> : t \in Times}
SearchExact == \A b \in Bnd, e \in Bnd :
  ~Reversed(b, e) => Search(tree, b, e) = {k \in held : Meets(k[1], k[2], b, e)}

Export == PrintT("STATE " \o
  IF ops = <<>>
  THEN ToJson([kind |-> "interval", dir |-> FALSE, nodes |-> 3, times |-> Cardinality(Times), ops |-> ops])
  ELSE ToJson([ops |-> ops]))
=============================================================================
