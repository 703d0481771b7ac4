---------------------------- MODULE TemporalMotif ----------------------------
(***************************************************************************)
(* Temporal motifs by definition: an occurrence of the motif m (a sequence *)
(* of pairs of names) in a set E of timed edges <<u, v, t>> is a sequence  *)
(* of edges of the length of m with strictly increasing times, the last at *)
(* most delta after the first, that matches m under a one-to-one naming of *)
(* the nodes.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Times(E) == {e[3] : e \in E}
Flat(q) == [i \in 1 .. 2 * Len(q) |-> q[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]

(* the node sequence s (flat) is the name sequence m under a bijection      *)
SameShape(s, m) == \A i, j \in DOMAIN s : (s[i] = s[j]) <=> (m[i] = m[j])

(* sequences of n edges, strictly increasing in time, within delta          *)
RECURSIVE Chains(_, _, _)
Chains(E, n, delta) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{Append(c, e) : e \in {x \in E : c # <<>> => (x[3] > c[Len(c)][3] /\ x[3] - c[1][3] <= delta)}} :
              c \in Chains(E, n - 1, delta)}

(* the same, keeping only those that match the beginning of the motif       *)
RECURSIVE Occurrences(_, _, _, _)
Occurrences(E, m, n, delta) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{d \in {Append(c, e) : e \in {x \in E : c # <<>> => (x[3] > c[Len(c)][3] /\ x[3] - c[1][3] <= delta)}} :
               SameShape(Flat(d), Flat(SubSeq(m, 1, n)))} :
              c \in Occurrences(E, m, n - 1, delta)}

Nodes(c) == Flat(c)
Total(E, m, delta) == Cardinality(Occurrences(E, m, Len(m), delta))
(* how many occurrences have each node sequence                            *)
BySequence(E, m, delta) ==
  LET O == Occurrences(E, m, Len(m), delta)
  IN [s \in {Flat(c) : c \in O} |-> Cardinality({c \in O : Flat(c) = s})]
(* how often node n plays the name p of the motif                          *)
ByPosition(E, m, delta, n, p) ==
  LET i == CHOOSE k \in 1 .. 2 * Len(m) : Flat(m)[k] = p
  IN Cardinality({c \in Occurrences(E, m, Len(m), delta) : Flat(c)[i] = n})
=============================================================================
