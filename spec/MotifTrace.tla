------------------------------ MODULE MotifTrace ------------------------------
(***************************************************************************)
(* Validation of recorded calls of count_temporal_motif on real            *)
(* ImpulseDiGraphs that grow and shrink, against TemporalMotif.            *)
(***************************************************************************)
EXTENDS TemporalMotif, Json, IOUtils, TLC

Prop == IOEnv.PROP
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES tid, l,
          E,     \* the timed edges of the graph
          bad
vars == <<tid, l, E, bad>>

T == Traces[tid]
Ev == T.evs[l + 1]
Rng(s) == {s[i] : i \in DOMAIN s}

Step == CASE Ev.op = "add"    -> E \cup Rng(Ev.es)
          [] Ev.op = "remove" -> E \ Rng(Ev.es)
          [] OTHER -> E

Chk(name, cond) == IF cond THEN {} ELSE {name}
Good == Ev.exc = "" /\ Ev.shape
Names(m) == {Flat(m)[i] : i \in 1 .. 2 * Len(m)}

CountFails ==
  LET O == TLCEval(Occurrences(E, Ev.seq, Len(Ev.seq), Ev.delta))
      r == Ev.res
      flat == {Flat(c) : c \in O}
      at(p) == CHOOSE k \in 1 .. 2 * Len(Ev.seq) : Flat(Ev.seq)[k] = p
  IN Chk("answers without error", Good)
     \cup IF ~Good THEN {} ELSE
     Chk("total", r.total = Cardinality(O))
     \cup Chk("count of each node sequence",
              /\ {x \in Rng(r.counts) : x[2] # 0} = {<<s, Cardinality({c \in O : Flat(c) = s})>> : s \in flat}
              /\ Len(r.counts) = Cardinality({x[1] : x \in Rng(r.counts)}))
     \cup Chk("counts per node and position",
              /\ Rng(r.names) = Names(Ev.seq)
              /\ Len(r.names) = Cardinality(Names(Ev.seq))
              /\ {s[i] : s \in flat, i \in 1 .. 2 * Len(Ev.seq)} \subseteq {x[1] : x \in Rng(r.pos)}
              /\ \A x \in Rng(r.pos) : \A i \in DOMAIN r.names :
                   x[2][i] = Cardinality({c \in O : Flat(c)[at(r.names[i])] = x[1]}))
     \cup Chk("graph unchanged", Ev.after = Cardinality(E))

Fails == CASE Ev.op = "count" -> CountFails
           [] Ev.op = "stuck" -> {"the recorder cannot go on"}
           [] Ev.op = "wrong" -> Chk("is refused", Ev.exc = "TypeError")
           [] OTHER -> Chk("answers without error", Ev.exc = "")

Init == /\ tid \in DOMAIN Traces
        /\ l = 0 /\ E = {} /\ bad = FALSE

Consume ==
  /\ l' = l + 1 /\ tid' = tid
  /\ E' = Step
  /\ LET f == Fails IN
     /\ bad' = (f # {})
     /\ f # {} => PrintT("REJECT " \o ToJson([trace |-> tid, event |-> l + 1, clauses |-> f]))

Live == ~bad /\ l < Len(T.evs)
Is(op) == Live /\ Ev.op = op /\ Consume
AddEv == Is("add")
RemoveEv == Is("remove")
CountEv == Is("count")
WrongEv == Is("wrong")
StuckEv == Is("stuck")
Next == AddEv \/ RemoveEv \/ CountEv \/ WrongEv \/ StuckEv
Spec == Init /\ [][Next]_vars
View == <<tid, l, bad>>
=============================================================================
