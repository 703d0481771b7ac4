---------------------------- MODULE TimeWindows ----------------------------
(***************************************************************************)
(* Time windows of DyNetworkX.  A bound is optional: <<>> is "not given",  *)
(* <<t>> is the time t.  Times are integers here; the code only compares   *)
(* them, and where it does arithmetic (to_snapshots) the harness scales    *)
(* real values to integers exactly.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Given(x) == x # <<>>

(* An interval edge [lo, hi) meets the window [b, e): it overlaps it, or it *)
(* begins exactly where the window begins (so edges of no length count).   *)
Meets(lo, hi, b, e) ==
  \/ /\ Given(e) => lo < e[1]
     /\ Given(b) => hi > b[1]
  \/ Given(b) /\ lo = b[1]

(* An impulse at t is in the window: each bound is included or excluded as *)
(* inc says; equal bounds are a point query.                               *)
InWindow(t, b, e, inc) ==
  IF Given(b) /\ Given(e) /\ b[1] = e[1]
  THEN t = b[1]
  ELSE /\ Given(b) => (t > b[1] \/ (inc[1] /\ t = b[1]))
       /\ Given(e) => (t < e[1] \/ (inc[2] /\ t = e[1]))

(* t lies between two (present) bounds, as unique_timestamps reads them.   *)
Between(t, b, e, inc) ==
  /\ t > b \/ (inc[1] /\ t = b)
  /\ t < e \/ (inc[2] /\ t = e)

Reversed(b, e) == Given(b) /\ Given(e) /\ b[1] > e[1]
=============================================================================
