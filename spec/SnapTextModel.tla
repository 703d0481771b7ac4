---------------------------- MODULE SnapTextModel ----------------------------
(***************************************************************************)
(* All small text files of a snapshot graph, row by row.  Checks on the     *)
(* characters that what is saved is what is loaded, that remarks, blank      *)
(* lines and the order of the lines do not matter, and that every data line  *)
(* is one snapshot.  Exports the files: the harness writes and loads them.   *)
(***************************************************************************)
EXTENDS SnapText, Json

CONSTANTS Dir, TimeSet, Entries, MaxSize, MaxRows, NoiseSet

VARIABLE rows
Matrices == {m \in UNION {[1 .. n -> [1 .. n -> Entries]] : n \in 1 .. MaxSize} :
               Dir \/ \A i, j \in DOMAIN m : m[i][j] = m[j][i]}
Fits(r) == \A x \in Rng(rows) : ~Overlap(<<x.s, x.e>>, <<r.s, r.e>>)
RowSet == {[m |-> m, s |-> t[1], e |-> t[2], noise |-> z] :
             m \in Matrices, t \in {q \in TimeSet \X TimeSet : q[1] <= q[2]}, z \in NoiseSet}

(*------------------------- writing rows as text --------------------------*)
O == [delim |-> <<59>>, comments |-> <<35>>, start |-> <<115>>, end |-> <<101>>, nums |-> <<>>]
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + k - 10 * (k \div 10))
Num(k) == IF k < 0 THEN <<Minus>> \o Digits(-k) ELSE Digits(k)
RECURSIVE Join(_, _)
Join(fs, sep) == IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o sep \o Join(Tail(fs), sep)
Bare(r) == Join([i \in DOMAIN r.m |-> Join([j \in DOMAIN r.m |-> Num(r.m[i][j])], <<32>>)], O.delim)
           \o <<32>> \o O.start \o <<Equals>> \o Num(r.s) \o <<32>> \o O.end \o <<Equals>> \o Num(r.e)
Written(r) ==
  CASE r.noise = "none" -> <<Bare(r)>>
    [] r.noise = "tail" -> <<Bare(r) \o O.comments \o <<115, Equals, 49>>>>
    [] r.noise = "remark" -> <<O.comments \o Bare(r), Bare(r)>>
    [] r.noise = "blank" -> <<Bare(r), <<>>, <<32, 9>>>>
RECURSIVE Lines(_)
Lines(rs) == IF rs = <<>> THEN <<>> ELSE Written(rs[1]) \o Lines(Tail(rs))
Clean(rs) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.noise = "none"]]
Load1(rs) == Loaded(Dir, Lines(rs), O)
S == Load1(rows)

(* the file that saving writes, the nodes of each snapshot in the given order *)
SavedRows(X, order(_)) ==
  [i \in DOMAIN Order(X) |->
     LET s == Order(X)[i]
     IN [m |-> [a \in DOMAIN order(X[s]) |-> [b \in DOMAIN order(X[s]) |->
                  Cell(X[s], order(X[s])[a], order(X[s])[b]) \div 16]],
         s |-> s[1] \div 16, e |-> s[2] \div 16, noise |-> "none"]]
Up(H) == [i \in 1 .. Cardinality(DOMAIN H.nodes) |-> i]

Init == rows = <<>>
WriteRow == /\ Len(rows) < MaxRows
            /\ \E r \in RowSet : Fits(r) /\ rows' = Append(rows, r)
Next == WriteRow
Spec == Init /\ [][Next]_rows

(*-------------------------------- laws -----------------------------------*)
Accepted == \A x \in Rng(SLines(Lines(rows), O)) : SLineOk(x, O)
OneSnapshotPerLine == DOMAIN S = {<<16 * r.s, 16 * r.e>> : r \in Rng(rows)} /\ Cardinality(DOMAIN S) = Len(rows)
NoiseIgnored == S = Load1(Clean(rows))
LinesPermute == \A i \in 1 .. Len(rows) - 1 : S = Load1([rows EXCEPT ![i] = rows[i + 1], ![i + 1] = rows[i]])
SameMatrices == \A r \in Rng(rows) :
  LET H == S[<<16 * r.s, 16 * r.e>>]
  IN /\ SOrder(H) = Len(r.m) /\ H.dir = Dir
     /\ MatrixOf(H, Up(H)) = [i \in DOMAIN r.m |-> [j \in DOMAIN r.m |-> 16 * r.m[i][j]]]
RoundTrip == S = Load1(SavedRows(S, Up))
(* saved with the nodes in another order, the snapshot comes back renumbered *)
Reversed1(H) == Reverse(Up(H))
RoundTripRenumbered ==
  LET X == Load1(SavedRows(S, Reversed1))
  IN /\ DOMAIN X = DOMAIN S
     /\ \A s \in DOMAIN S : MatrixOf(X[s], Reversed1(X[s])) = MatrixOf(S[s], Up(S[s]))

Laws == Accepted /\ OneSnapshotPerLine /\ NoiseIgnored /\ LinesPermute /\ SameMatrices /\ RoundTrip /\ RoundTripRenumbered
Export == PrintT("STATE " \o ToJson([kind |-> "snap", dir |-> Dir, rows |-> rows]))
=============================================================================
