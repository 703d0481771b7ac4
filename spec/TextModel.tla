------------------------------ MODULE TextModel ------------------------------
(***************************************************************************)
(* All small text files of the edge-based graphs, row by row, under every   *)
(* choice of columns, duration and grace period.  Checks on the characters  *)
(* that loading obeys the laws of the properties: what is saved is what is   *)
(* loaded, remarks and blank lines do not matter, columns may be permuted,   *)
(* a duration is only a way to write the other time, merging loses nothing.  *)
(* Exports every file and its options: the harness writes and loads them.    *)
(***************************************************************************)
EXTENDS TextFormat, Json, SequencesExt

CONSTANTS Kind, Dir,
          TimeSet,       \* times in rows (whole numbers)
          Pairs,         \* pairs of nodes linked
          ValueSet,      \* values of the attribute "w", 0 for none
          NoiseSet,      \* what surrounds a row: "none", "remark", "blank", "tail"
          MaxRows,
          Shuffles,      \* BOOLEAN: all orders of columns
          Durations, Graces   \* options: sets of <<>> or <<n>>

BothWays == {<<1, 2>>, <<2, 1>>}
OneWay == {<<1, 2>>}
Signed == {-1, 1}
Three == {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<1, 1>>}
NotGiven == {<<>>}
SomeDurations == {<<>>, <<1>>}
Duration2 == {<<>>, <<2>>}
SomeGraces == {<<0>>, <<1>>, <<2>>}

VARIABLES rows, opt
vars == <<rows, opt>>
IsInterval == Kind = "interval"

Base(dur) ==
  IF ~IsInterval THEN {<<"u", "v", "t">>}
  ELSE IF dur = <<>> THEN {<<"u", "v", "begin", "end">>}
  ELSE {<<"u", "v", "begin">>, <<"u", "v", "end">>}
Orders(b) == IF Shuffles THEN {[i \in DOMAIN b |-> b[p[i]]] : p \in {q \in [DOMAIN b -> DOMAIN b] :
                                                                   \A i, j \in DOMAIN b : q[i] = q[j] => i = j}}
             ELSE {b}
Opts == {[order |-> o, dur |-> d, grace |-> g] :
           o \in UNION {UNION {Orders(b) : b \in Base(x)} : x \in Durations}, d \in Durations, g \in Graces}
FitOpts == {o \in Opts : IF IsInterval THEN (o.dur = <<>>) = (Len(o.order) = 4) ELSE o.dur = <<>>}

RowSet(o) ==
  {[p |-> p, lo |-> s[1], hi |-> s[2], w |-> x, noise |-> z] :
     p \in Pairs,
     s \in {q \in TimeSet \X TimeSet :
              IF ~IsInterval THEN q[1] = q[2]
              ELSE IF o.dur # <<>> THEN q[2] - q[1] = o.dur[1]
              ELSE IF o.grace # <<>> THEN q[1] < q[2] ELSE q[1] <= q[2]},
     x \in ValueSet, z \in NoiseSet}

(*------------------------- writing rows as text --------------------------*)
Sep == <<44>>          \* ","
Mark == <<35>>         \* "#"
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + k - 10 * (k \div 10))
Num(k) == IF k < 0 THEN <<Minus>> \o Digits(-k) ELSE Digits(k)
Cell(r, c) == CASE c = "u" -> Num(r.p[1]) [] c = "v" -> Num(r.p[2])
                [] c = "begin" \/ c = "t" -> Num(r.lo) [] c = "end" -> Num(r.hi)
RECURSIVE Join(_)
Join(fs) == IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o Sep \o Join(Tail(fs))
Bare(r, order) == Join([i \in DOMAIN order |-> Cell(r, order[i])]
                       \o (IF r.w = 0 THEN <<>> ELSE <<<<119, Equals>> \o Num(r.w)>>))
Written(r, order) ==
  CASE r.noise = "none" -> <<Bare(r, order)>>
    [] r.noise = "tail" -> <<Bare(r, order) \o Mark \o <<120, Equals, 49>>>>
    [] r.noise = "remark" -> <<Mark \o Bare(r, order), Bare(r, order)>>
    [] r.noise = "blank" -> <<Bare(r, order), <<>>, <<32, 9>>>>
RECURSIVE Lines(_, _)
Lines(rs, order) == IF rs = <<>> THEN <<>> ELSE Written(rs[1], order) \o Lines(Tail(rs), order)
Clean(rs) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.noise = "none"]]

Full(o) == [delim |-> Sep, comments |-> Mark, order |-> o.order,
            dur |-> IF o.dur = <<>> THEN <<>> ELSE <<16 * o.dur[1]>>, nodetype |-> "int", timetype |-> "float",
            merge |-> IF o.grace = <<>> THEN <<>> ELSE <<16 * o.grace[1]>>, nums |-> <<>>]
Labels == [i \in 1 .. 3 |-> <<"n", 16 * i, <<>>>>]
Default == [order |-> IF IsInterval THEN <<"u", "v", "begin", "end">> ELSE <<"u", "v", "t">>, dur |-> <<>>,
            grace |-> <<>>]
Loaded(rs, o) == Load(Kind, Dir, Lines(rs, o.order), Full(o), Labels)

(* the file that saving a graph writes: its edges, one per line *)
Value2(g, k) == IF g.edges[k] = {} THEN 0 ELSE (CHOOSE p \in g.edges[k] : TRUE)[2][2] \div 16
SavedRows(g) ==
  [i \in 1 .. Cardinality(EdgesOf(g)) |->
     LET k == SetToSeq(EdgesOf(g))[i]
     IN [p |-> <<k[1], k[2]>>, lo |-> k[3] \div 16, hi |-> k[4] \div 16, w |-> Value2(g, k), noise |-> "none"]]

Init == opt \in FitOpts /\ rows = <<>>
WriteRow == /\ Len(rows) < MaxRows
            /\ \E r \in RowSet(opt) : rows' = Append(rows, r)
            /\ opt' = opt
Next == WriteRow
Spec == Init /\ [][Next]_vars

(*-------------------------------- laws -----------------------------------*)
G == Loaded(rows, opt)
PairOf(r) == IF Dir \/ r.p[1] <= r.p[2] THEN r.p ELSE <<r.p[2], r.p[1]>>
AttrsOfRow(r) == IF r.w = 0 THEN {} ELSE {<<<<119>>, <<"n", 16 * r.w, <<>>>>>>}

Accepted == Loadable(Lines(rows, opt.order), Full(opt)) /\ OrderOk(Kind, opt.order, Full(opt).dur)
NoiseIgnored == G = Loaded(Clean(rows), opt)
ColumnsPermute == opt.dur = <<>> => G = Loaded(rows, [Default EXCEPT !.grace = opt.grace])
DurationIsTheOtherTime == opt.dur # <<>> => G = Loaded(rows, [Default EXCEPT !.grace = opt.grace])
RoundTrip == G.edges = Loaded(SavedRows(G), Default).edges
SavingAgain == (opt.grace = <<>> /\ rows # <<>>) =>
  Loaded(Append(SavedRows(G), Clean(rows)[Len(rows)]), Default).edges = G.edges

(* without merging, exactly one edge per pair and times, with the attributes written for it *)
OneEdgePerLine == opt.grace = <<>> =>
  /\ EdgesOf(G) = {<<PairOf(r)[1], PairOf(r)[2], 16 * r.lo, 16 * r.hi>> : r \in Rng(rows)}
  /\ \A i \in DOMAIN rows :
       LET r == rows[i]
           k == <<PairOf(r)[1], PairOf(r)[2], 16 * r.lo, 16 * r.hi>>
           later == {j \in DOMAIN rows : j > i /\ <<PairOf(rows[j]), rows[j].lo, rows[j].hi>> = <<PairOf(r), r.lo, r.hi>>
                                          /\ rows[j].w # 0}
       IN r.w # 0 /\ later = {} => G.edges[k] = AttrsOfRow(r)

(* merging: no instant is lost, none is invented but within the grace period, and what is left lies further apart *)
Merging == opt.grace # <<>> =>
  LET gr == opt.grace[1]
      alike == Cardinality({r.w : r \in Rng(rows)}) <= 1
      covered(k) == \E r \in Rng(rows) : PairOf(r) = <<k[1], k[2]>> /\ 16 * r.lo = k[3]
  IN /\ \A r \in Rng(rows) : \E k \in EdgesOf(G) :
          <<k[1], k[2]>> = PairOf(r) /\ k[3] <= 16 * r.lo /\ 16 * r.hi <= k[4]
     /\ \A k \in EdgesOf(G) :
          /\ \E r \in Rng(rows) : PairOf(r) = <<k[1], k[2]>> /\ 16 * r.lo = k[3]
          /\ \E r \in Rng(rows) : PairOf(r) = <<k[1], k[2]>> /\ 16 * r.hi = k[4]
          /\ \A t \in TimeSet :     \* every gap inside an edge is at most the grace period
               (k[3] < 16 * t /\ 16 * t < k[4]) =>
                 LET R == {r \in Rng(rows) : PairOf(r) = <<k[1], k[2]>>}
                 IN \/ \E r \in R : r.lo <= t /\ t <= r.hi
                    \/ Min({r.lo : r \in {x \in R : x.lo > t}}) - Max({r.hi : r \in {x \in R : x.hi < t}}) <= gr
     /\ \A k, x \in EdgesOf(G) : (k # x /\ <<k[1], k[2]>> = <<x[1], x[2]>> /\ G.edges[k] = G.edges[x]) =>
          k[4] + 16 * gr < x[3] \/ x[4] + 16 * gr < k[3]
     \* and the order of the lines does not matter
     /\ alike => \A i \in 1 .. Len(rows) - 1 :
          G = Loaded([rows EXCEPT ![i] = rows[i + 1], ![i + 1] = rows[i]], opt)

Laws == /\ Accepted /\ NoiseIgnored /\ ColumnsPermute /\ DurationIsTheOtherTime /\ RoundTrip /\ SavingAgain
        /\ OneEdgePerLine /\ Merging

Export == PrintT("STATE " \o ToJson([kind |-> Kind, dir |-> Dir, opt |-> opt, rows |-> rows]))
=============================================================================
