----------------------------- MODULE TextFormat -----------------------------
(***************************************************************************)
(* The text formats of the graph classes, down to the characters.  A line  *)
(* is a sequence of character codes (without its newline).  Numbers are    *)
(* 16 times their value, so that halves, quarters, .. stay integral.       *)
(*                                                                         *)
(*  u <delim> v <delim> begin <delim> end {<delim> key=value}     interval *)
(*  u <delim> v <delim> t {<delim> key=value}                      impulse *)
(*                                                                         *)
(* columns in the order asked for, a duration possibly replacing begin or  *)
(* end; everything from the comment marker on is ignored, and so are blank *)
(* lines.                                                                  *)
(***************************************************************************)
EXTENDS DynGraph

Blank == {9, 10, 11, 12, 13, 32}
Minus == 45
Plus == 43
Dot == 46
Equals == 61
IsDigit(c) == c >= 48 /\ c <= 57

IsAt(s, sub, i) == i + Len(sub) - 1 <= Len(s) /\ \A j \in 1 .. Len(sub) : s[i + j - 1] = sub[j]
(* first position of sub in s at or after i, 0 if none *)
FindFrom(s, sub, i) ==
  LET C == {j \in i .. (Len(s) - Len(sub) + 1) : s[j] = sub[1] /\ IsAt(s, sub, j)}
  IN IF C = {} THEN 0 ELSE Min(C)
Find(s, sub) == FindFrom(s, sub, 1)

Inked(s) == {i \in DOMAIN s : s[i] \notin Blank}
RStrip(s) == LET I == Inked(s) IN IF I = {} THEN <<>> ELSE SubSeq(s, 1, Max(I))
LStrip(s) == LET I == Inked(s) IN IF I = {} THEN <<>> ELSE SubSeq(s, Min(I), Len(s))
Strip(s) == LStrip(RStrip(s))

RECURSIVE Split(_, _)
Split(s, d) ==
  LET p == Find(s, d)
  IN IF p = 0 THEN <<s>>
     ELSE <<SubSeq(s, 1, p - 1)>> \o Split(SubSeq(s, p + Len(d), Len(s)), d)

Uncomment(s, marker) == LET p == Find(s, marker) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)

(*------------------------------- numbers ---------------------------------*)
Unsigned(s) == IF s # <<>> /\ s[1] \in {Minus, Plus} THEN Tail(s) ELSE s
AllDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])
IsInt(s) == LET u == Unsigned(s) IN u # <<>> /\ AllDigits(u)
IsNum(s) ==
  LET u == Unsigned(s)
      p == Find(u, <<Dot>>)
  IN IF p = 0 THEN u # <<>> /\ AllDigits(u)
     ELSE /\ Len(u) > 1
          /\ AllDigits(SubSeq(u, 1, p - 1)) /\ AllDigits(SubSeq(u, p + 1, Len(u)))
RECURSIVE Nat10(_, _)
Nat10(s, acc) == IF s = <<>> THEN acc ELSE Nat10(Tail(s), 10 * acc + s[1] - 48)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE RStripZero(_)
RStripZero(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN RStripZero(SubSeq(s, 1, Len(s) - 1)) ELSE s
Num16(s) ==   \* 16 times the value of a decimal numeral
  LET u == Unsigned(s)
      p == Find(u, <<Dot>>)
      ip == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
      fp == IF p = 0 THEN <<>> ELSE RStripZero(SubSeq(u, p + 1, Len(u)))
      v  == 16 * Nat10(ip, 0) + ((16 * Nat10(fp, 0)) \div Pow10(Len(fp)))
  IN IF s[1] = Minus THEN -v ELSE v

(* Numerals whose value is too large or too fine for 16ths (0.1, 1e-07,     *)
(* 1600000000.25) stand in the table o.nums, each with the integer that     *)
(* represents its value: equal for equal values, ordered like them.         *)
InTable(s, o) == \E i \in DOMAIN o.nums : o.nums[i][1] = s
NumOk(s, o) == InTable(s, o) \/ IsNum(s)
NumOf(s, o) == IF InTable(s, o) THEN o.nums[CHOOSE i \in DOMAIN o.nums : o.nums[i][1] = s][2] ELSE Num16(s)

(* values and labels: <<"n", number, <<>>>> or <<"s", 0, text>>             *)
Text(s)  == <<"s", 0, s>>
Number(s, o) == <<"n", NumOf(s, o), <<>>>>
Value(s, o) == IF NumOk(s, o) THEN Number(s, o) ELSE Text(s)

LabelOk(s, o) == o.nodetype = "float" => NumOk(s, o)
Label(s, o) ==
  CASE o.nodetype = "int" -> IF IsInt(s) THEN Number(s, o) ELSE Text(s)
    [] o.nodetype = "str" -> Text(s)
    [] o.nodetype = "float" -> Number(s, o)
TimeOk(s, o) == IF o.timetype = "int" THEN IsInt(s) ELSE NumOk(s, o)

(*-------------------------------- lines ----------------------------------*)
(* opts: [delim, comments : codes, order : Seq of column names,            *)
(*        dur : <<>> or <<16 * duration>>, nodetype, timetype,             *)
(*        merge : <<>> or <<grace>>, nums : Seq of <<numeral, number>>]    *)
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Has(s, x) == \E i \in DOMAIN s : s[i] = x

IsData(line, opts) == Strip(Uncomment(line, opts.comments)) # <<>>
Fields(line, opts) == Split(RStrip(Uncomment(line, opts.comments)), opts.delim)

Columns(opts) == Len(opts.order)
PairOk(f) == \E i \in DOMAIN f : f[i] = Equals
AttrOf(f, o) == LET p == Find(f, <<Equals>>)
             IN <<SubSeq(f, 1, p - 1), Value(SubSeq(f, p + 1, Len(f)), o)>>
RECURSIVE AttrsOf(_, _)
AttrsOf(fs, o) == IF fs = <<>> THEN {} ELSE Merge({AttrOf(fs[1], o)}, AttrsOf(Tail(fs), o))

TimeCols(opts) == {c \in {"begin", "end", "t"} : Has(opts.order, c)}

(* does the line convert?  *)
LineOk(line, opts) ==
  LET f == Fields(line, opts)
  IN /\ \A c \in {"u", "v"} : LabelOk(f[IndexOf(opts.order, c)], opts)
     /\ \A c \in TimeCols(opts) : TimeOk(f[IndexOf(opts.order, c)], opts)

Parsed(line, opts) ==
  LET f == Fields(line, opts)
      at(c) == f[IndexOf(opts.order, c)]
      num(c) == NumOf(at(c), opts)
      lo == IF Has(opts.order, "t") THEN num("t")
            ELSE IF Has(opts.order, "begin") THEN num("begin")
            ELSE num("end") - opts.dur[1]
      hi == IF Has(opts.order, "t") THEN num("t")
            ELSE IF Has(opts.order, "end") THEN num("end")
            ELSE num("begin") + opts.dur[1]
  IN [u |-> Label(at("u"), opts), v |-> Label(at("v"), opts),
      lo |-> lo, hi |-> hi,
      attrs |-> AttrsOf(SubSeq(f, Columns(opts) + 1, Len(f)), opts)]

OrderOk(kind, order, dur) ==
  IF kind = "impulse"
  THEN Len(order) = 3 /\ {"u", "v", "t"} \subseteq Rng(order)
  ELSE IF dur = <<>> THEN Len(order) = 4 /\ {"u", "v", "begin", "end"} \subseteq Rng(order)
       ELSE Len(order) = 3 /\ {"u", "v"} \subseteq Rng(order)
            /\ ("begin" \in Rng(order) \/ "end" \in Rng(order))

(* a node is the position of its label in the sequence labels, 0 if none   *)
NodeId(labels, l) == IF Has(labels, l) THEN IndexOf(labels, l) ELSE 0

(* merging: the edges of the pair with equal attributes at most the grace  *)
(* period away are replaced, together with the new one, by their hull      *)
MergeEdge(g, u, v, lo, hi, a, grace) ==
  LET K == {k \in Linking(g, u, v) :
              /\ g.edges[k] = a
              /\ k[3] <= hi + grace /\ k[4] >= lo - grace}
      lo2 == MinOf({lo} \cup Los(K))
      hi2 == MaxOf({hi} \cup His(K))
  IN AddEdge(Drop(g, K), u, v, lo2, hi2, a)

RECURSIVE LoadFrom(_, _, _, _)
LoadFrom(g, lines, opts, labels) ==
  IF lines = <<>> THEN g
  ELSE IF ~IsData(lines[1], opts) THEN LoadFrom(g, Tail(lines), opts, labels)
  ELSE LET x == Parsed(lines[1], opts)
           g2 == IF opts.merge # <<>>
                 THEN MergeEdge(g, NodeId(labels, x.u), NodeId(labels, x.v), x.lo, x.hi, x.attrs, opts.merge[1])
                 ELSE AddEdge(g, NodeId(labels, x.u), NodeId(labels, x.v), x.lo, x.hi, x.attrs)
       IN LoadFrom(g2, Tail(lines), opts, labels)

Load(kind, dir, lines, opts, labels) == LoadFrom(EmptyGraph(kind, dir, {}), lines, opts, labels)

DataLines(lines, opts) == {i \in DOMAIN lines : IsData(lines[i], opts)}
Loadable(lines, opts) == \A i \in DataLines(lines, opts) : LineOk(lines[i], opts)
=============================================================================
