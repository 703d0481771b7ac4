------------------------------ MODULE SnapText ------------------------------
(***************************************************************************)
(* The text format of the snapshot graph classes: one snapshot per line,    *)
(*                                                                         *)
(*   row {<delim> row} start=<s> end=<e>        row: numbers, by blanks      *)
(*                                                                         *)
(* the rows being the weighted adjacency matrix.  Everything from the       *)
(* comment marker on is ignored, and so are blank lines.                     *)
(***************************************************************************)
EXTENDS SnapGraph, TextFormat

SLineKeys(line, o) ==   \* position where the span starts
  LET a == Find(line, o.start \o <<Equals>>)
      b == Find(line, o.end \o <<Equals>>)
  IN IF a < b THEN a ELSE b
RECURSIVE Words(_)
Words(s) ==   \* blank-separated, no empty ones
  LET t == LStrip(s)
      p == Find(t, <<32>>)
  IN IF t = <<>> THEN <<>>
     ELSE IF p = 0 THEN <<RStrip(t)>>
     ELSE <<RStrip(SubSeq(t, 1, p - 1))>> \o Words(SubSeq(t, p + 1, Len(t)))
SData(line, o) == IsData(line, o)
SParse(raw, o) ==
  LET line == Uncomment(raw, o.comments)
      p == SLineKeys(line, o)
      w == Words(SubSeq(line, p, Len(line)))
      kv == [i \in DOMAIN w |-> Split(w[i], <<Equals>>)]
      val(k) == NumOf(kv[CHOOSE i \in DOMAIN kv : kv[i][1] = k][2], o)
      rows == Split(Strip(SubSeq(line, 1, p - 1)), o.delim)
  IN [span |-> <<val(o.start), val(o.end)>>,
      m |-> [i \in DOMAIN rows |-> LET c == Words(rows[i]) IN [j \in DOMAIN c |-> NumOf(c[j], o)]]]
SLineOk(raw, o) ==
  LET line == Uncomment(raw, o.comments)
      p == SLineKeys(line, o)
  IN p > 0 /\ \A x \in Rng(Words(SubSeq(line, p, Len(line)))) :
        LET kv == Split(x, <<Equals>>) IN Len(kv) = 2 /\ kv[1] \in {o.start, o.end} /\ NumOk(kv[2], o)
SLines(lines, o) == SelectSeq(lines, LAMBDA x : SData(x, o))

(* the matrix of a static graph, its nodes in the given order *)
Cell(G, a, b) ==
  LET p == SPair(G, a, b)
      K == Parallel(G, p)
  IN MapThenSumSet(LAMBDA k : Weight(G, k, <<"weight">>), K)
MatrixOf(G, order) == [i \in DOMAIN order |-> [j \in DOMAIN order |-> Cell(G, order[i], order[j])]]
(* and back: nodes are numbered 1, 2, .. ; a non-zero entry links           *)
GraphOf(dir, m) ==
  LET n == Len(m)
      ks == {<<i, j, 0>> : i, j \in 1 .. n} 
      on == {k \in ks : m[k[1]][k[2]] # 0 /\ (dir \/ k[1] <= k[2])}
  IN [dir |-> dir, multi |-> FALSE, nodes |-> [i \in 1 .. n |-> {}],
      edges |-> [k \in on |-> {<<"weight", <<"n", m[k[1]][k[2]], "">>>>}]]
Loaded(dir, lines, o) ==
  LET ls == SLines(lines, o)
      ps == TLCEval([i \in DOMAIN ls |-> SParse(ls[i], o)])
  IN [s \in {p.span : p \in Rng(ps)} |-> GraphOf(dir, (CHOOSE p \in Rng(ps) : p.span = s).m)]
=============================================================================
