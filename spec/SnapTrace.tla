------------------------------ MODULE SnapTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions of SnapshotGraph and SnapshotDiGraph  *)
(* against SnapGraph (and, for files, SnapText).    Same conventions as    *)
(* GraphTrace.                                                             *)
(***************************************************************************)
EXTENDS SnapText, Json, IOUtils

Prop == IOEnv.PROP
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES tid, l,
          S,      \* the snapshots: span -> static graph
          ga,     \* attributes of the snapshot graph
          out,    \* what the specification requires of the event just consumed
          owed,   \* properties the next look is to decide besides, for the blind events before it
          kept, last, bad
vars == <<tid, l, S, ga, out, owed, kept, last, bad>>

Outcome == out'    \* decided first in every step

T == Traces[tid]
Ev == T.evs[l + 1]
Dir == T.dir

ReadOnly == {"get", "iter", "contains", "order", "size", "number_of_nodes", "has_node", "degree", "is_directed",
             "is_multigraph", "to_directed", "to_undirected", "stat", "subgraph", "recheck", "foreign", "stuck", "save"}
Addressed == {"get", "order", "size", "number_of_nodes", "has_node", "degree", "is_directed", "is_multigraph",
              "to_directed", "to_undirected", "stat", "subgraph", "add_nodes", "add_edges"}

(* an observed static graph as a value *)
SG(r) ==
  LET key(x) == IF r.dir \/ x[1] <= x[2] THEN <<x[1], x[2], x[3]>> ELSE <<x[2], x[1], x[3]>>
      ks == {key(x) : x \in Rng(r.edges)}
  IN [dir |-> r.dir, multi |-> r.multi,
      nodes |-> [n \in {x[1] : x \in Rng(r.nodes)} |-> Rng((CHOOSE x \in Rng(r.nodes) : x[1] = n)[2])],
      edges |-> [k \in ks |-> Rng((CHOOSE x \in Rng(r.edges) : key(x) = k)[4])]]

(*------------------------------- outcomes ---------------------------------*)
SpanArgs ==   \* <<>> if refused
  IF Given(Ev.time) THEN IF Given(Ev.s) \/ Given(Ev.e) THEN <<>> ELSE <<<<Ev.time[1], Ev.time[1]>>>>
  ELSE IF ~Given(Ev.s) \/ ~Given(Ev.e) THEN <<>>
  ELSE IF Ev.s[1] > Ev.e[1] THEN <<>> ELSE <<<<Ev.s[1], Ev.e[1]>>>>
BadDelim == Ev.opts.delim \in {<<32>>, <<10>>}
Decide ==
  CASE Ev.op \in {"insert", "add"} -> IF SpanArgs = <<>> THEN "error" ELSE "ok"
    [] Ev.op \in Addressed -> IF Given(Ev.sb) /\ (Given(Ev.b) \/ Given(Ev.e)) THEN "error" ELSE "ok"
    [] Ev.op = "save" -> IF S = EmptyFn \/ BadDelim THEN "error" ELSE "ok"
    [] Ev.op = "load" -> IF BadDelim THEN "error"
                         ELSE IF \E x \in Rng(SLines(Ev.lines, Ev.opts)) : ~SLineOk(x, Ev.opts) THEN "error" ELSE "ok"
    [] OTHER -> "ok"

Pick == Picked(S, Ev.sb, Ev.b, Ev.e)
Picks == [i \in DOMAIN Pick |-> S[Pick[i]]]

(*------------------------------ transitions -------------------------------*)
Given1 == IF Ev.es # <<>> THEN FromEbunch(Dir, Ev.multi, Ev.es[1]) ELSE SG(Ev.g[1])
Step ==
  IF Outcome # "ok" THEN S ELSE
  CASE Ev.op \in {"insert", "add"} -> Insert(S, SpanArgs[1][1], SpanArgs[1][2], Given1)
    [] Ev.op = "add_nodes" -> UpdateNodes(S, Ev.sb, Ev.b, Ev.e, Ev.ns, Rng(Ev.a))
    [] Ev.op = "add_edges" -> UpdateEdges(S, Ev.sb, Ev.b, Ev.e, Ev.es, Rng(Ev.a))
    [] Ev.op = "edit" ->   \* the caller changes a graph it has handed over
         [S EXCEPT ![Ev.span] = SEdge(SNode(@, Ev.n, Rng(Ev.a)), Ev.u, Ev.v, Rng(Ev.a))]
    [] Ev.op = "load" -> Loaded(Dir, Ev.lines, Ev.opts)
    [] Ev.op = "reset" -> EmptyFn
    [] OTHER -> S
StepAttr ==
  IF Outcome # "ok" THEN ga ELSE
  CASE Ev.op = "set_attr" -> Merge(ga, Rng(Ev.a))
    [] Ev.op \in {"load", "reset"} -> {}
    [] OTHER -> ga
Obs == IF Ev.obs = <<>> THEN last ELSE Ev.obs[1]
StepKept == IF Ev.op \in {"subgraph", "to_directed", "to_undirected"} /\ Ev.keep THEN Append(kept, Ev.res) ELSE kept

(*-------------------------------- clauses ---------------------------------*)
Chk(tags, name, cond) == IF Prop = "ALL" \/ Prop \in tags THEN (IF cond THEN {} ELSE {name}) ELSE {}
Good == Ev.exc = "" /\ Ev.shape

OwnTags ==
  (IF Ev.op \in {"insert", "add", "set_attr"} THEN {"C12"} ELSE {})
  \cup (IF Ev.op \in {"add_nodes", "add_edges"} THEN {"C13"} ELSE {})
  \cup (IF Ev.op \in ReadOnly \cup {"edit"} THEN {"C21"} ELSE {})
  \cup (IF Outcome = "error" THEN {"C20"} ELSE {})
  \cup (IF Ev.op = "load" THEN {"C16"} ELSE {})
Shared == OwnTags \ {"C20", "C21"}     \* which of several events changed the graph cannot be told from one look
StateTags == IF owed = {} \/ Ev.op \in {"load", "reset"} THEN OwnTags ELSE Shared \cup owed

SpansAgree(x, o) ==
  /\ [i \in DOMAIN o.snaps |-> <<o.snaps[i][1], o.snaps[i][2]>>] = Order(x)
  /\ o.len = Cardinality(DOMAIN x)
GraphsAgree(x, o) ==
  \A i \in DOMAIN o.snaps :
    LET s == <<o.snaps[i][1], o.snaps[i][2]>>
    IN s \in DOMAIN x => SG(o.snaps[i][3]) = x[s]
(* C13 point by point, from the observations before and after alone        *)
ObsAt(o, t) ==
  LET K == {i \in DOMAIN o.snaps : IF o.snaps[i][1] = o.snaps[i][2] THEN o.snaps[i][1] = t
                                   ELSE o.snaps[i][1] <= t /\ t < o.snaps[i][2]}
  IN {SG(o.snaps[i][3]) : i \in K}
Marks(o) == {o.snaps[i][1] : i \in DOMAIN o.snaps} \cup {o.snaps[i][2] : i \in DOMAIN o.snaps}
InWindow0(t) == (Given(Ev.b) => t >= Ev.b[1]) /\ (Given(Ev.e) => t < Ev.e[1])
Includes(X, Y) ==   \* everything in Y is in X (networkx gives later values to a simple edge)
  /\ DOMAIN Y.nodes \subseteq DOMAIN X.nodes /\ DOMAIN Y.edges \subseteq DOMAIN X.edges
  /\ \A n \in DOMAIN Y.nodes : {p[1] : p \in Y.nodes[n]} \subseteq {p[1] : p \in X.nodes[n]}
  /\ \A k \in DOMAIN Y.edges : {p[1] : p \in Y.edges[k]} \subseteq {p[1] : p \in X.edges[k]}
SameOutside(o, n) ==
  \A t \in Marks(o) \cup Marks(n) \cup {m + 1 : m \in Marks(o) \cup Marks(n)} :
     LET X == ObsAt(o, t)
         Y == ObsAt(n, t)
     IN IF InWindow0(t) THEN /\ Cardinality(X) = Cardinality(Y)
                             /\ \A x \in X, y \in Y : Includes(y, x)
        ELSE X = Y

StateFails(x, a) ==
  IF Ev.blind \/ (Ev.obs = <<>> /\ x = S /\ a = ga /\ owed = {}) THEN {}
  ELSE Chk(StateTags, "state observable", Obs.ok)
       \cup IF ~Obs.ok THEN {} ELSE
       Chk(StateTags, "spans in order", SpansAgree(x, Obs))
       \cup Chk(StateTags, "graph of each snapshot", GraphsAgree(x, Obs))
       \cup Chk(StateTags, "graph attributes", Rng(Obs.gattr) = a)
       \cup IF Ev.op \in {"add_nodes", "add_edges"} /\ Outcome = "ok" /\ ~Given(Ev.sb) /\ last.ok /\ owed = {}
            THEN Chk({"C13"}, "same at every instant outside the window, nothing lost inside", SameOutside(last, Obs))
            ELSE {}

Answered(tags) == Chk(tags, "answers without error", Good)

ResStatics(R) == /\ Len(Ev.res) = Len(R)
                 /\ \A i \in DOMAIN R : SG(Ev.res[i]) = R[i]
SameSeq(op(_)) == /\ Len(Ev.res) = Len(Picks)
                  /\ \A i \in DOMAIN Ev.res : Ev.res[i] = op(Picks[i])

DegreeOk(r, G) ==
  CASE Ev.nb[1] = "one" -> r = <<<<Ev.nb[2][1], SDegree(G, Ev.nb[2][1], Ev.w)>>>>
    [] OTHER -> LET N == IF Ev.nb[1] = "all" THEN DOMAIN G.nodes ELSE DOMAIN G.nodes \cap Rng(Ev.nb[2])
                IN /\ Len(r) = Cardinality(N)
                   /\ Rng(r) = {<<n, SDegree(G, n, Ev.w)>> : n \in N}

ResultFails ==
  IF Outcome = "error"
  THEN Chk({"C20"} \cup IF Ev.op = "load" THEN {"C16"} ELSE {}, "is refused", Ev.exc = "ValueError")
  ELSE
  CASE Ev.op \in {"insert", "add", "set_attr", "reset"} -> Answered({"C12"})
    [] Ev.op = "edit" -> {}
    [] Ev.op \in {"add_nodes", "add_edges"} -> Answered({"C13"})
    [] Ev.op = "get" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "snapshots selected", ResStatics(Picks))
    [] Ev.op = "iter" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "iteration", ResStatics([i \in DOMAIN Order(S) |-> S[Order(S)[i]]]))
    [] Ev.op = "contains" -> Chk({"C12"}, "membership", Good /\ Ev.res = Ev.expect)
    [] Ev.op \in {"order", "number_of_nodes"} -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "number of nodes", SameSeq(SOrder))
    [] Ev.op = "size" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "size", SameSeq(LAMBDA G : SSize(G, Ev.w)))
    [] Ev.op = "has_node" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "has_node", SameSeq(LAMBDA G : Ev.n \in DOMAIN G.nodes))
    [] Ev.op = "is_directed" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "is_directed", SameSeq(LAMBDA G : G.dir))
    [] Ev.op = "is_multigraph" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE Chk({"C12"}, "is_multigraph", SameSeq(LAMBDA G : G.multi))
    [] Ev.op = "degree" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "degrees", Len(Ev.res) = Len(Picks)
                                 /\ \A i \in DOMAIN Picks : DegreeOk(Ev.res[i], Picks[i]))
    [] Ev.op = "to_directed" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "directed versions",
             Len(Ev.res) = Len(Picks) /\ \A i \in DOMAIN Picks :
               SG(Ev.res[i]) = IF Picks[i].dir THEN Picks[i] ELSE ToDirected(Picks[i]))
    [] Ev.op = "to_undirected" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "undirected versions",
             Len(Ev.res) = Len(Picks) /\ \A i \in DOMAIN Picks : IsUndirectedOf(SG(Ev.res[i]), Picks[i]))
    [] Ev.op = "stat" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "statistics", SameSeq(LAMBDA G : <<SOrder(G), Cardinality(DOMAIN G.edges), Ev.x>>))
    [] Ev.op = "subgraph" -> Answered({"C12"})
         \cup IF ~Good THEN {} ELSE
         Chk({"C12"}, "subgraphs",
             /\ [i \in DOMAIN Ev.res |-> <<Ev.res[i][1], Ev.res[i][2]>>]
                  = SetToSortSeq(Rng(Pick), Before)
             /\ \A i \in DOMAIN Ev.res :
                  LET s == <<Ev.res[i][1], Ev.res[i][2]>>
                  IN s \in DOMAIN S => SG(Ev.res[i][3]) = Induced(S[s], Rng(Ev.nb)))
    [] Ev.op = "stuck" -> {"the recorder cannot go on"}
    [] Ev.op = "recheck" -> Chk({"C21"}, "handed out result unchanged", Ev.exc = "" /\ Ev.res = kept[Ev.idx])
    [] Ev.op = "foreign" -> Chk({"C21"}, "arguments unchanged", Ev.before = Ev.after)
    [] Ev.op = "load" -> Answered({"C16"})
         \cup IF ~Good THEN {} ELSE Chk({"C16"}, "class of the result", Ev.isdir = Dir)
    [] Ev.op = "save" -> Answered({"C16"})
         \cup IF ~Good THEN {} ELSE
         LET ls == SLines(Ev.lines, Ev.opts)
         IN Chk({"C16"}, "one line per snapshot", Len(ls) = Cardinality(DOMAIN S))
            \cup Chk({"C16"}, "file holds spans and matrices",
                 Len(ls) = Cardinality(DOMAIN S) => \A i \in DOMAIN ls :
                   LET s == Order(S)[i]
                       x == SParse(ls[i], Ev.opts)
                   IN /\ SLineOk(ls[i], Ev.opts)
                      /\ x.span = s
                      /\ x.m = MatrixOf(S[s], Ev.orders[i]))

Fails == ResultFails \cup StateFails(S', ga')

(*------------------------------- behaviour --------------------------------*)
Init ==
  /\ tid \in DOMAIN Traces
  /\ l = 0
  /\ S = EmptyFn
  /\ ga = Rng(Traces[tid].attr)
  /\ out = "ok"
  /\ kept = <<>>
  /\ last = Traces[tid].obs0
  /\ owed = {}
  /\ bad = FALSE

Consume ==
  /\ l' = l + 1
  /\ tid' = tid
  /\ out' = Decide
  /\ S' = Step
  /\ ga' = StepAttr
  /\ LET f == Fails IN
     /\ kept' = StepKept
     /\ last' = Obs
     /\ owed' = IF Ev.blind THEN owed \cup Shared \cup {"seen later"} ELSE {}
     /\ bad' = (f # {})
     /\ f # {} => PrintT("REJECT " \o ToJson([trace |-> tid, event |-> l + 1, clauses |-> f]))

Live == ~bad /\ l < Len(T.evs)
Is(op) == Live /\ Ev.op = op /\ Consume

InsertEv == Is("insert")
AddEv == Is("add")
AddNodesEv == Is("add_nodes")
AddEdgesEv == Is("add_edges")
EditEv == Is("edit")
SetAttrEv == Is("set_attr")
GetEv == Is("get")
IterEv == Is("iter")
ContainsEv == Is("contains")
OrderEv == Is("order")
NumberOfNodesEv == Is("number_of_nodes")
SizeEv == Is("size")
HasNodeEv == Is("has_node")
DegreeEv == Is("degree")
IsDirectedEv == Is("is_directed")
IsMultigraphEv == Is("is_multigraph")
ToDirectedEv == Is("to_directed")
ToUndirectedEv == Is("to_undirected")
StatEv == Is("stat")
SubgraphEv == Is("subgraph")
RecheckEv == Is("recheck")
ForeignEv == Is("foreign")
StuckEv == Is("stuck")
LoadEv == Is("load")
SaveEv == Is("save")
ResetEv == Is("reset")
Next ==
  \/ InsertEv \/ AddEv \/ AddNodesEv \/ AddEdgesEv \/ EditEv \/ SetAttrEv \/ GetEv \/ IterEv \/ ContainsEv
  \/ OrderEv \/ NumberOfNodesEv \/ SizeEv \/ HasNodeEv \/ DegreeEv \/ IsDirectedEv \/ IsMultigraphEv
  \/ ToDirectedEv \/ ToUndirectedEv \/ StatEv \/ SubgraphEv \/ RecheckEv \/ ForeignEv \/ StuckEv \/ LoadEv \/ SaveEv \/ ResetEv

Spec == Init /\ [][Next]_vars
View == <<tid, l, bad>>
=============================================================================
