----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the four edge-based graph classes  *)
(* against DynGraph / Projection / TextFormat.  TRACE names a file with     *)
(* one trace per line; each is a history of public calls with their         *)
(* results, the exception if any, and the graph observed afterwards (empty: *)
(* the same as before).  A blind event is not followed by a look at the     *)
(* graph: what it did shows in later answers, and at the next look.         *)
(* PROP is the property whose clauses are decided.                          *)
(***************************************************************************)
EXTENDS Projection, TextFormat, Json, IOUtils

Prop == IOEnv.PROP
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES tid,    \* which trace
          l,      \* events consumed
          g,      \* the graph, as the specification has it
          flags,  \* [removed, model : BOOLEAN]
          kept,   \* projections handed out earlier, as observed then
          last,   \* the last observation of the real graph
          owed,   \* properties the next look at the graph is to decide besides, for the blind events before it
          out,    \* what the specification requires of the event just consumed
          bad     \* a clause failed
vars == <<tid, l, g, flags, kept, last, owed, out, bad>>

Outcome == out'    \* decided first in every step

T == Traces[tid]
Ev == T.evs[l + 1]

IsInterval == g.kind = "interval"
K2(ci, cm) == IF IsInterval THEN ci ELSE cm
Rm == K2("C03", "C08")

DefaultInc(op) == IF ~IsInterval /\ g.dir /\ op \in {"has_edge", "remove_edge"}
                  THEN <<TRUE, TRUE>> ELSE <<TRUE, FALSE>>
Inc == IF Ev.inc = <<>> THEN DefaultInc(Ev.op) ELSE Ev.inc[1]
B == Ev.b
E == Ev.e
Nodes1(x) == IF x = <<>> THEN <<>> ELSE <<Rng(x[1])>>   \* optional node list

ReadOnly == {"edges", "has_edge", "nodes", "has_node", "number_of_nodes", "degree",
             "delta", "interval", "stamps", "contains", "to_subgraph", "to_snapshots",
             "to_snapshot_graph", "recheck", "foreign", "stuck", "save", "train"}
Removal == {"remove_edge", "remove_node", "bulk_remove"}
Building == {"build_nx", "build_snap"}
Fresh == Building \cup {"reset"}

(*------------------------ which outcome is required ----------------------*)
RevW == Reversed(B, E)
Linked == Linking(g, Ev.u, Ev.v) # {}
PairWindow ==
  IF Ev.exact THEN IF Given(B) /\ Given(E) THEN (IF RevW THEN "either" ELSE "ok")
                   ELSE IF Linked THEN "error" ELSE "either"
  ELSE IF RevW THEN (IF Linked THEN "error" ELSE "either") ELSE "ok"
SnapshotCount ==   \* (a length is a fraction) number of slices asked for, as <<n>>, or <<>> if refused
  LET bd == Bounds(g)
      n == IF Ev.n # <<>> THEN Ev.n[1]
           ELSE IF Ev.len[1] <= 0 THEN 0 ELSE CeilDiv((bd[2] - bd[1]) * Ev.len[2], Ev.len[1])
  IN IF (Ev.n # <<>>) = (Ev.len # <<>>) \/ n < 2 THEN <<>> ELSE <<n>>

DeltaLo == IF Given(B) THEN B[1] ELSE Bounds(g)[1]
DeltaHi == IF Given(E) THEN E[1] ELSE Bounds(g)[2]

(* "ok": answers; "error": is refused; "either": the requirement is open    *)
Decide ==
  CASE Ev.op = "add_edge" -> IF BadInterval(Ev.lo, Ev.hi) THEN "error" ELSE "ok"
    [] Ev.op = "add_edges" -> IF \E x \in Rng(Ev.es) : ~WellFormed(x) THEN "error" ELSE "ok"
    [] Ev.op \in {"remove_edge", "has_edge"} -> PairWindow
    [] Ev.op = "remove_node" ->
         IF RevW THEN (IF Ev.n \in NodesOf(g) THEN "error" ELSE "either") ELSE "ok"
    [] Ev.op = "has_node" ->
         IF RevW THEN (IF IsInterval \/ Ev.n \notin NodesOf(g) THEN "either" ELSE "error") ELSE "ok"
    [] Ev.op \in {"edges", "nodes", "number_of_nodes", "to_subgraph"} -> IF RevW THEN "error" ELSE "ok"
    [] Ev.op = "degree" -> IF RevW THEN "error"
                           ELSE IF Ev.n = <<>> /\ NodesAt(g, B, E, Inc) = {} THEN "either" ELSE "ok"
    [] Ev.op = "delta" -> IF RevW THEN "error"
                          ELSE IF EdgesOf(g) = {} \/ (IsInterval /\ ~AllPositive(g)) THEN "either"
                          \* documented: an omitted bound is the graph's own, which may lie beyond the other
                          ELSE IF IsInterval /\ DeltaLo > DeltaHi THEN "either" ELSE "ok"
    [] Ev.op = "stamps" -> IF RevW THEN "either" ELSE "ok"
    [] Ev.op = "interval" -> IF EdgesOf(g) = {} THEN "either" ELSE "ok"
    [] Ev.op = "to_snapshots" -> IF EdgesOf(g) = {} THEN "either"
                                 ELSE IF SnapshotCount = <<>> THEN "error" ELSE "ok"
    [] Ev.op = "to_snapshot_graph" ->
         IF EdgesOf(g) = {} \/ (IsInterval /\ ~AllPositive(g) /\ ~AllInstant(g)) THEN "either" ELSE "ok"
    [] Ev.op = "load" ->
         IF Ev.opts.delim = <<Equals>> \/ ~OrderOk(T.kind, Ev.opts.order, Ev.opts.dur) THEN "error"
         ELSE IF ~Loadable(Ev.lines, Ev.opts) THEN "error" ELSE "ok"
    [] Ev.op = "save" -> IF NodesOf(g) = {} \/ Ev.opts.delim = <<Equals>> THEN "error" ELSE "ok"
    [] OTHER -> "ok"

ErrorClass ==
  CASE Ev.op = "load" ->
         IF Ev.opts.delim = <<Equals>> \/ ~OrderOk(T.kind, Ev.opts.order, Ev.opts.dur)
         THEN "ValueError" ELSE "TypeError"
    [] Ev.op = "save" -> "ValueError"
    [] OTHER -> "NetworkXError"

(*------------------------------ transitions ------------------------------*)
Observed(o) ==   \* the graph observed, as a graph value
  [EmptyGraph(g.kind, g.dir, Rng(o.gattr)) EXCEPT
     !.nodes = [n \in {x[1] : x \in Rng(o.nodes)} |-> Rng((CHOOSE x \in Rng(o.nodes) : x[1] = n)[2])],
     !.edges = [k \in {Norm(g, x) : x \in Rng(o.edges)} |->
                  Rng((CHOOSE x \in Rng(o.edges) : Norm(g, x) = k)[5])]]

Obs == IF Ev.obs = <<>> THEN last ELSE Ev.obs[1]

BulkAdd(gr, es) ==
  LET ks == {Norm(gr, x) : x \in Rng(es)}
  IN [gr EXCEPT !.edges = [k \in ks \cup DOMAIN @ |-> IF k \in DOMAIN @ THEN @[k] ELSE {}],
                !.nodes = [n \in Ends(ks) \cup DOMAIN @ |-> IF n \in DOMAIN @ THEN @[n] ELSE {}]]

Step ==
  CASE Ev.op = "add_node"    -> AddNode(g, Ev.n, Rng(Ev.a))
    [] Ev.op = "add_nodes"   -> AddNodes(g, Ev.ns, Rng(Ev.a))
    [] Ev.op = "add_edge"    -> AddEdge(g, Ev.u, Ev.v, Ev.lo, Ev.hi, Rng(Ev.a))
    [] Ev.op = "add_edges"   -> AddEdges(g, Ev.es, Rng(Ev.a))
    [] Ev.op = "bulk_add"    -> BulkAdd(g, Ev.es)
    [] Ev.op = "bulk_remove" -> Drop(g, {Norm(g, x) : x \in Rng(Ev.es)})
    [] Ev.op = "remove_edge" ->
         IF Outcome # "ok" THEN g
         ELSE IF Ev.exact THEN RemoveExact(g, Ev.u, Ev.v, B[1], E[1])
         ELSE RemoveEdge(g, Ev.u, Ev.v, B, E, Inc)
    [] Ev.op = "remove_node" -> IF Outcome # "ok" THEN g ELSE RemoveNode(g, Ev.n, B, E, Inc)
    [] Ev.op = "set_attr"    -> SetAttr(g, Rng(Ev.a))
    [] Ev.op = "reset"       -> EmptyGraph(g.kind, g.dir, {})
    [] Ev.op = "build_nx"    -> FromEdges(EmptyGraph(g.kind, g.dir, {}), Ev.es)
    [] Ev.op = "build_snap"  -> Observed(Obs)
    [] Ev.op = "load"        -> IF Outcome # "ok" THEN g
                                ELSE Load(g.kind, g.dir, Ev.lines, Ev.opts, T.labels)
    [] OTHER -> g

StepFlags ==
  [removed |-> (flags.removed \/ Ev.op \in Removal) /\ Ev.op \notin Fresh \cup {"load"},
   model   |-> (flags.model \/ Ev.op = "train" \/ (Ev.op = "load" /\ Ev.predict))
               /\ Ev.op \notin Fresh /\ (Ev.op = "load" => Ev.predict)]

StepKept == IF Ev.op \in {"to_subgraph", "to_snapshots", "to_snapshot_graph"} /\ Ev.keep
            THEN Append(kept, Ev.res) ELSE kept

(*-------------------------------- clauses --------------------------------*)
Chk(tags, name, cond) ==
  IF Prop = "ALL" \/ Prop \in tags THEN (IF cond THEN {} ELSE {name}) ELSE {}

After == (IF flags.removed THEN {Rm} ELSE {}) \cup (IF flags.model THEN {"C17"} ELSE {}) \cup {"C22"}

(* the observation o agrees with the graph x *)
EdgesAgree(x, o) ==
  /\ Len(o.edges) = Cardinality(EdgesOf(x))
  /\ {<<Norm(x, r), Rng(r[5])>> : r \in Rng(o.edges)} = {<<k, x.edges[k]>> : k \in EdgesOf(x)}
NodesAgree(x, o) ==
  /\ Len(o.nodes) = Cardinality(NodesOf(x))
  /\ {<<r[1], Rng(r[2])>> : r \in Rng(o.nodes)} = {<<n, x.nodes[n]>> : n \in NodesOf(x)}
NodeSetAgrees(x, o) ==
  /\ {r[1] : r \in Rng(o.nodes)} = NodesOf(x)
  /\ Len(o.nodes) = Cardinality(NodesOf(x))
  /\ o.len = Cardinality(NodesOf(x))
  /\ o.num = Cardinality(NodesOf(x))
EndsListed(o) == \A r \in Rng(o.edges) : \E m, n \in Rng(o.nodes) : m[1] = r[1] /\ n[1] = r[2]
EndsListed2(o) == Ends({r : r \in Rng(o.edges)}) \subseteq {m[1] : m \in Rng(o.nodes)}
AttrAgrees(x, o) == Rng(o.gattr) = x.attr /\ o.name = o.str
BoundsAgree(x, o) == EdgesOf(x) # {} => o.iv = <<Bounds(x)>>

Refused == Outcome = "error" \/ (Outcome = "either" /\ Ev.exc # "")

OwnTags ==
  (IF Ev.op \in Removal THEN {Rm} ELSE {})
  \cup (IF Ev.op \in ReadOnly THEN {"C21"} ELSE {})
  \cup (IF Refused THEN {"C20"} ELSE {})
  \cup (IF flags.model THEN {"C17"} ELSE {})
  \cup (IF Ev.op \in Building THEN {"C14"} ELSE {})
  \cup (IF Ev.op = "load" THEN {"C23", "C15"} ELSE {})
  \cup {"C22"}
Shared == OwnTags \ {"C20", "C21"}     \* which of several events changed the graph cannot be told from one look
StateTags == IF owed = {} \/ Ev.op \in Fresh \cup {"load"} THEN OwnTags ELSE Shared \cup owed

StateFails(x) ==
  IF Ev.blind \/ (Ev.obs = <<>> /\ x = g /\ owed = {}) THEN {}
  ELSE Chk({"C20", "C19", "C01", "C06"} \cup StateTags, "state observable", Obs.ok)
       \cup IF ~Obs.ok THEN {} ELSE
       Chk({K2("C01", "C06")} \cup StateTags, "edges held", EdgesAgree(x, Obs))
       \cup Chk({K2("C01", "C06")}, "endpoints are nodes", EndsListed2(Obs))
       \cup Chk({"C19"} \cup (StateTags \ {"C15", "C22"}), "nodes and attributes", NodesAgree(x, Obs))
       \cup Chk({"C19", "C22"}, "node set, len", NodeSetAgrees(x, Obs))
       \cup Chk({"C19"} \cup (StateTags \ {"C14", "C23", "C15"}), "graph attributes", AttrAgrees(x, Obs))
       \cup Chk({"C04"} \cup (StateTags \ {"C23", "C15"}), "time bounds", BoundsAgree(x, Obs))

Answered(tags) == Chk(tags, "answers without error", Ev.exc = "" /\ Ev.shape)
Good == Ev.exc = "" /\ Ev.shape

ResEdges(K, data) ==
  LET ids == [i \in DOMAIN Ev.res |-> Norm(g, Ev.res[i])]
  IN /\ Len(ids) = Cardinality(K)
     /\ Rng(ids) = K
     /\ data = "T" => \A i \in DOMAIN ids : Rng(Ev.res[i][5]) = g.edges[ids[i]]
     /\ data = "K" => \A i \in DOMAIN ids :
                        Ev.res[i][5] = IF \E p \in g.edges[ids[i]] : p[1] = Ev.key
                                       THEN (CHOOSE p \in g.edges[ids[i]] : p[1] = Ev.key)[2]
                                       ELSE Ev.def
ResNodes(N, data) ==
  /\ Len(Ev.res) = Cardinality(N)
  /\ {r[1] : r \in Rng(Ev.res)} = N
ResNodeData(data) ==
  \A r \in Rng(Ev.res) : r[1] \in NodesOf(g) =>
    /\ data = "T" => Rng(r[2]) = g.nodes[r[1]]
    /\ data = "K" => r[2] = IF \E p \in g.nodes[r[1]] : p[1] = Ev.key
                            THEN (CHOOSE p \in g.nodes[r[1]] : p[1] = Ev.key)[2] ELSE Ev.def

IntervalDeltaOk ==
  LET ts == DeltaTimes(g, Ev.n[1], Ev.dir, DeltaLo, DeltaHi)
      r == Ev.res
  IN /\ \A i \in 1 .. (Len(r) - 1) : r[i][1] <= r[i + 1][1]
     /\ {r[i][1] : i \in DOMAIN r} = ts
     /\ \A t \in ts :
          /\ Cardinality({i \in DOMAIN r : r[i][1] = t})
             = DeltaEntries(g, Ev.n[1], Ev.dir, DeltaLo, DeltaHi, t)
          /\ r[MaxOf({i \in DOMAIN r : r[i][1] = t})][2] = ActiveAt(g, Ev.n[1], Ev.dir, t)
ImpulseDeltaOk ==
  LET K == Selected(g, Ev.n[1], Ev.dir, B, E, Inc)
      r == Ev.res
  IN /\ Len(r) = Cardinality(Los(K))
     /\ {x : x \in Rng(r)} =
        {<<t, CountAt(g, Ev.n[1], Ev.dir, {k \in K : k[3] = t})>> : t \in Los(K)}

BaseQ == K2("C02", "C07")
DegQ  == K2("C05", "C09")

SlicesOk ==
  LET n == SnapshotCount[1]
      bd == Bounds(g)
      num == IF Ev.n # <<>> THEN bd[2] - bd[1] ELSE Ev.len[1]
      den == IF Ev.n # <<>> THEN n ELSE Ev.len[2]
  IN /\ Len(Ev.res) = n
     /\ \A i \in DOMAIN Ev.res :
          ProjectionOk(g, SliceHits(g, bd[1], num, den, n, i - 1), Ev.res[i], Ev.multi, Ev.ed, Ev.td, Ev.nd)
     /\ Ev.rlen # <<>> => Ev.rlen[1][1] * den = num * Ev.rlen[1][2]
SlicesCover ==
  \A k \in EdgesOf(g) : \E i \in DOMAIN Ev.res :
     \E x \in Rng(Ev.res[i].edges) : PairOf(g.dir, x[1], x[2]) = PairOf(g.dir, k[1], k[2])

(* what the query, conversion or refusal must look like *)
ResultFails ==
  IF Outcome = "either" THEN {}
  ELSE IF Outcome = "error"
  THEN Chk({"C20"} \cup IF Ev.op = "load" THEN {"C23"} ELSE {}, "is refused", Ev.exc = ErrorClass)
  ELSE
  CASE Ev.op = "edges" ->
         LET tags == {BaseQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "edges selected",
                ResEdges(Hits(g, ByEnds(g, Nodes1(Ev.us), Nodes1(Ev.vs)), B, E, Inc), Ev.data))
    [] Ev.op = "has_edge" ->
         LET tags == {BaseQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "has_edge",
                Ev.res = IF Ev.exact THEN HasExact(g, Ev.u, Ev.v, B[1], E[1])
                         ELSE HasEdge(g, Ev.u, Ev.v, B, E, Inc))
    [] Ev.op = "nodes" ->
         LET tags == {BaseQ, "C19"} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "nodes present", ResNodes(NodesAt(g, B, E, Inc), Ev.data))
            \cup Chk({"C19"}, "node data", ResNodeData(Ev.data))
    [] Ev.op = "has_node" ->
         LET tags == {BaseQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "has_node", Ev.res = (Ev.n \in NodesAt(g, B, E, Inc)))
    [] Ev.op = "number_of_nodes" ->
         LET tags == {BaseQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "number_of_nodes", Ev.res = Cardinality(NodesAt(g, B, E, Inc)))
    [] Ev.op = "contains" ->
         Answered({"C19"}) \cup IF ~Good THEN {} ELSE
         Chk({"C19"} \cup After, "membership", Ev.res = (Ev.n \in NodesOf(g)))
    [] Ev.op = "degree" ->
         LET tags == {DegQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "degree",
                IF Ev.n # <<>> THEN Ev.res = <<Degree(g, Ev.n[1], Ev.dir, B, E, Inc), 1>>
                ELSE Ev.res[1] * Cardinality(NodesAt(g, B, E, Inc))
                     = Ev.res[2] * DegreeSum(g, Ev.dir, B, E, Inc))
    [] Ev.op = "delta" ->
         LET tags == {DegQ} \cup After
         IN Answered(tags) \cup IF ~Good THEN {} ELSE
            Chk(tags, "degree changes", IF IsInterval THEN IntervalDeltaOk ELSE ImpulseDeltaOk)
    [] Ev.op = "interval" ->
         Answered({"C04"} \cup After) \cup IF ~Good THEN {} ELSE
         Chk({"C04"} \cup After, "interval()", Ev.res = Bounds(g))
    [] Ev.op = "stamps" ->
         Answered({"C04"} \cup After) \cup IF ~Good THEN {} ELSE
         Chk({"C04"} \cup After, "unique timestamps", Ev.res = Sort(Stamps(g, Ev.which, B, E, Inc)))
    [] Ev.op = "to_subgraph" ->
         Answered({"C10"} \cup After) \cup IF ~Good THEN {} ELSE
         Chk({"C10"} \cup After, "static projection",
             ProjectionOk(g, Hits(g, EdgesOf(g), B, E, Inc), Ev.res, Ev.multi, Ev.ed, Ev.td, Ev.nd))
    [] Ev.op = "to_snapshots" ->
         Answered({"C10"} \cup After) \cup IF ~Good THEN {} ELSE
         Chk({"C10"} \cup After, "slices", SlicesOk)
         \cup Chk({"C10"}, "every edge is in a slice", SlicesCover)
    [] Ev.op = "to_snapshot_graph" ->
         Answered({"C11"} \cup After) \cup IF ~Good THEN {} ELSE
         Chk({"C11"} \cup After, "snapshots", SnapshotsOk(g, Ev.res, Ev.multi, Ev.ed, Ev.td, Ev.nd))
    [] Ev.op = "stuck" -> {"the recorder cannot go on"}
    [] Ev.op = "recheck" -> Chk({"C21"}, "handed out result unchanged", Ev.exc = "" /\ Ev.res = kept[Ev.idx])
    [] Ev.op = "foreign" -> Chk({"C21"}, "arguments unchanged", Ev.before = Ev.after)
    [] Ev.op = "train" -> Chk({"C17"}, "trains", Ev.exc = "")
    [] Ev.op = "build_nx" ->
         Answered({"C14"}) \cup Chk({"C14"}, "directed as the class", Ev.isdir = g.dir)
    [] Ev.op = "build_snap" ->
         Answered({"C14"}) \cup Chk({"C14"}, "directed as the class", Ev.isdir = g.dir)
         \cup IF ~Good \/ ~Obs.ok THEN {} ELSE
         Chk({"C14"}, "slots linked", SlotsOk(g.dir, Ev.snaps, Ev.begin, Ev.period, Rng(Obs.edges)))
         \cup Chk({"C14"}, "slot attributes", SlotAttrsOk(g.dir, Ev.snaps, Ev.begin, Ev.period, Rng(Obs.edges)))
         \cup Chk({"C14"}, "nodes are endpoints",
                  {x[1] : x \in Rng(Obs.nodes)} = Ends({x : x \in Rng(Obs.edges)}))
    [] Ev.op = "load" -> Answered({"C23", "C15"})
         \cup IF ~Good THEN {} ELSE Chk({"C15", "C23"}, "directed as the class", Ev.isdir = g.dir)
    [] Ev.op = "save" ->
         Answered({"C15"}) \cup IF ~Good THEN {} ELSE
         Chk({"C15"}, "file holds the graph",
             /\ Loadable(Ev.lines, Ev.opts)
             /\ Cardinality(DataLines(Ev.lines, Ev.opts)) = Cardinality(EdgesOf(g))
             /\ Load(g.kind, g.dir, Ev.lines, Ev.opts, T.labels).edges = g.edges)
    [] Ev.op \in {"add_node", "add_nodes"} -> Answered({"C19"})
    [] Ev.op \in {"add_edge", "add_edges", "bulk_add"} -> Answered({K2("C01", "C06"), "C22"})
    [] Ev.op \in Removal -> Answered({Rm, "C22"} \cup IF flags.model THEN {"C17"} ELSE {})
    [] Ev.op \in {"set_attr", "reset"} -> Answered({"C19"})

(* a refused call or a query leaves the graph as it was *)
Fails == ResultFails \cup StateFails(g')

(*------------------------------- behaviour -------------------------------*)
Init ==
  /\ tid \in DOMAIN Traces
  /\ l = 0
  /\ g = EmptyGraph(Traces[tid].kind, Traces[tid].dir, Rng(Traces[tid].attr))
  /\ flags = [removed |-> FALSE, model |-> FALSE]
  /\ kept = <<>>
  /\ out = "ok"
  /\ last = Traces[tid].obs0
  /\ owed = {}
  /\ bad = FALSE

Consume ==
  /\ l' = l + 1
  /\ tid' = tid
  /\ out' = Decide
  /\ g' = Step
  /\ LET f == Fails IN
     /\ flags' = StepFlags
     /\ kept' = StepKept
     /\ last' = Obs
     /\ owed' = IF Ev.blind THEN owed \cup Shared ELSE {}
     /\ bad' = (f # {})
     /\ f # {} => PrintT("REJECT " \o ToJson([trace |-> tid, event |-> l + 1, clauses |-> f]))

Live == ~bad /\ l < Len(T.evs)
Is(op) == Live /\ Ev.op = op /\ Consume

AddNodeEv == Is("add_node")
AddNodesEv == Is("add_nodes")
AddEdgeEv == Is("add_edge")
AddEdgesEv == Is("add_edges")
BulkAddEv == Is("bulk_add")
BulkRemoveEv == Is("bulk_remove")
RemoveEdgeEv == Is("remove_edge")
RemoveNodeEv == Is("remove_node")
SetAttrEv == Is("set_attr")
EdgesEv == Is("edges")
HasEdgeEv == Is("has_edge")
NodesEv == Is("nodes")
HasNodeEv == Is("has_node")
NumberOfNodesEv == Is("number_of_nodes")
ContainsEv == Is("contains")
DegreeEv == Is("degree")
DeltaEv == Is("delta")
IntervalEv == Is("interval")
StampsEv == Is("stamps")
ToSubgraphEv == Is("to_subgraph")
ToSnapshotsEv == Is("to_snapshots")
ToSnapshotGraphEv == Is("to_snapshot_graph")
RecheckEv == Is("recheck")
ForeignEv == Is("foreign")
StuckEv == Is("stuck")
TrainEv == Is("train")
BuildNxEv == Is("build_nx")
BuildSnapEv == Is("build_snap")
LoadEv == Is("load")
SaveEv == Is("save")
ResetEv == Is("reset")

Next ==
  \/ AddNodeEv \/ AddNodesEv \/ AddEdgeEv \/ AddEdgesEv \/ BulkAddEv \/ BulkRemoveEv
  \/ RemoveEdgeEv \/ RemoveNodeEv \/ SetAttrEv \/ EdgesEv \/ HasEdgeEv \/ NodesEv
  \/ HasNodeEv \/ NumberOfNodesEv \/ ContainsEv \/ DegreeEv \/ DeltaEv \/ IntervalEv
  \/ StampsEv \/ ToSubgraphEv \/ ToSnapshotsEv \/ ToSnapshotGraphEv \/ RecheckEv
  \/ ForeignEv \/ StuckEv \/ TrainEv \/ BuildNxEv \/ BuildSnapEv \/ LoadEv \/ SaveEv \/ ResetEv

Spec == Init /\ [][Next]_vars
View == <<tid, l, bad>>
=============================================================================
