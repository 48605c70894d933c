------------------------------ MODULE QGFile ------------------------------
(* A predicted quantum graph and the file it is stored in.                  *)
(*                                                                          *)
(* A graph g is [quanta, init, runs]: quanta[i] = [task, data, ins, outs]   *)
(* with ins/outs sequences of [c |-> connection, ds |-> <<datasets>>];      *)
(* init = sequence of [task, ins, outs]; types[d] is the dataset type of d. *)
(* A reader's state is [thin, init, dim, qs]: which components were read.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

QRange(s) == {s[i] : i \in DOMAIN s}
DsOf(links) == UNION {QRange(links[i].ds) : i \in DOMAIN links}
QIds(g) == DOMAIN g.quanta
InsOf(g, q) == DsOf(g.quanta[q].ins)
OutsOf(g, q) == DsOf(g.quanta[q].outs)
\* q2 depends on q1 iff it reads something q1 writes
QEdges(g, Q) == {p \in Q \X Q : OutsOf(g, p[1]) \cap InsOf(g, p[2]) # {}}
InitDs(g) == UNION {DsOf(g.init[i].ins) \cup DsOf(g.init[i].outs) : i \in DOMAIN g.init}

(* ---- reader transitions ------------------------------------------------ *)
R0 == [thin |-> FALSE, init |-> FALSE, dim |-> FALSE, qs |-> {}]
\* the ids an operation asks for; init quanta are represented by ids above Len(g.quanta)
Wanted(g, op) == IF op.all THEN QIds(g) ELSE QRange(op.ids) \cap QIds(g)
ReadStep(g, s, op) ==
  CASE op.op = "thin"     -> [s EXCEPT !.thin = TRUE]
    [] op.op = "init"     -> [s EXCEPT !.init = TRUE]
    [] op.op = "dim"      -> [s EXCEPT !.dim = TRUE]
    [] op.op = "datasets" -> [s EXCEPT !.qs = @ \cup Wanted(g, op)]
    [] op.op = "exec"     -> [s EXCEPT !.init = TRUE, !.dim = TRUE, !.qs = @ \cup Wanted(g, op)]
    [] op.op = "everything" -> [thin |-> TRUE, init |-> TRUE, dim |-> TRUE, qs |-> QIds(g)]
RECURSIVE ReadAllOps(_, _, _, _)
ReadAllOps(g, s, ops, i) == IF i > Len(ops) THEN s ELSE ReadAllOps(g, ReadStep(g, s, ops[i]), ops, i + 1)

(* ---- the graph a reader in state s presents ---------------------------- *)
Nodes(g, s) == IF s.thin THEN QIds(g) ELSE s.qs
Edges(g, s) == IF s.thin THEN QEdges(g, QIds(g)) ELSE QEdges(g, s.qs)
LoadedDs(g, s) == UNION {InsOf(g, q) \cup OutsOf(g, q) : q \in s.qs}
BiEdges(g, s) == UNION {{<<"r", d, q>> : d \in InsOf(g, q)} \cup {<<"w", d, q>> : d \in OutsOf(g, q)} : q \in s.qs}
TypedDs(g, s) == LoadedDs(g, s) \cup (IF s.init THEN InitDs(g) ELSE {})
CanBuild(s, q) == s.init /\ s.dim /\ q \in s.qs
InitOf(g, t) == g.init[CHOOSE i \in DOMAIN g.init : g.init[i].task = t]

Links(ls) == {<<ls[i].c, ls[i].ds>> : i \in {j \in DOMAIN ls : Len(ls[j].ds) > 0}}
LinkSets(ls) == {<<ls[i].c, QRange(ls[i].ds)>> : i \in {j \in DOMAIN ls : Len(ls[j].ds) > 0}}

Pairs(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}
Triples(x) == {<<x[i][1], x[i][2], x[i][3]>> : i \in DOMAIN x}

ViewBad(g, s, v) ==
  (IF QRange(v.nodes) # Nodes(g, s) \/ Len(v.nodes) # Cardinality(Nodes(g, s)) \/ v.len # Cardinality(Nodes(g, s))
   THEN {"loaded-quanta"} ELSE {})
  \cup (IF Pairs(v.edges) # Edges(g, s) THEN {"quantum-edges"} ELSE {})
  \cup (IF Len(v.iter) # Cardinality(Nodes(g, s)) \/ QRange(v.iter) # Nodes(g, s) THEN {"iteration"} ELSE {})
  \cup (IF \E i, j \in DOMAIN v.iter : i < j /\ <<v.iter[j], v.iter[i]>> \in Edges(g, s)
        THEN {"iteration-order"} ELSE {})
  \cup (IF QRange(v.datasets) # LoadedDs(g, s) THEN {"loaded-datasets"} ELSE {})
  \cup (IF Triples(v.biedges) # BiEdges(g, s) THEN {"dataset-edges"} ELSE {})
  \cup (IF Pairs(v.bytype) # {<<g.types[d], d>> : d \in TypedDs(g, s)} THEN {"datasets-by-type"} ELSE {})
  \cup (IF \E q \in QRange(v.nodes) \cap QIds(g) :
             ~\E i \in DOMAIN v.bytask : v.bytask[i] = <<g.quanta[q].task, g.quanta[q].data, q>>
        THEN {"quanta-by-task"} ELSE {})
  \cup (IF Len(v.bytask) # Cardinality(Nodes(g, s)) THEN {"quanta-by-task-extra"} ELSE {})

\* an executable quantum has exactly the stored data ID, inputs, outputs and init-inputs
BuildBad(g, s, b) ==
  IF b.error # ""
  THEN IF CanBuild(s, b.q) THEN {"build-refused:" \o b.error}
       ELSE IF b.error \notin {"IncompleteQuantumGraphError", "KeyError"} THEN {"build-wrong-error:" \o b.error} ELSE {}
  ELSE IF ~CanBuild(s, b.q) THEN {"build-from-incomplete"}
  ELSE LET q == g.quanta[b.q] IN
       (IF b.task # q.task \/ b.data # q.data THEN {"built-identity"} ELSE {})
       \cup (IF QRange(b.ins) # DsOf(q.ins) THEN {"built-inputs"} ELSE {})
       \cup (IF QRange(b.outs) # DsOf(q.outs) THEN {"built-outputs"} ELSE {})
       \cup (IF QRange(b.initins) # DsOf(InitOf(g, q.task).ins) THEN {"built-init-inputs"} ELSE {})
       \cup (IF ~b.refsok THEN {"built-reference-details"} ELSE {})
       \cup (IF ~b.expanded THEN {"built-dimension-records"} ELSE {})

CountsBad(g, h) ==
  (IF h.n_quanta # Len(g.quanta) THEN {"header-quanta"} ELSE {})
  \cup (IF \E i \in DOMAIN h.n_task : h.n_task[i][2] # Cardinality({q \in QIds(g) : g.quanta[q].task = h.n_task[i][1]})
        THEN {"header-task-quanta"} ELSE {})
  \cup (IF h.n_datasets # Cardinality(InitDs(g) \cup UNION {InsOf(g, q) \cup OutsOf(g, q) : q \in QIds(g)})
        THEN {"header-datasets"} ELSE {})

QGFileVerdict(r) ==
  LET s == ReadAllOps(r.g, R0, r.ops, 1) IN
  (IF r.error # "" THEN {"read-error:" \o r.error} ELSE
     ViewBad(r.g, s, r.view) \cup UNION {BuildBad(r.g, s, r.built[i]) : i \in DOMAIN r.built})
  \cup CountsBad(r.g, r.header)
  \cup (IF r.unknown # "LookupError" THEN {"unknown-quantum-accepted"} ELSE {})

\* through the previous file format: identical, except that init datasets are not compared
OldFormatVerdict(r) ==
  LET s == ReadAllOps(r.g, R0, r.ops, 1) IN
  IF r.error # "" THEN {"old-format-error:" \o r.error} ELSE
     ViewBad(r.g, s, r.view) \cup UNION {BuildBad(r.g, s, r.built[i]) : i \in DOMAIN r.built}

(* ---- changing the output run ------------------------------------------- *)
(* before/after are graphs over the same numbering; runs[d] is the run of d *)
(* and new[d] says whether d's identifier changed.                          *)
AllDs(g) == InitDs(g) \cup UNION {InsOf(g, q) \cup OutsOf(g, q) : q \in QIds(g)}
Produced(g) == UNION {OutsOf(g, q) : q \in QIds(g)} \cup UNION {DsOf(g.init[i].outs) : i \in DOMAIN g.init}
RenameVerdict(r) ==
  IF r.error # "" THEN {"rename-error:" \o r.error} ELSE
  LET g == r.before  a == r.after IN
  (IF Len(a.quanta) # Len(g.quanta)
      \/ \E q \in QIds(g) : a.quanta[q].task # g.quanta[q].task \/ a.quanta[q].data # g.quanta[q].data
   THEN {"rename-quanta"} ELSE {})
  \cup (IF ~r.all_new_quanta THEN {"rename-kept-quantum-id"} ELSE {})
  \* every use of a dataset follows it to its new identity: r.map[d] = the set of new ids seen where d was
  \cup (IF \E d \in AllDs(g) : Len(r.map[d]) # 1 THEN {"rename-inconsistent-ids"} ELSE {})
  \cup (IF \E d, e \in AllDs(g) : d # e /\ QRange(r.map[d]) \cap QRange(r.map[e]) # {} THEN {"rename-merged-ids"} ELSE {})
  \cup (IF \E d \in Produced(g) : r.map[d] = <<d>> THEN {"rename-kept-output-id"} ELSE {})
  \cup (IF \E d \in AllDs(g) \ Produced(g) : r.map[d] # <<d>> THEN {"rename-changed-input-id"} ELSE {})
  \cup (IF \E d \in Produced(g) : QRange(r.runs[d]) # {r.newrun} THEN {"rename-output-run"} ELSE {})
  \cup (IF \E d \in AllDs(g) \ Produced(g) : r.runs[d] # r.oldruns[d] THEN {"rename-input-run"} ELSE {})
  \cup (IF Pairs(r.edges) # QEdges(g, QIds(g)) THEN {"rename-edges"} ELSE {})
  \cup (IF r.headerrun # r.newrun THEN {"rename-header"} ELSE {})
===========================================================================
