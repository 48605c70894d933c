----------------------------- MODULE Provenance -----------------------------
(* What a provenance quantum graph says about each quantum.                *)
(*                                                                         *)
(* Part 1: derivation of one quantum's provenance from what its execution  *)
(* left behind: the log dataset (whose extra information carries earlier   *)
(* attempts and, for failures, the exception and the metadata) and the     *)
(* metadata dataset.                                                       *)
(* Part 2: the contents of the provenance file and of the graph that is    *)
(* loaded from it piecewise.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]

(***************************************************************************)
(* Part 1.                                                                 *)
(* c.logs     BOOLEAN      log dataset was written                         *)
(* c.prev     Seq([exc, meta])  earlier attempts, oldest first             *)
(* c.lexc     STRING       exception in the logs' extra ("" if none)       *)
(* c.lmeta    [has, outs]  metadata in the logs' extra                     *)
(* c.meta     [has, fail, cav, outs]   metadata dataset                    *)
(* outs: [has, put] -- whether there is a list of outputs, and the list    *)
(* c.incomplete BOOLEAN    failures may still be retried                   *)
(***************************************************************************)
ScanStatus(c) == IF c.meta.has THEN "SUCCESSFUL" ELSE IF c.incomplete THEN "ABANDONED" ELSE "FAILED"

LastStatus(c) ==
    CASE c.meta.has /\ c.logs -> "SUCCESSFUL"
      [] c.meta.has /\ ~c.logs -> "ABORTED_SUCCESS"
      [] ~c.meta.has /\ c.logs -> "FAILED"
      [] OTHER -> "UNKNOWN"

HasLog(s) == s \in {"SUCCESSFUL", "FAILED"}
HasMeta(s) == s \in {"SUCCESSFUL", "ABORTED_SUCCESS"}

(* Tokens: attempt k's log records and metadata carry the number k + 1; 0  *)
(* means there are none.                                                   *)
Attempts(c) ==
    LET n == Len(c.prev)
        early == [i \in 1..n |-> [n |-> i - 1, status |-> "FAILED", exc |-> c.prev[i].exc, cav |-> -1,
                                  logs |-> i, meta |-> IF c.prev[i].meta THEN i ELSE 0]]
        last == [n |-> n, status |-> LastStatus(c),
                 exc |-> IF c.meta.has THEN c.meta.fail ELSE c.lexc,
                 cav |-> IF c.meta.has THEN c.meta.cav ELSE -1,
                 logs |-> IF c.logs THEN n + 1 ELSE 0,
                 meta |-> IF c.meta.has \/ c.lmeta.has THEN n + 1 ELSE 0]
    IN Append(early, last)

OutsInfo(c) == IF c.meta.has THEN c.meta.outs ELSE IF c.lmeta.has THEN c.lmeta.outs ELSE [has |-> FALSE, put |-> {}]

(* What is known about a regular output: "yes", "no" or "unset". *)
Known(c, d) == LET o == OutsInfo(c) IN IF ~o.has THEN "unset" ELSE IF d \in o.put THEN "yes" ELSE "no"

(* The documented meaning of the statuses. *)
Documented(c) ==
    LET s == LastStatus(c) IN
    /\ s = "FAILED" <=> (c.logs /\ ~c.meta.has)
    /\ s = "UNKNOWN" <=> (~c.logs /\ ~c.meta.has)
    /\ s = "ABORTED_SUCCESS" <=> (~c.logs /\ c.meta.has)
    /\ HasLog(s) <=> c.logs
    /\ HasMeta(s) <=> c.meta.has
    /\ ~c.incomplete => (ScanStatus(c) = "SUCCESSFUL" <=> HasMeta(s))
    /\ Len(Attempts(c)) = Len(c.prev) + 1
    /\ \A i \in 1..Len(c.prev) : Attempts(c)[i].status = "FAILED"

Norm(o) == [has |-> o.has, put |-> SeqSet(o.put)]
NormCase(c) == [c EXCEPT !.lmeta = [has |-> c.lmeta.has, outs |-> Norm(c.lmeta.outs)],
                         !.meta = [has |-> c.meta.has, fail |-> c.meta.fail, cav |-> c.meta.cav, outs |-> Norm(c.meta.outs)]]

(* r.c the case, r.o what was observed; r.o.known: Seq of answers for      *)
(* outputs 1..k, r.o.log and r.o.metadata those for the two others.        *)
YN(b) == IF b THEN "yes" ELSE "no"
ScanVerdict(r) ==
    LET c == NormCase(r.c)
        o == r.o
    IN IF o.error # "" THEN {"scan-raises"} ELSE
       {k \in {"scan-status", "scan-log-existence", "scan-metadata-existence", "scan-attempts", "scan-output-existence"} :
        ~(CASE k = "scan-status" -> o.status = ScanStatus(c)
            [] k = "scan-log-existence" -> o.log = YN(c.logs)
            [] k = "scan-metadata-existence" -> o.metadata = YN(c.meta.has)
            [] k = "scan-attempts" -> ScanStatus(c) = "ABANDONED" \/ o.attempts = Attempts(c)
            [] k = "scan-output-existence" ->
                 ScanStatus(c) = "ABANDONED" \/ \A d \in 1..Len(o.known) : o.known[d] = Known(c, d))}

(***************************************************************************)
(* Part 2.  r.quanta: Seq([task, ins, outs, log, meta, kind, c]) where ins *)
(* and outs are sequences of dataset numbers (outs without log and         *)
(* metadata; c's outputs are positions in outs); kind is "ran", "blocked"  *)
(* or "absent" (never reported to the writer).  r.inits: Seq([task, ins,   *)
(* outs]).  r.types: dataset number -> dataset type; r.assume BOOLEAN and  *)
(* r.initexist: init outputs found to exist; r.ops: Seq([op, all, ids]).   *)
(***************************************************************************)
QOuts(q) == SeqSet(q.outs) \cup {q.log, q.meta}
InGraph(r) == {i \in 1..Len(r.quanta) : r.quanta[i].kind # "absent"}
Status(q) == IF q.kind = "blocked" THEN "BLOCKED" ELSE LastStatus(NormCase(q.c))
AttOf(q) == IF q.kind = "blocked" THEN <<>> ELSE Attempts(NormCase(q.c))
LastExc(q) == IF q.kind = "blocked" THEN "" ELSE Last(AttOf(q)).exc
LastCav(q) == IF q.kind = "blocked" THEN -1 ELSE Last(AttOf(q)).cav

InitOuts(r) == UNION {SeqSet(r.inits[i].outs) : i \in 1..Len(r.inits)}
AllOuts(r) == UNION {QOuts(r.quanta[i]) : i \in 1..Len(r.quanta)} \cup InitOuts(r)
(* Datasets the file has a record of. *)
Recorded(r) == {d \in 1..Len(r.types) : d \notin AllOuts(r)} \cup InitOuts(r)
               \cup UNION {QOuts(r.quanta[i]) : i \in InGraph(r)}

(* What a look into storage shows, for records that have that. *)
OnDisk(r, d) == "exist" \in DOMAIN r /\ d \in SeqSet(r.exist)

Produced(r, d) ==
    IF d \notin AllOuts(r) THEN TRUE
    ELSE IF d \in InitOuts(r) THEN r.assume \/ d \in SeqSet(r.initexist)
    ELSE \E i \in InGraph(r) :
            LET q == r.quanta[i] IN
            /\ q.kind = "ran"
            /\ \/ d = q.log /\ q.c.logs
               \/ d = q.meta /\ q.c.meta.has
               \/ \E k \in 1..Len(q.outs) : /\ q.outs[k] = d
                                            /\ \/ Known(NormCase(q.c), k) = "yes"
                                               \/ Known(NormCase(q.c), k) = "unset" /\ OnDisk(r, d)

(* Edges; init quanta are numbered after the quanta. *)
NQ(r) == Len(r.quanta)
Writes(r) == UNION {{<<"w", d, i>> : d \in QOuts(r.quanta[i])} : i \in 1..NQ(r)}
             \cup UNION {{<<"w", d, NQ(r) + i>> : d \in SeqSet(r.inits[i].outs)} : i \in 1..Len(r.inits)}
Reads(r) == UNION {{<<"r", d, i>> : d \in SeqSet(r.quanta[i].ins)} : i \in 1..NQ(r)}
            \cup UNION {{<<"r", d, NQ(r) + i>> : d \in SeqSet(r.inits[i].ins)} : i \in 1..Len(r.inits)}
BiEdges(r) == Writes(r) \cup Reads(r)
QEdges(r) == {<<e[1], e[2]>> : e \in {p \in (1..NQ(r)) \X (1..NQ(r)) :
                 QOuts(r.quanta[p[1]]) \cap SeqSet(r.quanta[p[2]].ins) # {}}}

(* What a history of reads has loaded. *)
Asked(r, names, all) == UNION {IF r.ops[i].op \in names
                                THEN IF r.ops[i].all \/ r.ops[i].op = "full" THEN all
                                     ELSE SeqSet(r.ops[i].ids) \cap all
                                ELSE {} : i \in 1..Len(r.ops)}
LoadedQ(r) == Asked(r, {"quanta", "full"}, InGraph(r))
ReadD(r) == Asked(r, {"datasets", "full"}, Recorded(r))
InitRead(r) == \E i \in 1..Len(r.ops) : r.ops[i].op \in {"init", "full"}
LoadedD(r) == ReadD(r) \cup UNION {{r.quanta[i].log, r.quanta[i].meta} : i \in LoadedQ(r)}
              \cup (IF InitRead(r) THEN InitOuts(r) ELSE {})
Everything(r) == LoadedQ(r) = InGraph(r) /\ ReadD(r) = Recorded(r) /\ InitRead(r)

RequiredBi(r) == {e \in BiEdges(r) : \/ e[3] \in LoadedQ(r)
                                     \/ e[2] \in ReadD(r)
                                     \/ e[3] > NQ(r) /\ InitRead(r)}

StatusCount(r, t, s) == Cardinality({i \in InGraph(r) : r.quanta[i].task = t /\ Status(r.quanta[i]) = s})
ExcCount(r, t, e, ok) == Cardinality({i \in InGraph(r) : /\ r.quanta[i].task = t /\ LastExc(r.quanta[i]) = e
                                                         /\ (Status(r.quanta[i]) = "SUCCESSFUL") = ok})

(* r.qnodes: Seq([q, status, exc, cav, atts, logid, metaid]); r.dnodes:    *)
(* Seq([d, type, produced]); r.bytask, r.bytype; r.biedges; r.qedges,      *)
(* r.qonly (nodes of the quantum-only graph with attributes)               *)
NodeOK(r, x) ==
    /\ x.q \in 1..NQ(r)
    /\ LET q == r.quanta[x.q] IN
       /\ x.task = q.task /\ x.status = Status(q) /\ x.exc = LastExc(q) /\ x.cav = LastCav(q)
       /\ x.logid = q.log /\ x.metaid = q.meta
       /\ x.atts = AttOf(q)

GraphClauses == {"prov-quanta", "prov-quantum-attributes", "prov-by-task", "prov-datasets", "prov-dataset-attributes",
                 "prov-produced", "prov-by-type", "prov-edges-missing", "prov-edges-false", "prov-quantum-edges",
                 "prov-init-in-quantum-graph", "prov-init-quanta", "prov-logs", "prov-metadata",
                 "prov-status-table", "prov-exception-table", "prov-status-report"}

LogToks(q, f(_)) == [i \in 1..Len(AttOf(q)) |-> f(AttOf(q)[i])]

GraphOK(r, k) ==
    LET o == r.o IN
    CASE k = "prov-quanta" -> {x.q : x \in SeqSet(o.qnodes)} = LoadedQ(r) /\ Len(o.qnodes) = Cardinality(LoadedQ(r))
      [] k = "prov-quantum-attributes" -> \A x \in SeqSet(o.qnodes) : NodeOK(r, x)
      [] k = "prov-by-task" -> SeqSet(o.bytask) = {<<r.quanta[i].task, i>> : i \in LoadedQ(r)}
      [] k = "prov-datasets" -> {x.d : x \in SeqSet(o.dnodes)} = LoadedD(r)
      [] k = "prov-dataset-attributes" -> \A x \in SeqSet(o.dnodes) : x.ok /\ x.d \in 1..Len(r.types) /\ x.type = r.types[x.d]
      [] k = "prov-produced" -> \A x \in SeqSet(o.dnodes) :
             (x.d \in InitOuts(r) /\ x.d \notin ReadD(r)) \/ x.produced = Produced(r, x.d)
      [] k = "prov-by-type" -> SeqSet(o.bytype) = {<<r.types[d], d>> : d \in LoadedD(r)}
      [] k = "prov-edges-missing" -> RequiredBi(r) \subseteq SeqSet(o.biedges)
      [] k = "prov-edges-false" -> SeqSet(o.biedges) \subseteq BiEdges(r)
      [] k = "prov-quantum-edges" ->
             /\ {e \in QEdges(r) : e[1] \in LoadedQ(r) /\ e[2] \in LoadedQ(r)} \subseteq SeqSet(o.qedges)
             /\ {e \in SeqSet(o.qedges) : e[1] <= NQ(r) /\ e[2] <= NQ(r)} \subseteq QEdges(r)
      [] k = "prov-init-in-quantum-graph" -> \A n \in SeqSet(o.qonly) : n \in 1..NQ(r)
      [] k = "prov-init-quanta" -> SeqSet(o.inits) = (IF InitRead(r) THEN {r.inits[i].task : i \in 1..Len(r.inits)} ELSE {})
      [] k = "prov-logs" -> \A x \in SeqSet(o.logs) :
             x.toks = (IF r.quanta[x.q].kind = "blocked" THEN <<-1>>
                       ELSE [i \in 1..Len(AttOf(r.quanta[x.q])) |-> AttOf(r.quanta[x.q])[i].logs])
      [] k = "prov-metadata" -> \A x \in SeqSet(o.metas) :
             x.toks = (IF r.quanta[x.q].kind = "blocked" THEN <<-1>>
                       ELSE [i \in 1..Len(AttOf(r.quanta[x.q])) |-> AttOf(r.quanta[x.q])[i].meta])
      [] k = "prov-status-table" -> ~Everything(r) \/
             (/\ {x.task : x \in SeqSet(o.table)} = {r.quanta[i].task : i \in 1..NQ(r)}
              /\ \A x \in SeqSet(o.table) :
                   /\ \A y \in SeqSet(x.counts) : y.n = StatusCount(r, x.task, y.s)
                   /\ x.total = Cardinality({i \in InGraph(r) : r.quanta[i].task = x.task})
                   /\ x.expected = Cardinality({i \in 1..NQ(r) : r.quanta[i].task = x.task}))
      [] k = "prov-exception-table" -> ~Everything(r) \/
             (/\ \A x \in SeqSet(o.exctable) : /\ x.good = ExcCount(r, x.task, x.exc, TRUE)
                                               /\ x.bad = ExcCount(r, x.task, x.exc, FALSE)
              /\ \A i \in InGraph(r) : LastExc(r.quanta[i]) # "" =>
                    \E x \in SeqSet(o.exctable) : x.task = r.quanta[i].task /\ x.exc = LastExc(r.quanta[i]))
      [] k = "prov-status-report" ->
             LET want == {i \in LoadedQ(r) :
                            LET q == r.quanta[i] IN
                            /\ Status(q) \in SeqSet(o.report.states)
                            /\ (Status(q) = "SUCCESSFUL" /\ o.report.caveat # -1) => (LastCav(q) # -1 /\ LastCav(q) = o.report.caveat)}
             IN SeqSet(o.report.rows) = {<<r.quanta[i].task, Status(r.quanta[i]), LastExc(r.quanta[i]), i>> : i \in want}

(* Loading a selection of quanta and no datasets. *)
SelectVerdict(r) == IF SeqSet(r.got) = SeqSet(r.want) /\ r.nds = r.kinds THEN {} ELSE {"prov-selection"}

GraphVerdict(r) == IF r.o.error # "" THEN {"prov-raises"} ELSE {k \in GraphClauses : ~GraphOK(r, k)}
=============================================================================
