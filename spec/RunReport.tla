------------------------------ MODULE RunReport ------------------------------
(* The state of a campaign derived from the quantum graphs that were executed,
   in chronological order, and from the datasets that exist: what happened to
   every quantum in every run and overall, what became of every dataset, and the
   summary a user is shown.

   A campaign "sc" has
     graphs   seq of [run, quanta]; quanta: seq, in topological order, of
              [task, id, outs, ins], outs and ins being seqs of <<ds, id>>
     exist    seq of <<run, ds, id>>: all datasets there are
     colls    where visible datasets are searched, in order; <<>>: the default
     hidden   seq of <<ds, id>> that the user's expression excludes
     curse    whether logs of unsuccessful quanta count as cursed
     caveats  "none", "lazy" or "exhaustive"
     meta     seq of [run, task, id, cav, exc]: flags and exception in metadata
     codes    seq of <<flags, code>>
     logs     seq of [run, task, id, errors] *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Key(q) == <<q.task, q.id>>
Meta(key) == <<key[1] \o "_metadata", key[2]>>
LogOf(key) == <<key[1] \o "_log", key[2]>>
Exists(sc, run, d) == \E e \in Rng(sc.exist) : e = <<run, d[1], d[2]>>

\* -------------------------------------------------------- one quantum, one run
RunStatus(sc, run, key, blocked) ==
    LET m == Exists(sc, run, Meta(key)) l == Exists(sc, run, LogOf(key)) IN
    IF m /\ l THEN "SUCCESSFUL" ELSE IF m THEN "LOGS_MISSING" ELSE IF l THEN "FAILED"
    ELSE IF blocked THEN "BLOCKED" ELSE "METADATA_MISSING"
Attempted(rs) == rs \notin {"METADATA_MISSING", "BLOCKED"}
\* overall status after one more run
After(last, rs) ==
    CASE last = "WONKY" -> "WONKY"
      [] rs = "SUCCESSFUL" -> "SUCCESSFUL"
      [] rs = "LOGS_MISSING" -> "WONKY"
      [] last = "SUCCESSFUL" -> "WONKY"
      [] rs = "BLOCKED" -> IF last = "UNKNOWN" THEN "BLOCKED" ELSE last
      [] rs = "METADATA_MISSING" -> "UNKNOWN"
      [] rs = "FAILED" -> "FAILED"
Recovers(last, rs) == rs = "SUCCESSFUL" /\ last \in {"FAILED", "BLOCKED"}

\* st: [q: key -> [status, recovered, runs], outs: key -> datasets, ins: key -> datasets, pred: set of <<run, key, dataset>>]
Empty == [q |-> <<>>, outs |-> <<>>, ins |-> <<>>, pred |-> {}]
Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SetRun(runs, r) == IF \E i \in DOMAIN runs : runs[i].run = r.run
                   THEN [i \in DOMAIN runs |-> IF runs[i].run = r.run THEN r ELSE runs[i]]
                   ELSE Append(runs, r)
MetaOf(sc, run, key) ==
    LET s == {m \in Rng(sc.meta) : m.run = run /\ <<m.task, m.id>> = key} IN
    IF s = {} THEN [cav |-> -1, exc |-> ""] ELSE CHOOSE m \in s : TRUE
Add(st, g) ==
    [q |-> [k \in DOMAIN st.q \cup {Key(x) : x \in Rng(g.quanta)} |-> Get(st.q, k, [status |-> "UNKNOWN", recovered |-> FALSE, runs |-> <<>>])],
     outs |-> [k \in DOMAIN st.outs \cup {Key(x) : x \in Rng(g.quanta)} |->
                 Get(st.outs, k, {}) \cup UNION {Rng(x.outs) : x \in {y \in Rng(g.quanta) : Key(y) = k}}],
     ins |-> [k \in DOMAIN st.ins \cup {Key(x) : x \in Rng(g.quanta)} |->
                 Get(st.ins, k, {}) \cup UNION {Rng(x.ins) : x \in {y \in Rng(g.quanta) : Key(y) = k}}],
     pred |-> st.pred \cup UNION {{<<g.run, Key(x), d>> : d \in Rng(x.outs)} : x \in Rng(g.quanta)}]
RECURSIVE Walk(_, _, _, _, _)
Walk(sc, st, g, i, blocked) ==
    IF i > Len(g.quanta) THEN st ELSE
    LET k == Key(g.quanta[i])
        rs == RunStatus(sc, g.run, k, st.ins[k] \cap blocked # {})
        missing == \E p \in st.pred : p[1] = g.run /\ p[2] = k /\ ~Exists(sc, g.run, p[3])
        read == rs = "SUCCESSFUL" /\ (sc.caveats = "exhaustive" \/ (sc.caveats = "lazy" /\ missing))
        m == MetaOf(sc, g.run, k)
        r == [run |-> g.run, status |-> rs, cav |-> IF read THEN m.cav ELSE -1, exc |-> IF read THEN m.exc ELSE ""]
        old == st.q[k]
        new == [status |-> After(old.status, rs), recovered |-> old.recovered \/ Recovers(old.status, rs), runs |-> SetRun(old.runs, r)]
    IN Walk(sc, [st EXCEPT !.q[k] = new], g, i + 1, IF rs \in {"FAILED", "BLOCKED"} THEN blocked \cup st.outs[k] ELSE blocked)
RECURSIVE Graphs(_, _, _)
Graphs(sc, st, n) == IF n > Len(sc.graphs) THEN st ELSE Graphs(sc, Walk(sc, Add(st, sc.graphs[n]), sc.graphs[n], 1, {}), n + 1)

\* ------------------------------------------------------------ after all graphs
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Colls(sc) == IF sc.colls # <<>> THEN sc.colls ELSE Rev([i \in DOMAIN sc.graphs |-> sc.graphs[i].run])
RECURSIVE First(_, _, _)
First(sc, colls, d) == IF colls = <<>> THEN "" ELSE IF Exists(sc, Head(colls), d) THEN Head(colls) ELSE First(sc, Tail(colls), d)
\* the run whose version of a dataset is found
Seen(sc, d) == IF d \in Rng(sc.hidden) THEN "" ELSE First(sc, Colls(sc), d)
PredRuns(st, d) == {p[1] : p \in {x \in st.pred : x[3] = d}}
IsLog(st, d) == \E k \in DOMAIN st.q : LogOf(k) = d
DatasetStatus(sc, st, k, d) ==
    LET vis == Seen(sc, d) \in PredRuns(st, d)
        made == \E r \in PredRuns(st, d) : Exists(sc, r, d)
    IN IF st.q[k].status = "SUCCESSFUL"
       THEN IF vis THEN "VISIBLE" ELSE IF made THEN "SHADOWED" ELSE "PREDICTED_ONLY"
       ELSE IF vis /\ (~IsLog(st, d) \/ sc.curse) THEN "CURSED" ELSE "UNSUCCESSFUL"
MixedRuns(sc, st, k) == Cardinality({Seen(sc, d) : d \in {x \in st.outs[k] : Seen(sc, x) \in PredRuns(st, x)}}) > 1
FinalStatus(sc, st, k) == IF MixedRuns(sc, st, k) THEN "WONKY" ELSE st.q[k].status
FinalRun(runs) == LET s == {i \in DOMAIN runs : Attempted(runs[i].status)} IN
                  IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
\* what the report says
Report(sc) ==
    LET st == Graphs(sc, Empty, 1)
        keys == DOMAIN st.q
        dss == UNION {{<<k, d>> : d \in st.outs[k]} : k \in keys}
    IN [quanta |-> {[task |-> k[1], id |-> k[2], status |-> FinalStatus(sc, st, k), recovered |-> st.q[k].recovered, runs |-> st.q[k].runs] : k \in keys},
        datasets |-> {[ds |-> x[2][1], id |-> x[2][2], task |-> x[1][1], qid |-> x[1][2], status |-> DatasetStatus(sc, st, x[1], x[2]),
                       runs |-> {<<r, Exists(sc, r, x[2]), Seen(sc, x[2]) = r>> : r \in PredRuns(st, x[2])}] : x \in dss}]

\* ------------------------------------------------------------------- summaries
Code(sc, cav) == LET s == {c \in Rng(sc.codes) : c[1] = cav} IN (CHOOSE c \in s : TRUE)[2]
LogErrors(sc, run, q) == LET s == {l \in Rng(sc.logs) : l.run = run /\ l.task = q.task /\ l.id = q.id} IN
                         IF s = {} THEN <<>> ELSE (CHOOSE l \in s : TRUE).errors
RECURSIVE Messages(_, _, _)
Messages(sc, q, i) == IF i > Len(q.runs) THEN <<>> ELSE LogErrors(sc, q.runs[i].run, q) \o Messages(sc, q, i + 1)
TaskLine(sc, qs) ==
    LET by(s) == {q \in qs : q.status = s}
        final(q) == q.runs[FinalRun(q.runs)]
        cavs == {q \in by("SUCCESSFUL") : FinalRun(q.runs) # 0 /\ final(q).cav > 0}
    IN [n_successful |-> Cardinality(by("SUCCESSFUL")), n_blocked |-> Cardinality(by("BLOCKED")), n_unknown |-> Cardinality(by("UNKNOWN")),
        n_failed |-> Cardinality(by("FAILED")), n_wonky |-> Cardinality(by("WONKY")), n_expected |-> Cardinality(qs),
        recovered |-> {q.id : q \in {x \in by("SUCCESSFUL") : x.recovered}},
        wonky |-> {<<q.id, {<<r.run, r.status>> : r \in Rng(q.runs)}>> : q \in by("WONKY")},
        failed |-> {<<q.id, {<<r.run, r.status>> : r \in Rng(q.runs)}, Messages(sc, q, 1),
                      Cardinality({r \in Rng(q.runs) : ~Exists(sc, r.run, LogOf(Key(q)))})>> : q \in by("FAILED")},
        caveats |-> {<<Code(sc, final(q).cav), q.id>> : q \in cavs},
        exceptions |-> {<<final(q).exc, q.id, final(q).run>> : q \in {x \in cavs : final(x).exc # ""}}]
DatasetLine(ds) ==
    LET by(s) == {d \in ds : d.status = s} IN
    [n_visible |-> Cardinality(by("VISIBLE")), n_shadowed |-> Cardinality(by("SHADOWED")), n_predicted_only |-> Cardinality(by("PREDICTED_ONLY")),
     n_unsuccessful |-> Cardinality(by("UNSUCCESSFUL")), n_cursed |-> Cardinality(by("CURSED")), n_expected |-> Cardinality(ds),
     producer |-> {d.task : d \in ds}, unsuccessful |-> {d.id : d \in by("UNSUCCESSFUL")},
     cursed |-> {<<d.id, d.qid, {<<r[1], r[2]>> : r \in d.runs}, {r[1] : r \in {x \in d.runs : x[3]}}>> : d \in by("CURSED")}]

\* -------------------------------------------------------------------- verdict
Norm(q) == [q EXCEPT !.runs = [i \in DOMAIN q.runs |-> q.runs[i]]]
Sets(x, names) == [f \in DOMAIN x |-> IF f \in names THEN Rng(x[f]) ELSE x[f]]
TLine(x) == [Sets(x, {"recovered", "caveats", "exceptions"}) EXCEPT
               !.wonky = {<<w[1], Rng(w[2])>> : w \in Rng(x.wonky)},
               !.failed = {<<f[1], Rng(f[2]), f[3], f[4]>> : f \in Rng(x.failed)}]
DLine(x) == [Sets(x, {"producer", "unsuccessful"}) EXCEPT
               !.cursed = {<<c[1], c[2], Rng(c[3]), Rng(c[4])>> : c \in Rng(x.cursed)}]
Sum(a, b, names) == [f \in names |-> a[f] + b[f]]
TCounts == {"n_successful", "n_blocked", "n_unknown", "n_failed", "n_wonky", "n_expected"}
DCounts == {"n_visible", "n_shadowed", "n_predicted_only", "n_unsuccessful", "n_cursed", "n_expected"}
\* the whole is the sum of its parts
AggOk(a, b, whole) ==
    /\ DOMAIN whole.tasks = DOMAIN a.tasks \cup DOMAIN b.tasks
    /\ DOMAIN whole.datasets = DOMAIN a.datasets \cup DOMAIN b.datasets
    /\ \A t \in DOMAIN whole.tasks : \A f \in TCounts :
          whole.tasks[t][f] = (IF t \in DOMAIN a.tasks THEN a.tasks[t][f] ELSE 0) + (IF t \in DOMAIN b.tasks THEN b.tasks[t][f] ELSE 0)
    /\ \A t \in DOMAIN whole.tasks : \A f \in {"recovered", "wonky", "failed", "caveats", "exceptions"} :
          /\ Len(whole.tasks[t][f]) = (IF t \in DOMAIN a.tasks THEN Len(a.tasks[t][f]) ELSE 0) + (IF t \in DOMAIN b.tasks THEN Len(b.tasks[t][f]) ELSE 0)
          /\ Rng(whole.tasks[t][f]) = (IF t \in DOMAIN a.tasks THEN Rng(a.tasks[t][f]) ELSE {}) \cup (IF t \in DOMAIN b.tasks THEN Rng(b.tasks[t][f]) ELSE {})
    /\ \A d \in DOMAIN whole.datasets : \A f \in DCounts :
          whole.datasets[d][f] = (IF d \in DOMAIN a.datasets THEN a.datasets[d][f] ELSE 0) + (IF d \in DOMAIN b.datasets THEN b.datasets[d][f] ELSE 0)
    /\ \A d \in DOMAIN whole.datasets : \A f \in {"unsuccessful", "cursed"} :
          Rng(whole.datasets[d][f]) = (IF d \in DOMAIN a.datasets THEN Rng(a.datasets[d][f]) ELSE {}) \cup (IF d \in DOMAIN b.datasets THEN Rng(b.datasets[d][f]) ELSE {})
Verdict(rec) ==
    LET sc == rec.sc obs == rec.obs ex == Report(sc) IN
    IF ~obs.ok THEN {"report-failed"} ELSE
    LET oq == {Norm(q) : q \in Rng(obs.quanta)}
        od == {[d EXCEPT !.runs = Rng(d.runs)] : d \in Rng(obs.datasets)}
        labels == {q.task : q \in ex.quanta}
        types == {d.ds : d \in ex.datasets}
        bad == {<<d.ds, d.id, d.status>> : d \in {x \in ex.datasets : x.status \in {"UNSUCCESSFUL", "CURSED"}}}
        cursed == {b \in bad : b[3] = "CURSED"}
        badq == {<<q.task, q.id, q.status>> : q \in {x \in ex.quanta : x.status \in {"FAILED", "WONKY"}}}
    IN (IF {Key(q) : q \in oq} # {Key(q) : q \in ex.quanta} THEN {"wrong-set-of-quanta"}
        ELSE (IF \E q \in ex.quanta : \E o \in oq : Key(q) = Key(o) /\ o.status # q.status THEN {"wrong-quantum-status"} ELSE {})
             \cup (IF oq # ex.quanta THEN {"wrong-quantum-history"} ELSE {}))
       \cup (IF {<<d.ds, d.id>> : d \in od} # {<<d.ds, d.id>> : d \in ex.datasets} THEN {"wrong-set-of-datasets"}
             ELSE (IF \E d \in ex.datasets : \E o \in od : <<d.ds, d.id>> = <<o.ds, o.id>> /\ o.status # d.status THEN {"wrong-dataset-status"} ELSE {})
                  \cup (IF od # ex.datasets THEN {"wrong-dataset-history"} ELSE {}))
       \cup (IF DOMAIN obs.summary.tasks # labels \/ \E t \in labels : TLine(obs.summary.tasks[t]) # TaskLine(sc, {q \in ex.quanta : q.task = t})
             THEN {"wrong-task-summary"} ELSE {})
       \cup (IF DOMAIN obs.summary.datasets # types \/ \E n \in types : DLine(obs.summary.datasets[n]) # DatasetLine({d \in ex.datasets : d.ds = n})
             THEN {"wrong-dataset-summary"} ELSE {})
       \cup (IF Rng(obs.badd) = bad /\ Len(obs.badd) = Cardinality(bad) THEN {}
             ELSE IF Rng(obs.badd) = cursed /\ Len(obs.badd) = Cardinality(cursed) THEN {"table-of-datasets-omits-unsuccessful"}
             ELSE {"wrong-table-of-datasets"})
       \cup (IF {r \in Rng(obs.badq) : r[3] # "SUCCESSFUL(P)"} # badq THEN {"wrong-table-of-quanta"} ELSE {})
       \cup (IF obs.part # <<>> /\ ~AggOk(obs.summary, obs.part[1], obs.part[2]) THEN {"wrong-aggregate"} ELSE {})
=============================================================================
