------------------------------- MODULE QGBuild -------------------------------
(* What a quantum graph build must produce, as a function of the pipeline, the
   contents of the repository and the build options.

   A scenario "sc" has
     tasks   sequence, in topological order, of records
             [label, dims, ins, pre, outs, initin, initout, nowork, dropout,
              dropin, kill, addin]; ins/pre are sequences of [ds, min]
     dsdims  dataset type name -> sequence of dimension names
     univ    sequence of all full data IDs <<instrument, filter, detector>>
     where   sequence of the full data IDs the user expression accepts
     cons    sequence of dataset types that constrain the initial query
     list    whether cons is an explicit list given by the user
     store   sequence of [run, ds, id]: datasets that exist
     incolls, skipin  sequences of run names (flattened search paths)
     outrun, outexists, clobber
     retain_on, retained    whether, and what, the user declared as retained
     prune   <<>> or <<source, anchor>>
   A data ID is a sequence of three strings, "" marking an absent dimension. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

DimNames == <<"instrument", "physical_filter", "detector">>
Rng(s) == {s[i] : i \in DOMAIN s}
Proj(c, dims) == [i \in 1..3 |-> IF DimNames[i] \in dims THEN c[i] ELSE ""]

\* ------------------------------------------------------------- the pipeline
DDims(sc, ds) == Rng(sc.dsdims[ds])
TDims(t) == Rng(t.dims)
Meta(t) == t.label \o "_metadata"
LogName(t) == t.label \o "_log"
CfgName(t) == t.label \o "_config"
InTypes(t) == {e.ds : e \in Rng(t.ins)}
AllOuts(t) == Rng(t.outs) \cup {Meta(t), LogName(t)}
InitOuts(t) == Rng(t.initout) \cup {CfgName(t)}
Tasks(sc) == DOMAIN sc.tasks
ProducerOf(sc, ds) == {i \in Tasks(sc) : ds \in AllOuts(sc.tasks[i])}
InitProducerOf(sc, ds) == {i \in Tasks(sc) : ds \in InitOuts(sc.tasks[i])}
IsOverall(sc, ds) == ProducerOf(sc, ds) = {}
Linked(sc, i, j) == \/ AllOuts(sc.tasks[i]) \cap InTypes(sc.tasks[j]) # {}
                    \/ AllOuts(sc.tasks[j]) \cap InTypes(sc.tasks[i]) # {}
RECURSIVE Comp(_, _)
Comp(sc, s) == LET n == s \cup {j \in Tasks(sc) : \E i \in s : Linked(sc, i, j)}
               IN IF n = s THEN s ELSE Comp(sc, n)

\* ------------------------------------------------------- repository lookups
Has(sc, run, ds, id) == \E e \in Rng(sc.store) : e.run = run /\ e.ds = ds /\ e.id = id
RECURSIVE Find(_, _, _, _)
Find(sc, colls, ds, id) ==
    IF colls = <<>> THEN ""
    ELSE IF Has(sc, Head(colls), ds, id) THEN Head(colls) ELSE Find(sc, Tail(colls), ds, id)

\* --------------------------------------- the relational join at the beginning
\* a dataset type some task can do without does not constrain the query
OptionalFor(sc, ds) == \E i \in Tasks(sc) : \E e \in Rng(sc.tasks[i].ins) : e.ds = ds /\ e.min = 0
Constrained(sc, comp) == {ds \in UNION {InTypes(sc.tasks[i]) : i \in comp} :
                             /\ IsOverall(sc, ds) /\ ds \in Rng(sc.cons) /\ DDims(sc, ds) # {}
                             /\ sc.list \/ ~OptionalFor(sc, ds)}
Rows(sc, i) == LET cs == Constrained(sc, Comp(sc, {i}))
               IN {c \in Rng(sc.where) : \A ds \in cs : Find(sc, sc.incolls, ds, Proj(c, DDims(sc, ds))) # ""}
(* rows[i]: the rows from which task i's data IDs are projected *)
QuantaOf(sc, rows, i) == {[t |-> i, id |-> Proj(c, TDims(sc.tasks[i]))] : c \in rows[i]}
Ends(sc, rows, q, ds) == {Proj(c, DDims(sc, ds)) :
                             c \in {r \in rows[q.t] : Proj(r, TDims(sc.tasks[q.t])) = q.id}}
OutsOf(sc, rows, q, ds) == IF ds \in {Meta(sc.tasks[q.t]), LogName(sc.tasks[q.t])}
                           THEN {q.id} ELSE Ends(sc, rows, q, ds)
\* datasets a quantum would consume / produce, before anything is dropped
InNodes(sc, rows, q) == UNION {{<<ds, id>> : id \in Ends(sc, rows, q, ds)} : ds \in InTypes(sc.tasks[q.t])}
OutNodes(sc, rows, q) == UNION {{<<ds, id>> : id \in OutsOf(sc, rows, q, ds)} : ds \in AllOuts(sc.tasks[q.t])}

\* ---------------------------------------------- skipping what has been done
Done(sc, q) == Find(sc, sc.skipin, Meta(sc.tasks[q.t]), q.id) # ""
RECURSIVE MustRun(_, _, _, _)
(* Least set containing run0 and every quantum producing an input, of a type
   that is not retained, of a member. *)
MustRun(sc, rows, all, run) ==
    IF ~sc.retain_on THEN run
    ELSE LET need == {n \in UNION {InNodes(sc, rows, q) : q \in run} : n[1] \notin Rng(sc.retained)}
             more == run \cup {p \in all : OutNodes(sc, rows, p) \cap need # {}}
         IN IF more = run THEN run ELSE MustRun(sc, rows, all, more)

InTheWay(sc, rows, run) ==
    sc.outexists /\ ~sc.clobber
    /\ \E q \in run : \E n \in OutNodes(sc, rows, q) : Has(sc, sc.outrun, n[1], n[2])

Predicted(sc, ds, id) == IF sc.outexists /\ Has(sc, sc.outrun, ds, id) THEN sc.outrun ELSE "new"

(* Where the dataset that a consumer would see comes from: a run (existing
   dataset), "new" (to be produced), or "" (there is none). *)
RefOf(sc, rows, run, all, ds, id) ==
    IF IsOverall(sc, ds) THEN Find(sc, sc.incolls, ds, id)
    ELSE IF \E q \in run : <<ds, id>> \in OutNodes(sc, rows, q) THEN Predicted(sc, ds, id)
    ELSE IF \E q \in all : <<ds, id>> \in OutNodes(sc, rows, q) THEN Find(sc, sc.skipin, ds, id)
    ELSE ""

\* ------------------------------------------------------------ prerequisites
PreFor(sc, q, ds) ==
    LET t == sc.tasks[q.t] d == DDims(sc, ds)
        ids == {Proj(c, d) : c \in {r \in Rng(sc.univ) : Proj(r, TDims(t)) = q.id}}
    IN {id \in ids : Find(sc, sc.incolls, ds, id) # ""}

\* ------------------------------------------- adjustment, task by task in order
(* st: kept quanta (with their adjusted inputs and outputs), nodes that will
   not exist, and the errors the first failing task may raise. *)
RECURSIVE Adjust(_, _, _, _, _, _)
Adjust(sc, rows, run, all, i, st) ==
    IF i > Len(sc.tasks) \/ st.err # {} THEN st ELSE
    LET t == sc.tasks[i]
        qs == {q \in run : q.t = i}
        skipped == {q \in all \ run : q.t = i}
        raw(q, ds) == {id \in Ends(sc, rows, q, ds) :
                          /\ RefOf(sc, rows, run, all, ds, id) # ""
                          /\ <<ds, id>> \notin st.gone}
        \* what the task itself does to its quanta before they are looked at one by one
        addin == IF "addin" \in DOMAIN t THEN Rng(t.addin) ELSE {}
        raw2(q, ds) == raw(q, ds) \cup {x.id : x \in {y \in addin : y.q = q.id /\ y.ds = ds /\ \E o \in qs : y.id \in raw(o, ds)}}
        kill(q) == "kill" \in DOMAIN t /\ q.id \in Rng(t.kill)
        dropped(q, ds, id) == \E x \in Rng(t.dropin) : x.q = q.id /\ x.ds = ds /\ x.id = id
        ins(q, ds) == {id \in raw2(q, ds) : ~dropped(q, ds, id)}
        adjin(q) == \E ds \in InTypes(t) : ins(q, ds) # raw2(q, ds)
        nowork(q) == \/ q.id \in Rng(t.nowork) \/ kill(q)
                     \/ \E e \in Rng(t.ins) : Cardinality(ins(q, e.ds)) < e.min
        pre(q) == UNION {{<<e.ds, id>> : id \in PreFor(sc, q, e.ds)} : e \in Rng(t.pre)}
        preerr(q) == ~nowork(q) /\ \E e \in Rng(t.pre) : Cardinality(PreFor(sc, q, e.ds)) < e.min
        odrop(q, n) == \E x \in Rng(t.dropout) : x.ds = n[1] /\ x.id = n[2]
        outs(q) == {n \in OutNodes(sc, rows, q) : ~odrop(q, n)}
        noout(q) == outs(q) # OutNodes(sc, rows, q) /\ {n \in outs(q) : n[1] \in Rng(t.outs)} = {}
        innodes(q) == UNION {{<<ds, id>> : id \in ins(q, ds)} : ds \in InTypes(t)}
        noin(q) == ~nowork(q) /\ ~noout(q) /\ adjin(q) /\ innodes(q) = {} /\ pre(q) = {}
        keep == {q \in qs : ~nowork(q) /\ ~noout(q)}
        qerr == (IF \E q \in qs : preerr(q) THEN {"FileNotFoundError"} ELSE {})
                \cup (IF \E q \in qs : noin(q) THEN {"QuantumGraphBuilderError"} ELSE {})
        kept == {[t |-> q.t, id |-> q.id,
                  ins |-> {<<n[1], n[2], RefOf(sc, rows, run, all, n[1], n[2])>> : n \in innodes(q)}
                          \cup {<<n[1], n[2], Find(sc, sc.incolls, n[1], n[2])>> : n \in pre(q)},
                  outs |-> {<<n[1], n[2], Predicted(sc, n[1], n[2])>> : n \in outs(q)} ] : q \in keep}
        shown == [q \in qs |-> [least |-> UNION {{<<ds, id>> : id \in raw(q, ds)} : ds \in InTypes(t)},
                                most |-> UNION {{<<ds, id>> : id \in Ends(sc, rows, q, ds)} : ds \in InTypes(t)} \ st.gone,
                                outs |-> {n \in OutNodes(sc, rows, q) : n[1] \in Rng(t.outs)}]]
    IN Adjust(sc, rows, run, all, i + 1,
              [kept |-> st.kept \cup kept,
               shown |-> shown @@ st.shown,
               gone |-> st.gone \cup UNION {OutNodes(sc, rows, q) : q \in qs \ keep}
                                \cup UNION {OutNodes(sc, rows, q) \ outs(q) : q \in keep},
               err |-> qerr])

\* ------------------------------------------------- init inputs and outputs
NoId == <<"", "", "">>
HasQuanta(kept, i) == \E k \in kept : k.t = i
WasSkipped(p, i) == \E q \in p.all \ p.run : q.t = i
InitRef(sc, p, kept, ds) ==
    IF InitProducerOf(sc, ds) = {} THEN Find(sc, sc.incolls, ds, NoId)
    ELSE LET i == CHOOSE i \in InitProducerOf(sc, ds) : TRUE IN
         IF HasQuanta(kept, i) THEN Predicted(sc, ds, NoId)
         ELSE IF WasSkipped(p, i) THEN Find(sc, sc.skipin, ds, NoId)
         ELSE ""
InitMissing(sc, p, kept) ==
    \E i \in Tasks(sc) : LET t == sc.tasks[i] IN
        IF HasQuanta(kept, i) THEN \E ds \in Rng(t.initin) : InitRef(sc, p, kept, ds) = ""
        ELSE WasSkipped(p, i) /\ \E ds \in InitOuts(t) : Find(sc, sc.skipin, ds, NoId) = ""
WithInit(sc, p, kept) ==
    {[t |-> k.t, id |-> k.id, ins |-> k.ins, outs |-> k.outs,
      initins |-> {<<ds, InitRef(sc, p, kept, ds)>> : ds \in Rng(sc.tasks[k.t].initin)}] : k \in kept}

\* ------------------------------------------------------------------ pruning
Nodes2(s) == {<<n[1], n[2]>> : n \in s}
RECURSIVE Down(_, _)
Down(kept, s) == LET made == UNION {Nodes2(k.outs) : k \in s}
                     n == s \cup {k \in kept : Nodes2(k.ins) \cap made # {}}
                 IN IF n = s THEN s ELSE Down(kept, n)
Prune(sc, kept) ==
    IF sc.prune = <<>> THEN kept
    ELSE LET is(k, l) == sc.tasks[k.t].label = l
             un == {k \in kept : is(k, sc.prune[1]) /\ ~\E d \in Down(kept, {k}) \ {k} : is(d, sc.prune[2])}
         IN kept \ Down(kept, un)

\* ------------------------------------------------------------------ expected
Plan(sc) ==
    LET rows == [i \in Tasks(sc) |-> Rows(sc, i)]
        all == UNION {QuantaOf(sc, rows, i) : i \in Tasks(sc)}
        run == MustRun(sc, rows, all, {q \in all : ~Done(sc, q)})
    IN [rows |-> rows, all |-> all, run |-> run]
Expected(sc) ==
    LET p == Plan(sc) IN
    IF sc.list /\ \E i \in Tasks(sc) : Constrained(sc, Comp(sc, {i})) = {}
    THEN [err |-> {"QuantumGraphBuilderError"}, kept |-> {}, shown |-> <<>>]
    ELSE IF InTheWay(sc, p.rows, p.run) THEN [err |-> {"OutputExistsError"}, kept |-> {}, shown |-> <<>>]
    ELSE LET a == Adjust(sc, p.rows, p.run, p.all, 1, [kept |-> {}, gone |-> {}, err |-> {}, shown |-> [q \in {} |-> {}]])
         IN IF a.err # {} THEN [err |-> a.err, kept |-> {}, shown |-> <<>>]
            ELSE IF InitMissing(sc, p, a.kept) THEN [err |-> {"InitInputMissingError"}, kept |-> {}, shown |-> <<>>]
            ELSE LET fin == Prune(sc, WithInit(sc, p, a.kept)) IN
                 \* an init-output may only be consumed while its producer remains
                 IF \E k \in fin : \E ds \in Rng(sc.tasks[k.t].initin) : \E i \in InitProducerOf(sc, ds) :
                        HasQuanta(a.kept, i) /\ ~HasQuanta(fin, i)
                 THEN [err |-> {"InitInputMissingError"}, kept |-> {}, shown |-> <<>>]
                 ELSE [err |-> {}, kept |-> fin, shown |-> a.shown]

\* ------------------------------------------------------------------- verdict
(* obs: [ok, errs (class names of the exception and its bases), quanta: seq of
   [task, id, ins, outs, initins, qedges], inits: seq of [task, ins, outs]];
   ins/outs are sequences of <<ds, id, ref, uuid-number>>. *)
Strip(s) == {<<x[1], x[2], x[3]>> : x \in Rng(s)}
Uuids(obs) == UNION {Rng(q.ins) \cup Rng(q.outs) : q \in Rng(obs.quanta)}
OneId(obs) == \A a, b \in Uuids(obs) : (<<a[1], a[2]>> = <<b[1], b[2]>>) <=> (a[4] = b[4])
Verdict(rec) ==
    LET sc == rec.sc obs == rec.obs ex == Expected(sc) IN
    IF ex.err # {} THEN
        IF obs.ok THEN {"graph-built-instead-of-error"}
        ELSE IF Rng(obs.errs) \cap ex.err = {} THEN {"wrong-error"} ELSE {}
    ELSE IF ~obs.ok THEN {"unexpected-error"}
    ELSE LET
        key(k) == <<sc.tasks[k.t].label, k.id>>
        exk == {key(k) : k \in ex.kept}
        obk == {<<q.task, q.id>> : q \in Rng(obs.quanta)}
        obq(k) == CHOOSE q \in Rng(obs.quanta) : <<q.task, q.id>> = key(k)
        dup == Cardinality(obk) # Len(obs.quanta)
        both == {k \in ex.kept : key(k) \in obk}
        edges == {<<key(a), key(b)>> : <<a, b>> \in {<<x, y>> \in ex.kept \X ex.kept : Nodes2(x.outs) \cap Nodes2(y.ins) # {}}}
        live == {sc.tasks[k.t].label : k \in ex.kept}
        empty == <<"", "", "">>
        oinit(l) == CHOOSE n \in Rng(obs.inits) : n.task = l
    IN (IF exk \ obk # {} THEN {"missing-quantum"} ELSE {})
       \cup (IF obk \ exk # {} \/ dup THEN {"unexpected-quantum"} ELSE {})
       \cup (IF \E k \in both : Strip(obq(k).ins) # k.ins THEN {"wrong-inputs"} ELSE {})
       \cup (IF \E k \in both : Strip(obq(k).outs) # k.outs THEN {"wrong-outputs"} ELSE {})
       \cup (IF \E k \in both : {<<x[1], x[2]>> : x \in Rng(obq(k).initins)} # k.initins THEN {"wrong-init-inputs"} ELSE {})
       \cup (IF ~OneId(obs) THEN {"inconsistent-dataset-identity"} ELSE {})
       \cup (IF obs.has_edges /\ Rng(obs.edges) # edges THEN {"wrong-quantum-edges"} ELSE {})
       \cup (IF \E i \in Tasks(sc) : LET l == sc.tasks[i].label qs == {q \in DOMAIN ex.shown : q.t = i} IN
                    IF qs = {} THEN FALSE ELSE
                              \/ l \notin DOMAIN obs.seen
                              \/ LET sn == obs.seen[l] IN
                                 \/ Len(sn) # Cardinality(qs) \/ {x.id : x \in Rng(sn)} # {q.id : q \in qs}
                                 \/ \E x \in Rng(sn) : LET q == CHOOSE q \in qs : q.id = x.id IN
                                      \/ ~x.full \/ Rng(x.outs) # ex.shown[q].outs
                                      \/ ~(ex.shown[q].least \subseteq Rng(x.ins) /\ Rng(x.ins) \subseteq ex.shown[q].most)
             THEN {"task-not-shown-its-quanta"} ELSE {})
       \cup (IF {n.task : n \in Rng(obs.inits)} # live THEN {"wrong-tasks"}
             ELSE IF \E i \in Tasks(sc) : sc.tasks[i].label \in live /\
                     {<<x[1], x[2]>> : x \in Rng(oinit(sc.tasks[i].label).outs)}
                     # {<<ds, Predicted(sc, ds, empty)>> : ds \in InitOuts(sc.tasks[i])}
                  THEN {"wrong-init-outputs"} ELSE {})
=============================================================================
