------------------------------- MODULE InitRun -------------------------------
(* Initialising an output run: configurations, software versions and what task
   constructors produce.

   p: [tasks: seq (in order of construction) of [label, ins: seq of [ds], outs: seq of ds],
       given: seq (search order) of maps dataset type -> content]
   A run: [run: dataset -> [c, s], pk: [on, s, m]], s telling whether the
   dataset is really stored.  Contents are strings that tell where they come
   from; configurations are called "cfg:<label>". *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Fn(f) == [x \in DOMAIN f |-> f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Empty == [x \in {} |-> {}]

\* ---------------------------------------------------------- constructors
RECURSIVE First(_, _)
First(given, ds) == IF given = <<>> THEN "missing" ELSE IF ds \in DOMAIN Head(given) THEN Head(given)[ds] ELSE First(Tail(given), ds)
Makers(p, L, ds) == {i \in DOMAIN p.tasks : p.tasks[i].label \in L /\ ds \in Rng(p.tasks[i].outs)}
RECURSIVE Content(_, _, _, _)
\* what the tasks in L are given, or give, for a dataset type
Content(p, vals, L, ds) ==
    LET mk == Makers(p, L, ds) IN
    IF mk = {} THEN First(p.given, ds)
    ELSE LET t == p.tasks[CHOOSE i \in mk : TRUE] IN
         Cat(<<t.label, ":", ToString(vals[t.label]), "(">>)
         \o Cat([k \in 1..Len(t.ins) |-> Content(p, vals, L, t.ins[k].ds) \o ","]) \o ")" \o ds
Labels(p) == {t.label : t \in Rng(p.tasks)}
Outs(p) == UNION {Rng(t.outs) : t \in Rng(p.tasks)}
Needs(p) == UNION {{x.ds : x \in Rng(t.ins)} : t \in Rng(p.tasks)}
Seen(p, vals, L, l) == LET t == CHOOSE t \in Rng(p.tasks) : t.label = l IN
    [k \in 1..Len(t.ins) |-> Content(p, vals, L, t.ins[k].ds)]

\* ---------------------------------------------------------------- stages
Conflict == "ConflictingDefinitionError"
Has(st, n) == n \in DOMAIN st.run
Held(st, n) == Has(st, n) /\ st.run[n].s
Cfg(l) == "cfg:" \o l
Absent(st, e, n) == ~Has(st, n) \/ (e.way # "pg" /\ ~st.run[n].s)
Nothing == [err |-> {}, w |-> Empty, pkw |-> FALSE, pk |-> [on |-> FALSE]]
Conf(p, st, e) ==
    LET bad == \E l \in Labels(p) : Held(st, Cfg(l)) /\ (~e.existing \/ st.run[Cfg(l)].c # ToString(e.vals[l]))
        lost == e.way = "pg" /\ \E l \in Labels(p) : Has(st, Cfg(l)) /\ ~st.run[Cfg(l)].s
    IN [Nothing EXCEPT !.err = (IF bad THEN {Conflict} ELSE {}) \cup (IF lost THEN {"FileNotFoundError"} ELSE {}),
                       !.w = [n \in {Cfg(l) : l \in {l \in Labels(p) : Absent(st, e, Cfg(l))}} |->
                                 ToString(e.vals[CHOOSE l \in Labels(p) : Cfg(l) = n])]]
Out(p, st, e, skip) ==
    LET bad == ~skip /\ \E n \in Outs(p) : Held(st, n)
        lost == e.way = "pg" /\ \E n \in Outs(p) : Has(st, n) /\ ~st.run[n].s
        no == \E n \in Needs(p) \ Outs(p) : First(p.given, n) = "missing"
    IN [Nothing EXCEPT !.err = (IF bad THEN {Conflict} ELSE {}) \cup (IF lost THEN {"FileNotFoundError"} ELSE {})
                               \cup (IF no THEN {"LookupError"} ELSE {}),
                       !.w = [n \in {n \in Outs(p) : Absent(st, e, n)} |-> Content(p, e.vals, Labels(p), n)]]
Pack(st, e) ==
    LET old == st.pk sys == Fn(e.sys) IN
    IF ~old.on \/ (e.way # "pg" /\ ~old.s) THEN [Nothing EXCEPT !.pkw = TRUE, !.pk = [on |-> TRUE, s |-> TRUE, m |-> sys]]
    ELSE IF ~old.s THEN [Nothing EXCEPT !.err = {"FileNotFoundError"}]
    ELSE IF ~e.existing \/ \E k \in DOMAIN sys \cap DOMAIN old.m : sys[k] # old.m[k] THEN [Nothing EXCEPT !.err = {Conflict}]
    ELSE IF DOMAIN sys \subseteq DOMAIN old.m THEN Nothing
    ELSE [Nothing EXCEPT !.pkw = TRUE, !.pk = [on |-> TRUE, s |-> TRUE, m |-> sys @@ Fn(old.m)]]
Stage(p, st, e, k) == CASE k = "conf" -> Conf(p, st, e)
                        [] k = "pack" -> Pack(st, e)
                        [] k = "out" -> Out(p, st, e, IF e.way = "exec" THEN e.skip ELSE e.existing)
Stages(e) == CASE e.op = "configs" -> <<"conf">> [] e.op = "packages" -> <<"pack">> [] e.op = "outputs" -> <<"out">>
               [] e.op = "init" /\ e.way # "exec" -> <<"conf", "pack", "out">>
               [] e.op = "init" -> (IF e.saveinit THEN <<"out", "conf">> ELSE <<>>) \o (IF e.savepack THEN <<"pack">> ELSE <<>>)
               [] OTHER -> <<>>
Apply(st, s) == [run |-> [n \in DOMAIN s.w |-> [c |-> s.w[n], s |-> TRUE]] @@ st.run, pk |-> IF s.pkw THEN s.pk ELSE st.pk]
Puts(s) == Cardinality(DOMAIN s.w) + (IF s.pkw THEN 1 ELSE 0)
\* [err: allowed errors, {} for success; st: the run before the stage that was interrupted, or at the end; cut: the
\*  interrupted stage; left: how many of its writes were made]
RECURSIVE Steps(_, _, _, _, _)
Steps(p, st, e, ks, crash) ==
    IF ks = <<>> THEN [err |-> {}, st |-> st, cut |-> Nothing, left |-> 0]
    ELSE LET s == Stage(p, st, e, Head(ks)) IN
         IF s.err # {} THEN [err |-> s.err, st |-> st, cut |-> Nothing, left |-> 0]
         ELSE IF crash > 0 /\ Puts(s) >= crash THEN [err |-> {"Broken"}, st |-> st, cut |-> s, left |-> crash - 1]
         ELSE Steps(p, Apply(st, s), e, Tail(ks), IF crash > 0 THEN crash - Puts(s) ELSE 0)
Result(p, st, e) == Steps(p, st, e, Stages(e), e.crash)

\* --------------------------------------------------------------- verdict
PkEq(a, b) == a.on = b.on /\ (a.on => a.s = b.s /\ (a.s => Fn(a.m) = Fn(b.m)))
Eq(a, b, n) == a.s = b.s /\ (a.s => a.c = b.c)
Judge(p, st, e) ==
    LET r == Result(p, st, e)
        names == DOMAIN r.st.run \cup DOMAIN e.run
        wrote == {n \in DOMAIN r.cut.w : n \in DOMAIN e.run /\ e.run[n].s /\ ~Held(r.st, n)}
        same(n) == n \in DOMAIN r.st.run /\ n \in DOMAIN e.run /\ Eq(r.st.run[n], e.run[n], n)
    IN (IF e.ok # (r.err = {}) \/ (~e.ok /\ Rng(e.err) \cap r.err = {}) THEN {"wrong-outcome"} ELSE {})
       \cup (IF \E n \in names : ~(same(n) \/ (n \in wrote /\ e.run[n].c = r.cut.w[n])
                                  \/ (n \in DOMAIN r.cut.w \ wrote /\ n \notin DOMAIN e.run) \/ (n \in DOMAIN r.cut.w \ wrote /\ n \in DOMAIN e.run /\ ~e.run[n].s))
             THEN {"wrong-run-contents"} ELSE {})
       \cup (IF Cardinality(wrote) # (IF r.cut.pkw THEN 0 ELSE r.left) THEN {"wrong-number-of-writes"} ELSE {})
       \cup (IF ~PkEq(e.pk, r.st.pk) /\ ~(r.cut.pkw /\ (~e.pk.on \/ ~e.pk.s)) THEN {"wrong-software-versions"} ELSE {})
       \cup (IF ~e.others THEN {"another-run-changed"} ELSE {})
       \cup (IF ~e.idok THEN {"not-the-predicted-datasets"} ELSE {})
       \cup (IF \E l \in DOMAIN e.saw : e.saw[l] # Seen(p, e.vals, Labels(p), l) THEN {"wrong-constructor-inputs"} ELSE {})
       \cup (IF e.ok /\ "out" \in Rng(Stages(e)) /\ DOMAIN e.saw # Labels(p) THEN {"not-all-tasks-constructed"} ELSE {})
\* tasks constructed in memory; datasets not made by them are provided by a callback
JudgeMake(p, e) ==
    LET L == Rng(e.labels)
        made(l) == LET t == CHOOSE t \in Rng(p.tasks) : t.label = l IN {<<d, Content(p, e.vals, L, d)>> : d \in Rng(t.outs)}
        has == {l \in L : l \in Labels(p)}
    IN (IF ~e.ok THEN {"wrong-outcome"}
        ELSE (IF e.made # SelectSeq(e.order, LAMBDA l : l \in L) THEN {"wrong-tasks-made"} ELSE {})
             \cup (IF DOMAIN e.saw # has \/ \E l \in DOMAIN e.saw : e.saw[l] # Seen(p, e.vals, L, l) THEN {"wrong-constructor-inputs"} ELSE {})
             \cup (IF {<<x[1], x[2]>> : x \in Rng(e.outs)} # UNION {made(l) : l \in has} \/ Len(e.outs) # Cardinality(UNION {made(l) : l \in has})
                   THEN {"wrong-init-outputs"} ELSE {})
             \cup (IF \E x \in Rng(e.held) : x[2] # Content(p, e.vals, L, x[1]) THEN {"init-output-changed-by-another-task"} ELSE {}))
St(e) == [run |-> Fn(e.run), pk |-> e.pk]
RECURSIVE Check(_, _, _, _)
Check(p, st, es, i) ==
    IF i > Len(es) THEN {}
    ELSE LET e == es[i] IN
         (IF e.op = "edit" THEN {} ELSE IF e.op = "make" THEN JudgeMake(p, e) ELSE Judge(p, st, e))
         \cup Check(p, IF e.op = "make" THEN st ELSE St(e), es, i + 1)
Verdict(rec) == Check(rec.p, [run |-> Empty, pk |-> [on |-> FALSE, s |-> FALSE, m |-> Empty]], rec.events, 1)
=============================================================================
