-------------------------------- MODULE TaskIO --------------------------------
(* What a running task is given and what it may do.

   A quantum's datasets, once the task adjusted them, are handed to the task by
   connection: one, many or deferred as declared.  Through its context the task
   reads datasets of the quantum's inputs and writes those of its outputs, never
   anything else (logs and metadata are not the task's to write); what it used
   and wrote is recorded exactly, also when a call fails half way. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SubBag(s, t) == \A x \in Rng(s) : Count(s, x) <= Count(t, x)
SameBag(s, t) == Len(s) = Len(t) /\ SubBag(s, t)

\* ------------------------------------------------------------- adjustment
InConns(p) == {n \in DOMAIN p.conns : p.conns[n].kind # "out"}
OutConns(p) == {n \in DOMAIN p.conns : p.conns[n].kind = "out"}
Given(p, n) == IF n \in InConns(p) THEN p.ins[p.conns[n].ds] ELSE p.outs[p.conns[n].ds]
Asked(p, n) == IF ~p.adjust.on THEN Given(p, n)
               ELSE IF n \in DOMAIN p.adjust.ins THEN p.adjust.ins[n]
               ELSE IF n \in DOMAIN p.adjust.outs THEN p.adjust.outs[n]
               ELSE Given(p, n)
BaseErrors(p) ==
    {e \in {"ScalarError", "FileNotFoundError", "NoWorkFound"} :
        \E n \in DOMAIN p.conns : LET c == p.conns[n] k == Len(Asked(p, n)) IN
            CASE e = "ScalarError" -> ~c.multiple /\ k > 1
              [] e = "FileNotFoundError" -> c.kind = "pre" /\ k < c.minimum
              [] e = "NoWorkFound" -> c.kind = "in" /\ k < c.minimum}
AdjustErrors(p) == IF ~p.adjust.on \/ p.adjust.super THEN BaseErrors(p) ELSE {}
NotSubset(p) == \E n \in DOMAIN p.conns : ~(Rng(Asked(p, n)) \subseteq Rng(Given(p, n)))
Outcome(p) == LET e == AdjustErrors(p) IN IF e # {} THEN e ELSE IF NotSubset(p) THEN {"RuntimeError"} ELSE {"ok"}
\* datasets by type, after adjustment
AfterIn(p) == [ds \in DOMAIN p.ins |->
    LET who == {n \in DOMAIN p.adjust.ins : p.conns[n].ds = ds} IN
    IF p.adjust.on /\ who # {} THEN p.adjust.ins[CHOOSE n \in who : TRUE] ELSE p.ins[ds]]
AfterOut(p) == [ds \in DOMAIN p.outs |->
    LET who == {n \in DOMAIN p.adjust.outs : p.conns[n].ds = ds} IN
    IF p.adjust.on /\ who # {} THEN p.adjust.outs[CHOOSE n \in who : TRUE] ELSE p.outs[ds]]
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Adjusting(p, o) ==
    (IF o.adjust \notin Outcome(p) THEN {"wrong-adjustment-outcome"} ELSE {})
    \cup (IF p.adjust.on /\ ~(DOMAIN o.seen.ins = InConns(p) /\ DOMAIN o.seen.outs = OutConns(p)
                               /\ \A n \in DOMAIN p.conns : Given(p, n) = IF n \in InConns(p) THEN o.seen.ins[n] ELSE o.seen.outs[n])
          THEN {"task-not-shown-its-datasets"} ELSE {})
    \cup (IF o.adjust = "ok" /\ Outcome(p) = {"ok"} THEN
             (IF ~SameMap(o.ins, AfterIn(p)) \/ ~SameMap(o.outs, AfterOut(p)) THEN {"wrong-adjusted-datasets"} ELSE {})
             \cup (IF \/ (~o.inadj /\ AfterIn(p) # p.ins) \/ (o.inadj /\ (~p.adjust.on \/ DOMAIN p.adjust.ins = {}))
                      \/ (~o.outadj /\ AfterOut(p) # p.outs) \/ (o.outadj /\ (~p.adjust.on \/ DOMAIN p.adjust.outs = {}))
                   THEN {"adjustment-not-flagged"} ELSE {})
          ELSE {})

\* ------------------------------------------------- what the task is handed
Now(p, n) == IF n \in InConns(p) THEN AfterIn(p)[p.conns[n].ds] ELSE AfterOut(p)[p.conns[n].ds]
TooMany(p) == \E n \in InConns(p) : ~p.conns[n].multiple /\ Len(Now(p, n)) > 1
Handed(p, S) == {n \in S : p.conns[n].multiple \/ Len(Now(p, n)) > 0}
RightHand(p, g, S) ==
    /\ DOMAIN g = Handed(p, S)
    /\ \A n \in DOMAIN g : /\ g[n].many = p.conns[n].multiple /\ g[n].ids = Now(p, n)
                           /\ Rng(g[n].defer) = IF Len(Now(p, n)) = 0 THEN {} ELSE {p.conns[n].defer}
Building(p, o) ==
    IF TooMany(p) THEN IF o.build = "ScalarError" THEN {} ELSE {"many-datasets-for-one"}
    ELSE IF o.build # "ok" THEN {"refused-a-valid-quantum"}
    ELSE (IF ~RightHand(p, o.given_in, InConns(p)) THEN {"wrong-inputs-given"} ELSE {})
         \cup (IF ~RightHand(p, o.given_out, OutConns(p)) THEN {"wrong-outputs-given"} ELSE {})

\* -------------------------------------------------------- reads and writes
InQ(p) == UNION {Rng(AfterIn(p)[ds]) : ds \in DOMAIN p.ins}
OutQ(p) == UNION {Rng(AfterOut(p)[ds]) : ds \in DOMAIN p.outs \ {"t_log", "t_metadata"}}
GivenReq(p, S) == [n \in Handed(p, S) |-> [many |-> p.conns[n].multiple,
                     ids |-> [k \in 1..Len(Now(p, n)) |-> [i |-> Now(p, n)[k], d |-> p.conns[n].defer]]]]
Req(p, op) == IF op.form = "given" THEN GivenReq(p, IF op.op = "put" THEN OutConns(p) ELSE InConns(p)) ELSE op.req
RECURSIVE Flat(_, _)
Flat(f, S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE n \in S : TRUE IN f[n] \o Flat(f, S \ {n})
Reads(req) == SelectSeq(Flat([n \in DOMAIN req |-> req[n].ids], DOMAIN req), LAMBDA r : r.i # "none")
ReadOf(c) == [i |-> c.id, d |-> c.c = "defer"]
GotOf(r) == IF r.i = "none" THEN [i |-> "none", h |-> "none"] ELSE [i |-> r.i, h |-> IF r.d THEN "h" ELSE "v"]
Shown(req, listform) == [n \in DOMAIN req |-> [many |-> req[n].many \/ listform, vals |-> [k \in 1..Len(req[n].ids) |-> GotOf(req[n].ids[k])]]]
SameGot(g, w) == DOMAIN g = DOMAIN w /\ \A n \in DOMAIN g : g[n] = w[n]
OkIds(calls) == {calls[i].id : i \in {i \in DOMAIN calls : calls[i].ok}}

Get(p, st, op, e) ==
    LET req == Req(p, op)
        reads == Reads(req)
        foreign == \E i \in DOMAIN reads : reads[i].i \notin InQ(p)
        fault == op.fail \in 1..Len(reads)
        calls == e.calls
        done == [i \in 1..Len(calls) |-> ReadOf(calls[i])]
    IN
    IF op.form = "bad" THEN IF e.outcome = "TypeError" /\ calls = <<>> THEN {} ELSE {"wrong-kind-of-request"}
    ELSE (IF ~(CASE foreign /\ fault -> e.outcome \in {"ValueError", "Broken"}
                 [] foreign -> e.outcome = "ValueError"
                 [] fault -> e.outcome = "Broken"
                 [] OTHER -> e.outcome = "ok") THEN {"wrong-outcome-of-read"} ELSE {})
         \cup (IF (\E i \in DOMAIN calls : calls[i].c = "put") \/ ~SubBag(done, reads) \/ \E i \in DOMAIN done : done[i].i \notin InQ(p)
                  \/ (e.outcome = "ok" /\ ~SameBag(done, reads)) THEN {"wrong-reads"} ELSE {})
         \cup (IF e.outcome = "ok" /\ ~SameGot(e.got, Shown(req, op.form = "list")) THEN {"wrong-datasets-returned"} ELSE {})
         \cup (IF ~(st.used \cup OkIds(calls) \subseteq Rng(e.used)
                    /\ Rng(e.used) \subseteq st.used \cup ({reads[i].i : i \in DOMAIN reads} \cap InQ(p)))
               THEN {"inputs-misrecorded"} ELSE {})
         \cup (IF Rng(e.put) # st.put THEN {"outputs-misrecorded"} ELSE {})

\* pairs to be written, by name
Absent(op, n) == n \notin DOMAIN op.vals \/ (~op.vals[n].many /\ op.vals[n].vals = <<"none">>)
Writes(op, req, n) == [k \in 1..Len(req[n].ids) |-> [i |-> req[n].ids[k].i, v |-> op.vals[n].vals[k]]]
Putting(p, st, op, e, calls, used, first) ==
    LET req == IF op.op = "run" THEN GivenReq(p, OutConns(p)) ELSE Req(p, op)
        named == {n \in DOMAIN req : ~Absent(op, n)}
        unequal == {n \in named : Len(op.vals[n].vals) # Len(req[n].ids)}
        writes == Flat([n \in named |-> Writes(op, req, n)], named \ unequal)
        foreign == \E i \in DOMAIN writes : writes[i].i \notin OutQ(p)
        fault == op.fail \in first + 1..first + Len(writes)
        done == [i \in 1..Len(calls) |-> [i |-> calls[i].id, v |-> calls[i].val]]
    IN
    IF op.form = "bad" THEN IF e.outcome = "TypeError" /\ calls = <<>> THEN {} ELSE {"wrong-kind-of-request"}
    ELSE IF op.odd THEN IF e.outcome = "ValueError" /\ calls = <<>> THEN {} ELSE {"wrong-kind-of-request"}
    ELSE (IF ~(CASE (foreign \/ unequal # {}) /\ fault -> e.outcome \in {"ValueError", "Broken"}
                 [] foreign \/ unequal # {} -> e.outcome = "ValueError"
                 [] fault -> e.outcome = "Broken"
                 [] OTHER -> e.outcome = "ok") THEN {"wrong-outcome-of-write"} ELSE {})
         \cup (IF (\E i \in DOMAIN calls : calls[i].c # "put") \/ ~SubBag(done, writes) \/ (\E i \in DOMAIN done : done[i].i \notin OutQ(p))
                  \/ (op.form = "list" /\ unequal # {} /\ calls # <<>>)
                  \/ (e.outcome = "ok" /\ ~SameBag(done, writes)) THEN {"wrong-writes"} ELSE {})
         \cup (IF \E i \in DOMAIN calls : Rng(calls[i].prov) # used THEN {"wrong-provenance-of-output"} ELSE {})
         \cup (IF Rng(e.put) # st.put \cup OkIds(calls) THEN {"outputs-misrecorded"} ELSE {})
Put(p, st, op, e) ==
    Putting(p, st, op, e, e.calls, st.used, 0)
    \cup (IF Rng(e.used) # st.used THEN {"inputs-misrecorded"} ELSE {})
Run(p, st, op, e) ==
    LET req == GivenReq(p, InConns(p))
        n == Len(Reads(req))
        gets == SelectSeq(e.calls, LAMBDA c : c.c # "put")
        puts == SelectSeq(e.calls, LAMBDA c : c.c = "put")
    IN
    IF op.fail \in 1..n
    THEN Get(p, st, [op |-> "get", form |-> "given", fail |-> op.fail], e)
    ELSE (IF SubSeq(e.calls, 1, Len(gets)) # gets THEN {"wrong-reads"} ELSE {})
         \cup {c \in Get(p, st, [op |-> "get", form |-> "given", fail |-> 0], [e EXCEPT !.calls = gets, !.outcome = "ok"]) : c # "outputs-misrecorded"}
         \cup Putting(p, st, op, e, puts, Rng(e.used), n)
RECURSIVE Check(_, _, _, _)
Check(p, st, es, i) ==
    IF i > Len(es) THEN {}
    ELSE LET op == p.ops[i] e == es[i] IN
         (CASE op.op = "get" -> Get(p, st, op, e) [] op.op = "put" -> Put(p, st, op, e) [] op.op = "run" -> Run(p, st, op, e))
         \cup Check(p, [put |-> Rng(e.put), used |-> Rng(e.used)], es, i + 1)
Verdict(rec) ==
    LET p == rec.plan o == rec.obs IN
    Adjusting(p, o)
    \cup (IF o.adjust = "ok" /\ Outcome(p) = {"ok"} THEN
             Building(p, o) \cup (IF o.build = "ok" /\ ~TooMany(p) THEN
                 (IF Len(o.ops) # Len(p.ops) THEN {"operations-not-run"} ELSE {}) \cup Check(p, [put |-> {}, used |-> {}], o.ops, 1) ELSE {})
          ELSE {})
=============================================================================
