------------------------------ MODULE Pipelines ------------------------------
(* Definitions of pipelines: documents, imports, merging, subsetting, editing *)
(* and the configuration that results.                                        *)
(*                                                                            *)
(* A pipeline P is a record                                                   *)
(*   tasks      set of [label, klass, asg]; asg is the sequence of            *)
(*              assignments [k, kind, v] applied to the task's configuration  *)
(*              (kind "set": a value, "copy": another field's value, "par":   *)
(*              the value of a parameter)                                     *)
(*   subsets    set of [label, members, desc]                                 *)
(*   steps      sequence of [label, dims]                                     *)
(*   contracts  set of [id, refs, l, f, neq, rl, rf, c]                       *)
(*   params     set of [k, v]                                                 *)
(*   instr      an instrument, or ""                                          *)
EXTENDS Dag, TLC

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
TLabels(P) == {t.label : t \in P.tasks}
SLabels(P) == {s.label : s \in P.subsets}
STask(P, l) == CHOOSE t \in P.tasks : t.label = l
MembersOf(P, l) == (CHOOSE s \in P.subsets : s.label = l).members
Keys(params) == {p.k : p \in params}
Over(own, other) == own \cup {p \in other : p.k \notin Keys(own)}
StepLabels(P) == {P.steps[i].label : i \in 1..Len(P.steps)}

(* ------------------------------- reduction ------------------------------ *)
Expand(P, ls) == (ls \cap TLabels(P)) \cup UNION {MembersOf(P, l) : l \in ls \cap SLabels(P)}
KeepSubsets(P, keep, mode) ==
    IF mode = "EDIT" THEN {[s EXCEPT !.members = @ \cap keep] : s \in P.subsets}
    ELSE {s \in P.subsets : s.members # {} /\ s.members \subseteq keep}
Restrict(P, keep, mode) ==
    LET gone == TLabels(P) \ keep
        subs == KeepSubsets(P, keep, mode)
        names == {s.label : s \in subs}
    IN [P EXCEPT !.tasks = {t \in P.tasks : t.label \in keep},
                 !.contracts = {c \in P.contracts : c.refs \cap gone = {}},
                 !.subsets = subs,
                 !.steps = SelectSeq(P.steps, LAMBDA s : s.label \in names)]
NewName(rn, l) == IF \E r \in rn : r.old = l THEN (CHOOSE r \in rn : r.old = l).new ELSE l
Rename(P, rn) ==
    [P EXCEPT !.tasks = {[t EXCEPT !.label = NewName(rn, t.label)] : t \in P.tasks},
              !.subsets = {[s EXCEPT !.members = {NewName(rn, l) : l \in s.members}] : s \in P.subsets}]

(* -------------------------------- merging -------------------------------- *)
RECURSIVE MergeInstr(_, _), MergeSteps(_, _)
(* "!" stands for a conflict *)
MergeInstr(have, more) ==
    IF more = <<>> \/ have = "!" THEN have
    ELSE IF Head(more) = "" THEN MergeInstr(have, Tail(more))
    ELSE IF have = "" THEN MergeInstr(Head(more), Tail(more))
    ELSE IF have = Head(more) THEN MergeInstr(have, Tail(more)) ELSE "!"
MergeSteps(have, more) ==
    IF more = <<>> THEN have
    ELSE IF \E i \in 1..Len(have) : have[i].label = Head(more).label THEN MergeSteps(have, Tail(more))
    ELSE MergeSteps(Append(have, Head(more)), Tail(more))
StepClash(seq) == \E i, j \in 1..Len(seq) : seq[i].label = seq[j].label /\ seq[i].dims # seq[j].dims
MergeBad(own, imps) ==
    LET n == Len(imps)
        allT == UNION {TLabels(imps[i]) : i \in 1..n}
        allS == UNION {SLabels(imps[i]) : i \in 1..n}
    IN \/ MergeInstr(own.instr, [i \in 1..n |-> imps[i].instr]) = "!"
       \/ \E i, j \in 1..n : i < j /\ (TLabels(imps[i]) \cap TLabels(imps[j]) # {}
                                       \/ SLabels(imps[i]) \cap SLabels(imps[j]) # {})
       \/ (allS \cup SLabels(own)) \cap (allT \cup TLabels(own)) # {}
       \/ StepClash(Cat([i \in 1..n |-> imps[i].steps]) \o own.steps)
MergeTask(imported, t) ==
    LET old == {u \in imported : u.label = t.label /\ u.klass = t.klass}
    IN IF old = {} THEN t ELSE [t EXCEPT !.asg = (CHOOSE u \in old : TRUE).asg \o t.asg]
Merge(own, imps) ==
    LET n == Len(imps)
        allT == UNION {imps[i].tasks : i \in 1..n}
        allS == UNION {imps[i].subsets : i \in 1..n}
    IN [tasks |-> {t \in allT : t.label \notin TLabels(own)} \cup {MergeTask(allT, t) : t \in own.tasks},
        subsets |-> {s \in allS : s.label \notin SLabels(own)} \cup own.subsets,
        steps |-> MergeSteps(<<>>, Cat([i \in 1..n |-> imps[i].steps]) \o own.steps),
        contracts |-> own.contracts \cup UNION {imps[i].contracts : i \in 1..n},
        params |-> Over(own.params, UNION {imps[i].params : i \in 1..n}),
        instr |-> MergeInstr(own.instr, [i \in 1..n |-> imps[i].instr])]
(* nothing is said if imports disagree about a parameter that is not overridden *)
ParamClash(own, imps) ==
    \E i, j \in 1..Len(imps) : \E p \in imps[i].params, q \in imps[j].params :
        p.k = q.k /\ p.v # q.v /\ p.k \notin Keys(own.params)

(* ------------------------------- documents ------------------------------- *)
(* A document as given: D.tasks a sequence of [label, klass, blocks], blocks *)
(* a sequence of [files, python, rest]; D.imports a sequence of              *)
(* [doc, include, hasinc, exclude, hasexc, rename, contracts, steps, mode,   *)
(* instr]; the other parts as in a pipeline but as sequences.                *)
FlatBlock(b) == Cat(b.files) \o b.python \o b.rest
OwnPart(D) ==
    [tasks |-> {[label |-> D.tasks[i].label, klass |-> D.tasks[i].klass,
                 asg |-> Cat([j \in 1..Len(D.tasks[i].blocks) |-> FlatBlock(D.tasks[i].blocks[j])])] : i \in 1..Len(D.tasks)},
     subsets |-> {[label |-> D.subsets[i].label, members |-> RangeOf(D.subsets[i].members), desc |-> D.subsets[i].desc]
                     : i \in 1..Len(D.subsets)},
     steps |-> [i \in 1..Len(D.steps) |-> [label |-> D.steps[i].label, dims |-> RangeOf(D.steps[i].dims)]],
     contracts |-> {[D.contracts[i] EXCEPT !.refs = RangeOf(@)] : i \in 1..Len(D.contracts)},
     params |-> {D.params[i] : i \in 1..Len(D.params)},
     instr |-> D.instr]
NoneP == [ok |-> FALSE, p |-> [tasks |-> {}, subsets |-> {}, steps |-> <<>>, contracts |-> {}, params |-> {}, instr |-> ""]]
Valid(P) ==
    /\ \A s \in P.subsets : s.members \subseteq TLabels(P)
    /\ SLabels(P) \cap TLabels(P) = {}
    /\ StepLabels(P) \subseteq SLabels(P)
ImportBad(src, im) ==
    LET rn == RangeOf(im.rename)
        olds == {r.old : r \in rn}
        news == {r.new : r \in rn}
        keep == IF im.hasinc THEN Expand(src, RangeOf(im.include))
                ELSE IF im.hasexc THEN TLabels(src) \ Expand(src, RangeOf(im.exclude)) ELSE TLabels(src)
    IN \/ im.hasinc /\ im.hasexc
       \/ Cardinality(news) # Cardinality(rn) \/ olds \cap news # {}
       \/ \E r \in rn : r.old \in keep /\ r.new \in TLabels(src)
Import(src, im) ==
    LET rn == RangeOf(im.rename)
        keep == IF im.hasinc THEN Expand(src, RangeOf(im.include))
                ELSE IF im.hasexc THEN TLabels(src) \ Expand(src, RangeOf(im.exclude)) ELSE TLabels(src)
        a == IF im.steps THEN src ELSE [src EXCEPT !.steps = <<>>]
        b == Rename(Restrict(a, keep, im.mode), rn)
        c == IF im.contracts THEN b ELSE [b EXCEPT !.contracts = {}]
    IN IF im.instr = "keep" THEN c ELSE IF im.instr = "None" THEN [c EXCEPT !.instr = ""] ELSE [c EXCEPT !.instr = im.instr]
RECURSIVE Load(_, _)
Load(docs, i) ==
    LET D == docs[i]
        n == Len(D.imports)
        srcs == [k \in 1..n |-> Load(docs, D.imports[k].doc)]
        imps == [k \in 1..n |-> Import(srcs[k].p, D.imports[k])]
        own == OwnPart(D)
        dupsteps == \E a, b \in 1..Len(own.steps) : a < b /\ own.steps[a].label = own.steps[b].label
    IN IF (\E k \in 1..n : ~srcs[k].ok \/ ImportBad(srcs[k].p, D.imports[k])) \/ dupsteps THEN NoneP
       ELSE IF MergeBad(own, imps) \/ ~Valid(Merge(own, imps)) THEN NoneP
       ELSE [ok |-> TRUE, p |-> Merge(own, imps)]
RECURSIVE Unsaid(_, _)
Unsaid(docs, i) ==
    LET D == docs[i]
        n == Len(D.imports)
    IN (\E k \in 1..n : Unsaid(docs, D.imports[k].doc))
       \/ ParamClash(OwnPart(D), [k \in 1..n |-> Load(docs, D.imports[k].doc).p])

(* ----------------------------- configuration ----------------------------- *)
Fields == {"a", "b", "c", "s", "sub.x", "connections.inp", "connections.out"}
Defaults == [f \in Fields |-> IF f = "connections.inp" THEN "dIn" ELSE IF f = "connections.out" THEN "dOut"
                              ELSE IF f = "s" THEN "none" ELSE "0"]
(* what an instrument says about a task comes before everything else *)
InstrAsg(instr, klass) ==
    IF instr = "X" /\ klass = "A" THEN <<[k |-> "a", kind |-> "set", v |-> "100"], [k |-> "b", kind |-> "set", v |-> "101"]>>
    ELSE IF instr = "Y" /\ klass = "A" THEN <<[k |-> "sub.x", kind |-> "set", v |-> "200"]>>
    ELSE IF instr = "Y" /\ klass = "B" THEN <<[k |-> "a", kind |-> "set", v |-> "201"]>> ELSE <<>>
ParamValue(params, k) == (CHOOSE p \in params : p.k = k).v
RECURSIVE Configure(_, _, _)
Configure(cfg, asg, params) ==
    IF asg = <<>> THEN cfg
    ELSE LET x == Head(asg)
             v == IF x.kind = "set" THEN x.v ELSE IF x.kind = "copy" THEN cfg[x.v] ELSE ParamValue(params, x.v)
         IN Configure([cfg EXCEPT ![x.k] = v], Tail(asg), params)
ConfigOf(P, t) == Configure(Defaults, InstrAsg(P.instr, t.klass) \o t.asg, P.params)
Holds(P, c) ==
    LET left == ConfigOf(P, STask(P, c.l))[c.f]
        right == IF c.rl = "" THEN c.c ELSE ConfigOf(P, STask(P, c.rl))[c.rf]
    IN IF c.neq THEN left # right ELSE left = right
ContractsHold(P) == \A c \in P.contracts : Holds(P, c)

FlowEdges(P) == {<<p[1].label, p[2].label>> : p \in {x \in P.tasks \X P.tasks :
                    ConfigOf(P, x[1])["connections.out"] = ConfigOf(P, x[2])["connections.inp"]}}
RangeLabels(P, first, last) ==
    LET E == FlowEdges(P)
    IN {l \in TLabels(P) : /\ first = "" \/ l = first \/ first \in Anc(E, l)
                           /\ last = "" \/ l = last \/ l \in Anc(E, last)}

(* ------------------------------- operations ------------------------------ *)
(* Errors(P, o): the kinds of error one of which must be raised, if any       *)
OpErrors(P, o) ==
    CASE o.op = "sub" -> IF RangeOf(o.labels) \subseteq TLabels(P) \cup SLabels(P) THEN {} ELSE {"ValueError"}
      [] o.op = "range" -> IF {o.first, o.last} \subseteq TLabels(P) \cup {""} THEN {} ELSE {"ValueError"}
      [] o.op = "merge" -> IF MergeBad(P, <<o.other>>) THEN {"ValueError"} ELSE {}
      [] o.op = "rmtask" -> IF o.label \in TLabels(P) THEN {} ELSE {"KeyError"}
      [] o.op = "config" -> IF o.label = "parameters"
                            THEN (IF o.how = "value" THEN {} ELSE {"ValueError"})
                            ELSE IF o.label \in TLabels(P) THEN {} ELSE {"LookupError"}
      [] o.op = "addsub" -> IF o.label \in SLabels(P) \cup TLabels(P) \/ ~(RangeOf(o.members) \subseteq TLabels(P))
                            THEN {"ValueError"} ELSE {}
      [] o.op = "rmsub" -> IF o.label \in SLabels(P) THEN {} ELSE {"ValueError"}
      [] o.op = "subadd" -> IF o.label \in SLabels(P) /\ o.task \in TLabels(P) THEN {} ELSE {"ValueError"}
      [] o.op = "subdel" -> IF o.label \in SLabels(P) /\ o.task \in MembersOf(P, o.label) THEN {} ELSE {"ValueError"}
      [] OTHER -> {}
OpApply(P, o) ==
    CASE o.op = "sub" -> Restrict(P, Expand(P, RangeOf(o.labels)), o.mode)
      [] o.op = "range" -> Restrict(P, RangeLabels(P, o.first, o.last), o.mode)
      [] o.op = "merge" -> Merge(P, <<o.other>>)
      [] o.op = "addtask" -> [P EXCEPT !.tasks = {t \in @ : t.label # o.label}
                                                 \cup {[label |-> o.label, klass |-> o.klass, asg |-> <<>>]}]
      [] o.op = "rmtask" -> [P EXCEPT !.tasks = {t \in @ : t.label # o.label}]
      [] o.op = "config" ->
            IF o.label = "parameters" THEN [P EXCEPT !.params = Over({[k |-> x.k, v |-> x.v] : x \in RangeOf(o.asg)}, @)]
            ELSE [P EXCEPT !.tasks = {IF t.label = o.label THEN [t EXCEPT !.asg = @ \o o.asg] ELSE t : t \in @}]
      [] o.op = "addsub" -> [P EXCEPT !.subsets = @ \cup {[label |-> o.label, members |-> RangeOf(o.members), desc |-> o.desc]}]
      [] o.op = "rmsub" -> [P EXCEPT !.subsets = {s \in @ : s.label # o.label}]
      [] o.op = "subadd" -> [P EXCEPT !.subsets = {IF s.label = o.label THEN [s EXCEPT !.members = @ \cup {o.task}] ELSE s : s \in @}]
      [] o.op = "subdel" -> [P EXCEPT !.subsets = {IF s.label = o.label THEN [s EXCEPT !.members = @ \ {o.task}] ELSE s : s \in @}]
      [] o.op = "instr" -> [P EXCEPT !.instr = o.instr]
      [] OTHER -> P
RECURSIVE Run(_, _)
Run(P, ops) == IF ops = <<>> THEN P
               ELSE IF OpErrors(P, Head(ops)) # {} THEN Run(P, Tail(ops))
               ELSE Run(OpApply(P, Head(ops)), Tail(ops))

(* --------------------------- judging observations ----------------------- *)
(* A view of a real pipeline: labels, tasks [label, klass, values], subsets, *)
(* steps, contracts (ids), params, instr, outcome of making a graph.         *)
SameDefinition(P, v) ==
    /\ RangeOf(v.labels) = TLabels(P) /\ Len(v.labels) = Cardinality(TLabels(P))
    /\ {<<x.label, x.klass>> : x \in RangeOf(v.tasks)} = {<<t.label, t.klass>> : t \in P.tasks}
    /\ {[label |-> s.label, members |-> RangeOf(s.members), desc |-> s.desc] : s \in RangeOf(v.subsets)} = P.subsets
    /\ [i \in 1..Len(v.steps) |-> [label |-> v.steps[i].label, dims |-> RangeOf(v.steps[i].dims)]] = P.steps
    /\ RangeOf(v.contracts) = {c.id : c \in P.contracts}
    /\ {[k |-> p.k, v |-> p.v] : p \in RangeOf(v.params)} = P.params
    /\ v.instr = P.instr
SameGraph(P, v) == v.graph # "" \/
    /\ RangeOf(v.gtasks) = {<<t.label, t.klass>> : t \in P.tasks}
    /\ {[label |-> s.label, members |-> RangeOf(s.members), desc |-> s.desc] : s \in RangeOf(v.gsubsets)} = P.subsets
    /\ [i \in 1..Len(v.gsteps) |-> [label |-> v.gsteps[i].label, dims |-> RangeOf(v.gsteps[i].dims)]] = P.steps
SameConfig(P, v) ==
    \A x \in RangeOf(v.tasks) :
        LET cfg == ConfigOf(P, STask(P, x.label))
        IN \A f \in Fields : \E y \in RangeOf(x.values) : y.k = f /\ y.v = cfg[f]

DefClauses == {"load-refused", "load-accepted", "load-error", "definition", "graph", "op-refused", "op-accepted", "op-error",
               "other-changed"}
ConfClauses == {"values", "contract-missed", "contract-alarm"}
Start(r) == Load(r.docs, r.root)
DefOK(r, k) ==
    LET L == Start(r)
        P == IF r.loaded.outcome = <<>> THEN L.p ELSE NoneP.p
    IN
    CASE k = "load-refused" -> L.ok => r.loaded.outcome = <<>>
      [] k = "load-accepted" -> r.loaded.outcome = <<>> => L.ok
      [] k = "load-error" -> (r.loaded.outcome # <<>> /\ ~L.ok) => "ValueError" \in RangeOf(r.loaded.outcome)
      [] k = "definition" -> (L.ok /\ r.loaded.outcome = <<>>) =>
            /\ SameDefinition(L.p, r.loaded.view)
            /\ \A i \in 1..Len(r.hist) :
                  r.hist[i].outcome = <<>> => SameDefinition(Run(L.p, SubSeq(r.ops, 1, i)), r.hist[i].view)
      [] k = "graph" -> (L.ok /\ r.loaded.outcome = <<>>) =>
            /\ SameGraph(L.p, r.loaded.view)
            /\ \A i \in 1..Len(r.hist) : r.hist[i].outcome = <<>> => SameGraph(Run(L.p, SubSeq(r.ops, 1, i)), r.hist[i].view)
      [] k = "op-refused" -> (L.ok /\ r.loaded.outcome = <<>>) => \A i \in 1..Len(r.hist) :
            OpErrors(Run(L.p, SubSeq(r.ops, 1, i - 1)), r.ops[i]) = {} => r.hist[i].outcome = <<>>
      [] k = "op-accepted" -> (L.ok /\ r.loaded.outcome = <<>>) => \A i \in 1..Len(r.hist) :
            r.hist[i].outcome = <<>> => OpErrors(Run(L.p, SubSeq(r.ops, 1, i - 1)), r.ops[i]) = {}
      [] k = "op-error" -> (L.ok /\ r.loaded.outcome = <<>>) => \A i \in 1..Len(r.hist) :
            LET e == OpErrors(Run(L.p, SubSeq(r.ops, 1, i - 1)), r.ops[i])
            IN (r.hist[i].outcome # <<>> /\ e # {}) => RangeOf(r.hist[i].outcome) \cap e # {}
      [] k = "other-changed" -> ~r.shared
(* operations that merge carry the other pipeline as the document it comes from *)
WithOthers(r) == [r EXCEPT !.ops = [i \in 1..Len(r.ops) |->
                     IF r.ops[i].op = "merge" THEN [op |-> "merge", other |-> Load(r.docs, r.ops[i].doc).p] ELSE r.ops[i]]]
DefVerdict(r0) == IF Unsaid(r0.docs, r0.root) THEN {} ELSE LET r == WithOthers(r0) IN {k \in DefClauses : ~DefOK(r, k)}
GoodView(P, v, k) ==
    CASE k = "values" -> SameConfig(P, v)
      [] k = "contract-missed" -> ContractsHold(P) \/ v.graph = "ContractError"
      [] k = "contract-alarm" -> v.graph = "ContractError" => ~ContractsHold(P)
(* judged only while the definition is what it should be *)
ConfOK(r, k) ==
    LET L == Start(r) IN
    (L.ok /\ r.loaded.outcome = <<>>) =>
        /\ SameDefinition(L.p, r.loaded.view) => GoodView(L.p, r.loaded.view, k)
        /\ \A i \in 1..Len(r.hist) :
              LET P == Run(L.p, SubSeq(r.ops, 1, i))
              IN (r.hist[i].outcome = <<>> /\ SameDefinition(P, r.hist[i].view)) => GoodView(P, r.hist[i].view, k)
ConfVerdict(r0) == IF Unsaid(r0.docs, r0.root) THEN {} ELSE LET r == WithOthers(r0) IN {k \in ConfClauses : ~ConfOK(r, k)}
=============================================================================
